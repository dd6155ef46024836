package verifdrv

import (
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"
)

// TestVerifC13: distributions never rewind a chain.
func TestVerifC13(t *testing.T) {
	h := begin(t, 35*time.Second, 200*time.Second)
	for it := 0; h.more(); it++ {
		if it%25 == 3 {
			h.farBehind()
		}
		st := session.NewInMemGroupStore()
		ads := []address.Address{{Name: "carol", DeviceID: 2}, {Name: "carol", DeviceID: 3}, {Name: "dave", DeviceID: 2}}
		ds := []distribution.ID{h.gID(), h.gID()}
		models := map[string]*gModel{}
		chains := []uint32{}
		for i := 0; i < 2+h.n(7); i++ {
			c := h.u32()
			if h.chance(2) {
				c = uint32(i)
			}
			dup := false
			for _, x := range chains {
				dup = dup || x == c
			}
			if !dup {
				chains = append(chains, c)
			}
		}
		var snd []*gSender
		iters := map[uint32][]uint32{}
		for _, c := range chains {
			for i := 0; i < 1+h.n(2); i++ {
				s := h.gSender(c)
				snd = append(snd, s)
				for j := uint32(0); j < 12; j++ {
					iters[c] = append(iters[c], s.start+j)
				}
			}
			seen := map[uint32]bool{}
			var l []uint32
			for _, i := range iters[c] {
				if !seen[i] {
					seen[i] = true
					l = append(l, i)
				}
			}
			iters[c] = l
		}
		var hist []string
		for i := 0; i < 30; i++ {
			a, d, s := ads[h.n(3)], ds[h.n(2)], snd[h.n(len(snd))]
			if h.chance(2) {
				a, d = ads[0], ds[0]
			}
			key := a.String() + d.String()
			m := models[key]
			if m == nil {
				m = &gModel{}
				models[key] = m
			}
			g := &session.GroupSession{SenderAddress: a, SenderKeyStore: st}
			if h.chance(2) {
				// a message for a state, perhaps skipping some
				w := m.find(s.chain)
				if w == nil {
					continue
				}
				raw := s.msg(h, d, w.iter+uint32(h.n(4)), h.plain())
				x := gParse(raw)
				if x == nil {
					continue
				}
				_, v := m.receive(raw)
				var err error
				if pan := safe(func() { _, err = g.DecryptMessage(ctx, x) }); pan != "" || (err == nil) != (v == gOK) {
					break
				}
				hist = append(hist, fmt.Sprintf("message chain %d iteration %d: %v", s.chain, x.Iteration(), err == nil))
			} else {
				// a distribution as of any position, sometimes with another chain key
				at := s.start + uint32(h.n(9))
				seed := append([]byte{}, s.at(at)...)
				if h.chance(4) {
					seed = h.bytes(32)
				}
				dm := h.gDist(d, s.chain, at, seed, s.kp.PublicKey())
				if h.chance(2) {
					x, err := message.NewSenderKeyDistributionFromBytes(append([]byte{}, dm.Bytes()...))
					if err != nil {
						break
					}
					dm = x
				}
				var err error
				if pan := safe(func() { err = g.ProcessSenderKeyDistribution(ctx, dm) }); pan != "" || err != nil {
					h.fail("a distribution for chain %d is refused: %v %s", s.chain, err, pan)
				}
				m.distribute(3, s.chain, at, append([]byte{}, seed...), s.kp.PublicKey().Bytes())
				// changing the message afterwards changes nothing
				hist = append(hist, fmt.Sprintf("%s distribution chain %d key %s iteration %d", a, s.chain, hx(s.kp.PublicKey().Bytes()[:5]), at))
			}
			h.count("", hist[len(hist)-1]+fmt.Sprint(h.cases))
			for _, a := range ads {
				for _, d := range ds {
					m := models[a.String()+d.String()]
					if m == nil {
						m = &gModel{}
					}
					if got, want := gStored(st, a, d, chains, iters), m.gWanted(chains, iters); got != want {
						h.fail("after %v the record of %s is %s instead of %s", hist, a, got, want)
					}
				}
			}
		}
	}
}

// farBehind: a distribution as of a position far behind, or far ahead, changes nothing but the
// order of the states.
func (h *H) farBehind() {
	st := session.NewInMemGroupStore()
	ad, d := address.Address{Name: "carol", DeviceID: 2}, h.gID()
	g := &session.GroupSession{SenderAddress: ad, SenderKeyStore: st}
	m := &gModel{}
	s := h.gSender(h.u32())
	var hist []string
	dist := func(at uint32, seed []byte) bool {
		if g.ProcessSenderKeyDistribution(ctx, h.gDist(d, s.chain, at, append([]byte{}, seed...), s.kp.PublicKey())) != nil {
			return false
		}
		m.distribute(3, s.chain, at, append([]byte{}, seed...), s.kp.PublicKey().Bytes())
		hist = append(hist, fmt.Sprintf("distribution at %d", at))
		return true
	}
	if !dist(s.start, s.at(s.start)) {
		return
	}
	for i := 0; i < 2; i++ {
		at := m.find(s.chain).iter + uint32(25000-h.n(3)*h.n(4000))
		raw := s.msg(h, d, at, []byte("far"))
		x := gParse(raw)
		if x == nil {
			return
		}
		_, v := m.receive(raw)
		var err error
		if pan := safe(func() { _, err = g.DecryptMessage(ctx, x) }); pan != "" || (err == nil) != (v == gOK) {
			return
		}
		hist = append(hist, fmt.Sprintf("message of iteration %d: %v", at, err == nil))
	}
	cur := m.find(s.chain)
	for i := 0; i < 4; i++ {
		at := s.start + uint32(h.n(int(cur.iter-s.start)+1))
		switch i {
		case 0:
			at = s.start
		case 1:
			at = cur.iter + 30000
		}
		if !dist(at, h.bytes(32)) {
			return
		}
		h.count("", fmt.Sprint(hist))
		chains, iters := []uint32{s.chain}, map[uint32][]uint32{s.chain: {cur.iter - 1, cur.iter - 2, cur.iter - 2000, s.start}}
		if got, want := gStored(st, ad, d, chains, iters), m.gWanted(chains, iters); got != want {
			h.fail("after %v the record is %s instead of %s", hist, got, want)
		}
	}
}
