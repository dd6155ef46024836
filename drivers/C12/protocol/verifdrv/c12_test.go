package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/session"
)

// TestVerifC12: group messages in any order, each once, within limits.
func TestVerifC12(t *testing.T) {
	h := begin(t, 45*time.Second, 250*time.Second)
	for it := 0; h.more(); it++ {
		h.groupRun(it%4 == 3, it%20 == 7)
	}
}

func (h *H) groupRun(wide, far bool) {
	st := session.NewInMemGroupStore()
	ad := address.Address{Name: "carol", DeviceID: 2}
	d := h.gID()
	g := &session.GroupSession{SenderAddress: ad, SenderKeyStore: st}
	m := &gModel{}
	var snd []*gSender
	base := h.u32()
	for i := 0; i < 1+h.n(2); i++ {
		s := h.gSender(base + uint32(i))
		if g.ProcessSenderKeyDistribution(ctx, h.gDist(d, s.chain, s.start, s.seed, s.kp.PublicKey())) != nil {
			return
		}
		m.distribute(3, s.chain, s.start, s.seed, s.kp.PublicKey().Bytes())
		snd = append(snd, s)
	}
	done := map[string]bool{}
	hist := []string{}
	give := func(s *gSender, iter uint32) bool {
		pt := h.plain()
		var raw []byte
		if iter-s.start < 300000 {
			raw = s.msg(h, d, iter, pt)
		} else {
			raw = h.gSign([]byte(d.String()), s.chain, iter, h.bytes(16), s.kp.PrivateKey(), 3)
		}
		x := gParse(raw)
		if x == nil {
			return true
		}
		hist = append(hist, fmt.Sprintf("%d/%d", s.chain, iter))
		if len(hist) > 60 {
			hist = hist[1:]
		}
		h.count("", fmt.Sprintf("deliver iteration %d, history %v", iter, hist))
		want, v := m.receive(raw)
		var got []byte
		var err error
		if pan := safe(func() { got, err = g.DecryptMessage(ctx, x) }); pan != "" {
			err = fmt.Errorf("%s", pan)
		}
		key := fmt.Sprintf("%d/%d", s.chain, iter)
		if err == nil && done[key] {
			h.fail("iteration %d of chain %d is decrypted twice; deliveries %v", iter, s.chain, hist)
		}
		if err == nil {
			done[key] = true
		}
		if (err == nil) != (v == gOK) {
			h.fail("the message of iteration %d of chain %d (start %d) gives %v instead of: %s; deliveries %v", iter, s.chain, s.start, err, v, hist)
		}
		if err == nil && (!bytes.Equal(got, want) || !bytes.Equal(got, pt)) {
			h.fail("the message of iteration %d of chain %d decrypts to %s instead of %s", iter, s.chain, hx(got), hx(pt))
		}
		return true
	}
	check := func() {
		var chains []uint32
		iters := map[uint32][]uint32{}
		for _, s := range snd {
			chains = append(chains, s.chain)
			cur := m.find(s.chain)
			if cur == nil {
				continue
			}
			have := map[uint32]bool{}
			for _, k := range cur.keys {
				iters[s.chain] = append(iters[s.chain], k.iter)
				have[k.iter] = true
			}
			for i := 0; i < 20; i++ {
				if x := s.start + uint32(h.n(int(cur.iter-s.start)+3)); !have[x] {
					have[x] = true
					iters[s.chain] = append(iters[s.chain], x)
				}
			}
		}
		if got, want := gStored(st, ad, d, chains, iters), m.gWanted(chains, iters); got != want {
			h.fail("after deliveries %v the record is %s instead of %s", hist, got, want)
		}
	}
	if far {
		s := snd[0]
		switch h.n(5) {
		case 0:
			give(s, s.start+25001+uint32(h.n(3)))
			give(s, s.start+25000)
		case 1:
			give(s, s.start+uint32(h.n(2)))
			c := m.find(s.chain).iter
			give(s, c+25001)
			give(s, c+uint32(25000-h.n(2)))
		case 2:
			give(s, s.start+0xffffffff-uint32(h.n(9)))
			give(s, s.start+2001)
			give(s, s.start)
			give(s, s.start+1)
			give(s, s.start+2)
		case 3:
			give(s, s.start+1999)
			give(s, s.start+2002)
			give(s, s.start)
			give(s, s.start+1)
		case 4: // a full store, some keys used, then further keys
			give(s, s.start+2000)
			n := 1 + h.n(6)
			for i := 0; i < n; i++ {
				x := uint32(h.n(2000))
				if h.chance(2) {
					x = uint32(h.n(6))
				}
				give(s, s.start+x)
			}
			give(s, m.find(s.chain).iter+uint32(h.n(2*n+2)))
			give(s, m.find(s.chain).iter+uint32(h.n(2*n+2)))
			for i := uint32(0); i < 20; i++ {
				give(s, s.start+i)
			}
			for i := uint32(1); i < 20; i++ {
				give(s, m.find(s.chain).iter-i)
			}
			for i := 0; i < n; i++ {
				if k := m.find(s.chain).keys; len(k) > 0 {
					give(s, k[h.n(len(k))].iter)
				}
			}
		}
		top := m.find(s.chain).iter
		for i := 0; i < 12; i++ {
			x := top - 2005 + uint32(h.n(10))
			if h.chance(3) {
				x = s.start + uint32(h.n(int(top-s.start)))
			}
			if x >= s.start && x < top {
				give(s, x)
			}
		}
		check()
		return
	}
	win := 12
	if wide {
		win = 150
	}
	for i := 0; i < 25; i++ {
		s := snd[h.n(len(snd))]
		cur := m.find(s.chain)
		var iter uint32
		switch h.n(5) {
		case 0:
			iter = cur.iter
		case 1:
			iter = cur.iter + uint32(h.n(win))
		case 2:
			iter = s.start + uint32(h.n(int(cur.iter-s.start)+1))
		case 3:
			if len(cur.keys) == 0 {
				continue
			}
			iter = cur.keys[h.n(len(cur.keys))].iter
		case 4:
			iter = s.start + uint32(h.n(win))
		}
		give(s, iter)
		if h.chance(8) { // the distribution again, as of any position
			at := s.start + uint32(h.n(int(cur.iter-s.start)+4))
			if g.ProcessSenderKeyDistribution(ctx, h.gDist(d, s.chain, at, append([]byte{}, s.at(at)...), s.kp.PublicKey())) == nil {
				m.distribute(3, s.chain, at, s.at(at), s.kp.PublicKey().Bytes())
			}
		}
	}
	check()
}
