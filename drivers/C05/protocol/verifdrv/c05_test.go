package verifdrv

import (
	"bytes"
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"
)

type gStore struct {
	session.GroupStore
	s *spy
}
type gSpy struct{ *gStore }

func (x gSpy) Load(c context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	if x.s.hit("g.Load") {
		return nil, false, errInjected
	}
	return x.GroupStore.Load(c, a, d)
}
func (x gSpy) Store(c context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	if x.s.hit("g.Store") {
		return errInjected
	}
	return x.GroupStore.Store(c, a, d, r)
}

func TestVerifC05(t *testing.T) {
	h := begin(t, 40*time.Second, 200*time.Second)
	for it := 0; h.more(); it++ {
		if it%2 == 0 {
			h.pairFresh()
		} else {
			h.groupFresh()
		}
	}
}

func (h *H) pairFresh() {
	a, b := h.party("alice"), h.party("bob")
	if h.chance(3) {
		if a.session(b).ProcessPreKeyBundle(ctx, h, b.bundle(h.chance(2))) != nil {
			return
		}
	} else if !h.connect(a, b, h.chance(2)) || !h.pingpong(a, b, h.n(3)) {
		return
	}
	used := map[string]string{}
	for i := 0; i < 25; i++ {
		if h.chance(6) && !h.pingpong(a, b, 1) {
			return
		}
		st := stateOf(a.record(b))
		if st == nil || st.SenderChain == nil {
			return
		}
		*a.spy = spy{}
		if h.chance(3) {
			a.spy.failAt = 1 + h.n(5)
		}
		pt := h.plain()
		var m message.Ciphertext
		var err error
		if safe(func() { m, err = a.session(b).EncryptMessage(ctx, pt) }) != "" {
			return
		}
		st2 := stateOf(a.record(b))
		*a.spy = spy{}
		h.count("", fmt.Sprintf("send %d from position %d: %v", i, st.SenderChain.GetChainKey().GetIndex(), err))
		if err != nil {
			if m != nil {
				h.fail("encryption fails (%v) but returns a message", err)
			}
			continue
		}
		idx, ck := st.SenderChain.ChainKey.Index, st.SenderChain.ChainKey.Key
		s := signalOf(m)
		p, ok := parseSig(s.Bytes())
		if !ok {
			h.fail("message %s does not parse", hx(s.Bytes()))
		}
		if p.counter != idx || !bytes.Equal(p.ratchet, st.SenderChain.SenderRatchetKey) {
			h.fail("sending chain at position %d: the message is labelled %d", idx, p.counter)
		}
		mk := refMKOf(ck)
		if d, ok := refDec(mk.cipher, mk.iv, p.ct); !ok || !bytes.Equal(d, pt) {
			h.fail("the message at position %d is not encrypted under the key of that position", idx)
		}
		if c := st2.GetSenderChain().GetChainKey(); c.GetIndex() != idx+1 || !bytes.Equal(c.GetKey(), refNext(ck)) {
			h.fail("after sending at position %d the stored chain is at %d with key %s (must be %d, %s)", idx, c.GetIndex(), hx(c.GetKey()), idx+1, hx(refNext(ck)))
		}
		if !bytes.Equal(st2.GetSenderChain().GetSenderRatchetKey(), st.SenderChain.SenderRatchetKey) {
			h.fail("sending changes the ratchet key")
		}
		key := fmt.Sprintf("%s/%d", hx(p.ratchet), p.counter)
		if used[key] != "" {
			h.fail("position %s is used for two messages", key)
		}
		used[key] = "x"
	}
}

func (h *H) groupFresh() {
	sp := &spy{}
	g := &session.GroupSession{SenderAddress: address.Address{Name: "carol", DeviceID: 1}, DistID: distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6"), SenderKeyStore: gSpy{&gStore{session.NewInMemGroupStore(), sp}}}
	if _, err := g.NewSenderKeyDistribution(ctx, h); err != nil {
		return
	}
	used := map[uint32]bool{}
	for i := 0; i < 25; i++ {
		r, ok, err := g.SenderKeyStore.(gSpy).GroupStore.Load(ctx, g.SenderAddress, g.DistID)
		if err != nil || !ok {
			return
		}
		s, err := r.State()
		if err != nil {
			return
		}
		idx, seed := s.SenderChainKey().Iteration(), append([]byte{}, s.SenderChainKey().Seed()...)
		*sp = spy{}
		if h.chance(3) {
			sp.failAt = 1 + h.n(2)
		}
		pt := h.plain()
		var m *message.SenderKey
		if safe(func() { m, err = g.EncryptMessage(ctx, h, pt) }) != "" {
			return
		}
		*sp = spy{}
		h.count("", fmt.Sprintf("group send %d at %d: %v", i, idx, err))
		if err != nil {
			if m != nil {
				h.fail("group encryption fails (%v) but returns a message", err)
			}
			continue
		}
		if m.Iteration() != idx {
			h.fail("group chain at %d: the message is labelled %d", idx, m.Iteration())
		}
		o := refHKDF(refHMAC(seed, []byte{1}), nil, []byte("WhisperGroup"), 48)
		if d, ok := refDec(o[16:], o[:16], m.Message()); !ok || !bytes.Equal(d, pt) {
			h.fail("the group message at position %d is not encrypted under the key of that position", idx)
		}
		r, ok, err = g.SenderKeyStore.(gSpy).GroupStore.Load(ctx, g.SenderAddress, g.DistID)
		if err != nil || !ok {
			return
		}
		s, err = r.State()
		if err != nil {
			h.fail("no state after sending")
		}
		if c := s.SenderChainKey(); c.Iteration() != idx+1 || !bytes.Equal(c.Seed(), refNext(seed)) {
			h.fail("after a group message at %d the stored chain is at %d with key %s (must be %d, %s)", idx, c.Iteration(), hx(c.Seed()), idx+1, hx(refNext(seed)))
		}
		if used[idx] {
			h.fail("group position %d is used for two messages", idx)
		}
		used[idx] = true
	}
}
