package verifdrv

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"
)

func grpState(s *session.GroupState, iters []uint32) string {
	if s == nil {
		return "none"
	}
	k, err := s.PublicSigningKey()
	o := fmt.Sprintf("v%d chain %d at %d %s", s.Version(), s.ChainID(), s.SenderChainKey().Iteration(), hx(s.SenderChainKey().Seed()))
	if err == nil {
		o += " " + hx(k.Bytes())
	}
	if p, err := s.PrivateSigningKey(); err == nil {
		o += " " + hx(p.Bytes())
	}
	for _, i := range iters {
		if mk, ok, err := s.RemoveMessageKeys(i); ok {
			o += fmt.Sprintf(" %d:%s", i, hx(mk.Seed())[:8])
		} else if err != nil {
			o += fmt.Sprintf(" %d:%v", i, err)
		}
	}
	return o
}

// grpSnap describes a stored group record. It uses a loaded record up.
func grpSnap(st session.GroupStore, a address.Address, d distribution.ID, chains []uint32, iters []uint32) string {
	r, ok, err := st.Load(ctx, a, d)
	if err != nil || !ok || r == nil {
		return fmt.Sprint("none ", err)
	}
	var w strings.Builder
	if s, err := r.State(); err == nil {
		fmt.Fprintf(&w, "first %d;", s.ChainID())
	}
	for _, c := range chains {
		w.WriteString(grpState(r.StateForChainID(c), iters) + ";")
	}
	return w.String()
}

func TestVerifC08(t *testing.T) {
	h := begin(t, 50*time.Second, 250*time.Second)
	for it := 0; h.more(); it++ {
		switch it % 4 {
		case 0, 1:
			h.failPair()
		case 2:
			h.failGroup()
		case 3:
			h.copies()
		}
	}
}

func (h *H) failPair() {
	a, b, c := h.party("alice"), h.party("bob"), h.party("carol")
	if !h.connect(a, b, true) {
		return
	}
	h.pingpong(a, b, h.n(3))
	for i := 0; i < 10; i++ {
		var run func() error
		what := ""
		x := b
		others := []*party{a, b, c}
		switch h.n(9) {
		case 0:
			what = "decrypting a changed message"
			m, err := a.session(b).EncryptMessage(ctx, h.plain())
			if err != nil {
				return
			}
			raw := append([]byte{}, signalOf(m).Bytes()...)
			raw[h.n(len(raw))] ^= 1 << h.n(8)
			s := h.sig(raw)
			if s == nil {
				continue
			}
			run = func() error { _, err := b.session(a).DecryptMessage(ctx, h, s); return err }
		case 1:
			what = "decrypting an authenticated message with unusable content"
			st := stateOf(b.record(a))
			if st == nil || len(st.ReceiverChains) == 0 {
				return
			}
			ch := st.ReceiverChains[len(st.ReceiverChains)-1]
			cn := ch.ChainKey.Index + uint32(h.n(5))
			ck := ch.ChainKey.Key
			for j := ch.ChainKey.Index; j < cn; j++ {
				ck = refNext(ck)
			}
			k := refMKOf(ck)
			bad := [][]byte{{}, h.bytes(15), refRaw(k.cipher, k.iv, make([]byte, 16)), refRaw(k.cipher, k.iv, bytes.Repeat([]byte{17}, 32))}[h.n(4)]
			s := h.sig(sigBytes(3, ch.SenderRatchetKey, cn, 0, bad, k.mac, st.RemoteIdentityPublic, st.LocalIdentityPublic))
			if s == nil {
				continue
			}
			run = func() error { _, err := b.session(a).DecryptMessage(ctx, h, s); return err }
		case 2:
			what = "decrypting a message twice"
			m, err := a.session(b).EncryptMessage(ctx, h.plain())
			if err != nil {
				return
			}
			if _, err := b.session(a).DecryptMessage(ctx, h, m); err != nil {
				continue
			}
			run = func() error { _, err := b.session(a).DecryptMessage(ctx, h, m); return err }
		case 3:
			what = "decrypting a pre-key message with a changed inner message"
			x = c
			if a.session(c).ProcessPreKeyBundle(ctx, h, c.bundle(true)) != nil {
				return
			}
			m, err := a.session(c).EncryptMessage(ctx, h.plain())
			p, ok := m.(*message.PreKey)
			if err != nil || !ok {
				return
			}
			inner := append([]byte{}, p.Message().Bytes()...)
			inner[len(inner)-1-h.n(8)] ^= 1 << h.n(8)
			ident := p.IdentityKey().Bytes()
			if h.chance(3) {
				ident = b.id.IdentityKey().Bytes()
			}
			fs := []field{fv(5, uint64(p.RegistrationID())), fv(6, uint64(p.SignedPreKeyID())), fb(2, p.BaseKey().Bytes()), fb(3, ident), fb(4, inner)}
			if p.PreKeyID() != nil {
				id := uint64(*p.PreKeyID())
				if h.chance(5) {
					id ^= 0x1000
				}
				fs = append(fs, fv(1, id))
			}
			f, err := message.NewPreKeyFromBytes(append([]byte{p.Version()<<4 | 3}, encFields(fs...)...))
			if err != nil {
				continue
			}
			run = func() error { _, err := c.session(a).DecryptMessage(ctx, h, f); return err }
		case 4:
			what, x = "processing a bundle with a bad signature", a
			to := b
			if h.chance(2) {
				to = h.party("dave") // unknown so far
			}
			bn := to.bundle(true)
			bn.SignedPreKeySignature = append([]byte{}, bn.SignedPreKeySignature...)
			bn.SignedPreKeySignature[h.n(64)] ^= 1
			others = append(others, to)
			run = func() error { return a.session(to).ProcessPreKeyBundle(ctx, h, bn) }
		case 5:
			what, x = "processing a bundle with a low-order one-time pre-key", a
			to := b
			if h.chance(2) {
				to = h.party("dave")
			}
			others = append(others, to)
			bn := to.bundle(true)
			low, err := curve.NewPublicKey(append([]byte{5}, make([]byte, 32)...))
			if err != nil {
				return
			}
			bn.PreKeyPublic = low
			run = func() error { return a.session(to).ProcessPreKeyBundle(ctx, h, bn) }
		case 6:
			what, x = "processing a bundle of another identity", a
			bn := c.bundle(true)
			run = func() error { return a.session(b).ProcessPreKeyBundle(ctx, h, bn) }
		case 7:
			what = "decrypting a plaintext message"
			m, err := message.NewPlaintextFromBytes([]byte{0xc0, 1, 2, 0x80})
			if err != nil {
				return
			}
			run = func() error { _, err := b.session(a).DecryptMessage(ctx, h, m); return err }
		case 8:
			what = "decrypting a message too far ahead"
			st := stateOf(b.record(a))
			if st == nil || len(st.ReceiverChains) == 0 || !h.chance(4) {
				continue
			}
			ch := st.ReceiverChains[len(st.ReceiverChains)-1]
			s := h.sig(sigBytes(3, ch.SenderRatchetKey, ch.ChainKey.Index+25001, 0, h.bytes(16), h.bytes(32), st.RemoteIdentityPublic, st.LocalIdentityPublic))
			if s == nil {
				continue
			}
			run = func() error { _, err := b.session(a).DecryptMessage(ctx, h, s); return err }
		}
		*x.spy = spy{}
		before := x.snap(others...)
		var err error
		pan := safe(func() { err = run() })
		after := x.snap(others...)
		h.count("", fmt.Sprintf("%s: %v %s", what, err, pan))
		if pan != "" {
			return
		}
		if err != nil && before != after {
			h.fail("%s fails (%v) but changes the stores; calls: %v; before: %s after: %s", what, err, x.spy.log, before, after)
		}
	}
}

// gBytes builds a signed group message.
func (h *H) gBytes(d []byte, chain, iter uint32, ct []byte, key curve.PrivateKey, version byte) []byte {
	b := append([]byte{version<<4 | 3}, encFields(fb(1, d), fv(2, uint64(chain)), fv(3, uint64(iter)), fb(4, ct))...)
	s, err := key.Sign(h, b)
	if err != nil {
		return nil
	}
	return append(b, s...)
}

func (h *H) failGroup() {
	st1, st2 := session.NewInMemGroupStore(), session.NewInMemGroupStore()
	ad := address.Address{Name: "carol", DeviceID: 2}
	d := distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")
	g1 := &session.GroupSession{SenderAddress: ad, DistID: d, SenderKeyStore: st1}
	g2 := &session.GroupSession{SenderAddress: ad, DistID: d, SenderKeyStore: st2}
	dm, err := g1.NewSenderKeyDistribution(ctx, h)
	if err != nil || g2.ProcessSenderKeyDistribution(ctx, dm) != nil {
		return
	}
	r, _, err := st1.Load(ctx, ad, d)
	if err != nil {
		return
	}
	s, err := r.State()
	if err != nil {
		return
	}
	priv, err := s.PrivateSigningKey()
	if err != nil {
		return
	}
	seed := dm.ChainKey()
	var iters []uint32
	for i := uint32(0); i < 40; i++ {
		iters = append(iters, i)
	}
	snap := func() string { return grpSnap(st2, ad, d, []uint32{dm.ChainID(), dm.ChainID() + 1}, iters) }
	for i := 0; i < 8; i++ {
		m, err := g1.EncryptMessage(ctx, h, h.plain())
		if err != nil {
			return
		}
		raw := append([]byte{}, m.Bytes()...)
		_ = raw
		k := h.n(6)
		it := m.Iteration()
		switch k {
		case 0:
			raw[h.n(len(raw))] ^= 1 << h.n(8)
		case 1, 2:
			ck := seed
			for j := uint32(0); j < it; j++ {
				ck = refNext(ck)
			}
			o := refHKDF(refHMAC(ck, []byte{1}), nil, []byte("WhisperGroup"), 48)
			bad := [][]byte{{}, h.bytes(17), refRaw(o[16:], o[:16], make([]byte, 16)), refRaw(o[16:], o[:16], bytes.Repeat([]byte{99}, 16))}[h.n(4)]
			raw = h.gBytes([]byte(d.String()), dm.ChainID(), it, bad, priv, 3)
		case 3:
			raw = h.gBytes([]byte(d.String()), dm.ChainID(), it+25001+uint32(h.n(2)), h.bytes(16), priv, 3)
		case 4:
			raw = h.gBytes([]byte(d.String()), dm.ChainID()+1, it, h.bytes(16), priv, 3)
		case 5: // genuine, perhaps skipping one
			if h.chance(2) {
				if m2, err := g1.EncryptMessage(ctx, h, h.plain()); err == nil {
					raw = append([]byte{}, m2.Bytes()...)
				}
			}
		}
		x, err := message.NewSenderKeyFromBytes(raw)
		if err != nil {
			continue
		}
		for again := 0; again < 2; again++ {
			before := snap()
			pan := safe(func() { _, err = g2.DecryptMessage(ctx, x) })
			after := snap()
			h.count("", fmt.Sprintf("group message kind %d %s: %v %s", k, hx(raw), err, pan))
			if pan == "" && err != nil && before != after {
				h.fail("decrypting group message %s (kind %d) fails (%v) but changes the store from %s to %s", hx(raw), k, err, before, after)
			}
		}
	}
}

// copies: changing a loaded record does not change the store.
func (h *H) copies() {
	a, b := h.party("alice"), h.party("bob")
	if !h.connect(a, b, true) || !h.pingpong(a, b, 1+h.n(2)) {
		return
	}
	for i := h.n(4); i > 0; i-- {
		if !h.connect(a, b, true) {
			return
		}
	}
	before := snapRec(a.record(b))
	r := a.record(b)
	op := h.n(8)
	pan := safe(func() {
		ck, _ := ratchet.NewChainKey(h.bytes(32), 99)
		switch op {
		case 0:
			r.State().SetSenderChainKey(ck)
		case 1:
			r.State().SetSenderChain(h.kp(), ck)
			r.State().SetPreviousCounter(77)
		case 2:
			r.ArchiveCurrentState()
		case 3:
			st := stateOf(r)
			k, _ := curve.NewPublicKey(st.ReceiverChains[0].SenderRatchetKey)
			_ = r.State().SetReceiverChainKey(k, ck)
			mk, _ := ck.MessageKeys()
			_ = r.State().SetMessageKeys(k, mk)
		case 4:
			r.PromoteState(r.State().Clone())
		case 5:
			r.State().AddReceiverChain(h.kp().PublicKey(), ck)
			r.State().ClearUnacknowledgedPreKeyMessage()
			r.State().SetAliceBaseKey([]byte("x"))
		case 6:
			r.SetSessionState(nil)
		case 7:
			ps, err := r.PreviousStates()
			if err == nil && len(ps) > 0 {
				i := h.n(len(ps))
				r.PromoteOldState(i, ps[i])
				if h.chance(2) {
					r.ArchiveCurrentState()
				}
			}
		}
	})
	h.count("", fmt.Sprintf("change %d of a loaded session record %s", op, pan))
	if after := snapRec(a.record(b)); after != before {
		h.fail("changing a loaded session record (change %d) changes the store", op)
	}
	// a clone of a state
	if r := a.record(b); r != nil && r.State() != nil {
		was := detBytes(r.State())
		cl := r.State().Clone()
		ck, _ := ratchet.NewChainKey(h.bytes(32), 98)
		if safe(func() { cl.SetSenderChainKey(ck); cl.SetPreviousCounter(5); cl.SetAliceBaseKey([]byte("y")) }) == "" && detBytes(r.State()) != was {
			h.fail("changing a clone of a session state changes the state")
		}
	}
	st := session.NewInMemGroupStore()
	ad, d := address.Address{Name: "z", DeviceID: 1}, distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")
	g := &session.GroupSession{SenderAddress: ad, DistID: d, SenderKeyStore: st}
	m, err := g.NewSenderKeyDistribution(ctx, h)
	if err != nil {
		return
	}
	chains := []uint32{m.ChainID(), 5}
	for i := h.n(4); i > 0; i-- {
		c := uint32(1000 + i)
		if g.ProcessSenderKeyDistribution(ctx, h.gDist(d, c, 3, h.bytes(32), h.kp().PublicKey())) != nil {
			return
		}
		chains = append(chains, c)
	}
	gb := grpSnap(st, ad, d, chains, []uint32{0, 1, 2})
	gr, _, err := st.Load(ctx, ad, d)
	if err != nil {
		return
	}
	op = h.n(4)
	pan = safe(func() {
		s := gr.StateForChainID(chains[h.n(len(chains))])
		if s == nil {
			s, _ = gr.State()
		}
		switch op {
		case 0:
			s.SetSenderChainKey(senderkey.NewChainKey(h.bytes(32), 7))
		case 1:
			mk, _ := s.SenderChainKey().MessageKey()
			s.AddMessageKey(mk)
		case 2:
			gr.RemoveStates(m.ChainID())
		case 3:
			_ = gr.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: 5, ChainKey: h.bytes(32), SignatureKey: h.kp().PublicKey()}))
		}
	})
	h.count("", fmt.Sprintf("change %d of a loaded group record %s", op, pan))
	if ga := grpSnap(st, ad, d, chains, []uint32{0, 1, 2}); ga != gb {
		h.fail("changing a loaded group record (change %d) changes the store from %s to %s", op, gb, ga)
	}
}
