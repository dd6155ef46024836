package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

func (h *H) dist() distribution.ID {
	b := h.bytes(16)
	if h.chance(4) {
		b = make([]byte, 16)
		b[h.n(16)] = byte(h.n(256))
	}
	return distribution.MustParse(fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:]))
}

func (h *H) fieldsAre(what string, raw []byte, from, to int, want map[int]interface{}) {
	m, ok := decFields(raw[from:to])
	if !ok {
		h.fail("%s: bytes %s are no protobuf message", what, hx(raw))
	}
	for n, w := range want {
		f, have := m[n]
		switch x := w.(type) {
		case nil:
			if have {
				h.fail("%s: bytes %s have field %d, which must be absent", what, hx(raw), n)
			}
		case uint32:
			if f.isB || f.v != uint64(x) {
				h.fail("%s: bytes %s have %d in field %d, must be %d", what, hx(raw), f.v, n, x)
			}
		case []byte:
			if !f.isB && len(x) > 0 || !bytes.Equal(f.b, x) {
				h.fail("%s: bytes %s have %s in field %d, must be %s", what, hx(raw), hx(f.b), n, hx(x))
			}
		}
	}
}

func TestVerifC10(t *testing.T) {
	h := begin(t, 25*time.Second, 120*time.Second)
	for it := 0; h.more(); it++ {
		a, b := h.idkp(), h.idkp()
		rk := h.kp()
		mac := h.bytes(32)
		ctr, prev := h.u32(), h.u32()
		ct := h.bytes(h.n(80))
		c, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: mac, SenderRatchetKey: rk.PublicKey(), PreviousCounter: prev, Counter: ctr, Ciphertext: ct, SenderIdentityKey: a.IdentityKey(), ReceiverIdentityKey: b.IdentityKey()})
		h.must(err, "NewSignal")
		raw := append([]byte{}, c.Bytes()...)
		h.count("", fmt.Sprintf("Signal message %s", hx(raw)))
		if raw[0] != 0x33 || c.(*message.Signal).Version() != 3 {
			h.fail("a Signal message of version 3 starts with byte %x and says version %d", raw[0], c.(*message.Signal).Version())
		}
		h.fieldsAre("Signal message", raw, 1, len(raw)-8, map[int]interface{}{1: rk.PublicKey().Bytes(), 2: ctr, 3: prev, 4: ct})
		if want := refHMAC(mac, a.IdentityKey().Bytes(), b.IdentityKey().Bytes(), raw[:len(raw)-8])[:8]; !bytes.Equal(want, raw[len(raw)-8:]) {
			h.fail("Signal message %s: the authentication code must be %s", hx(raw), hx(want))
		}
		for i, x := range []message.Ciphertext{c, nil} {
			if i == 1 {
				x, err = message.NewSignalFromBytes(append([]byte{}, raw...))
				h.must(err, "parsing "+hx(raw))
			}
			s := x.(*message.Signal)
			if s.Counter() != ctr || !bytes.Equal(s.Message(), ct) || !bytes.Equal(s.SenderRatchetKey().Bytes(), rk.PublicKey().Bytes()) || s.Version() != 3 || !bytes.Equal(s.Bytes(), raw) || s.Type() != message.WhisperType {
				h.fail("Signal message %s (made %v) says counter %d, content %s, key %s, version %d, bytes %s", hx(raw), i == 0, s.Counter(), hx(s.Message()), hx(s.SenderRatchetKey().Bytes()), s.Version(), hx(s.Bytes()))
			}
			if ok, err := s.VerifyMAC(mac, a.IdentityKey(), b.IdentityKey()); err != nil || !ok {
				h.fail("the code of Signal message %s does not verify: %v", hx(raw), err)
			}
		}
		// pre-key
		reg, sid := h.u32(), prekey.ID(h.u32())
		var pid *prekey.ID
		var wantPid interface{}
		if h.chance(2) {
			x := prekey.ID(h.u32())
			pid = &x
			wantPid = uint32(x)
		}
		base := h.kp()
		p, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: reg, PreKeyID: pid, SignedPreKeyID: sid, BaseKey: base.PublicKey(), IdentityKey: a.IdentityKey(), Message: c.(*message.Signal)})
		h.must(err, "NewPreKey")
		pr := append([]byte{}, p.Bytes()...)
		h.count("", fmt.Sprintf("pre-key message %s", hx(pr)))
		if pr[0] != 0x33 {
			h.fail("a pre-key message of version 3 starts with byte %x", pr[0])
		}
		h.fieldsAre("pre-key message", pr, 1, len(pr), map[int]interface{}{5: reg, 1: wantPid, 6: uint32(sid), 2: base.PublicKey().Bytes(), 3: a.IdentityKey().Bytes(), 4: raw})
		for i, x := range []message.Ciphertext{p, nil} {
			if i == 1 {
				x, err = message.NewPreKeyFromBytes(append([]byte{}, pr...))
				h.must(err, "parsing "+hx(pr))
			}
			s := x.(*message.PreKey)
			okID := (s.PreKeyID() == nil) == (pid == nil) && (pid == nil || *pid == *s.PreKeyID())
			if s.RegistrationID() != reg || s.SignedPreKeyID() != sid || !okID || !bytes.Equal(s.BaseKey().Bytes(), base.PublicKey().Bytes()) || !bytes.Equal(s.IdentityKey().Bytes(), a.IdentityKey().Bytes()) || s.Version() != 3 || !bytes.Equal(s.Bytes(), pr) || !bytes.Equal(s.Message().Bytes(), raw) || s.Type() != message.PreKeyType {
				h.fail("pre-key message %s (made %v) says registration %d, signed pre-key %d, pre-key right %v, base %s, identity %s, version %d", hx(pr), i == 0, s.RegistrationID(), s.SignedPreKeyID(), okID, hx(s.BaseKey().Bytes()), hx(s.IdentityKey().Bytes()), s.Version())
			}
			if s.Message().Counter() != ctr || !bytes.Equal(s.Message().Message(), ct) {
				h.fail("the message inside pre-key message %s differs", hx(pr))
			}
		}
		// sender key
		d := h.dist()
		chain, iter := h.u32(), h.u32()
		sk := h.kp()
		g, err := message.NewSenderKey(h, message.SenderKeyConfig{Version: 3, DistID: d, ChainID: chain, Iteration: iter, Ciphertext: ct, SignatureKey: sk.PrivateKey()})
		h.must(err, "NewSenderKey")
		gr := append([]byte{}, g.Bytes()...)
		h.count("", fmt.Sprintf("sender-key message %s", hx(gr)))
		if gr[0] != 0x33 {
			h.fail("a sender-key message starts with byte %x", gr[0])
		}
		h.fieldsAre("sender-key message", gr, 1, len(gr)-64, map[int]interface{}{1: []byte(d.String()), 2: chain, 3: iter, 4: ct})
		for i, s := range []*message.SenderKey{g, nil} {
			if i == 1 {
				s, err = message.NewSenderKeyFromBytes(append([]byte{}, gr...))
				h.must(err, "parsing "+hx(gr))
			}
			if s.DistributionID() != d || s.ChainID() != chain || s.Iteration() != iter || !bytes.Equal(s.Message(), ct) || s.Version() != 3 || !bytes.Equal(s.Bytes(), gr) {
				h.fail("sender-key message %s (made %v) says distribution %v, chain %d, iteration %d, content %s, version %d", hx(gr), i == 0, s.DistributionID(), s.ChainID(), s.Iteration(), hx(s.Message()), s.Version())
			}
			if ok, err := s.VerifySignature(sk.PublicKey()); err != nil || !ok {
				h.fail("the signature of sender-key message %s does not verify: %v", hx(gr), err)
			}
		}
		// distribution
		ck := h.bytes(32)
		k, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: d, ChainID: chain, Iteration: iter, ChainKey: ck, SigningKey: sk.PublicKey()})
		h.must(err, "NewSenderKeyDistribution")
		kr := append([]byte{}, k.Bytes()...)
		h.count("", fmt.Sprintf("sender-key distribution %s", hx(kr)))
		if kr[0] != 0x33 {
			h.fail("a sender-key distribution starts with byte %x", kr[0])
		}
		h.fieldsAre("sender-key distribution", kr, 1, len(kr), map[int]interface{}{1: []byte(d.String()), 2: chain, 3: iter, 4: ck, 5: sk.PublicKey().Bytes()})
		for i, s := range []*message.SenderKeyDistribution{k, nil} {
			if i == 1 {
				s, err = message.NewSenderKeyDistributionFromBytes(append([]byte{}, kr...))
				h.must(err, "parsing "+hx(kr))
			}
			if s.DistributionID() != d || s.ChainID() != chain || s.Iteration() != iter || !bytes.Equal(s.ChainKey(), ck) || !bytes.Equal(s.SigningKey().Bytes(), sk.PublicKey().Bytes()) || s.Version() != 3 || !bytes.Equal(s.Bytes(), kr) {
				h.fail("sender-key distribution %s (made %v) says distribution %v, chain %d, iteration %d, chain key %s, signing key %s, version %d", hx(kr), i == 0, s.DistributionID(), s.ChainID(), s.Iteration(), hx(s.ChainKey()), hx(s.SigningKey().Bytes()), s.Version())
			}
		}
		// other versions, and chain keys which are none
		ver := uint8(h.n(16))
		if x, err := message.NewSenderKey(h, message.SenderKeyConfig{Version: ver, DistID: d, ChainID: chain, Iteration: iter, Ciphertext: ct, SignatureKey: sk.PrivateKey()}); err == nil && x.Bytes()[0] != ver<<4|3 {
			h.fail("a sender-key message of version %d starts with byte %x", ver, x.Bytes()[0])
		}
		if x, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: ver, DistID: d, ChainID: chain, Iteration: iter, ChainKey: ck, SigningKey: sk.PublicKey()}); err == nil && (x.Bytes()[0] != ver<<4|3 || x.Version() != ver) {
			h.fail("a sender-key distribution of version %d starts with byte %x and says version %d", ver, x.Bytes()[0], x.Version())
		}
		if x, err := message.NewSignal(message.SignalConfig{Version: ver, MACKey: mac, SenderRatchetKey: rk.PublicKey(), PreviousCounter: prev, Counter: ctr, Ciphertext: ct, SenderIdentityKey: a.IdentityKey(), ReceiverIdentityKey: b.IdentityKey()}); err == nil && (x.Bytes()[0] != ver<<4|3 || x.(*message.Signal).Version() != ver) {
			h.fail("a Signal message of version %d starts with byte %x and says version %d", ver, x.Bytes()[0], x.(*message.Signal).Version())
		}
		if x, err := message.NewPreKey(message.PreKeyConfig{Version: ver, RegistrationID: reg, PreKeyID: pid, SignedPreKeyID: sid, BaseKey: base.PublicKey(), IdentityKey: a.IdentityKey(), Message: c.(*message.Signal)}); err == nil && (x.Bytes()[0] != ver<<4|3 || x.(*message.PreKey).Version() != ver) {
			h.fail("a pre-key message of version %d starts with byte %x and says version %d", ver, x.Bytes()[0], x.(*message.PreKey).Version())
		}
		for _, n := range []int{0, 16, 31, 33, 64} {
			in := append([]byte{0x33}, encFields(fb(1, []byte(d.String())), fv(2, uint64(chain)), fv(3, uint64(iter)), fb(4, h.bytes(n)), fb(5, sk.PublicKey().Bytes()))...)
			var err error
			var x *message.SenderKeyDistribution
			if pan := safe(func() { x, err = message.NewSenderKeyDistributionFromBytes(in) }); pan == "" && err == nil {
				h.fail("sender-key distribution %s with a chain key of %d bytes is accepted; its chain key is %s", hx(in), n, hx(x.ChainKey()))
			}
		}
		// accepted messages carry what their bytes encode
		for i := 0; i < 4; i++ {
			in := append([]byte{}, raw...)
			in[h.n(len(in))] ^= 1 << h.n(8)
			if s := h.sig(in); s != nil {
				w := &v1.SignalMessage{}
				err := proto.Unmarshal(in[1:len(in)-8], w)
				if err != nil || s.Version() != in[0]>>4 || s.Counter() != w.GetCounter() || !bytes.Equal(s.Message(), w.GetCiphertext()) || !keyIs(s.SenderRatchetKey(), w.GetRatchetKey()) {
					h.fail("Signal message %s is read as version %d, counter %d, content %s", hx(in), s.Version(), s.Counter(), hx(s.Message()))
				}
			}
			in = append([]byte{}, pr...)
			in[h.n(len(in))] ^= 1 << h.n(8)
			if x, err := message.NewPreKeyFromBytes(in); err == nil {
				s := x.(*message.PreKey)
				w := &v1.PreKeySignalMessage{}
				err := proto.Unmarshal(in[1:], w)
				if err != nil || s.RegistrationID() != w.GetRegistrationId() || uint32(s.SignedPreKeyID()) != w.GetSignedPreKeyId() || (w.PreKeyId != nil) != (s.PreKeyID() != nil) || w.PreKeyId != nil && uint32(*s.PreKeyID()) != *w.PreKeyId || s.Version() != in[0]>>4 || !keyIs(s.BaseKey(), w.GetBaseKey()) || !keyIs(s.IdentityKey().PublicKey(), w.GetIdentityKey()) {
					h.fail("pre-key message %s is read as registration %d, signed pre-key %d", hx(in), s.RegistrationID(), s.SignedPreKeyID())
				}
				if !bytes.Equal(s.Message().Bytes(), w.GetMessage()) {
					h.fail("pre-key message %s is read as containing %s", hx(in), hx(s.Message().Bytes()))
				}
			}
			in = append([]byte{}, gr...)
			in[h.n(len(in))] ^= 1 << h.n(8)
			if s, err := message.NewSenderKeyFromBytes(in); err == nil {
				w := &v1.SenderKeyMessage{}
				err := proto.Unmarshal(in[1:len(in)-64], w)
				if err != nil || s.ChainID() != w.GetChainId() || s.Iteration() != w.GetIteration() || !bytes.Equal(s.Message(), w.GetCiphertext()) || s.Version() != in[0]>>4 {
					h.fail("sender-key message %s is read as chain %d, iteration %d", hx(in), s.ChainID(), s.Iteration())
				}
				if in[0]>>4 != 3 {
					h.fail("sender-key message %s of version %d is accepted", hx(in), in[0]>>4)
				}
			}
			in = append([]byte{}, kr...)
			in[h.n(len(in))] ^= 1 << h.n(8)
			if s, err := message.NewSenderKeyDistributionFromBytes(in); err == nil {
				w := &v1.SenderKeyDistributionMessage{}
				err := proto.Unmarshal(in[1:], w)
				if err != nil || s.ChainID() != w.GetChainId() || s.Iteration() != w.GetIteration() || !bytes.Equal(s.ChainKey(), w.GetChainKey()) || len(w.GetChainKey()) != 32 || s.Version() != in[0]>>4 || in[0]>>4 != 3 || !keyIs(s.SigningKey(), w.GetSigningKey()) {
					h.fail("sender-key distribution %s is read as chain %d, iteration %d, chain key %s", hx(in), s.ChainID(), s.Iteration(), hx(s.ChainKey()))
				}
			}
		}
		// plaintext messages
		pb := append([]byte{0xc0}, h.bytes(h.n(20))...)
		if x, err := message.NewPlaintextFromBytes(pb); err != nil || !bytes.Equal(x.Bytes(), pb) || !bytes.Equal(x.Message(), pb[1:]) || x.Type() != message.PlaintextType {
			h.fail("plaintext message %s is not read back: %v", hx(pb), err)
		}
	}
}

// keyIs says whether k is the key encoded by b, whose bytes after the 33rd do
// not count.
func keyIs(k curve.PublicKey, b []byte) bool {
	return len(b) >= 33 && bytes.Equal(k.Bytes(), b[:33])
}
