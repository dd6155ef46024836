package verifdrv

import (
	"fmt"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
)

func (h *H) keyBytes() []byte {
	switch h.n(8) {
	case 0:
		return nil
	case 1:
		return append([]byte{5}, make([]byte, 32)...)
	case 2:
		return append([]byte{5}, append([]byte{1}, make([]byte, 31)...)...)
	case 3:
		return append([]byte{byte(h.n(256))}, h.bytes(h.n(40))...)
	case 4:
		return h.bytes(h.n(40))
	case 5:
		return append([]byte{5}, append([]byte{0xec}, append(make([]byte, 0), append(rep(0xff, 30), 0x7f)...)...)...) // -1
	}
	return h.kp().PublicKey().Bytes()
}

func rep(b byte, n int) []byte {
	o := make([]byte, n)
	for i := range o {
		o[i] = b
	}
	return o
}

func (h *H) mut(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := h.n(4); k >= 0 && len(b) > 0; k-- {
		switch h.n(5) {
		case 0:
			b[h.n(len(b))] = byte(h.n(256))
		case 1:
			b = b[:h.n(len(b)+1)]
		case 2:
			i := h.n(len(b))
			b = append(b[:i:i], append(h.bytes(h.n(4)), b[i:]...)...)
		case 3:
			i := h.n(len(b))
			j := i + h.n(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 4:
			b[h.n(len(b))] ^= 1 << h.n(8)
		}
	}
	return b
}

func TestVerifC09(t *testing.T) {
	h := begin(t, 60*time.Second, 400*time.Second)
	try := func(what string, in []byte, f func()) {
		p := safe(f)
		h.count("", fmt.Sprintf("%s on %s", what, hx(in)))
		if p != "" {
			h.fail("%s on input %s: %s", what, hx(in), p)
		}
	}
	ctxPar := func() (a, b *party, ok bool) {
		a, b = h.party("alice"), h.party("bob")
		ok = h.connect(a, b, h.chance(2))
		return
	}
	for it := 0; h.more(); it++ {
		a, b, ok := ctxPar()
		if !ok {
			if p := safe(func() { h.connect(h.party("a"), h.party("b"), true) }); p != "" {
				h.fail("an ordinary session: %s", p)
			}
			continue
		}
		if h.chance(2) {
			h.pingpong(a, b, 1)
		}
		m1, err := a.session(b).EncryptMessage(ctx, h.plain())
		if err != nil {
			continue
		}
		sb := signalOf(m1).Bytes()
		st := stateOf(b.record(a))
		for i := 0; i < 40; i++ {
			// parsers
			in := h.mut(sb)
			if h.chance(3) {
				in = h.bytes(h.n(90))
				if len(in) > 0 && h.chance(2) {
					in[0] = 0x33
				}
			}
			if h.chance(6) {
				in = []byte{0x33}
				in = append(in, h.bytes(h.n(12))...)
			}
			if h.chance(20) {
				in = nil
			}
			try("message.NewSignalFromBytes", in, func() { _, _ = message.NewSignalFromBytes(in) })
			try("message.NewPreKeyFromBytes", in, func() { _, _ = message.NewPreKeyFromBytes(in) })
			try("message.NewSenderKeyFromBytes", in, func() { _, _ = message.NewSenderKeyFromBytes(in) })
			try("message.NewSenderKeyDistributionFromBytes", in, func() { _, _ = message.NewSenderKeyDistributionFromBytes(in) })
			try("message.NewPlaintextFromBytes", in, func() {
				p, err := message.NewPlaintextFromBytes(in)
				if err == nil {
					p.Message()
					p.Bytes()
				}
			})
			try("distribution.ParseBytes", in, func() { _, _ = distribution.ParseBytes(in); _, _ = distribution.Parse(string(in)) })
			kb := h.keyBytes()
			try("curve.NewPublicKey", kb, func() {
				if k, err := curve.NewPublicKey(kb); err == nil {
					k.Bytes()
					k.KeyBytes()
					sg := h.bytes([]int{0, 1, 63, 64, 65, 64}[h.n(6)])
					_, _ = k.VerifySignature(sg, in)
					_, _ = b.id.PrivateKey().Agreement(k)
				}
			})
			try("curve.NewPrivateKey", kb, func() {
				if k, err := curve.NewPrivateKey(kb); err == nil {
					k.PublicKey()
					_, _ = k.Sign(h, in)
				}
			})
			try("curve.NewKeyPair", kb, func() { _, _ = curve.NewKeyPair(h.bytes(h.n(34)), kb) })
			try("identity.NewKey", kb, func() {
				if k, err := identity.NewKey(kb); err == nil {
					_, _ = k.VerifyAlternateIdentity(h.bytes(h.n(70)), a.id.IdentityKey())
				}
			})
			sg := h.bytes(h.n(70))
			try("curve25519.VerifySignature", sg, func() { _, _ = curve25519.VerifySignature(kb, sg, in) })
			try("aes.CBCDecrypt", in, func() {
				_, _ = aes.CBCDecrypt(h.bytes([]int{32, 16, 0, 5}[h.n(4)]), h.bytes([]int{16, 16, 0, 3}[h.n(4)]), h.bytes(h.n(70)))
			})
			try("aes.CBCEncrypt", in, func() {
				_, _ = aes.CBCEncrypt(h.bytes([]int{32, 16, 0, 5}[h.n(4)]), h.bytes([]int{16, 16, 0, 3}[h.n(4)]), h.bytes(h.n(70)))
			})
			f1, f2 := h.bytes(h.n(70)), h.bytes(h.n(70))
			try("fingerprint.NewScannable", f1, func() {
				if s, err := fingerprint.NewScannable(h.u32(), f1, f2); err == nil {
					_, _ = s.Bytes()
					_, _ = s.Compare(in)
				}
			})
			try("fingerprint.NewDisplayable", f1, func() { _, _ = fingerprint.NewDisplayable(f1, f2) })
			try("fingerprint.New", f1, func() {
				_, _ = fingerprint.New(h.u32(), uint32(h.n(4)), f1, a.id.IdentityKey(), f2, b.id.IdentityKey())
			})
			try("ratchet keys", f1, func() {
				_, _ = ratchet.NewChainKey(f1, 0)
				_, _ = ratchet.NewRootKey(f1)
				_, _ = ratchet.NewMessageKeys(f1, f2, h.bytes(h.n(20)), 0)
			})
			// messages which parse
			var raw []byte
			kind := h.n(4)
			switch {
			case kind == 0:
				raw = in
			case kind == 1:
				raw = sigBytes(3, h.keyBytes(), h.u32(), h.u32(), h.bytes(h.n(40)), h.bytes(32), nil, nil)
			case kind == 2 && len(st.GetReceiverChains()) > 0:
				// authenticated by the sender, with any content
				ch := st.ReceiverChains[len(st.ReceiverChains)-1]
				k := refMKOf(ch.ChainKey.Key)
				ct := h.bytes(h.n(40))
				if h.chance(2) {
					ct = refRaw(k.cipher, k.iv, rep(byte(h.n(256)), 16*(1+h.n(2))))
				}
				raw = sigBytes(3, ch.SenderRatchetKey, ch.ChainKey.Index, h.u32(), ct, k.mac, st.RemoteIdentityPublic, st.LocalIdentityPublic)
			default:
				raw = sb
			}
			if s := h.sig(raw); s != nil {
				try("Session.DecryptMessage(Signal)", raw, func() { _, _ = b.session(a).DecryptMessage(ctx, h, s) })
				try("Session.DecryptMessage(Signal) without a session", raw, func() { _, _ = a.session(a).DecryptMessage(ctx, h, s) })
			}
			// pre-key messages
			bn := b.bundle(true)
			fs := []field{fv(5, uint64(h.u32())), fb(4, raw)}
			if h.chance(2) {
				fs = append(fs, fv(6, uint64(bn.SignedPreKeyID)))
			} else {
				fs = append(fs, fv(6, uint64(h.u32())))
			}
			if h.chance(2) {
				fs = append(fs, fv(1, uint64(*bn.PreKeyID)))
			} else if h.chance(2) {
				fs = append(fs, fv(1, uint64(h.u32())))
			}
			bk, ik := h.keyBytes(), h.keyBytes()
			if h.chance(2) {
				ik = a.id.IdentityKey().Bytes()
			}
			fs = append(fs, fb(2, bk), fb(3, ik))
			pb := append([]byte{0x33}, encFields(fs...)...)
			if h.chance(3) {
				pb = h.mut(pb)
			}
			try("message.NewPreKeyFromBytes", pb, func() {
				if p, err := message.NewPreKeyFromBytes(pb); err == nil {
					try("Session.DecryptMessage(PreKey)", pb, func() { _, _ = b.session(a).DecryptMessage(ctx, h, p) })
					c := h.party("carol")
					try("Session.DecryptMessage(PreKey) by a stranger", pb, func() { _, _ = c.session(a).DecryptMessage(ctx, h, p) })
				}
			})
			if pl, err := message.NewPlaintextFromBytes([]byte{0xc0}); err == nil {
				try("Session.DecryptMessage(Plaintext)", nil, func() { _, _ = b.session(a).DecryptMessage(ctx, h, pl) })
			}
			// records
			s2 := proto.Clone(st).(*v1.SessionStructure)
			switch h.n(10) {
			case 0:
				s2.SenderChain = nil
			case 1:
				s2.SenderChain.ChainKey = nil
			case 2:
				s2.RootKey = h.bytes(h.n(33))
			case 3:
				for _, c := range s2.ReceiverChains {
					c.ChainKey = nil
				}
			case 4:
				s2.RemoteIdentityPublic = h.keyBytes()
			case 5:
				s2.LocalIdentityPublic = h.keyBytes()
			case 6:
				s2.PendingPreKey = &v1.SessionStructure_PendingPreKey{BaseKey: h.keyBytes(), SignedPreKeyId: int32(h.u32())}
			case 7:
				s2.SenderChain.SenderRatchetKey = h.keyBytes()
				s2.SenderChain.SenderRatchetKeyPrivate = h.bytes(h.n(34))
			case 8:
				s2 = &v1.SessionStructure{}
			case 9:
				for _, c := range s2.ReceiverChains {
					c.MessageKeys = append(c.MessageKeys, &v1.SessionStructure_Chain_MessageKey{Index: 0, CipherKey: h.bytes(h.n(40))})
					c.ChainKey = &v1.SessionStructure_Chain_ChainKey{Index: 2, Key: h.bytes(h.n(34))}
				}
			}
			rb, _ := proto.Marshal(s2)
			if h.chance(4) {
				rb = h.mut(rb)
			}
			try("session.NewRecordBytes", rb, func() {
				r, err := session.NewRecordBytes(rb)
				if err != nil {
					return
				}
				_, _ = r.Version()
				_, _ = r.LocalIdentityKey()
				_, _, _ = r.RemoteIdentityKey()
				_, _ = r.SenderChainKey()
				_, _, _ = r.ReceiverChainKey(h.kp().PublicKey())
				_, _ = r.HasSessionState(3, []byte("x"))
				c := h.party("dave")
				_ = c.sess.spySess.Store.Store(ctx, a.addr, r)
				_, _ = c.session(a).EncryptMessage(ctx, []byte("x"))
				if s := h.sig(raw); s != nil {
					_, _ = c.session(a).DecryptMessage(ctx, h, s)
				}
				if s := h.sig(sb); s != nil {
					_, _ = c.session(a).DecryptMessage(ctx, h, s)
				}
			})
			// bundles
			low, err := curve.NewPublicKey(append([]byte{5}, make([]byte, 32)...))
			if err == nil {
				bn := b.bundle(true)
				switch h.n(4) {
				case 0:
					bn.PreKeyPublic = low
				case 1:
					bn.SignedPreKeyPublic = low
					bn.SignedPreKeySignature, _ = b.id.PrivateKey().Sign(h, low.Bytes())
				case 2:
					bn.SignedPreKeySignature = h.bytes(h.n(70))
				case 3:
					bn.PreKeyID = nil
				}
				try("Session.ProcessPreKeyBundle", bn.SignedPreKeySignature, func() { _ = a.session(b).ProcessPreKeyBundle(ctx, h, bn) })
			}
		}
		// pre-key records
		for i := 0; i < 10; i++ {
			x := prekey.NewPreKey(prekey.ID(h.u32()), h.kp())
			try("prekey.KeyPair", nil, func() { _, _ = x.KeyPair() })
		}
		h.groupCrash(try)
	}
}

func (h *H) groupCrash(try func(string, []byte, func())) {
	ad := address.Address{Name: "carol", DeviceID: 2}
	d := distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")
	g1 := &session.GroupSession{SenderAddress: ad, DistID: d, SenderKeyStore: session.NewInMemGroupStore()}
	g2 := &session.GroupSession{SenderAddress: ad, DistID: d, SenderKeyStore: session.NewInMemGroupStore()}
	var dm *message.SenderKeyDistribution
	var err error
	try("NewSenderKeyDistribution", nil, func() { dm, err = g1.NewSenderKeyDistribution(ctx, h) })
	if err != nil || dm == nil {
		return
	}
	kp := h.kp()
	for i := 0; i < 20; i++ {
		raw := dm.Bytes()
		if h.chance(2) {
			raw = append([]byte{0x33}, encFields(fb(1, []byte(d.String())), fv(2, uint64(h.n(3))), fv(3, uint64(h.u32())), fb(4, h.bytes([]int{32, 32, 0, 31, 33}[h.n(5)])), fb(5, [][]byte{kp.PublicKey().Bytes(), h.keyBytes()}[h.n(2)]))...)
		}
		if h.chance(3) {
			raw = h.mut(raw)
		}
		var x *message.SenderKeyDistribution
		try("message.NewSenderKeyDistributionFromBytes", raw, func() { x, err = message.NewSenderKeyDistributionFromBytes(raw) })
		if err == nil && x != nil {
			try("ProcessSenderKeyDistribution", raw, func() { _ = g2.ProcessSenderKeyDistribution(ctx, x) })
		}
		var m *message.SenderKey
		try("GroupSession.EncryptMessage", nil, func() { m, err = g1.EncryptMessage(ctx, h, h.plain()) })
		if err != nil || m == nil {
			return
		}
		mb := m.Bytes()
		switch h.n(4) {
		case 0:
			mb = h.mut(mb)
		case 1, 2:
			mb = h.gBytes9([]byte(d.String()), uint32(h.n(3)), h.u32()&0xffff, h.bytes(h.n(33)), kp.PrivateKey())
		}
		var y *message.SenderKey
		try("message.NewSenderKeyFromBytes", mb, func() { y, err = message.NewSenderKeyFromBytes(mb) })
		if err == nil && y != nil {
			try("GroupSession.DecryptMessage", mb, func() { _, _ = g2.DecryptMessage(ctx, y) })
		}
		try("GroupSession.EncryptMessage by a receiver", nil, func() { _, _ = g2.EncryptMessage(ctx, h, nil) })
		try("NewSenderKeyDistribution by a receiver", nil, func() { _, _ = g2.NewSenderKeyDistribution(ctx, h) })
	}
}

func (h *H) gBytes9(d []byte, chain, iter uint32, ct []byte, key curve.PrivateKey) []byte {
	b := append([]byte{0x33}, encFields(fb(1, d), fv(2, uint64(chain)), fv(3, uint64(iter)), fb(4, ct))...)
	s, err := key.Sign(h, b)
	if err != nil {
		return nil
	}
	return append(b, s...)
}
