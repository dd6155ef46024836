package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
)

func chainEq(x, y *v1.SessionStructure_Chain) bool {
	return x.GetChainKey().GetIndex() == y.GetChainKey().GetIndex() && bytes.Equal(x.GetChainKey().GetKey(), y.GetChainKey().GetKey()) && bytes.Equal(x.GetSenderRatchetKey(), y.GetSenderRatchetKey())
}

// agree: what x sends with, y receives with (y has read all of x's messages).
func (h *H) agree(x, y *v1.SessionStructure, what string) {
	ch := findChain(y, x.GetSenderChain().GetSenderRatchetKey())
	if ch != nil && (!chainEq(ch, x.GetSenderChain())) {
		h.fail("%s: the sender's chain is {%s}, the receiver's {%s}", what, chainStr4(x.SenderChain), chainStr4(ch))
	}
}

func chainStr4(c *v1.SessionStructure_Chain) string {
	return fmt.Sprintf("key %s at %d %s", hx(c.GetSenderRatchetKey()), c.GetChainKey().GetIndex(), hx(c.GetChainKey().GetKey()))
}

func TestVerifC04(t *testing.T) {
	h := begin(t, 40*time.Second, 300*time.Second)
	for it := 0; h.more(); it++ {
		a, b := h.party("alice"), h.party("bob")
		withPK := h.chance(2)
		if it%3 == 0 {
			// the two set-ups by themselves
			base, spk, rk := h.kp(), h.kp(), h.kp()
			switch h.n(8) {
			case 0: // with oneself
				b = a
			case 1:
				spk = base
			case 2:
				if k, err := curve.NewKeyPair(b.id.PrivateKey().Bytes(), b.id.PublicKey().Bytes()); err == nil {
					spk = k
				}
			}
			if h.chance(2) {
				rk = spk
			}
			ap := &ratchet.AliceParameters{OurIdentityKeyPair: a.id, OurBaseKeyPair: base, TheirIdentityKey: b.id.IdentityKey(), TheirSignedPreKey: spk.PublicKey(), TheirRatchetKey: rk.PublicKey()}
			bp := &ratchet.BobParameters{OurIdentityKeyPair: b.id, OurSignedPreKeyPair: spk, OurRatchetKeyPair: rk, TheirIdentityKey: a.id.IdentityKey(), TheirBaseKey: base.PublicKey()}
			ia, ea, s := a.id.PrivateKey().Bytes(), base.PrivateKey().Bytes(), spk.PublicKey().KeyBytes()
			sec := append(ff(), refDH(ia, s)...)
			sec = append(sec, refDH(ea, b.id.PublicKey().KeyBytes())...)
			sec = append(sec, refDH(ea, s)...)
			if withPK {
				opk := h.kp()
				switch h.n(8) {
				case 0:
					opk = spk
				case 1:
					opk = rk
				case 2:
					opk = base
				}
				ap.TheirOneTimePreKey, bp.OurOneTimePreKeyPair = opk.PublicKey(), opk
				sec = append(sec, refDH(ea, opk.PublicKey().KeyBytes())...)
			}
			_ = sec
			var ra, rb *session.Record
			var e1, e2 error
			pan := safe(func() {
				ra, e1 = session.InitializeAliceSessionRecord(h, ap)
				rb, e2 = session.InitializeBobSessionRecord(bp)
			})
			h.count("", fmt.Sprintf("set-up, one-time pre-key %v, base %s: %v %v %s", withPK, hx(base.PublicKey().Bytes()), e1, e2, pan))
			if pan != "" || e1 != nil || e2 != nil {
				h.fail("setting up a session with good keys (one-time pre-key %v) fails: %v, %v %s", withPK, e1, e2, pan)
			}
			sa, sb := stateOf(ra), stateOf(rb)
			if sa == nil || sb == nil {
				h.fail("no session after set-up")
			}
			h.agree(sb, sa, fmt.Sprintf("set-up, one-time pre-key %v: responder to initiator", withPK))
			if len(sa.ReceiverChains) != 1 || findChain(sa, sb.SenderChain.GetSenderRatchetKey()) == nil {
				h.fail("set-up: the initiator has no receiving chain for the responder's ratchet key")
			}
			// the initiator's first ratchet step as the responder makes it
			r1, c1 := refRoot(sb.RootKey, sb.SenderChain.SenderRatchetKeyPrivate, sa.SenderChain.SenderRatchetKey[1:])
			if !bytes.Equal(r1, sa.RootKey) || !bytes.Equal(c1, sa.SenderChain.ChainKey.Key) {
				h.fail("set-up, one-time pre-key %v: the initiator's root and chain after its first step are %s %s; the responder derives %s %s (secret %s)", withPK, hx(sa.RootKey), hx(sa.SenderChain.ChainKey.Key), hx(r1), hx(c1), hx(sec))
			}
			continue
		}
		bn := b.bundle(withPK)
		if withPK && h.chance(6) && bn.PreKeyID != nil {
			// the signed pre-key published as one-time pre-key, too
			id := *bn.PreKeyID
			if b.pk.pkStore.Store.Store(ctx, id, prekey.NewPreKey(id, b.spkIDs[bn.SignedPreKeyID])) == nil {
				bn.PreKeyPublic = bn.SignedPreKeyPublic
			}
		}
		var err error
		pan := safe(func() { err = a.session(b).ProcessPreKeyBundle(ctx, h, bn) })
		if err != nil || pan != "" {
			h.fail("a good bundle (one-time pre-key %v) is refused: %v %s", withPK, err, pan)
		}
		x, y := a, b
		turns := 1 + h.n(8)
		hist := fmt.Sprintf("bundle(one-time %v)", withPK)
		first := true
		for i := 0; i < turns; i++ {
			k := 1 + h.n(4)
			for j := 0; j < k; j++ {
				pt := h.plain()
				var m message.Ciphertext
				pan := safe(func() { m, err = x.session(y).EncryptMessage(ctx, pt) })
				if err != nil || pan != "" {
					h.fail("%s: encryption in an ordered conversation fails: %v %s", hist, err, pan)
				}
				// as the other side gets it
				raw := append([]byte{}, m.Bytes()...)
				var mm message.Ciphertext
				if m.Type() == message.PreKeyType {
					mm, err = message.NewPreKeyFromBytes(raw)
				} else {
					mm, err = message.NewSignalFromBytes(raw)
				}
				if err != nil {
					h.fail("%s: message %s does not parse: %v", hist, hx(raw), err)
				}
				var got []byte
				pan = safe(func() { got, err = y.session(x).DecryptMessage(ctx, h, mm) })
				hist += fmt.Sprintf(" %s:%d", x.addr.Name, len(pt))
				h.count("", fmt.Sprintf("%s: %v %s", hist, err, pan))
				if err != nil || pan != "" {
					h.fail("ordered conversation %s: the last message cannot be read: %v %s", hist, err, pan)
				}
				if !bytes.Equal(got, pt) {
					h.fail("ordered conversation %s: the last message %x is read as %x", hist, pt, got)
				}
				sx, sy := stateOf(x.record(y)), stateOf(y.record(x))
				h.agree(sx, sy, "conversation "+hist)
				if !first || x != a {
					if !bytes.Equal(sx.LocalIdentityPublic, sy.RemoteIdentityPublic) || !bytes.Equal(sx.RemoteIdentityPublic, sy.LocalIdentityPublic) {
						h.fail("conversation %s: identities differ", hist)
					}
				}
				first = false
				// the receiver's next chain continues from the common root
				r, c := refRoot(sx.RootKey, sx.SenderChain.SenderRatchetKeyPrivate, sy.SenderChain.SenderRatchetKey[1:])
				if findChain(sx, sy.SenderChain.SenderRatchetKey) == nil {
					if !bytes.Equal(r, sy.RootKey) || (sy.SenderChain.ChainKey.Index == 0 && !bytes.Equal(c, sy.SenderChain.ChainKey.Key)) {
						h.fail("conversation %s: after the ratchet step the receiver's root is %s, the sender derives %s", hist, hx(sy.RootKey), hx(r))
					}
				}
			}
			x, y = y, x
		}
		_ = proto.Equal
	}
}
