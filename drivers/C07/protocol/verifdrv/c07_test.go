package verifdrv

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifC07(t *testing.T) {
	h := begin(t, 40*time.Second, 200*time.Second)
	for h.more() {
		a, b, c := h.party("alice"), h.party("bob"), h.party("carol")
		if h.chance(3) && !h.connect(a, b, true) {
			continue
		}
		bn := b.bundle(h.chance(2))
		spk := bn.SignedPreKeyPublic.Bytes()
		kind := h.n(16)
		good := append([]byte{}, bn.SignedPreKeySignature...)
		sig := append([]byte{}, good...)
		switch kind {
		case 0, 1:
			sig[h.n(64)] ^= 1 << h.n(8)
		case 2:
			sig, _ = c.id.PrivateKey().Sign(h, spk)
		case 3:
			sig, _ = b.id.PrivateKey().Sign(h, spk[1:])
		case 4:
			sig, _ = b.id.PrivateKey().Sign(h, h.kp().PublicKey().Bytes())
		case 5:
			sig = sig[:h.n(64)]
		case 6:
			sig = append(sig, byte(h.n(256)))
		case 7:
			sig = nil
		case 8:
			sig = make([]byte, 64)
		case 9:
			sig, _ = b.id.PrivateKey().Sign(h, spk, []byte{0})
		case 10:
			bn.IdentityKey = c.id.IdentityKey()
		case 11:
			bn.SignedPreKeyPublic = h.kp().PublicKey()
		case 14: // the one-time pre-key has no number; it is the one which is signed
			bn.PreKeyPublic, bn.PreKeyID = h.kp().PublicKey(), nil
			sig, _ = b.id.PrivateKey().Sign(h, bn.PreKeyPublic.Bytes())
		case 15: // the one-time pre-key is signed
			bn = b.bundle(true)
			sig, _ = b.id.PrivateKey().Sign(h, bn.PreKeyPublic.Bytes())
		case 12: // one key for everything, wrong signature
			sig, _ = b.id.PrivateKey().Sign(h, bn.IdentityKey.Bytes())
		}
		bn.SignedPreKeySignature = sig
		want := refVerify(bn.IdentityKey.PublicKey().KeyBytes(), sig, bn.SignedPreKeyPublic.Bytes())
		before := a.snap(b)
		var err error
		pan := safe(func() { err = a.session(b).ProcessPreKeyBundle(ctx, h, bn) })
		h.count("", fmt.Sprintf("kind %d, signature %s: %v %s", kind, hx(sig), err, pan))
		if pan != "" {
			continue
		}
		if !want && err == nil {
			h.fail("a session is made from a bundle whose signature %s of pre-key %s by %s is invalid (kind %d)", hx(sig), hx(bn.SignedPreKeyPublic.Bytes()), hx(bn.IdentityKey.Bytes()), kind)
		}
		if !want && a.snap(b) != before {
			h.fail("a bundle with an invalid signature (kind %d, %v) changes the stores", kind, err)
		}
		if kind == 13 && err != nil {
			h.fail("a bundle with a valid signature is refused: %v", err)
		}
	}
}
