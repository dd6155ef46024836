package verifdrv

import (
	"bytes"
	"crypto/rand"
	"crypto/sha512"
	"fmt"
	"testing"
	"time"

	"filippo.io/edwards25519"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/identity"
)

func (h *H) parts(msg []byte) [][]byte {
	var o [][]byte
	for {
		if h.chance(4) {
			o = append(o, [][]byte{nil, {}}[h.n(2)])
		}
		if len(msg) == 0 {
			return o
		}
		n := 1 + h.n(len(msg))
		o = append(o, msg[:n])
		msg = msg[n:]
	}
}

// TestVerifC16: signatures verify exactly what was signed.
func TestVerifC16(t *testing.T) {
	h := begin(t, 30*time.Second, 180*time.Second)
	prefix := append(bytes.Repeat([]byte{0xff}, 32), []byte("Signal_PNI_Signature")...)
	for it := 0; h.more(); it++ {
		seed := h.bytes(32)
		k, err := curve.NewPrivateKey(seed)
		h.must(err, "NewPrivateKey")
		ck, err := curve25519.NewPrivateKey(seed)
		h.must(err, "curve25519.NewPrivateKey")
		pub := k.PublicKey()
		n := it % 130
		if h.chance(20) {
			n = h.n(5000)
		}
		msg := h.bytes(n)
		ps := h.parts(msg)
		shared := make([][]byte, len(ps))
		copy(shared, ps)
		was := append([]byte{}, msg...)
		var sig []byte
		pan := safe(func() {
			switch h.n(4) {
			case 0:
				sig, err = k.Sign(rand.Reader, ps...)
			case 1:
				sig, err = k.Sign(nil, ps...)
			case 2:
				sig, err = ck.Sign(h, ps...)
			default:
				sig, err = k.Sign(h, ps...)
			}
		})
		h.count("", fmt.Sprintf("key %s message %s in %d parts", hx(seed), hx(msg), len(ps)))
		if pan != "" || err != nil {
			h.fail("signing %s in %d parts with %s: %v %s", hx(msg), len(ps), hx(seed), err, pan)
		}
		if len(sig) != 64 || !refVerify(pub.KeyBytes(), sig, msg) {
			h.fail("the signature %s of %s in %d parts by %s is no XEdDSA signature", hx(sig), hx(msg), len(ps), hx(seed))
		}
		if !bytes.Equal(msg, was) {
			h.fail("signing changes the message")
		}
		verify := func(key curve.PublicKey, sig []byte, ps [][]byte) bool {
			var ok bool
			var err error
			sc := append([]byte{}, sig...)
			if pan := safe(func() { ok, err = key.VerifySignature(sig, ps...) }); pan != "" {
				h.fail("verifying %s: %s", hx(sig), pan)
			}
			if ok && err != nil {
				h.fail("verifying %s gives true and %v", hx(sig), err)
			}
			if !bytes.Equal(sc, sig) {
				h.fail("verifying changes the signature %s", hx(sc))
			}
			return ok
		}
		if !verify(pub, sig, ps) || !verify(pub, sig, [][]byte{msg}) || !verify(pub, sig, h.parts(msg)) {
			h.fail("the signature %s of %s by %s does not verify", hx(sig), hx(msg), hx(seed))
		}
		// changes
		for i := 0; i < 3; i++ {
			s2, m2, key2 := append([]byte{}, sig...), append([]byte{}, msg...), pub.Bytes()
			what := ""
			switch h.n(9) {
			case 0, 1:
				i, b := h.n(64), h.n(8)
				s2[i] ^= 1 << b
				what = fmt.Sprintf("signature bit %d of byte %d", b, i)
			case 2:
				s2[63] ^= 0x80
				what = "the sign bit"
			case 3, 4:
				if n == 0 {
					continue
				}
				i := h.n(n)
				m2[i] ^= 1 << h.n(8)
				what = fmt.Sprintf("message byte %d", i)
			case 5:
				i, b := h.n(32), h.n(8)
				key2[1+i] ^= 1 << b
				what = fmt.Sprintf("key bit %d of byte %d", b, i)
			case 6:
				m2 = append(m2, byte(h.n(256)))
				what = "an appended byte"
			case 7:
				if n == 0 {
					continue
				}
				m2 = m2[:n-1]
				what = "the last byte dropped"
			case 8:
				s2 = [][]byte{s2[:63], append(s2, 0), {}, nil, s2[:32]}[h.n(5)]
				what = "the signature's length"
			}
			q, err := curve.NewPublicKey(key2)
			h.must(err, "key")
			want := refVerify(key2[1:], s2, m2)
			h.count("", what)
			if got := verify(q, s2, h.parts(m2)); got != want {
				h.fail("signature %s of %s by key %s (after changing %s of signature %s of %s) verifies: %v", hx(s2), hx(m2), hx(key2), what, hx(sig), hx(msg), got)
			}
			if len(s2) == 64 {
				var got bool
				if pan := safe(func() { got, _ = curve25519.VerifySignature(key2[1:], s2, m2) }); pan != "" || got != want {
					h.fail("signature %s of %s by key %s verifies: %v %s", hx(s2), hx(m2), hx(key2), got, pan)
				}
			}
		}
		// swapped parts
		if len(ps) >= 2 {
			i := h.n(len(ps) - 1)
			ps[i], ps[i+1] = ps[i+1], ps[i]
			if m2 := bytes.Join(ps, nil); !bytes.Equal(m2, msg) && verify(pub, sig, ps) {
				h.fail("signature %s of %s verifies with two parts exchanged", hx(sig), hx(msg))
			}
		}
		// parts which lie in one piece of memory, in another order
		buf := append(append([]byte{}, msg...), h.bytes(20)...)
		var mix, apart [][]byte
		for i := 1 + h.n(4); i > 0; i-- {
			from := h.n(len(buf))
			to := from + h.n(len(buf)-from+1)
			mix = append(mix, buf[from:to])
			apart = append(apart, append([]byte{}, buf[from:to]...))
		}
		bufWas, all := append([]byte{}, buf...), bytes.Join(apart, nil)
		msig, err := k.Sign(h, mix...)
		h.must(err, "Sign")
		if !refVerify(pub.KeyBytes(), msig, all) || !verify(pub, msig, [][]byte{all}) || !verify(pub, msig, apart) {
			h.fail("the signature %s of parts %x of one piece of memory is none of their concatenation", hx(msig), apart)
		}
		if !verify(pub, msig, mix) {
			h.fail("the signature %s of parts %x does not verify when they lie in one piece of memory", hx(msig), apart)
		}
		if !bytes.Equal(buf, bufWas) {
			h.fail("signing or verifying parts %x changes the memory they lie in", apart)
		}
		// the nonce is a hash of key, message and randomness
		z := h.bytes(64)
		nonce := func(k curve.PrivateKey, z, m []byte) string {
			sig, err := k.Sign(bytes.NewReader(append([]byte{}, z...)), h.parts(m)...)
			h.must(err, "Sign with given randomness "+hx(z))
			if len(sig) != 64 {
				h.fail("signature %s", hx(sig))
			}
			return string(sig[:32])
		}
		r0 := nonce(k, z, msg)
		if sc, err := edwards25519.NewScalar().SetBytesWithClamping(seed); err == nil {
			clamped := append([]byte{}, seed...)
			clamped[0], clamped[31] = clamped[0]&248, clamped[31]&63|64
			same := false
			for _, a := range [][]byte{sc.Bytes(), clamped} {
				d := sha512.Sum512(bytes.Join([][]byte{append([]byte{0xfe}, bytes.Repeat([]byte{0xff}, 31)...), a, msg, z}, nil))
				r, err := edwards25519.NewScalar().SetUniformBytes(d[:])
				h.must(err, "scalar")
				same = same || string(new(edwards25519.Point).ScalarBaseMult(r).Bytes()) == r0
			}
			if !same {
				h.fail("signing %s with key %s and randomness %s: the nonce point %s is not that of the hash of XEdDSA's prefix, the key, the message and the randomness", hx(msg), hx(seed), hx(z), hx([]byte(r0)))
			}
		}
		if nonce(k, z, msg) != r0 {
			h.fail("signing %s twice with key %s and randomness %s uses two nonces", hx(msg), hx(seed), hx(z))
		}
		z2, m2 := append([]byte{}, z...), append([]byte{}, msg...)
		zi := h.n(64)
		z2[zi] ^= 1 << h.n(8)
		if nonce(k, z2, msg) == r0 {
			h.fail("signing %s with key %s and randomness %s or %s (byte %d differs) uses the same nonce", hx(msg), hx(seed), hx(z), hx(z2), zi)
		}
		if len(m2) > 0 && h.chance(2) {
			m2[h.n(len(m2))] ^= 1 << h.n(8)
		} else {
			m2 = append(m2, 0)
		}
		if nonce(k, z, m2) == r0 {
			h.fail("signing %s and %s with key %s and randomness %s uses the same nonce, which gives the key away", hx(msg), hx(m2), hx(seed), hx(z))
		}
		k2, err := curve.NewPrivateKey(h.bytes(32))
		h.must(err, "NewPrivateKey")
		if nonce(k2, z, msg) == r0 {
			h.fail("signing %s with two keys and randomness %s uses the same nonce", hx(msg), hx(z))
		}
		// alternate identities
		a, b := h.idkp(), h.idkp()
		as, err := a.SignAlternateIdentity(h, b.IdentityKey())
		h.must(err, "SignAlternateIdentity")
		if !refVerify(a.PublicKey().KeyBytes(), as, append(append([]byte{}, prefix...), b.IdentityKey().Bytes()...)) {
			h.fail("the alternate-identity signature %s by %s of %s does not cover its prefix and key", hx(as), hx(a.IdentityKey().Bytes()), hx(b.IdentityKey().Bytes()))
		}
		alt := func(k, o identity.Key, s []byte) bool {
			ok, _ := k.VerifyAlternateIdentity(s, o)
			return ok
		}
		if !alt(a.IdentityKey(), b.IdentityKey(), as) {
			h.fail("the alternate-identity signature %s by %s of %s does not verify", hx(as), hx(a.IdentityKey().Bytes()), hx(b.IdentityKey().Bytes()))
		}
		if alt(b.IdentityKey(), a.IdentityKey(), as) || alt(a.IdentityKey(), a.IdentityKey(), as) {
			h.fail("the alternate-identity signature %s by %s of %s verifies for other keys", hx(as), hx(a.IdentityKey().Bytes()), hx(b.IdentityKey().Bytes()))
		}
		if verify(a.PublicKey(), as, [][]byte{b.IdentityKey().Bytes()}) {
			h.fail("the alternate-identity signature %s by %s of %s is one of the bare key", hx(as), hx(a.IdentityKey().Bytes()), hx(b.IdentityKey().Bytes()))
		}
		for _, part := range [][]byte{b.IdentityKey().Bytes(), append(append([]byte{}, prefix[32:]...), b.IdentityKey().Bytes()...), append(append([]byte{}, prefix[:32]...), b.IdentityKey().Bytes()...)} {
			s, err := a.PrivateKey().Sign(h, part)
			h.must(err, "Sign")
			if alt(a.IdentityKey(), b.IdentityKey(), s) {
				h.fail("a signature %s by %s of %s counts as an alternate-identity signature", hx(s), hx(a.IdentityKey().Bytes()), hx(part))
			}
		}
		// an alternate identity which is the signer's own
		own, err := a.SignAlternateIdentity(h, a.IdentityKey())
		h.must(err, "SignAlternateIdentity of the own key")
		if !refVerify(a.PublicKey().KeyBytes(), own, append(append([]byte{}, prefix...), a.IdentityKey().Bytes()...)) {
			h.fail("the alternate-identity signature %s by %s of itself does not cover its prefix and key", hx(own), hx(a.IdentityKey().Bytes()))
		}
		if !alt(a.IdentityKey(), a.IdentityKey(), own) {
			h.fail("the alternate-identity signature %s by %s of itself does not verify", hx(own), hx(a.IdentityKey().Bytes()))
		}
		x := append([]byte{}, as...)
		x[h.n(64)] ^= 1 << h.n(8)
		if alt(a.IdentityKey(), b.IdentityKey(), x) {
			h.fail("the changed alternate-identity signature %s verifies", hx(x))
		}
	}
}
