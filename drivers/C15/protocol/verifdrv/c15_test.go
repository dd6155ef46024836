package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/identity"
)

func unhex(s string) []byte {
	var b []byte
	_, _ = fmt.Sscanf(s, "%x", &b)
	return b
}

var lowOrder = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
	"5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
}

// TestVerifC15: keys encode faithfully and agree.
func TestVerifC15(t *testing.T) {
	h := begin(t, 25*time.Second, 150*time.Second)
	for it := 0; h.more(); it++ {
		// decoding public keys
		n := 33
		switch h.n(4) {
		case 0:
			n = h.n(70)
		case 1:
			n = 32 + h.n(3)
		}
		b := h.bytes(n)
		if n > 0 && h.n(5) > 0 {
			b[0] = 5
		}
		in := append([]byte{}, b...)
		h.count("", "public key "+hx(b))
		var k curve.PublicKey
		var err error
		if pan := safe(func() { k, err = curve.NewPublicKey(in) }); pan != "" {
			h.fail("decoding public key %s: %s", hx(b), pan)
		}
		want := n >= 33 && b[0] == 5
		if (err == nil) != want {
			h.fail("decoding public key %s of %d bytes: error %v", hx(b), n, err)
		}
		var ik identity.Key
		if pan := safe(func() { ik, err = identity.NewKey(in) }); pan != "" {
			h.fail("decoding identity key %s: %s", hx(b), pan)
		}
		if (err == nil) != want {
			h.fail("decoding identity key %s of %d bytes: error %v", hx(b), n, err)
		}
		if want {
			for i := range in {
				in[i] ^= 0xa5
			}
			if !bytes.Equal(k.Bytes(), b[:33]) || !bytes.Equal(k.KeyBytes(), b[1:33]) || !bytes.Equal(ik.Bytes(), b[:33]) || !bytes.Equal(ik.PublicKey().Bytes(), b[:33]) {
				h.fail("public key %s is encoded as %s, without type %s, as identity %s", hx(b), hx(k.Bytes()), hx(k.KeyBytes()), hx(ik.Bytes()))
			}
			k.Bytes()[3] ^= 1
			k.KeyBytes()[3] ^= 1
			if !bytes.Equal(k.Bytes(), b[:33]) {
				h.fail("changing an encoding of key %s changes the key", hx(b))
			}
			// equality
			o := append([]byte{}, b[:33]...)
			if h.n(4) > 0 {
				o[1+h.n(32)] ^= 1 << h.n(8)
			}
			if h.chance(6) {
				o[32] ^= 0x80
			}
			k2, err := curve.NewPublicKey(o)
			h.must(err, "decoding "+hx(o))
			ik2, err := identity.NewKey(o)
			h.must(err, "decoding "+hx(o))
			same := bytes.Equal(o, b[:33])
			if k.Equal(k2) != same || k2.Equal(k) != same || ik.Equal(ik2) != same || !k.Equal(k) {
				h.fail("keys %s and %s are equal: %v", hx(b[:33]), hx(o), k.Equal(k2))
			}
		}
		// private keys
		n = 32
		if h.chance(4) {
			n = h.n(66)
		}
		pb := h.bytes(n)
		if n == 32 && h.chance(4) {
			pb = bytes.Repeat([]byte{byte(h.n(2) * 255)}, 32)
		}
		in = append([]byte{}, pb...)
		h.count("", "private key "+hx(pb))
		p, err := curve.NewPrivateKey(in)
		if (err == nil) != (n == 32) {
			h.fail("decoding a private key of %d bytes: error %v", n, err)
		}
		if err != nil {
			continue
		}
		for i := range in {
			in[i] ^= 0x5a
		}
		cl := append([]byte{}, pb...)
		cl[0] &= 248
		cl[31] = cl[31]&63 | 64
		if !bytes.Equal(p.Bytes(), cl) {
			h.fail("private key %s is encoded as %s instead of %s", hx(pb), hx(p.Bytes()), hx(cl))
		}
		if !bytes.Equal(p.PublicKey().Bytes(), refPub(pb)) {
			h.fail("the public key of %s is %s instead of %s", hx(pb), hx(p.PublicKey().Bytes()), hx(refPub(pb)))
		}
		p2, err := curve.NewPrivateKey(p.Bytes())
		h.must(err, "decoding an encoded private key")
		if !bytes.Equal(p2.Bytes(), p.Bytes()) || !p2.PublicKey().Equal(p.PublicKey()) {
			h.fail("private key %s comes back as another", hx(pb))
		}
		// agreement
		q := h.kp()
		s1, err1 := p.Agreement(q.PublicKey())
		s2, err2 := q.PrivateKey().Agreement(p.PublicKey())
		s3, err3 := p2.Agreement(q.PublicKey())
		if err1 != nil || err2 != nil || err3 != nil || !bytes.Equal(s1, s2) || !bytes.Equal(s1, s3) || !bytes.Equal(s1, refDH(pb, q.PublicKey().KeyBytes())) {
			h.fail("keys %s and %s agree on %s and %s, errors %v %v", hx(pb), hx(q.PrivateKey().Bytes()), hx(s1), hx(s2), err1, err2)
		}
		if want {
			s, err := p.Agreement(k)
			r := refDH(pb, b[1:33])
			if (err == nil) != (r != nil) || !bytes.Equal(s, r) {
				h.fail("key %s with %s agrees on %s, error %v, instead of %s", hx(pb), hx(b), hx(s), err, hx(r))
			}
		}
		lo := unhex(lowOrder[h.n(len(lowOrder))])
		if h.chance(2) {
			lo[31] |= 0x80
		}
		lk, err := curve.NewPublicKey(append([]byte{5}, lo...))
		h.must(err, "decoding a low-order key")
		if s, err := p.Agreement(lk); err == nil {
			h.fail("agreement with low-order key %s gives %s", hx(lo), hx(s))
		}
		c, err := curve25519.NewPrivateKey(append([]byte{}, pb...))
		h.must(err, "curve25519.NewPrivateKey")
		wl := h.bytes(h.n(70))
		if len(wl) != 32 {
			if s, err := c.Agreement(wl); err == nil {
				h.fail("agreement with a key of %d bytes gives %s", len(wl), hx(s))
			}
		}
		// pairs
		pairPub := b
		kp, err := curve.NewKeyPair(append([]byte{}, pb...), append([]byte{}, pairPub...))
		if (err == nil) != want {
			h.fail("a pair of private key %s and public key %s: error %v", hx(pb), hx(pairPub), err)
		}
		if err == nil && (!bytes.Equal(kp.PrivateKey().Bytes(), cl) || !bytes.Equal(kp.PublicKey().Bytes(), b[:33])) {
			h.fail("a pair of private key %s and public key %s has %s and %s", hx(pb), hx(pairPub), hx(kp.PrivateKey().Bytes()), hx(kp.PublicKey().Bytes()))
		}
		g := h.kp()
		if !bytes.Equal(g.PublicKey().Bytes(), refPub(g.PrivateKey().Bytes())) {
			h.fail("a generated pair has private key %s and public key %s", hx(g.PrivateKey().Bytes()), hx(g.PublicKey().Bytes()))
		}
		i := h.idkp()
		if !bytes.Equal(i.PublicKey().Bytes(), refPub(i.PrivateKey().Bytes())) || !bytes.Equal(i.IdentityKey().Bytes(), i.PublicKey().Bytes()) {
			h.fail("a generated identity pair has private key %s and public key %s", hx(i.PrivateKey().Bytes()), hx(i.PublicKey().Bytes()))
		}
	}
}
