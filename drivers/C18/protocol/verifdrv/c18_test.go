package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
)

// TestVerifC18: the key schedule.
func TestVerifC18(t *testing.T) {
	h := begin(t, 20*time.Second, 120*time.Second)
	// inputs which come again, perhaps with one byte changed
	var seen [][]byte
	input := func(n int) []byte {
		b := h.bytes(n)
		for _, x := range seen {
			if len(x) == n && h.chance(4) {
				b = append([]byte{}, x...)
				if n > 0 && !h.chance(3) {
					b[h.n(n)] ^= 1 << h.n(8)
				}
				break
			}
		}
		if seen = append([][]byte{append([]byte{}, b...)}, seen...); len(seen) > 20 {
			seen = seen[:20]
		}
		return b
	}
	// results of earlier calls, which must not change
	type kept struct {
		what      string
		b, copyOf []byte
	}
	var old []kept
	keep := func(what string, bs ...[]byte) {
		for _, b := range bs {
			old = append(old, kept{what, b, append([]byte{}, b...)})
		}
	}
	var i uint32
	for h.more() {
		for _, k := range old {
			if !bytes.Equal(k.b, k.copyOf) {
				h.fail("%s changes later from %s to %s", k.what, hx(k.copyOf), hx(k.b))
			}
		}
		old = nil
		// message keys and chains
		ck := input(32)
		if !h.chance(4) {
			i = h.u32()
		}
		in := append([]byte{}, ck...)
		h.count("", fmt.Sprintf("chain key %s at %d", hx(ck), i))
		c, err := ratchet.NewChainKey(in, i)
		h.must(err, "NewChainKey")
		for j := 0; j < 4; j++ {
			if c.Index() != i || !bytes.Equal(c.Key(), ck) {
				h.fail("the chain key at %d is %s at %d instead of %s", i, hx(c.Key()), c.Index(), hx(ck))
			}
			m, err := c.MessageKeys()
			h.must(err, "MessageKeys")
			w := refMKOf(ck)
			if !bytes.Equal(m.CipherKey(), w.cipher) || !bytes.Equal(m.MACKey(), w.mac) || !bytes.Equal(m.IV(), w.iv) || m.Counter() != i {
				h.fail("chain key %s at %d gives message keys %s %s %s at %d", hx(ck), i, hx(m.CipherKey()), hx(m.MACKey()), hx(m.IV()), m.Counter())
			}
			if !bytes.Equal(in, c.Key()) && j == 0 {
				h.fail("deriving message keys changes the chain key")
			}
			keep("a message key", m.CipherKey(), m.MACKey(), m.IV())
			keep("a chain key", c.Key())
			c, ck, i = c.Next(), refNext(ck), i+1
		}
		// derivation from any material
		mat := input(h.n(100))
		m, err := ratchet.DeriveMessageKeys(append([]byte{}, mat...), i)
		h.must(err, "DeriveMessageKeys")
		o := refHKDF(mat, nil, []byte("WhisperMessageKeys"), 80)
		if !bytes.Equal(m.CipherKey(), o[:32]) || !bytes.Equal(m.MACKey(), o[32:64]) || !bytes.Equal(m.IV(), o[64:]) || m.Counter() != i {
			h.fail("material %s gives message keys %s %s %s at %d", hx(mat), hx(m.CipherKey()), hx(m.MACKey()), hx(m.IV()), m.Counter())
		}
		h.count("", "material "+hx(mat))
		rk, ck2, err := ratchet.DeriveKeys(append([]byte{}, mat...))
		h.must(err, "DeriveKeys")
		wr, wc := refInit(mat)
		if !bytes.Equal(rk.Bytes(), wr) || !bytes.Equal(ck2.Key(), wc) || ck2.Index() != 0 {
			h.fail("secret %s gives root key %s and chain key %s at %d", hx(mat), hx(rk.Bytes()), hx(ck2.Key()), ck2.Index())
		}
		// a root step
		root := input(32)
		keep("a root or chain key", rk.Bytes(), ck2.Key())
		r, err := ratchet.NewRootKey(append([]byte{}, root...))
		h.must(err, "NewRootKey")
		a, b := h.kp(), h.kp()
		pb := b.PublicKey().KeyBytes()
		if h.chance(4) {
			pb = h.bytes(32)
		}
		if h.chance(6) {
			pb = make([]byte, 32)
		}
		q, err := curve.NewPublicKey(append([]byte{5}, pb...))
		h.must(err, "NewPublicKey")
		h.count("", fmt.Sprintf("root %s with %s and %s", hx(root), hx(a.PrivateKey().Bytes()), hx(pb)))
		r2, c2, err := r.CreateChain(a.PrivateKey(), q)
		dh := refDH(a.PrivateKey().Bytes(), pb)
		if (err == nil) != (dh != nil) {
			h.fail("a root step with public key %s: error %v", hx(pb), err)
		}
		if err == nil {
			wr, wc := refRoot(root, a.PrivateKey().Bytes(), pb)
			if !bytes.Equal(r2.Bytes(), wr) || !bytes.Equal(c2.Key(), wc) || c2.Index() != 0 {
				h.fail("root %s with private key %s and public key %s gives %s and chain %s at %d", hx(root), hx(a.PrivateKey().Bytes()), hx(pb), hx(r2.Bytes()), hx(c2.Key()), c2.Index())
			}
		}
		if !bytes.Equal(r.Bytes(), root) {
			h.fail("a root step changes the root key")
		}
		// lengths
		n1, n2, n3 := h.len(32), h.len(32), h.len(16)
		ka, kb, kc := h.bytes(n1), h.bytes(n2), h.bytes(n3)
		h.count("", fmt.Sprintf("keys of %d, %d and %d bytes", n1, n2, n3))
		mk, err := ratchet.NewMessageKeys(ka, kb, kc, i)
		if (err == nil) != (n1 == 32 && n2 == 32 && n3 == 16) {
			h.fail("message keys of %d, %d and %d bytes: error %v", n1, n2, n3, err)
		}
		if err == nil && (!bytes.Equal(mk.CipherKey(), ka) || !bytes.Equal(mk.MACKey(), kb) || !bytes.Equal(mk.IV(), kc) || mk.Counter() != i) {
			h.fail("message keys %s %s %s at %d are %s %s %s at %d", hx(ka), hx(kb), hx(kc), i, hx(mk.CipherKey()), hx(mk.MACKey()), hx(mk.IV()), mk.Counter())
		}
		if _, err := ratchet.NewChainKey(ka, i); (err == nil) != (n1 == 32) {
			h.fail("a chain key of %d bytes: error %v", n1, err)
		}
		if _, err := ratchet.NewRootKey(kb); (err == nil) != (n2 == 32) {
			h.fail("a root key of %d bytes: error %v", n2, err)
		}
		// sender keys
		ck, i = input(32), h.u32()
		s := senderkey.NewChainKey(append([]byte{}, ck...), i)
		h.count("", fmt.Sprintf("sender chain key %s at %d", hx(ck), i))
		for j := 0; j < 4; j++ {
			if s.Iteration() != i || !bytes.Equal(s.Seed(), ck) {
				h.fail("the sender chain key at %d is %s at %d instead of %s", i, hx(s.Seed()), s.Iteration(), hx(ck))
			}
			m, err := s.MessageKey()
			h.must(err, "MessageKey")
			seed := refHMAC(ck, []byte{1})
			o := refHKDF(seed, nil, []byte("WhisperGroup"), 48)
			if !bytes.Equal(m.Seed(), seed) || !bytes.Equal(m.IV(), o[:16]) || !bytes.Equal(m.CipherKey(), o[16:]) || m.Iteration() != i {
				h.fail("sender chain key %s at %d gives seed %s IV %s key %s at %d", hx(ck), i, hx(m.Seed()), hx(m.IV()), hx(m.CipherKey()), m.Iteration())
			}
			keep("a sender message key", m.Seed(), m.IV(), m.CipherKey())
			keep("a sender chain key", s.Seed())
			s, ck, i = s.Next(), refNext(ck), i+1
		}
		d, err := senderkey.DeriveMessageKey(append([]byte{}, mat...), i)
		h.must(err, "DeriveMessageKey")
		o = refHKDF(mat, nil, []byte("WhisperGroup"), 48)
		if !bytes.Equal(d.Seed(), mat) || !bytes.Equal(d.IV(), o[:16]) || !bytes.Equal(d.CipherKey(), o[16:]) || d.Iteration() != i {
			h.fail("seed %s gives IV %s key %s at %d", hx(mat), hx(d.IV()), hx(d.CipherKey()), d.Iteration())
		}
	}
}

func (h *H) len(n int) int {
	switch h.n(5) {
	case 0:
		return h.n(70)
	case 1:
		return n + h.n(3) - 1
	}
	return n
}
