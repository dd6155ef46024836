package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"
)

// guarded is b inside a bigger array, with what surrounds it.
func (h *H) guarded(b []byte) (in []byte, whole []byte, copyOf []byte) {
	pre, post := h.n(20), h.n(50)
	whole = append(append(h.bytes(pre), b...), h.bytes(post)...)
	return whole[pre : pre+len(b)], whole, append([]byte{}, whole...)
}

// TestVerifC14: AES-CBC with PKCS#7.
func TestVerifC14(t *testing.T) {
	h := begin(t, 25*time.Second, 150*time.Second)
	type kept struct {
		what      string
		b, copyOf []byte
	}
	var old []kept
	keep := func(what string, b []byte) {
		old = append(old, kept{what, b, append([]byte{}, b...)})
	}
	for it := 0; h.more(); it++ {
		for _, k := range old {
			if !bytes.Equal(k.b, k.copyOf) {
				h.fail("%s of an earlier call changes from %s to %s", k.what, hx(k.copyOf), hx(k.b))
			}
		}
		if len(old) > 20 {
			old = old[10:]
		}
		kl, il := []int{16, 24, 32}[h.n(3)], 16
		if h.chance(8) {
			kl = h.n(40)
		}
		if h.chance(8) {
			il = h.n(34)
		}
		n := it % 300
		if h.chance(50) {
			n = h.n(70000)
		}
		pt := h.bytes(n)
		if n > 0 && h.chance(3) {
			pt[n-1] = byte(h.n(18))
		}
		key, kw, kc := h.guarded(h.bytes(kl))
		iv, iw, ic := h.guarded(h.bytes(il))
		p, pw, pc := h.guarded(pt)
		okKey := kl == 16 || kl == 24 || kl == 32
		h.count("", fmt.Sprintf("encrypt %d bytes, capacity %d, key of %d bytes, IV of %d bytes: %s", n, cap(p), kl, il, hx(pt)))
		var ct []byte
		var err error
		if pan := safe(func() { ct, err = aes.CBCEncrypt(key, iv, p) }); pan != "" {
			h.fail("encrypting %d bytes with a key of %d and an IV of %d bytes: %s", n, kl, il, pan)
		}
		if !bytes.Equal(kw, kc) || !bytes.Equal(iw, ic) || !bytes.Equal(pw, pc) {
			h.fail("encrypting %d bytes (capacity %d) writes to the memory of an argument", n, cap(p))
		}
		if (err == nil) != (okKey && il == 16) {
			h.fail("encrypting with a key of %d and an IV of %d bytes: error %v", kl, il, err)
		}
		if err != nil {
			if ct != nil {
				h.fail("encrypting gives an error and output")
			}
			continue
		}
		if want := refEnc(key, iv, pt); !bytes.Equal(ct, want) {
			h.fail("plaintext %s under key %s IV %s encrypts to %s instead of %s", hx(pt), hx(key), hx(iv), hx(ct), hx(want))
		}
		c, cw, cc := h.guarded(ct)
		var got []byte
		if pan := safe(func() { got, err = aes.CBCDecrypt(key, iv, c) }); pan != "" {
			h.fail("decrypting %d bytes: %s", len(c), pan)
		}
		if err != nil || !bytes.Equal(got, pt) {
			h.fail("plaintext %s under key %s IV %s comes back as %s, error %v", hx(pt), hx(key), hx(iv), hx(got), err)
		}
		if !bytes.Equal(kw, kc) || !bytes.Equal(iw, ic) || !bytes.Equal(cw, cc) {
			h.fail("decrypting %d bytes writes to the memory of an argument", len(c))
		}
		// the output is the caller's own
		if len(got) > 0 {
			got[0] ^= 1
		}
		keep("the plaintext", got)
		got = append(got, 1, 2, 3)
		ct[0] ^= 1
		keep("the ciphertext", ct)
		if !bytes.Equal(kw, kc) || !bytes.Equal(iw, ic) || !bytes.Equal(cw, cc) || !bytes.Equal(pw, pc) {
			h.fail("the output shares memory with an argument")
		}
		// last blocks with every padding value, and lengths which are no multiple
		raw := h.bytes(16 * (1 + h.n(4)))
		raw[len(raw)-1] = byte(h.n(256))
		if h.chance(2) {
			raw[len(raw)-1] = byte(h.n(20))
		}
		in := refRaw(key, iv, raw)
		if h.chance(4) {
			in = in[:h.n(len(in)+1)]
		}
		badIV := iv
		if h.chance(6) {
			badIV = h.bytes(h.n(34))
		}
		badKey := key
		if h.chance(6) {
			badKey = h.bytes(h.n(40))
		}
		okKey = len(badKey) == 16 || len(badKey) == 24 || len(badKey) == 32
		c, cw, cc = h.guarded(in)
		if pan := safe(func() { got, err = aes.CBCDecrypt(badKey, badIV, c) }); pan != "" {
			h.fail("decrypting %s with a key of %d and an IV of %d bytes: %s", hx(in), len(badKey), len(badIV), pan)
		}
		h.count("", fmt.Sprintf("decrypt %s, key of %d bytes, IV of %d bytes: %v", hx(in), len(badKey), len(badIV), err))
		if !bytes.Equal(cw, cc) {
			h.fail("decrypting %d bytes writes to the memory of an argument", len(c))
		}
		pad := int(raw[len(raw)-1])
		okAll := okKey && len(badIV) == 16 && len(in) > 0 && len(in)%16 == 0
		if okAll && len(in) == len(raw) && bytes.Equal(badIV, iv) && bytes.Equal(badKey, key) {
			if pad == 0 || pad > 16 {
				if err == nil {
					h.fail("a padding length of %d is accepted", pad)
				}
			} else if ok := bytes.Equal(raw[len(raw)-pad:], bytes.Repeat([]byte{byte(pad)}, pad)); ok && (err != nil || !bytes.Equal(got, raw[:len(raw)-pad])) {
				h.fail("padded plaintext %s comes back as %s, error %v", hx(raw), hx(got), err)
			}
		}
		if !okAll && err == nil {
			h.fail("decrypting %d bytes with a key of %d and an IV of %d bytes succeeds", len(in), len(badKey), len(badIV))
		}
		if err != nil && got != nil {
			h.fail("decrypting gives an error and output")
		}
	}
}
