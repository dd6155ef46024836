package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
)

func preBytes(m *message.PreKey, inner []byte, ident []byte) []byte {
	fs := []field{fv(5, uint64(m.RegistrationID())), fv(6, uint64(m.SignedPreKeyID())), fb(2, m.BaseKey().Bytes()), fb(3, ident), fb(4, inner)}
	if m.PreKeyID() != nil {
		fs = append([]field{fv(1, uint64(*m.PreKeyID()))}, fs...)
	}
	return append([]byte{m.Version()<<4 | 3}, encFields(fs...)...)
}

// expect is what the reference says about a message delivered to a record.
func expect(sts []*v1.SessionStructure, raw []byte) ([]byte, bool) {
	for _, st := range sts {
		pt, _, v, _ := refReceive(st, raw, nil)
		if v == vOK {
			return pt, true
		}
	}
	return nil, false
}

func TestVerifC01(t *testing.T) {
	h := begin(t, 40*time.Second, 300*time.Second)
	for h.more() {
		a, b, c := h.party("alice"), h.party("bob"), h.party("carol")
		if !h.connect(a, b, h.chance(2)) || !h.connect(c, b, false) {
			continue
		}
		if h.chance(3) {
			h.pingpong(a, b, h.n(3))
		}
		if h.chance(4) {
			// a second session, so that there is an archived one
			old := a.record(b)
			if !h.connect(a, b, h.chance(2)) {
				continue
			}
			if h.chance(2) {
				_ = a.sess.spySess.Store.Store(ctx, b.addr, old)
			}
		}
		for i := 0; i < 12; i++ {
			pt := h.plain()
			m, err := a.session(b).EncryptMessage(ctx, pt)
			if err != nil {
				break
			}
			s := signalOf(m)
			raw := append([]byte{}, s.Bytes()...)
			p, ok := parseSig(raw)
			if !ok {
				break
			}
			rec := b.record(a)
			sts := allStates(rec)
			_, _, _, mk := refReceive(sts[0], raw, nil)
			if mk.mac == nil {
				break
			}
			alice, bob, carol := a.id.IdentityKey().Bytes(), b.id.IdentityKey().Bytes(), c.id.IdentityKey().Bytes()
			kind := h.n(16)
			var bad []byte
			switch kind {
			case 0: // a flipped bit
				bad = append([]byte{}, raw...)
				j := h.n(len(bad))
				bad[j] ^= 1 << h.n(8)
			case 1: // a flipped bit in the authentication code
				bad = append([]byte{}, raw...)
				bad[len(bad)-1-h.n(8)] ^= 1 << h.n(8)
			case 2: // the wrong sender
				bad = sigBytes(p.version, p.ratchet, p.counter, p.prev, p.ct, mk.mac, carol, bob)
			case 3: // the wrong receiver
				bad = sigBytes(p.version, p.ratchet, p.counter, p.prev, p.ct, mk.mac, alice, carol)
			case 4: // swapped
				bad = sigBytes(p.version, p.ratchet, p.counter, p.prev, p.ct, mk.mac, bob, alice)
			case 5: // identities left out
				bad = append(append([]byte{}, p.body...), refHMAC(mk.mac, p.body)[:8]...)
			case 6: // the code of another key
				bad = sigBytes(p.version, p.ratchet, p.counter, p.prev, p.ct, h.bytes(32), alice, bob)
			case 7: // another version, authenticated
				bad = sigBytes(byte(4), p.ratchet, p.counter, p.prev, p.ct, mk.mac, alice, bob)
			case 8: // the same code for another previous counter
				bad = append(append([]byte{raw[0]}, encFields(fb(1, p.ratchet), fv(2, uint64(p.counter)), fv(3, uint64(p.prev)+1), fb(4, p.ct))...), p.mac...)
			case 9: // another counter, code of this one
				bad = sigBytes(p.version, p.ratchet, p.counter+1, p.prev, p.ct, mk.mac, alice, bob)
			case 10: // no ciphertext, padding
				bad = sigBytes(p.version, p.ratchet, p.counter, p.prev, refRaw(mk.cipher, mk.iv, make([]byte, 16)), mk.mac, alice, bob)
			case 11: // a long last byte
				bad = sigBytes(p.version, p.ratchet, p.counter, p.prev, refRaw(mk.cipher, mk.iv, bytes.Repeat([]byte{200}, 32)), mk.mac, alice, bob)
			case 12: // odd length
				bad = sigBytes(p.version, p.ratchet, p.counter, p.prev, p.ct[:len(p.ct)-1], mk.mac, alice, bob)
			case 13: // a new ratchet key
				bad = sigBytes(p.version, h.kp().PublicKey().Bytes(), p.counter, p.prev, p.ct, mk.mac, alice, bob)
			case 14: // a flipped bit in the ciphertext only
				bad = append([]byte{}, raw...)
				bad[len(bad)-9-h.n(len(p.ct))] ^= 1 << h.n(8)
			case 15: // code of all zero, short code
				bad = append(append([]byte{}, p.body...), make([]byte, 8)...)
				copy(bad[len(p.body):], p.mac[:h.n(8)])
			}
			var msg message.Ciphertext
			ident := alice
			if pre, ok := m.(*message.PreKey); ok && h.chance(2) {
				x, err := message.NewPreKeyFromBytes(preBytes(pre, bad, ident))
				if err != nil {
					continue
				}
				msg = x
			} else {
				x := h.sig(bad)
				if x == nil {
					continue
				}
				msg = x
			}
			want, ok := expect(sts, bad)
			var got []byte
			pan := safe(func() { got, err = b.session(a).DecryptMessage(ctx, h, msg) })
			h.count(fmt.Sprint(kind, len(bad), ok), fmt.Sprintf("kind %d, message %s: %v", kind, hx(bad), err))
			if pan != "" {
				continue
			}
			if err == nil && !ok {
				h.fail("message %s (kind %d) is not authentic, yet decrypts to %q; state %s", hx(bad), kind, got, detBytes(rec.State()))
			}
			if err == nil && !bytes.Equal(got, want) {
				h.fail("message %s decrypts to %x instead of %x", hx(bad), got, want)
			}
			if err != nil && len(got) > 0 {
				h.fail("message %s (kind %d): error %v with plaintext %x", hx(bad), kind, err, got)
			}
			if err == nil {
				continue
			}
			// the genuine one
			pan = safe(func() { got, err = b.session(a).DecryptMessage(ctx, h, m) })
			if pan == "" && err == nil {
				if want, ok := expect(sts, raw); !ok || !bytes.Equal(got, want) || !bytes.Equal(got, pt) {
					h.fail("message %s decrypts to %x instead of %x", hx(raw), got, pt)
				}
			}
		}
	}
}
