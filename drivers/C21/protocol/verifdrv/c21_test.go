package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

// TestVerifC21: pre-key messages repeat until acknowledged. Bundles here name no one-time pre-key 0,
// which is a known finding.
func TestVerifC21(t *testing.T) {
	h := begin(t, 35*time.Second, 200*time.Second)
	for h.more() {
		a, b := h.party("alice"), h.party("bob")
		var pending *prekey.Bundle // of a
		var base []byte
		var toB []message.Ciphertext // not yet delivered, of the current session
		var hist []string
		started, delivered := false, false
		for i := 0; i < 30; i++ {
			op := h.n(12)
			if !started {
				op = 0
			}
			switch {
			case op == 0 && (!started || h.chance(3)):
				bn := b.bundle(h.chance(2))
				if a.session(b).ProcessPreKeyBundle(ctx, h, bn) != nil {
					return
				}
				pending, started, delivered, toB = bn, true, false, nil
				base = append([]byte{}, a.record(b).State().AliceBaseKey()...)
				hist = append(hist, "start")
			case op < 6: // a sends
				m, err := a.session(b).EncryptMessage(ctx, h.plain())
				if err != nil {
					return
				}
				hist = append(hist, fmt.Sprintf("send %T", m))
				h.count("", fmt.Sprint(hist))
				p, isPre := m.(*message.PreKey)
				if isPre != (pending != nil) {
					h.fail("after %v the message is a pre-key message: %v, acknowledged: %v", hist, isPre, pending == nil)
				}
				toB = append(toB, m)
				if pending == nil {
					break
				}
				okID := (p.PreKeyID() == nil) == (pending.PreKeyID == nil) && (p.PreKeyID() == nil || *p.PreKeyID() == *pending.PreKeyID)
				if p.RegistrationID() != a.reg || p.SignedPreKeyID() != pending.SignedPreKeyID || !okID || !bytes.Equal(p.BaseKey().Bytes(), base) || !bytes.Equal(p.IdentityKey().Bytes(), a.id.IdentityKey().Bytes()) {
					h.fail("after %v the pre-key message carries registration %d (%d), signed pre-key %d (%d), one-time pre-key right: %v, base key %s (%s), identity %s", hist, p.RegistrationID(), a.reg, p.SignedPreKeyID(), pending.SignedPreKeyID, okID, hx(p.BaseKey().Bytes()), hx(base), hx(p.IdentityKey().Bytes()))
				}
			case op < 8: // b receives
				if len(toB) == 0 {
					continue
				}
				at := h.n(len(toB))
				var err error
				if pan := safe(func() { _, err = b.session(a).DecryptMessage(ctx, h, toB[at]) }); pan != "" || err != nil {
					return
				}
				toB = append(toB[:at], toB[at+1:]...)
				delivered = true
				hist = append(hist, "deliver")
			case op < 10: // b answers
				if !delivered {
					continue
				}
				m, err := b.session(a).EncryptMessage(ctx, h.plain())
				if err != nil {
					return
				}
				if _, isPre := m.(*message.PreKey); isPre {
					h.fail("after %v the one who received sends a pre-key message", hist)
				}
				lost := h.chance(3)
				if h.chance(3) { // changed on the way
					raw := append([]byte{}, m.Bytes()...)
					raw[len(raw)-1-h.n(8)] ^= 1 << h.n(8)
					if s := h.sig(raw); s != nil {
						var err error
						safe(func() { _, err = a.session(b).DecryptMessage(ctx, h, s) })
						if err == nil {
							return
						}
						hist = append(hist, "changed answer")
					}
				}
				if lost {
					hist = append(hist, "lost answer")
					continue
				}
				if pan := safe(func() { _, err = a.session(b).DecryptMessage(ctx, h, m) }); pan != "" || err != nil {
					return
				}
				pending = nil
				hist = append(hist, "answer")
			case op == 10: // a bundle which is refused
				bn := b.bundle(true)
				bn.SignedPreKeySignature = append([]byte{}, bn.SignedPreKeySignature...)
				bn.SignedPreKeySignature[h.n(64)] ^= 1
				if a.session(b).ProcessPreKeyBundle(ctx, h, bn) == nil {
					return
				}
				hist = append(hist, "refused bundle")
			case op == 11: // a store call fails while sending
				*a.spy = spy{failAt: 1 + h.n(4)}
				var err error
				safe(func() { _, err = a.session(b).EncryptMessage(ctx, h.plain()) })
				*a.spy = spy{}
				if err == nil {
					return
				}
				hist = append(hist, "failed send")
			}
		}
	}
}
