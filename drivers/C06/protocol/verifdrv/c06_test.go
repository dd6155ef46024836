package verifdrv

import (
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
)

func TestVerifC06(t *testing.T) {
	h := begin(t, 40*time.Second, 200*time.Second)
	for it := 0; h.more(); it++ {
		a, b, c := h.party("alice"), h.party("bob"), h.party("carol")
		if !h.connect(a, b, h.chance(2)) {
			continue
		}
		if h.chance(2) {
			h.pingpong(a, b, 1+h.n(2))
		}
		// who acts, on whom, with which operation
		op := h.n(6)
		x, y := a, b
		if h.chance(2) {
			x, y = b, a
		}
		var run func() ([]byte, message.Ciphertext, error)
		key := y.id.IdentityKey().Bytes() // the key the operation uses
		var dir direction.Direction = direction.Sending
		what := ""
		switch op {
		case 0:
			what = "encrypting"
			run = func() ([]byte, message.Ciphertext, error) {
				m, err := x.session(y).EncryptMessage(ctx, []byte("secret"))
				return nil, m, err
			}
		case 1:
			what, dir = "decrypting a Signal message", direction.Receiving
			m, err := y.session(x).EncryptMessage(ctx, []byte("secret"))
			if err != nil {
				continue
			}
			s := signalOf(m)
			run = func() ([]byte, message.Ciphertext, error) {
				pt, err := x.session(y).DecryptMessage(ctx, h, s)
				return pt, nil, err
			}
		case 2:
			what = "processing a bundle"
			bn := y.bundle(h.chance(2))
			run = func() ([]byte, message.Ciphertext, error) {
				return nil, nil, x.session(y).ProcessPreKeyBundle(ctx, h, bn)
			}
		case 3:
			what, dir = "decrypting a pre-key message", direction.Receiving
			if y.session(x).ProcessPreKeyBundle(ctx, h, x.bundle(h.chance(2))) != nil {
				continue
			}
			m, err := y.session(x).EncryptMessage(ctx, []byte("secret"))
			if err != nil {
				continue
			}
			run = func() ([]byte, message.Ciphertext, error) {
				pt, err := x.session(y).DecryptMessage(ctx, h, m)
				return pt, nil, err
			}
		case 4:
			// bob's address suddenly has carol's identity: a session with the new key, or a bundle
			what = "processing a bundle with another identity"
			bn := c.bundle(true)
			key = c.id.IdentityKey().Bytes()
			run = func() ([]byte, message.Ciphertext, error) {
				return nil, nil, x.session(y).ProcessPreKeyBundle(ctx, h, bn)
			}
		case 5:
			// a pre-key message of a known session which names another identity
			what, dir = "decrypting a pre-key message which names another identity", direction.Receiving
			if y.session(x).ProcessPreKeyBundle(ctx, h, x.bundle(true)) != nil {
				continue
			}
			m, err := y.session(x).EncryptMessage(ctx, []byte("secret"))
			if err != nil {
				continue
			}
			p, ok := m.(*message.PreKey)
			if !ok {
				continue
			}
			if _, err := x.session(y).DecryptMessage(ctx, h, p); err != nil {
				continue
			}
			m, err = y.session(x).EncryptMessage(ctx, []byte("secret"))
			if err != nil {
				continue
			}
			p, ok = m.(*message.PreKey)
			if !ok {
				continue
			}
			fs := []field{fv(5, uint64(p.RegistrationID())), fv(6, uint64(p.SignedPreKeyID())), fb(2, p.BaseKey().Bytes()), fb(3, c.id.IdentityKey().Bytes()), fb(4, p.Message().Bytes())}
			f, err := message.NewPreKeyFromBytes(append([]byte{p.Version()<<4 | 3}, encFields(fs...)...))
			if err != nil {
				continue
			}
			real := y.id.IdentityKey().Bytes()
			x.ids.policy = func(_ address.Address, k identity.Key, _ direction.Direction) (bool, error) {
				return hx(k.Bytes()) != hx(real), nil
			}
			before := x.snap(y)
			var pt []byte
			pan := safe(func() { pt, err = x.session(y).DecryptMessage(ctx, h, f) })
			x.ids.policy = nil
			h.count("", fmt.Sprintf("%s: %v %s", what, err, pan))
			if pan == "" && (err == nil || len(pt) > 0 || x.snap(y) != before) {
				h.fail("a pre-key message of the session with untrusted key %s naming the trusted key %s is accepted (%q, %v)", hx(real), hx(c.id.IdentityKey().Bytes()), pt, err)
			}
			continue
		}
		// the answer of the identity store
		mode := h.n(5)
		x.ids.asked, x.ids.stored = nil, nil
		x.ids.policy = func(ad address.Address, k identity.Key, d direction.Direction) (bool, error) {
			switch mode {
			case 0: // only this key, address and direction are refused
				return !(ad == y.addr && hx(k.Bytes()) == hx(key) && d == dir), nil
			case 1:
				return false, nil
			case 2:
				return true, errInjected
			}
			return true, nil // trusted
		}
		if mode == 4 { // the store in memory decides; it trusts the key it has
			x.ids.policy = nil
		}
		refuse := mode < 3 || mode == 4 && op == 4
		before := x.snap(y, c)
		*x.spy = spy{}
		var pt []byte
		var m message.Ciphertext
		var err error
		pan := safe(func() { pt, m, err = run() })
		log := fmt.Sprint(x.spy.log)
		h.count("", fmt.Sprintf("%s, answer %d: %v %s", what, mode, err, pan))
		x.ids.policy = nil
		if pan != "" {
			continue
		}
		after := x.snap(y, c)
		if refuse {
			if err == nil {
				h.fail("%s with the identity key %s of %v, direction %v, succeeds although the store's answer is: %s; store calls: %s", what, hx(key), y.addr, dir, []string{"this key is not trusted", "nothing is trusted", "error", "", "another key is known"}[mode], log)
			}
			if len(pt) > 0 || m != nil {
				h.fail("%s with an untrusted identity: error %v, but data is returned", what, err)
			}
			if before != after {
				h.fail("%s with an untrusted identity (answer %d) changes the stores; calls: %s", what, mode, log)
			}
		} else if err == nil {
			ok := false
			for _, q := range x.ids.asked {
				if q.a == y.addr && q.k == hx(key) && q.dir == dir {
					ok = true
				}
			}
			if !ok {
				h.fail("%s: the store was never asked about key %s, address %v, direction %v, but about %v", what, hx(key), y.addr, dir, x.ids.asked)
			}
			for _, q := range x.ids.stored {
				if q.a != y.addr || q.k != hx(key) {
					h.fail("%s: key %s of %v is stored, the session uses key %s of %v", what, q.k, q.a, hx(key), y.addr)
				}
			}
			if mode == 4 && hx(key) != hx(y.id.IdentityKey().Bytes()) {
				h.fail("%s: another key than the known one is accepted", what)
			}
			if k, ok, _ := x.ids.in.Load(ctx, y.addr); !ok || hx(k.Bytes()) != hx(key) {
				h.fail("%s: the key of %v is not stored", what, y.addr)
			}
		}
	}
}
