package verifdrv

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

func (p *party) left() string {
	o := []string{}
	for _, id := range sortedIDs(p.pkIDs) {
		if k, ok, err := p.pk.pkStore.Store.Load(ctx, id); err == nil && ok && k != nil {
			o = append(o, fmt.Sprint(uint32(id)))
		}
	}
	return strings.Join(o, " ")
}

// TestVerifC20: a one-time pre-key is consumed exactly when used.
func TestVerifC20(t *testing.T) {
	h := begin(t, 40*time.Second, 220*time.Second)
	for h.more() {
		a, c, b := h.party("alice"), h.party("carol"), h.party("bob")
		for i := 0; i < h.n(4); i++ {
			b.bundle(true)
		}
		var prev []message.Ciphertext
		for i := 0; i < 4; i++ {
			x := a
			if h.chance(4) {
				x = c
			}
			withPK := h.n(4) > 0
			bn := b.bundle(withPK)
			if x.session(b).ProcessPreKeyBundle(ctx, h, bn) != nil {
				break
			}
			m0, err := x.session(b).EncryptMessage(ctx, h.plain())
			if err != nil {
				break
			}
			m, ok := m0.(*message.PreKey)
			if !ok {
				break
			}
			m1, err := x.session(b).EncryptMessage(ctx, h.plain())
			if err != nil {
				break
			}
			use := m
			what := "genuine"
			wantErr := false
			kind := h.n(9)
			fs := func(inner []byte, spk uint64, pk *uint64) *message.PreKey {
				f := []field{fv(5, uint64(m.RegistrationID())), fv(6, spk), fb(2, m.BaseKey().Bytes()), fb(3, m.IdentityKey().Bytes()), fb(4, inner)}
				if pk != nil {
					f = append(f, fv(1, *pk))
				}
				y, err := message.NewPreKeyFromBytes(append([]byte{0x33}, encFields(f...)...))
				if err != nil {
					return nil
				}
				return y.(*message.PreKey)
			}
			var pkid *uint64
			if m.PreKeyID() != nil {
				v := uint64(*m.PreKeyID())
				pkid = &v
			}
			inner := m.Message().Bytes()
			switch kind {
			case 0: // changed inner message
				in := append([]byte{}, inner...)
				in[len(in)-1-h.n(8)] ^= 1 << h.n(8)
				use, what, wantErr = fs(in, uint64(m.SignedPreKeyID()), pkid), "one with a changed authentication code", true
			case 1: // names a missing one-time pre-key
				v := uint64(h.r.Uint32())
				for b.pkIDs[prekey.ID(v)] != nil {
					v = uint64(h.r.Uint32())
				}
				if h.chance(2) && pkid != nil { // or the right one, which is gone
					v = *pkid
					_ = b.pk.pkStore.Store.Delete(ctx, prekey.ID(v))
				}
				use, what, wantErr = fs(inner, uint64(m.SignedPreKeyID()), &v), "one naming a missing one-time pre-key", true
			case 2: // a missing signed pre-key
				v := uint64(h.r.Uint32())
				for b.spkIDs[prekey.ID(v)] != nil {
					v = uint64(h.r.Uint32())
				}
				use, what, wantErr = fs(inner, v, pkid), "one naming a missing signed pre-key", true
			case 3: // another one-time pre-key
				ids := sortedIDs(b.pkIDs)
				if len(ids) == 0 {
					continue
				}
				v := uint64(ids[h.n(len(ids))])
				if pkid != nil && v == *pkid {
					continue
				}
				use, what, wantErr = fs(inner, uint64(m.SignedPreKeyID()), &v), "one naming another one-time pre-key", true
			case 4: // none
				if pkid == nil {
					continue
				}
				use, what, wantErr = fs(inner, uint64(m.SignedPreKeyID()), nil), "one whose one-time pre-key is left out", true
			}
			if use == nil {
				continue
			}
			*b.spy = spy{}
			if kind == 5 || kind == 6 {
				b.spy.failAt = 1 + h.n(8)
				what = fmt.Sprintf("genuine, while store call %d fails", b.spy.failAt)
			}
			before := b.left()
			var id *prekey.ID
			if use.PreKeyID() != nil {
				v := *use.PreKeyID()
				id = &v
			}
			pan := safe(func() { _, err = b.session(x).DecryptMessage(ctx, h, use) })
			if pan != "" {
				break
			}
			h.count("", fmt.Sprintf("%s, one-time pre-key %v, left %s: %v, calls %v", what, id, before, err, b.spy.log))
			after := b.left()
			if wantErr && err == nil {
				h.fail("a pre-key message (%s) is accepted; calls %v", what, b.spy.log)
			}
			deletes, stores := []int{}, []int{}
			for j, l := range b.spy.log {
				if strings.HasPrefix(l, "pk.Delete") {
					deletes = append(deletes, j)
				}
				if strings.HasPrefix(l, "sess.Store") {
					stores = append(stores, j)
				}
			}
			if err != nil {
				if len(deletes) > 0 && b.spy.failAt == 0 || before != after {
					h.fail("a pre-key message (%s) which fails (%v) deletes a one-time pre-key: left %s of %s; calls %v", what, err, after, before, b.spy.log)
				}
				if len(deletes) > 1 || len(deletes) == 1 && b.spy.failAt != deletes[0]+1 {
					h.fail("a pre-key message (%s) which fails (%v) deletes a one-time pre-key; calls %v", what, err, b.spy.log)
				}
				*b.spy = spy{}
				continue
			}
			if id == nil {
				if len(deletes) > 0 || before != after {
					h.fail("a pre-key message without a one-time pre-key deletes one; calls %v", b.spy.log)
				}
			} else {
				var want []string
				for _, s := range strings.Fields(before) {
					if s != fmt.Sprint(uint32(*id)) {
						want = append(want, s)
					}
				}
				if after != strings.Join(want, " ") || len(deletes) != 1 {
					h.fail("a pre-key message with one-time pre-key %d leaves %s of %s; calls %v", uint32(*id), after, before, b.spy.log)
				}
				if len(stores) == 0 || stores[len(stores)-1] > deletes[0] {
					h.fail("one-time pre-key %d is deleted before the session is stored; calls %v", uint32(*id), b.spy.log)
				}
			}
			// more messages of the same session, and old ones, delete nothing, even when a new key has the identifier
			if id != nil && h.chance(2) {
				k := h.kp()
				_ = b.pk.pkStore.Store.Store(ctx, *id, prekey.NewPreKey(*id, k))
			}
			prev = append(prev, m1)
			for _, q := range []message.Ciphertext{m, m1, prev[h.n(len(prev))]} {
				*b.spy = spy{}
				before := b.left()
				if pan := safe(func() { _, err = b.session(x).DecryptMessage(ctx, h, q) }); pan != "" {
					break
				}
				h.count("", fmt.Sprintf("again in a known session: %v", err))
				after := b.left()
				if x == a || err != nil || q != prev[0] {
					if before != after {
						h.fail("a pre-key message of a known session leaves one-time pre-keys %s of %s; calls %v", after, before, b.spy.log)
					}
				}
			}
			*b.spy = spy{}
		}
	}
}
