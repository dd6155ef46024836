package verifdrv

import (
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

// TestVerifC22: in-memory stores.
func TestVerifC22(t *testing.T) {
	h := begin(t, 20*time.Second, 120*time.Second)
	for h.more() {
		me, reg := h.idkp(), h.u32()
		st := protocol.NewInMemStore(me, reg)
		ss, is, ps, sps, gs := st.SessionStore(), st.IdentityStore(), st.PreKeyStore(), st.SignedPreKeyStore(), st.GroupStore()
		if h.chance(2) {
			ss, is, ps, sps, gs = session.NewInMemStore(), identity.NewInMemStore(me, reg), prekey.NewInMemStore(), prekey.NewInMemSignedStore(), session.NewInMemGroupStore()
		}
		ads := []address.Address{{Name: "a", DeviceID: 1}, {Name: "a", DeviceID: 11}, {Name: "a1", DeviceID: 1}, {Name: "a:1", DeviceID: 1}, {Name: "", DeviceID: 0}, {Name: "A", DeviceID: 1}, {Name: "a", DeviceID: 0x80000001}, {Name: "a.1", DeviceID: 1}, {Name: "a 1", DeviceID: 1}}
		ids := []prekey.ID{0, 1, 2, 255, 256, 257, 65536, 65537, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff}
		base := h.bytes(16)
		ds := []distribution.ID{}
		for i := 0; i < 3; i++ {
			b := append([]byte{}, base...)
			if i > 0 {
				b[[]int{0, 15, 0}[i]] ^= 1
			}
			ds = append(ds, distribution.MustParse(fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])))
		}
		mi, ms, mp, msp, mg := map[address.Address]identity.Key{}, map[address.Address]string{}, map[prekey.ID]string{}, map[prekey.ID]string{}, map[string]string{}
		keys := []identity.Key{h.idkp().IdentityKey(), h.idkp().IdentityKey(), me.IdentityKey()}
		var hist []string
		for i := 0; i < 40; i++ {
			a, id, d := ads[h.n(len(ads))], ids[h.n(len(ids))], ds[h.n(3)]
			if h.chance(2) {
				a, id, d = ads[h.n(2)], ids[h.n(3)], ds[h.n(2)]
			}
			switch h.n(9) {
			case 0:
				b := h.bytes(20)
				r := session.NewRecord(session.NewState(&v1.SessionStructure{SessionVersion: 3, AliceBaseKey: b}))
				if h.chance(3) {
					r.PromoteState(session.NewState(&v1.SessionStructure{SessionVersion: 3, AliceBaseKey: h.bytes(20)}))
				}
				ms[a] = snapRec(r)
				h.must(ss.Store(ctx, a, r), "Store")
				hist = append(hist, fmt.Sprintf("session %v = %s", a, hx(b[:2])))
			case 1, 2:
				k := keys[h.n(3)]
				old, known := mi[a]
				ch, err := is.Store(ctx, a, k)
				h.must(err, "Store")
				hist = append(hist, fmt.Sprintf("identity %v = %s: %v", a, hx(k.Bytes()[:4]), ch))
				if ch != (known && hx(old.Bytes()) != hx(k.Bytes())) {
					h.fail("after %v storing the identity reports a change: %v", hist, ch)
				}
				mi[a] = k
			case 3:
				k := h.kp()
				h.must(ps.Store(ctx, id, prekey.NewPreKey(id, k)), "Store")
				mp[id] = hx(k.PrivateKey().Bytes())
				hist = append(hist, fmt.Sprintf("pre-key %d", uint32(id)))
			case 4:
				h.must(ps.Delete(ctx, id), "Delete")
				delete(mp, id)
				hist = append(hist, fmt.Sprintf("delete pre-key %d", uint32(id)))
			case 5:
				k := h.kp()
				h.must(sps.Store(ctx, id, prekey.NewSigned(id, 7, k, h.bytes(64))), "Store")
				msp[id] = hx(k.PrivateKey().Bytes())
				hist = append(hist, fmt.Sprintf("signed pre-key %d", uint32(id)))
			case 6, 7:
				r := session.NewGroupRecord()
				seed := h.bytes(32)
				h.must(r.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(h.n(4)), Iteration: h.u32(), ChainKey: seed, SignatureKey: h.kp().PublicKey()})), "AddState")
				h.must(gs.Store(ctx, a, d, r), "Store")
				mg[fmt.Sprint(a, d)] = hx(seed)
				hist = append(hist, fmt.Sprintf("group %v %v", a, d))
			case 8:
				if h.chance(4) {
					h.must(is.Clear(), "Clear")
					mi = map[address.Address]identity.Key{}
					hist = append(hist, "clear identities")
				}
			}
			h.count("", fmt.Sprint(hist))
			if hx(is.KeyPair(ctx).PrivateKey().Bytes()) != hx(me.PrivateKey().Bytes()) || hx(is.KeyPair(ctx).IdentityKey().Bytes()) != hx(me.IdentityKey().Bytes()) || is.LocalRegistrationID(ctx) != reg {
				h.fail("after %v the identity store has another key pair or registration %d instead of %d", hist, is.LocalRegistrationID(ctx), reg)
			}
			for _, a := range ads {
				r, ok, err := ss.Load(ctx, a)
				w, known := ms[a]
				if err != nil || ok != known || ok && snapRec(r) != w {
					h.fail("after %v the session of %v is %v %s instead of %v %s, error %v", hist, a, ok, snapRec(r), known, w, err)
				}
				k, ok, err := is.Load(ctx, a)
				wk, known := mi[a]
				if err != nil || ok != known || ok && hx(k.Bytes()) != hx(wk.Bytes()) {
					h.fail("after %v the identity of %v is known: %v, error %v", hist, a, ok, err)
				}
				for _, q := range keys {
					for _, dir := range []direction.Direction{direction.Sending, direction.Receiving} {
						tr, err := is.IsTrustedIdentity(ctx, a, q, dir)
						if err != nil || tr != (!known || hx(q.Bytes()) == hx(wk.Bytes())) {
							h.fail("after %v identity %s of %v is trusted: %v, error %v", hist, hx(q.Bytes()), a, tr, err)
						}
					}
				}
				for _, d := range ds {
					r, ok, err := gs.Load(ctx, a, d)
					w, known := mg[fmt.Sprint(a, d)]
					if err != nil || ok != known {
						h.fail("after %v the group record of %v %v is there: %v, error %v", hist, a, d, ok, err)
					}
					if ok {
						s, err := r.State()
						h.must(err, "State")
						if hx(s.SenderChainKey().Seed()) != w {
							h.fail("after %v the group record of %v %v is another", hist, a, d)
						}
					}
				}
			}
			for _, id := range ids {
				r, ok, err := ps.Load(ctx, id)
				w, known := mp[id]
				if err != nil || ok != known {
					h.fail("after %v pre-key %d is there: %v, error %v", hist, uint32(id), ok, err)
				}
				if ok {
					k, err := r.KeyPair()
					if err != nil || hx(k.PrivateKey().Bytes()) != w {
						h.fail("after %v pre-key %d is another", hist, uint32(id))
					}
				}
				s, ok, err := sps.Load(ctx, id)
				w, known = msp[id]
				if err != nil || ok != known {
					h.fail("after %v signed pre-key %d is there: %v, error %v", hist, uint32(id), ok, err)
				}
				if ok {
					k, err := s.KeyPair()
					if err != nil || hx(k.PrivateKey().Bytes()) != w {
						h.fail("after %v signed pre-key %d is another", hist, uint32(id))
					}
				}
			}
		}
	}
}
