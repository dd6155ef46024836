package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"
)

// receiver gives b a record with the given state.
func (b *party) setState(a *party, st *v1.SessionStructure) bool {
	raw, err := proto.Marshal(st)
	if err != nil {
		return false
	}
	r, err := session.NewRecordBytes(raw)
	if err != nil {
		return false
	}
	return b.sess.spySess.Store.Store(ctx, a.addr, r) == nil
}

func chainStr(c *v1.SessionStructure_Chain) string {
	if c == nil {
		return "none"
	}
	s := fmt.Sprintf("key %s at %d %s;", hx(c.SenderRatchetKey), c.GetChainKey().GetIndex(), hx(c.GetChainKey().GetKey()))
	for _, k := range c.MessageKeys {
		s += fmt.Sprintf(" %d:%s", k.GetIndex(), hx(k.GetMacKey())[:6])
	}
	if len(s) > 500 {
		s = s[:300] + "..." + s[len(s)-150:]
	}
	return s
}

func TestVerifC03(t *testing.T) {
	h := begin(t, 60*time.Second, 400*time.Second)
	// deliver compares one delivery with the reference.
	deliver := func(a, b *party, raw []byte, what string) bool {
		st := stateOf(b.record(a))
		if st == nil {
			return false
		}
		m := h.sig(raw)
		if m == nil {
			return false
		}
		want, _, v, _ := refReceive(st, raw, nil)
		var got []byte
		var err error
		pan := safe(func() { got, err = b.session(a).DecryptMessage(ctx, h, m) })
		h.count("", fmt.Sprintf("%s, counter %d: reference says %v, got %v %s", what, m.Counter(), v, err, pan))
		if pan != "" {
			if v == vOK {
				h.fail("%s: counter %d must be readable: %s", what, m.Counter(), pan)
			}
			return false
		}
		if v == vOK && err != nil {
			h.fail("%s: the message with counter %d is within the limits but refused: %v; its chain: %s", what, m.Counter(), err, chainStr(findChain(st, m.SenderRatchetKey().Bytes())))
		}
		if v == vOK && !bytes.Equal(got, want) {
			h.fail("%s: the message with counter %d decrypts to %x instead of %x", what, m.Counter(), got, want)
		}
		if v == vFar && err == nil {
			h.fail("%s: the message with counter %d skips more than 25000 messages but is accepted", what, m.Counter())
		}
		if v == vDup && err == nil {
			return false // not this property
		}
		if v == vOK {
			st2 := stateOf(b.record(a))
			_, ref, _, _ := refReceive(st, raw, st2.GetSenderChain().GetSenderRatchetKeyPrivate())
			if len(st2.ReceiverChains) != len(ref.ReceiverChains) {
				h.fail("%s: %d receiving chains are kept after counter %d, must be %d", what, len(st2.ReceiverChains), m.Counter(), len(ref.ReceiverChains))
			}
			for i := range ref.ReceiverChains {
				if !proto.Equal(ref.ReceiverChains[i], st2.ReceiverChains[i]) {
					x, y := ref.ReceiverChains[i], st2.ReceiverChains[i]
					h.fail("%s: after counter %d receiving chain %d is {%s}, must be {%s} (%d saved keys, must be %d)", what, m.Counter(), i, chainStr(y), chainStr(x), len(y.MessageKeys), len(x.MessageKeys))
				}
			}
		}
		return true
	}
	for it := 0; h.more(); it++ {
		if it%3 == 0 {
			h.sessions()
		}
		a, b := h.party("alice"), h.party("bob")
		self := h.chance(5)
		if self {
			b.id = a.id
			b.ids.in = a.ids.in
		}
		if !h.connect(a, b, h.chance(2)) {
			continue
		}
		switch it % 7 {
		case 0: // shuffled conversation
			type q struct{ raw []byte }
			var pend [][]byte
			for r := 0; r < 1+h.n(9); r++ {
				for i := 0; i < 1+h.n(7); i++ {
					m, err := a.session(b).EncryptMessage(ctx, h.plain())
					if err != nil {
						break
					}
					pend = append(pend, signalOf(m).Bytes())
				}
				n := h.n(len(pend) + 1)
				for i := 0; i < n && len(pend) > 0; i++ {
					j := h.n(len(pend))
					if h.chance(3) {
						j = len(pend) - 1
					}
					if !deliver(a, b, pend[j], fmt.Sprintf("shuffled conversation, round %d", r)) {
						break
					}
					pend = append(pend[:j], pend[j+1:]...)
				}
				if m, err := b.session(a).EncryptMessage(ctx, []byte("z")); err == nil {
					if _, err := a.session(b).DecryptMessage(ctx, h, m); err != nil {
						break
					}
				}
			}
			for _, p := range pend {
				if !deliver(a, b, p, "left over") {
					break
				}
			}
		case 1: // jumps at the limit
			st := stateOf(b.record(a))
			if st == nil || len(st.ReceiverChains) == 0 {
				continue
			}
			ch := st.ReceiverChains[len(st.ReceiverChains)-1]
			if h.chance(3) { // a chain nothing was received on
				if _, _, err := h.say(b, a, []byte("turn")); err != nil {
					continue
				}
				m, err := a.session(b).EncryptMessage(ctx, []byte("new chain"))
				if err != nil {
					continue
				}
				_, st3, v, _ := refReceive(st, signalOf(m).Bytes(), nil)
				if v != vOK {
					continue
				}
				ch = st3.ReceiverChains[len(st3.ReceiverChains)-1]
				ch.ChainKey = newChain(st, ch.SenderRatchetKey)
			}
			d := []uint32{25000, 25001, 24999, 25002, 26000, 2000, 2001, 30000, uint32(h.n(26000))}[h.n(9)]
			raw := forge(st, ch, ch.ChainKey.Index+d, h.plain())
			if raw == nil || !deliver(a, b, raw, fmt.Sprintf("jump of %d, self %v", d, self)) {
				continue
			}
			st2 := stateOf(b.record(a))
			for _, back := range []uint32{1, 2, 1999, 2000, 2001, uint32(h.n(2000)) + 1, uint32(h.n(2000)) + 1} {
				if back > d {
					continue
				}
				raw := forge(st, ch, ch.ChainKey.Index+d-back, h.plain())
				if !deliver(a, b, raw, fmt.Sprintf("%d before a jump of %d", back, d)) {
					break
				}
			}
			_ = st2
		case 2: // several jumps and stragglers
			st := stateOf(b.record(a))
			if st == nil || len(st.ReceiverChains) == 0 {
				continue
			}
			ch := proto.Clone(st.ReceiverChains[len(st.ReceiverChains)-1]).(*v1.SessionStructure_Chain)
			at := ch.ChainKey.Index
			for i := 0; i < 12; i++ {
				c := at + uint32(h.n(40))
				if h.chance(2) && at > 0 {
					c = uint32(h.n(int(at)))
				}
				if h.chance(6) {
					c = at + uint32(h.n(1500))
				}
				if c < ch.ChainKey.Index {
					continue
				}
				raw := forge(st, ch, c, h.plain())
				if !deliver(a, b, raw, "several jumps") {
					break
				}
				if c >= at {
					at = c + 1
				}
			}
		case 3, 4: // many chains
			var held [][]byte
			for r := 0; r < 7; r++ {
				for i := 0; i < 2; i++ {
					if m, err := a.session(b).EncryptMessage(ctx, h.plain()); err == nil {
						held = append(held, signalOf(m).Bytes())
					}
				}
				m, err := a.session(b).EncryptMessage(ctx, h.plain())
				if err != nil || !deliver(a, b, signalOf(m).Bytes(), "many chains") {
					break
				}
				if h.chance(4) && len(held) > 0 {
					j := h.n(len(held))
					deliver(a, b, held[j], "an older chain")
				}
				if _, _, err := h.say(b, a, []byte("turn")); err != nil {
					break
				}
			}
			for i := len(held) - 1; i >= 0; i-- {
				if !deliver(a, b, held[i], fmt.Sprintf("message %d of %d on earlier chains", i, len(held))) {
					break
				}
			}
		case 6: // many keys on several chains
			for r := 0; r < 3; r++ {
				m, err := a.session(b).EncryptMessage(ctx, h.plain())
				if err != nil || !deliver(a, b, signalOf(m).Bytes(), "the start of a chain") {
					break
				}
				st := stateOf(b.record(a))
				if st == nil || len(st.ReceiverChains) == 0 {
					break
				}
				ch := st.ReceiverChains[len(st.ReceiverChains)-1]
				if ch.ChainKey == nil || !deliver(a, b, forge(st, ch, ch.ChainKey.Index+uint32(700+h.n(1200)), h.plain()), "a jump on each of several chains") {
					break
				}
				if _, _, err := h.say(b, a, []byte("turn")); err != nil {
					break
				}
			}
			if st := stateOf(b.record(a)); st != nil {
				for i := 0; i < 6; i++ {
					ch := st.ReceiverChains[h.n(len(st.ReceiverChains))]
					if len(ch.MessageKeys) == 0 {
						continue
					}
					k := ch.MessageKeys[h.n(len(ch.MessageKeys))]
					if k == nil {
						continue
					}
					raw := forge(st, ch, k.Index, h.plain())
					if raw == nil || !deliver(a, b, raw, "a straggler on one of several chains") {
						break
					}
				}
			}
		case 5: // a full store of keys
			st := stateOf(b.record(a))
			if st == nil || len(st.ReceiverChains) == 0 {
				continue
			}
			ch := proto.Clone(st.ReceiverChains[len(st.ReceiverChains)-1]).(*v1.SessionStructure_Chain)
			base := ch.ChainKey.Index
			d := uint32(1990 + h.n(30))
			if !deliver(a, b, forge(st, ch, base+d, h.plain()), "nearly full") {
				continue
			}
			for i := 0; i < 10; i++ {
				d += uint32(1 + h.n(12))
				if !deliver(a, b, forge(st, ch, base+d, h.plain()), "full") {
					break
				}
				back := uint32(h.n(2005) + 1)
				if back < d && !deliver(a, b, forge(st, ch, base+d-back, h.plain()), "straggler of a full chain") {
					break
				}
			}
		}
	}
}

// newChain is the start of the chain which a new ratchet key begins.
func newChain(st *v1.SessionStructure, pub []byte) *v1.SessionStructure_Chain_ChainKey {
	_, c := refRoot(st.RootKey, st.SenderChain.SenderRatchetKeyPrivate, pub[1:])
	return &v1.SessionStructure_Chain_ChainKey{Index: 0, Key: c}
}

// sessions has two parties talk over several sessions at once; no message is lost.
func (h *H) sessions() {
	a, b := h.party("alice"), h.party("bob")
	type item struct {
		raw  []byte
		pre  bool
		text []byte
		at   int
	}
	var toA, toB []item
	var hist []string
	send := func(x, y *party, q *[]item) {
		pt := h.plain()
		m, err := x.session(y).EncryptMessage(ctx, pt)
		if err != nil {
			return
		}
		_, pre := m.(*message.PreKey)
		*q = append(*q, item{append([]byte{}, m.Bytes()...), pre, pt, len(hist)})
		hist = append(hist, x.addr.Name+" sends")
	}
	deliver := func(x, y *party, q *[]item) bool {
		j := h.n(len(*q))
		if h.chance(2) {
			j = len(*q) - 1
		}
		it := (*q)[j]
		*q = append((*q)[:j:j], (*q)[j+1:]...)
		var m message.Ciphertext
		var err error
		if it.pre {
			m, err = message.NewPreKeyFromBytes(it.raw)
		} else {
			m, err = message.NewSignalFromBytes(it.raw)
		}
		if err != nil {
			return false
		}
		hist = append(hist, fmt.Sprintf("%s gets the message of step %d", y.addr.Name, it.at))
		h.count("", fmt.Sprint(hist))
		var got []byte
		if pan := safe(func() { got, err = y.session(x).DecryptMessage(ctx, h, m) }); pan != "" {
			return false
		}
		if err != nil || !bytes.Equal(got, it.text) {
			h.fail("after %v the message is not decrypted: %v", hist, err)
		}
		return true
	}
	starts, turns := 0, 0
	for i := 0; i < 40; i++ {
		switch h.n(6) {
		case 0:
			if starts < 4 {
				if a.session(b).ProcessPreKeyBundle(ctx, h, b.bundle(h.chance(2))) != nil {
					return
				}
				starts++
				hist = append(hist, "alice starts a session")
			}
		case 1, 2:
			if starts > 0 {
				send(a, b, &toB)
			}
		case 3:
			if b.record(a) != nil {
				send(b, a, &toA)
			}
		case 4:
			if len(toB) > 0 && !deliver(a, b, &toB) {
				return
			}
		case 5:
			if len(toA) > 0 && turns < 4 {
				turns++
				if !deliver(b, a, &toA) {
					return
				}
			}
		}
	}
	for len(toB) > 0 {
		if !deliver(a, b, &toB) {
			return
		}
	}
	if b.record(a) == nil {
		return
	}
	send(b, a, &toA)
	if len(toA) > 0 {
		toA = toA[len(toA)-1:]
		deliver(b, a, &toA)
	}
}
