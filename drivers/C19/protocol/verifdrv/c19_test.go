package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
)

// TestVerifC19: the archive of a session record.
func TestVerifC19(t *testing.T) {
	h := begin(t, 45*time.Second, 250*time.Second)
	for it := 0; h.more(); it++ {
		h.recordOps()
		if it%4 == 0 {
			h.archiveRun()
		}
	}
}

func (h *H) someState(i int) *session.State {
	s := &v1.SessionStructure{SessionVersion: uint32(2 + h.n(2)), AliceBaseKey: append([]byte{5, byte(i), byte(i >> 8)}, h.bytes(30)...), RootKey: h.bytes(32), PreviousCounter: h.u32(), LocalRegistrationId: h.u32()}
	for j := 0; j < h.n(3); j++ {
		s.ReceiverChains = append(s.ReceiverChains, &v1.SessionStructure_Chain{SenderRatchetKey: h.bytes(33), ChainKey: &v1.SessionStructure_Chain_ChainKey{Index: h.u32(), Key: h.bytes(32)}})
	}
	return session.NewState(s)
}

func (h *H) recordOps() {
	var cur *session.State
	if h.chance(2) {
		cur = h.someState(0)
	}
	r := session.NewRecord(cur)
	type old struct {
		b    string
		base []byte
		ver  uint32
	}
	arch := []old{}
	push := func(s *session.State) {
		if s == nil {
			return
		}
		arch = append(arch, old{detBytes(s), s.AliceBaseKey(), s.Version()})
		if len(arch) > 40 {
			arch = arch[1:]
		}
	}
	var hist []string
	n := 30
	if h.chance(3) {
		n = 110
	}
	for i := 1; i <= n; i++ {
		op := h.n(10)
		switch {
		case op < 4:
			s := h.someState(i)
			hist = append(hist, "promote new")
			push(cur)
			cur = s
			r.PromoteState(s)
		case op < 6 && len(arch) > 0:
			at := h.n(len(arch))
			if h.chance(3) {
				at = []int{0, len(arch) - 1}[h.n(2)]
			}
			hist = append(hist, fmt.Sprintf("promote archived %d of %d", at, len(arch)))
			ps, err := r.PreviousStates()
			h.must(err, "PreviousStates")
			if at >= len(ps) {
				h.fail("after %v there are %d archived sessions instead of %d", hist, len(ps), len(arch))
			}
			s := ps[at]
			arch = append(append([]old{}, arch[:at]...), arch[at+1:]...)
			push(cur)
			cur = s
			if pan := safe(func() { r.PromoteOldState(at, s) }); pan != "" {
				h.fail("after %v: %s", hist, pan)
			}
		case op < 7:
			hist = append(hist, "archive")
			push(cur)
			r.ArchiveCurrentState()
		case op < 8:
			at := []int{-1, len(arch), len(arch) + 3, -5}[h.n(4)]
			hist = append(hist, fmt.Sprintf("promote archived %d of %d", at, len(arch)))
			if pan := safe(func() { r.PromoteOldState(at, h.someState(i)) }); pan != "" {
				h.fail("after %v: %s", hist, pan)
			}
		case op < 9:
			hist = append(hist, "set")
			cur = h.someState(i)
			if h.chance(3) {
				cur = nil
			}
			r.SetSessionState(cur)
		default:
			if cur == nil {
				continue
			}
			hist = append(hist, "change the current one")
			cur.SetPreviousCounter(h.u32())
		}
		h.count("", fmt.Sprint(hist))
		ps, err := r.PreviousStates()
		h.must(err, "PreviousStates")
		if len(ps) != len(arch) {
			h.fail("after %v there are %d archived sessions instead of %d", hist, len(ps), len(arch))
		}
		for j, s := range ps {
			if detBytes(s) != arch[j].b {
				h.fail("after %v archived session %d of %d is %s instead of %s", hist, j, len(arch), detBytes(s), arch[j].b)
			}
		}
		if (r.State() == nil) != (cur == nil) || cur != nil && detBytes(r.State()) != detBytes(cur) {
			h.fail("after %v the current session is not the last one promoted or set", hist)
		}
		// recognition
		for j := 0; j < 4; j++ {
			var base []byte
			var ver uint32
			want := false
			if len(arch) > 0 && h.n(3) > 0 {
				a := arch[h.n(len(arch))]
				base, ver = append([]byte{}, a.base...), a.ver
			} else if cur != nil {
				base, ver = append([]byte{}, cur.AliceBaseKey()...), cur.Version()
			} else {
				base, ver = h.bytes(33), 3
			}
			switch h.n(6) {
			case 0:
				base[h.n(len(base))] ^= 1 << h.n(8)
			case 1:
				ver ^= 1
			case 2:
				base = base[:h.n(len(base)+1)]
			}
			for _, a := range arch {
				want = want || a.ver == ver && bytes.Equal(a.base, base)
			}
			want = want || cur != nil && cur.Version() == ver && bytes.Equal(cur.AliceBaseKey(), base)
			got, err := r.HasSessionState(ver, base)
			if err != nil || got != want {
				h.fail("after %v a session of version %d and base key %s is known: %v, error %v", hist, ver, hx(base), got, err)
			}
		}
	}
}

func bases(r *session.Record) (string, []string) {
	if r == nil {
		return "", nil
	}
	c := ""
	if r.State() != nil {
		c = hx(r.State().AliceBaseKey())
	}
	var o []string
	ps, _ := r.PreviousStates()
	for _, s := range ps {
		o = append(o, hx(s.AliceBaseKey()))
	}
	return c, o
}

// archiveRun starts sessions again and again and has old ones used.
func (h *H) archiveRun() {
	a, b := h.party("alice"), h.party("bob")
	type conv struct {
		base string
		late [][]byte // bytes of messages of this session which have not been delivered
		text [][]byte
		pre  []bool
	}
	var all []*conv
	cur := ""
	var arch []string
	n := 8 + h.n(10)
	if h.chance(2) {
		n = 44
	}
	var hist []string
	for i := 0; i < n; i++ {
		ca, pa := bases(a.record(b))
		old := map[string]string{}
		if r := a.record(b); r != nil {
			if r.State() != nil {
				old[ca] = detBytes(r.State())
			}
			ps, _ := r.PreviousStates()
			for _, s := range ps {
				old[hx(s.AliceBaseKey())] = detBytes(s)
			}
		}
		if a.session(b).ProcessPreKeyBundle(ctx, h, b.bundle(true)) != nil {
			return
		}
		na, qa := bases(a.record(b))
		if ca != "" {
			pa = append(pa, ca)
			if len(pa) > 40 {
				pa = pa[1:]
			}
		}
		hist = append(hist, "start")
		if fmt.Sprint(pa) != fmt.Sprint(qa) || na == ca {
			h.fail("after %v the archive of the initiator has %v instead of %v", hist, qa, pa)
		}
		ps, err := a.record(b).PreviousStates()
		h.must(err, "PreviousStates")
		for _, s := range ps {
			if detBytes(s) != old[hx(s.AliceBaseKey())] {
				h.fail("after %v an archived session changed", hist)
			}
		}
		c := &conv{base: na}
		for j := 0; j < 3+h.n(3); j++ {
			pt := h.bytes(5)
			m, err := a.session(b).EncryptMessage(ctx, pt)
			if err != nil {
				return
			}
			raw := append([]byte{}, m.Bytes()...)
			_, pre := m.(*message.PreKey)
			if pre && h.chance(3) { // the same message without its wrapping
				if j > 0 {
					raw, pre = append([]byte{}, m.(*message.PreKey).Message().Bytes()...), false
				}
			}
			c.late, c.text, c.pre = append(c.late, raw), append(c.text, pt), append(c.pre, pre)
		}
		all = append(all, c)
		for k := 0; k < 1+h.n(3); k++ {
			// deliver one
			x := c
			if k > 0 {
				x = all[h.n(len(all))]
				if h.chance(4) {
					x = all[0]
				}
			}
			if len(x.late) == 0 {
				continue
			}
			at := 0
			if k > 0 {
				at = h.n(len(x.late))
			}
			raw, pt, pre := x.late[at], x.text[at], x.pre[at]
			known := x.base == cur
			for _, s := range arch {
				known = known || s == x.base
			}
			first := x == c && k == 0
			if !known && !first {
				continue
			}
			x.late, x.text, x.pre = append(x.late[:at:at], x.late[at+1:]...), append(x.text[:at:at], x.text[at+1:]...), append(x.pre[:at:at], x.pre[at+1:]...)
			var m message.Ciphertext
			var err error
			if pre {
				m, err = message.NewPreKeyFromBytes(raw)
			} else {
				m, err = message.NewSignalFromBytes(raw)
			}
			if err != nil {
				return
			}
			hist = append(hist, fmt.Sprintf("deliver for session %s (pre-key message %v)", x.base[2:8], pre))
			h.count("", fmt.Sprint(hist))
			was := contents(b.record(a))
			var got []byte
			if pan := safe(func() { got, err = b.session(a).DecryptMessage(ctx, h, m) }); pan != "" {
				return
			}
			if err != nil || !bytes.Equal(got, pt) {
				if first {
					return
				}
				h.fail("after %v, with %d archived sessions, the message for session %s is not decrypted: %v", hist, len(arch), x.base[2:8], err)
			}
			if x.base != cur {
				var l []string
				for _, s := range arch {
					if s != x.base {
						l = append(l, s)
					}
				}
				if cur != "" {
					l = append(l, cur)
				}
				if len(l) > 40 {
					l = l[1:]
				}
				arch, cur = l, x.base
			}
			for id, c := range contents(b.record(a)) {
				if id != x.base && c != was[id] {
					h.fail("after %v session %s, which the message is not of, is %s instead of %s", hist, id, c, was[id])
				}
			}
			nc, na := bases(b.record(a))
			if nc != cur || fmt.Sprint(na) != fmt.Sprint(arch) {
				h.fail("after %v the record has current session %s and archive %v instead of %s and %v", hist, nc, na, cur, arch)
			}
		}
	}
}

// contents are the sessions of a record, by their base keys.
func contents(r *session.Record) map[string]string {
	m := map[string]string{}
	if r == nil {
		return m
	}
	if r.State() != nil {
		m[hx(r.State().AliceBaseKey())] = detBytes(r.State())
	}
	ps, _ := r.PreviousStates()
	for _, s := range ps {
		m[hx(s.AliceBaseKey())] = detBytes(s)
	}
	return m
}
