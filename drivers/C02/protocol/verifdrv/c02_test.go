package verifdrv

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
)

func TestVerifC02(t *testing.T) {
	h := begin(t, 40*time.Second, 300*time.Second)
	type sent struct {
		m    message.Ciphertext
		done bool
	}
	for it := 0; h.more(); it++ {
		if it%60 == 5 {
			h.farTwice(it / 60)
		}
		a, b := h.party("alice"), h.party("bob")
		if h.chance(8) {
			b = &party{}
			*b = *a // a session with oneself, other device
			b = h.party("alice2")
			b.id = a.id
			b.ids.in = a.ids.in
		}
		if a.session(b).ProcessPreKeyBundle(ctx, h, b.bundle(h.chance(2))) != nil {
			continue
		}
		var all []*sent
		hist := ""
		deliver := func(x *sent, i int) bool {
			raw := signalOf(x.m).Bytes()
			st := stateOf(b.record(a))
			var err error
			var pt []byte
			if pan := safe(func() { pt, err = b.session(a).DecryptMessage(ctx, h, x.m) }); pan != "" {
				return false
			}
			hist += fmt.Sprintf(" %d", i)
			if len(hist) > 900 {
				hist = "..." + hist[len(hist)-800:]
			}
			h.count("", fmt.Sprintf("history%s: message %d, counter %d: %v", hist, i, signalOf(x.m).Counter(), err))
			if err == nil && x.done {
				h.fail("message %d (counter %d, bytes %s) is decrypted a second time, to %x; deliveries:%s", i, signalOf(x.m).Counter(), hx(raw), pt, hist)
			}
			if err != nil && x.done && st != nil {
				if _, _, v, _ := refReceive(st, raw, nil); v == vDup && !errors.Is(err, perrors.ErrDuplicateMessage) {
					h.fail("message %d was decrypted before; delivering it again gives %v instead of a duplicate error; deliveries:%s", i, err, hist)
				}
			}
			if err == nil {
				x.done = true
				// the same counter with other content, under the same key
				if st != nil {
					if st2 := stateOf(b.record(a)); st2 != nil {
						p, _ := parseSig(raw)
						if ch := findChain(st2, p.ratchet); ch != nil {
							for _, k := range ch.MessageKeys {
								if k.Index == p.counter {
									h.fail("the key of counter %d is still saved after its message was decrypted; deliveries:%s", p.counter, hist)
								}
							}
							if ch.GetChainKey().GetIndex() <= p.counter {
								h.fail("after decrypting counter %d the chain is at %d; deliveries:%s", p.counter, ch.GetChainKey().GetIndex(), hist)
							}
						}
					}
				}
			}
			return true
		}
		var back []message.Ciphertext
		for round := 0; round < 1+h.n(4); round++ {
			k := 1 + h.n(12)
			if h.chance(12) {
				k = 30 + h.n(60)
			}
			for i := 0; i < k; i++ {
				m, err := a.session(b).EncryptMessage(ctx, h.plain())
				if err != nil {
					break
				}
				all = append(all, &sent{m: m})
			}
			for i := 0; i < 3*k; i++ {
				j := h.n(len(all))
				if h.chance(2) && len(all) > k {
					j = len(all) - 1 - h.n(k)
				}
				if !deliver(all[j], j) {
					break
				}
				for h.chance(3) {
					if !deliver(all[j], j) {
						break
					}
				}
			}
			// an answer turns the ratchet; it is read twice
			if m, err := b.session(a).EncryptMessage(ctx, []byte("answer")); err == nil {
				back = append(back, m)
				n := 0
				for i := 0; i < 3; i++ {
					var err error
					var got []byte
					if safe(func() { got, err = a.session(b).DecryptMessage(ctx, h, m) }) == "" && err == nil {
						n++
						if n > 1 {
							h.fail("an answer (bytes %s) is decrypted %d times, to %x", hx(m.Bytes()), n, got)
						}
					}
				}
			}
			if h.chance(10) && round > 0 {
				// a second session from the same party
				if a.session(b).ProcessPreKeyBundle(ctx, h, b.bundle(true)) != nil {
					break
				}
			}
		}
		for i := range all {
			if !deliver(all[i], i) {
				break
			}
			if j := h.n(len(all)); !deliver(all[j], j) {
				break
			}
		}
		_ = bytes.Equal
	}
}

// farTwice delivers messages as far ahead as allowed, and those around them, twice.
func (h *H) farTwice(kind int) {
	a, b := h.party("alice"), h.party("bob")
	if !h.connect(a, b, h.chance(2)) {
		return
	}
	st := stateOf(b.record(a))
	if st == nil || len(st.ReceiverChains) == 0 {
		return
	}
	ch := st.ReceiverChains[len(st.ReceiverChains)-1]
	at := ch.GetChainKey().GetIndex()
	var jumps []uint32
	switch kind % 4 {
	case 0:
		jumps = []uint32{25000, 25000, 24999, 24998, 25001, 25002}
	case 1:
		jumps = []uint32{2000, 2000, 2001, 1999, 0, 0}
	case 2:
		jumps = []uint32{24999, 24999, 25000, 25000, 24998}
	case 3: // around the powers of two
		for k := 1; k < 15; k++ {
			for _, d := range []uint32{2, 1, 0} {
				if c := uint32(1)<<k - d; c >= at {
					jumps = append(jumps, c-at)
				}
			}
		}
	}
	done := map[uint32]bool{}
	for _, j := range jumps {
		raw := forge(st, ch, at+j, []byte("far"))
		s := h.sig(raw)
		if s == nil {
			continue
		}
		for i := 0; i < 2; i++ {
			var err error
			pan := safe(func() { _, err = b.session(a).DecryptMessage(ctx, h, s) })
			h.count("", fmt.Sprintf("message %d ahead: %v %s", j, err, pan))
			if pan != "" {
				return
			}
			if err == nil && done[j] {
				h.fail("the message at counter %d, %d ahead of the chain, is decrypted a second time; bytes %s", at+j, j, hx(raw))
			}
			if err == nil {
				done[j] = true
			}
		}
	}
}
