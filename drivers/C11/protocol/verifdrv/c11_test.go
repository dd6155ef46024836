package verifdrv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/session"
)

// TestVerifC11: only authentic group messages decrypt.
func TestVerifC11(t *testing.T) {
	h := begin(t, 35*time.Second, 200*time.Second)
	for h.more() {
		st := session.NewInMemGroupStore()
		ad, ad2 := address.Address{Name: "carol", DeviceID: 2}, address.Address{Name: "carol", DeviceID: 3}
		d, d2 := h.gID(), h.gID()
		type at struct {
			g *session.GroupSession
			m *gModel
		}
		who := []at{}
		var snd []*gSender
		for _, a := range []address.Address{ad, ad2} {
			who = append(who, at{&session.GroupSession{SenderAddress: a, SenderKeyStore: st}, &gModel{}})
		}
		// the first sender is known at both addresses under other keys
		chain := h.u32()
		for i, w := range who {
			for j := 0; j < 1+h.n(3); j++ {
				c := chain
				if j > 0 {
					c = h.u32()
				}
				s := h.gSender(c)
				if w.g.ProcessSenderKeyDistribution(ctx, h.gDist(d, c, s.start, s.seed, s.kp.PublicKey())) != nil {
					return
				}
				w.m.distribute(3, c, s.start, s.seed, s.kp.PublicKey().Bytes())
				snd = append(snd, s)
			}
			_ = i
		}
		stranger := h.gSender(chain)
		var signed [][]byte // accepted messages
		for i := 0; i < 12; i++ {
			w := who[h.n(2)]
			s := snd[h.n(len(snd))]
			if h.chance(8) {
				s = stranger
			}
			var it uint32 = s.start + uint32(h.n(20))
			if x := w.m.find(s.chain); x != nil && h.chance(2) {
				it = x.iter + uint32(h.n(3))
			}
			raw := s.msg(h, d, it, h.plain())
			n := len(raw)
			kind := h.n(15)
			switch kind {
			case 0, 1:
				raw[h.n(n)] ^= 1 << h.n(8)
			case 2:
				raw[n-64+h.n(64)] ^= 1 << h.n(8)
			case 3:
				raw[n-1] ^= 0x80
			case 4: // other distribution
				raw = s.msg(h, d2, it, h.plain())
			case 5: // signed by another
				raw = h.gSign([]byte(d.String()), s.chain, it, h.bytes(16), snd[h.n(len(snd))].kp.PrivateKey(), 3)
			case 6: // the right signature of another version
				raw = h.gSign([]byte(d.String()), s.chain, it, h.bytes(16), s.kp.PrivateKey(), byte(h.n(16)))
			case 7: // signature without the first byte, or of the content only
				k, iv := gCipher(refHMAC(s.at(it), []byte{1}))
				ct := refEnc(k, iv, h.plain())
				b := append([]byte{0x33}, encFields(fb(1, []byte(d.String())), fv(2, uint64(s.chain)), fv(3, uint64(it)), fb(4, ct))...)
				part := [][]byte{b[1:], ct, b[:len(b)-1], b[:len(b)-16], {}}[h.n(5)]
				sg, err := s.kp.PrivateKey().Sign(h, part)
				if err != nil {
					return
				}
				raw = append(b, sg...)
			case 8: // a longer body than was signed
				sg := append([]byte{}, raw[n-64:]...)
				raw = append(append(raw[:n-64], encFields(fv(9, 1))...), sg...)
			case 14: // the signature of a message which was accepted
				if len(signed) == 0 {
					continue
				}
				o := signed[h.n(len(signed))]
				raw = append(raw[:n-64], o[len(o)-64:]...)
			case 9:
				raw = append(raw[:n-64], make([]byte, 64)...)
			}
			x := gParse(raw)
			if x == nil {
				continue
			}
			h.count("", fmt.Sprintf("kind %d %s", kind, hx(raw)))
			var want []byte
			v := gForged
			before := w.m.String()
			if x.DistributionID() == d {
				want, v = w.m.receive(raw)
			}
			var got []byte
			var err error
			pan := safe(func() { got, err = w.g.DecryptMessage(ctx, x) })
			if pan != "" {
				err = fmt.Errorf("%s", pan)
			}
			if err != nil && got != nil {
				h.fail("group message %s: error %v and plaintext %s", hx(raw), err, hx(got))
			}
			if err == nil && v == gForged {
				h.fail("group message %s (kind %d), which is not authentic for states %s, decrypts to %s", hx(raw), kind, before, hx(got))
			}
			if err == nil && v == gOK && !bytes.Equal(got, want) {
				h.fail("group message %s decrypts to %s instead of %s", hx(raw), hx(got), hx(want))
			}
			if err != nil && v == gOK && kind > 9 && kind < 14 {
				h.fail("genuine group message %s for states %s is refused: %v", hx(raw), before, err)
			}
			if err == nil && v == gOK {
				signed = append(signed, raw)
			}
			if (err == nil) != (v == gOK) {
				break // another property's business
			}
		}
	}
}
