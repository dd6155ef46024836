package verifdrv

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"testing"
	"time"

	"google.golang.org/protobuf/encoding/protowire"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
)

func refHash(n uint32, id, key []byte) []byte {
	s := sha512.Sum512(bytes.Join([][]byte{{0, 0}, key, id, key}, nil))
	for i := uint32(1); i < n; i++ {
		s = sha512.Sum512(append(append([]byte{}, s[:]...), key...))
	}
	return s[:]
}

func refDigits(f []byte) string {
	o := ""
	for i := 0; i < 30; i += 5 {
		o += fmt.Sprintf("%05d", binary.BigEndian.Uint64(append([]byte{0, 0, 0}, f[i:i+5]...))%100000)
	}
	return o
}

func refDisplay(l, r []byte) string {
	a, b := refDigits(l), refDigits(r)
	if a < b {
		return a + b
	}
	return b + a
}

// scan encodes a scanned fingerprint.
func scan(v uint32, l, r []byte) []byte {
	return encFields(fv(1, uint64(v)), fb(2, encFields(fb(1, l))), fb(3, encFields(fb(1, r))))
}

// TestVerifC17: fingerprints.
func TestVerifC17(t *testing.T) {
	h := begin(t, 25*time.Second, 150*time.Second)
	a, b := h.idkp(), h.idkp()
	ia, ib := h.ident(), h.ident()
	var kept *fingerprint.Fingerprint
	var keptText string
	for it := 0; h.more(); it++ {
		// the whole; what earlier fingerprints were made of may come again
		switch h.n(4) {
		case 0:
			a, b = b, a
		case 1:
			a = h.idkp()
		case 2:
		default:
			a, b = h.idkp(), h.idkp()
		}
		if !h.chance(3) {
			ia, ib = h.ident(), h.ident()
		}
		if h.chance(5) {
			ib = ia
		}
		n := uint32(2 + h.n(40))
		switch h.n(40) {
		case 0:
			n = 5200
		case 1:
			n = []uint32{0, 1, 1000001, 0xffffffff, 0x80000000}[h.n(5)]
		case 2:
			if h.chance(8) {
				n = 1000000
			}
		}
		v := h.u32()
		h.count("", fmt.Sprintf("version %d, %d iterations, identifiers %s %s, keys %s %s", v, n, hx(ia), hx(ib), hx(a.IdentityKey().Bytes()), hx(b.IdentityKey().Bytes())))
		f, err := fingerprint.New(v, n, ia, a.IdentityKey(), ib, b.IdentityKey())
		if ok := n > 1 && n <= 1000000; (err == nil) != ok {
			h.fail("a fingerprint of %d iterations: error %v", n, err)
		}
		if err == nil {
			g, err := fingerprint.New(v, n, ib, b.IdentityKey(), ia, a.IdentityKey())
			h.must(err, "the other end's fingerprint")
			la, lb := refHash(n, ia, a.IdentityKey().Bytes()), refHash(n, ib, b.IdentityKey().Bytes())
			want := refDisplay(la, lb)
			if f.String() != g.String() || f.String() != want || len(want) != 60 {
				h.fail("fingerprints of %s/%s and %s/%s with %d iterations: %s and %s instead of %s", hx(ia), hx(a.IdentityKey().Bytes()), hx(ib), hx(b.IdentityKey().Bytes()), n, f, g, want)
			}
		}
		if kept != nil && kept.String() != keptText {
			h.fail("a fingerprint which displayed as %s displays as %s later", keptText, kept)
		}
		if err == nil {
			kept, keptText = f, f.String()
		}
		// displayable and scannable of any bytes
		la, lb := h.bytes(64), h.bytes(64)
		if h.chance(4) {
			la = h.bytes(h.n(70))
		}
		if h.chance(4) {
			lb = h.bytes(h.n(70))
		}
		if h.chance(6) && len(la) > 0 {
			lb = append([]byte{}, la...)
			lb[h.n(len(lb))] ^= 1
		}
		if h.chance(5) {
			la = bytes.Repeat([]byte{byte(h.n(2) * 255)}, 64)
		}
		h.count("", fmt.Sprintf("hashes %s %s", hx(la), hx(lb)))
		var d *fingerprint.Displayable
		if pan := safe(func() { d, err = fingerprint.NewDisplayable(la, lb) }); pan != "" {
			h.fail("displayable fingerprint of %d and %d bytes: %s", len(la), len(lb), pan)
		}
		if ok := len(la) >= 30 && len(lb) >= 30; (err == nil) != ok {
			h.fail("displayable fingerprint of %d and %d bytes: error %v", len(la), len(lb), err)
		}
		if err == nil && d.String() != refDisplay(la, lb) {
			h.fail("hashes %s and %s display as %s instead of %s", hx(la), hx(lb), d, refDisplay(la, lb))
		}
		var s *fingerprint.Scannable
		if pan := safe(func() { s, err = fingerprint.NewScannable(v, la, lb) }); pan != "" {
			h.fail("scannable fingerprint of %d and %d bytes: %s", len(la), len(lb), pan)
		}
		if ok := len(la) >= 32 && len(lb) >= 32; (err == nil) != ok {
			h.fail("scannable fingerprint of %d and %d bytes: error %v", len(la), len(lb), err)
		}
		if err != nil {
			continue
		}
		raw, err := s.Bytes()
		h.must(err, "encoding a scannable fingerprint")
		if !bytes.Equal(raw, scan(v, la[:32], lb[:32])) {
			h.fail("scannable fingerprint of version %d and hashes %s %s is encoded as %s", v, hx(la), hx(lb), hx(raw))
		}
		// comparison
		compare := func(what string, in []byte, want, wantErr bool) {
			var ok bool
			var err error
			if pan := safe(func() { ok, err = s.Compare(in) }); pan != "" {
				h.fail("comparing with %s: %s", hx(in), pan)
			}
			h.count("", fmt.Sprintf("version %d hashes %s %s compared with %s", v, hx(la), hx(lb), hx(in)))
			if ok != want || (err != nil) != wantErr {
				h.fail("the fingerprint of version %d and hashes %s %s compared with %s (%s): %v, error %v", v, hx(la), hx(lb), hx(in), what, ok, err)
			}
		}
		compare("the other end's", scan(v, lb[:32], la[:32]), true, false)
		sym := bytes.Equal(la[:32], lb[:32])
		compare("its own", scan(v, la[:32], lb[:32]), sym, false)
		w := h.u32()
		compare("one of another version", scan(w, lb[:32], la[:32]), w == v, w != v)
		x, y := append([]byte{}, lb[:32]...), append([]byte{}, la[:32]...)
		switch h.n(6) {
		case 0:
			x[h.n(32)] ^= 1 << h.n(8)
		case 1:
			y[h.n(32)] ^= 1 << h.n(8)
		case 2:
			x = x[:h.n(32)]
		case 3:
			y = append(y, 0)
		case 4:
			y = y[:h.n(32)]
		case 5:
			x = append(x, h.bytes(32)...)
		}
		compare("one with a change", scan(v, x, y), false, false)
		compare("one without its local hash", encFields(fv(1, uint64(v)), fb(3, encFields(fb(1, la[:32])))), false, false)
		compare("one without its remote hash", encFields(fv(1, uint64(v)), fb(2, encFields(fb(1, lb[:32])))), false, false)
		compare("garbage", protowire.AppendTag(nil, 1, protowire.VarintType), false, true)
	}
}

// ident is an identifier, now and then a long one.
func (h *H) ident() []byte {
	if h.chance(6) {
		return h.bytes([]int{63, 64, 65, 111, 112, 127, 128, 129, 200, 255, 256, 257, 300, 1025}[h.n(14)])
	}
	return h.bytes(h.n(40))
}
