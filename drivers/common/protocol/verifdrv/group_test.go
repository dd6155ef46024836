package verifdrv

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"
)

// refVerify is XEdDSA verification, with curve25519 arithmetic on big integers.
func refVerify(pub, sig, msg []byte) bool {
	if len(sig) != 64 || len(pub) != 32 {
		return false
	}
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	le := make([]byte, 32)
	for i := range pub {
		le[31-i] = pub[i]
	}
	le[0] &= 0x7f
	u := new(big.Int).SetBytes(le)
	u.Mod(u, p)
	// y = (u-1)/(u+1)
	d := new(big.Int).Add(u, big.NewInt(1))
	d.Mod(d, p)
	y := new(big.Int).Sub(u, big.NewInt(1))
	y.Mod(y, p)
	y.Mul(y, new(big.Int).Exp(d, new(big.Int).Sub(p, big.NewInt(2)), p))
	y.Mod(y, p)
	A := make([]byte, 32)
	yb := y.FillBytes(make([]byte, 32))
	for i := range yb {
		A[31-i] = yb[i]
	}
	A[31] |= sig[63] & 0x80
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return ed25519.Verify(A, msg, s)
}

// ---- reference group receiver

type gKey struct {
	iter uint32
	seed []byte
}

type gState struct {
	version uint32
	chain   uint32
	pub     []byte
	iter    uint32
	seed    []byte
	keys    []gKey
}

func (s *gState) String() string {
	o := fmt.Sprintf("v%d chain %d key %s at %d %s saved", s.version, s.chain, hx(s.pub[:5]), s.iter, hx(s.seed))
	for _, k := range s.keys {
		o += fmt.Sprintf(" %d:%s", k.iter, hx(k.seed)[:8])
	}
	return o
}

func (s *gState) clone() *gState {
	c := *s
	c.keys = append([]gKey{}, s.keys...)
	return &c
}

// gModel is what a receiver's record has to be, the oldest state first.
type gModel struct{ states []*gState }

func (m *gModel) find(chain uint32) *gState {
	for _, s := range m.states {
		if s.chain == chain {
			return s
		}
	}
	return nil
}

func (m *gModel) String() string {
	var w strings.Builder
	for _, s := range m.states {
		w.WriteString(s.String() + "; ")
	}
	return w.String()
}

// distribute is what processing a distribution has to do.
func (m *gModel) distribute(version, chain, iter uint32, seed, pub []byte) {
	n := &gState{version: version, chain: chain, pub: pub, iter: iter, seed: seed}
	var rest []*gState
	for _, s := range m.states {
		if s.chain == chain {
			if bytes.Equal(s.pub, pub) {
				n = s
			}
			continue
		}
		rest = append(rest, s)
	}
	if len(rest) >= 5 {
		rest = rest[1:]
	}
	m.states = append(rest, n)
}

func gCipher(seed []byte) (key, iv []byte) {
	o := refHKDF(seed, nil, []byte("WhisperGroup"), 48)
	return o[16:], o[:16]
}

type gVerdict int

const (
	gOK gVerdict = iota
	gForged
	gDup
	gFar
	gContent
)

func (v gVerdict) String() string {
	return [...]string{"accept", "not authentic", "duplicate", "too far", "unusable content"}[v]
}

// receive is what decrypting a message has to do.
func (m *gModel) receive(raw []byte) ([]byte, gVerdict) {
	if len(raw) < 65 {
		return nil, gForged
	}
	w := &v1.SenderKeyMessage{}
	if proto.Unmarshal(raw[1:len(raw)-64], w) != nil {
		return nil, gForged
	}
	s := m.find(w.GetChainId())
	if s == nil || uint32(raw[0]>>4) != s.version || !refVerify(s.pub[1:], raw[len(raw)-64:], raw[:len(raw)-64]) {
		return nil, gForged
	}
	c := s.clone()
	it := w.GetIteration()
	var seed []byte
	if it < c.iter {
		at := -1
		for i, k := range c.keys {
			if k.iter == it {
				at = i
				break
			}
		}
		if at < 0 {
			return nil, gDup
		}
		seed = c.keys[at].seed
		c.keys = append(append([]gKey{}, c.keys[:at]...), c.keys[at+1:]...)
	} else {
		if it-c.iter > 25000 {
			return nil, gFar
		}
		for c.iter < it {
			c.keys = append(c.keys, gKey{c.iter, refHMAC(c.seed, []byte{1})})
			c.seed = refNext(c.seed)
			c.iter++
		}
		if n := len(c.keys); n > 2000 {
			c.keys = c.keys[n-2000:]
		}
		seed = refHMAC(c.seed, []byte{1})
		c.seed = refNext(c.seed)
		c.iter++
	}
	key, iv := gCipher(seed)
	pt, ok := refDec(key, iv, w.GetCiphertext())
	if !ok {
		return nil, gContent
	}
	*s = *c
	return pt, gOK
}

// gStored describes the stored record of a receiver, as far as chains and iterations given go.
func gStored(st session.GroupStore, a address.Address, d distribution.ID, chains []uint32, iters map[uint32][]uint32) string {
	r, ok, err := st.Load(ctx, a, d)
	if err != nil || !ok || r == nil {
		return fmt.Sprint("none ", err)
	}
	var w strings.Builder
	if s, err := r.State(); err == nil {
		fmt.Fprintf(&w, "first %d; ", s.ChainID())
	}
	for _, c := range chains {
		s := r.StateForChainID(c)
		if s == nil {
			continue
		}
		g := &gState{version: s.Version(), chain: s.ChainID(), pub: make([]byte, 33), iter: s.SenderChainKey().Iteration(), seed: s.SenderChainKey().Seed()}
		if k, err := s.PublicSigningKey(); err == nil {
			g.pub = k.Bytes()
		}
		for _, i := range iters[c] {
			if mk, ok, err := s.RemoveMessageKeys(i); err == nil && ok {
				g.keys = append(g.keys, gKey{mk.Iteration(), mk.Seed()})
			}
		}
		w.WriteString(g.String() + "; ")
	}
	return w.String()
}

// gWanted is what gStored has to say.
func (m *gModel) gWanted(chains []uint32, iters map[uint32][]uint32) string {
	if len(m.states) == 0 {
		return "none <nil>"
	}
	var w strings.Builder
	fmt.Fprintf(&w, "first %d; ", m.states[0].chain)
	for _, c := range chains {
		s := m.find(c)
		if s == nil {
			continue
		}
		x := *s
		x.keys = nil
		for _, i := range iters[c] {
			for _, k := range s.keys {
				if k.iter == i {
					x.keys = append(x.keys, k)
				}
			}
		}
		w.WriteString(x.String() + "; ")
	}
	return w.String()
}

// gSign makes the bytes of a group message.
func (h *H) gSign(d []byte, chain, iter uint32, ct []byte, key curve.PrivateKey, version byte) []byte {
	b := append([]byte{version<<4 | 3}, encFields(fb(1, d), fv(2, uint64(chain)), fv(3, uint64(iter)), fb(4, ct))...)
	s, err := key.Sign(h, b)
	if err != nil {
		h.t.Skip("cannot sign")
	}
	return append(b, s...)
}

// gParse parses the bytes of a group message.
func gParse(raw []byte) *message.SenderKey {
	var m *message.SenderKey
	var err error
	if p := safe(func() { m, err = message.NewSenderKeyFromBytes(append([]byte{}, raw...)) }); p != "" || err != nil {
		return nil
	}
	return m
}

// gDist makes a distribution message.
func (h *H) gDist(d distribution.ID, chain, iter uint32, seed []byte, pub curve.PublicKey) *message.SenderKeyDistribution {
	m, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: d, ChainID: chain, Iteration: iter, ChainKey: seed, SigningKey: pub})
	if err != nil {
		h.t.Skip("no distribution")
	}
	return m
}

// gSender is a sender's chain, from the beginning.
type gSender struct {
	chain uint32
	start uint32
	seed  []byte
	kp    *curve.KeyPair
	memo  map[uint32][]byte // chain keys
	last  uint32
	lastK []byte
}

func (h *H) gSender(chain uint32) *gSender {
	s := &gSender{chain: chain, seed: h.bytes(32), kp: h.kp()}
	if h.chance(4) {
		s.start = uint32(h.n(5000))
	}
	s.last, s.lastK = s.start, s.seed
	return s
}

// at is the chain key of an iteration.
func (s *gSender) at(iter uint32) []byte {
	if iter < s.start {
		return make([]byte, 32)
	}
	if iter < s.last {
		s.last, s.lastK = s.start, s.seed
	}
	for s.last < iter {
		s.lastK = refNext(s.lastK)
		s.last++
	}
	return s.lastK
}

// msg is the genuine message of an iteration.
func (s *gSender) msg(h *H, d distribution.ID, iter uint32, pt []byte) []byte {
	key, iv := gCipher(refHMAC(s.at(iter), []byte{1}))
	return h.gSign([]byte(d.String()), s.chain, iter, refEnc(key, iv, pt), s.kp.PrivateKey(), 3)
}

func (h *H) gID() distribution.ID {
	b := h.bytes(16)
	return distribution.MustParse(fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:]))
}
