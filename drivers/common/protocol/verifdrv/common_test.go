// Package verifdrv replays broken properties against the real code: random histories through
// the public interface, judged by a reference written from the Signal specifications.
package verifdrv

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

var ctx = context.Background()

var errInjected = errors.New("injected store failure")

// H drives one property.
type H struct {
	t       *testing.T
	r       *rand.Rand
	tier    string
	end     time.Time
	cases   int
	seen    map[string]bool
	samples int
}

func init() {
	_ = flag.Set("stderrthreshold", "FATAL")
}

func begin(t *testing.T, quick, thorough time.Duration) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &H{t: t, r: rand.New(rand.NewSource(seed*7919 + 17)), tier: os.Getenv("VERIF_TIER"), seen: map[string]bool{}}
	d := quick
	if h.tier == "thorough" {
		d = thorough
	}
	h.end = time.Now().Add(d)
	t.Cleanup(func() { fmt.Printf("VERIF-CASES %d %d\n", h.cases, len(h.seen)) })
	return h
}

func (h *H) more() bool { return time.Now().Before(h.end) }

// Read makes h a deterministic source of randomness for the library.
func (h *H) Read(p []byte) (int, error) { return h.r.Read(p) }

func (h *H) bytes(n int) []byte {
	b := make([]byte, n)
	h.r.Read(b)
	return b
}
func (h *H) n(n int) int       { return h.r.Intn(n) }
func (h *H) chance(n int) bool { return h.r.Intn(n) == 0 }

// u32 is a number which is often at an edge.
func (h *H) u32() uint32 {
	switch h.n(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 0xffffffff
	case 3:
		return 0x7fffffff
	case 4:
		return 0x80000000
	case 5:
		return uint32(h.n(300))
	}
	return h.r.Uint32()
}

func (h *H) plain() []byte {
	switch h.n(6) {
	case 0:
		return []byte{}
	case 1:
		return h.bytes(16 * h.n(4))
	case 2:
		return bytes.Repeat([]byte{byte(h.n(256))}, h.n(40))
	}
	return h.bytes(h.n(100))
}

func (h *H) fail(format string, a ...interface{}) {
	h.t.Helper()
	s := strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " ")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	fmt.Println("VERIF-FAIL " + s)
	h.t.FailNow()
}

func (h *H) count(key string, sample string) {
	h.cases++
	if len(h.seen) < 200000 {
		h.seen[key+sample] = true
	}
	if h.samples < 5 && sample != "" {
		h.samples++
		if len(sample) > 300 {
			sample = sample[:300] + "..."
		}
		fmt.Println("VERIF-SAMPLE " + strings.ReplaceAll(sample, "\n", " "))
	}
}

// must stops on an error of a call which has to succeed.
func (h *H) must(err error, what string) {
	h.t.Helper()
	if err != nil {
		h.fail("%s: unexpected error: %v", what, err)
	}
}

// setup stops, without a verdict, on an error which is not this property's business.
func (h *H) setup(err error) bool { return err == nil }

// safe runs f and returns what it panicked with.
func safe(f func()) (p string) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			at := ""
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "/protocol/") && !strings.Contains(l, "verifdrv") && strings.Contains(l, ".go:") {
					at = strings.TrimSpace(l)
					break
				}
			}
			p = fmt.Sprintf("panic: %v at %s", x, at)
		}
	}()
	f()
	return ""
}

func hx(b []byte) string { return hex.EncodeToString(b) }

// ---- reference cryptography

func refHMAC(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

func refHKDF(secret, salt, info []byte, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := refHMAC(salt, secret)
	var out, t []byte
	for i := 1; len(out) < n; i++ {
		t = refHMAC(prk, t, info, []byte{byte(i)})
		out = append(out, t...)
	}
	return out[:n]
}

func refDH(priv, pub []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil
	}
	p, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		return nil
	}
	s, err := k.ECDH(p)
	if err != nil {
		return nil
	}
	return s
}

func refPub(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil
	}
	return append([]byte{5}, k.PublicKey().Bytes()...)
}

func refEnc(key, iv, pt []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	n := 16 - len(pt)%16
	p := append(append([]byte{}, pt...), bytes.Repeat([]byte{byte(n)}, n)...)
	out := make([]byte, len(p))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, p)
	return out
}

// refRaw encrypts without padding.
func refRaw(key, iv, pt []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	out := make([]byte, len(pt))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, pt)
	return out
}

func refDec(key, iv, ct []byte) ([]byte, bool) {
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, false
	}
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, false
	}
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(out, ct)
	n := int(out[len(out)-1])
	if n == 0 || n > 16 {
		return nil, false
	}
	return out[:len(out)-n], true
}

type refMK struct{ cipher, mac, iv []byte }

func refMKOf(ck []byte) refMK {
	o := refHKDF(refHMAC(ck, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	return refMK{o[:32], o[32:64], o[64:80]}
}
func refNext(ck []byte) []byte { return refHMAC(ck, []byte{2}) }
func refRoot(root, priv, pub []byte) (r, c []byte) {
	o := refHKDF(refDH(priv, pub), root, []byte("WhisperRatchet"), 64)
	return o[:32], o[32:]
}
func refInit(secret []byte) (r, c []byte) {
	o := refHKDF(secret, nil, []byte("WhisperText"), 64)
	return o[:32], o[32:]
}
func ff() []byte { return bytes.Repeat([]byte{0xff}, 32) }

// ---- reference messages

type field struct {
	num int
	b   []byte
	v   uint64
	isB bool
}

func fb(n int, b []byte) field { return field{num: n, b: b, isB: true} }
func fv(n int, v uint64) field { return field{num: n, v: v} }
func encFields(fs ...field) []byte {
	var o []byte
	for _, f := range fs {
		if f.isB {
			o = protowire.AppendTag(o, protowire.Number(f.num), protowire.BytesType)
			o = protowire.AppendBytes(o, f.b)
		} else {
			o = protowire.AppendTag(o, protowire.Number(f.num), protowire.VarintType)
			o = protowire.AppendVarint(o, f.v)
		}
	}
	return o
}

// decFields reads the last value of each field.
func decFields(b []byte) (map[int]field, bool) {
	m := map[int]field{}
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return nil, false
		}
		b = b[n:]
		switch typ {
		case protowire.VarintType:
			v, n := protowire.ConsumeVarint(b)
			if n < 0 {
				return nil, false
			}
			m[int(num)] = fv(int(num), v)
			b = b[n:]
		case protowire.BytesType:
			v, n := protowire.ConsumeBytes(b)
			if n < 0 {
				return nil, false
			}
			m[int(num)] = fb(int(num), v)
			b = b[n:]
		default:
			n := protowire.ConsumeFieldValue(num, typ, b)
			if n < 0 {
				return nil, false
			}
			b = b[n:]
		}
	}
	return m, true
}

// sigMsg builds the bytes of a Signal message.
func sigBytes(version byte, ratchet []byte, counter, prev uint32, ct []byte, mac, sender, receiver []byte) []byte {
	b := append([]byte{version<<4 | 3}, encFields(fb(1, ratchet), fv(2, uint64(counter)), fv(3, uint64(prev)), fb(4, ct))...)
	return append(b, refHMAC(mac, sender, receiver, b)[:8]...)
}

type sigParts struct {
	version       byte
	ratchet       []byte
	counter, prev uint32
	ct, body, mac []byte
}

func parseSig(b []byte) (s sigParts, ok bool) {
	if len(b) < 9 {
		return s, false
	}
	s.version = b[0] >> 4
	s.body, s.mac = b[:len(b)-8], b[len(b)-8:]
	m, ok := decFields(s.body[1:])
	if !ok {
		return s, false
	}
	s.ratchet, s.counter, s.prev, s.ct = m[1].b, uint32(m[2].v), uint32(m[3].v), m[4].b
	return s, true
}

func (h *H) sig(b []byte) *message.Signal {
	c, err := message.NewSignalFromBytes(b)
	if err != nil {
		return nil
	}
	s, _ := c.(*message.Signal)
	return s
}

// ---- stores which record their calls and fail when told to

type spy struct {
	log    []string
	failAt int // the call (counted from 1) which fails; 0: none
	calls  int
	only   string // only calls whose name has this prefix count
}

func (s *spy) hit(name string) bool {
	s.log = append(s.log, name)
	if s.only != "" && !strings.HasPrefix(name, s.only) {
		return false
	}
	s.calls++
	return s.failAt != 0 && s.calls == s.failAt
}

func (s *spy) reset() { *s = spy{} }

type spySess struct {
	session.Store
	s *spy
}

func (x *spySess) Load(c context.Context, a address.Address) (*session.Record, bool, error) {
	if x.s.hit("sess.Load " + a.String()) {
		return nil, false, errInjected
	}
	return x.Store.Load(c, a)
}
func (x *spySess) Store_(a address.Address, r *session.Record) error { return x.Store.Store(ctx, a, r) }

type sessStore struct{ *spySess }

func (x sessStore) Store(c context.Context, a address.Address, r *session.Record) error {
	if x.s.hit("sess.Store " + a.String()) {
		return errInjected
	}
	return x.spySess.Store.Store(c, a, r)
}

type trustCall struct {
	a   address.Address
	k   string
	dir direction.Direction
}

type idStore struct {
	in     identity.Store
	s      *spy
	policy func(a address.Address, k identity.Key, d direction.Direction) (bool, error)
	asked  []trustCall
	stored []trustCall
}

func (x *idStore) KeyPair(c context.Context) identity.KeyPair   { return x.in.KeyPair(c) }
func (x *idStore) LocalRegistrationID(c context.Context) uint32 { return x.in.LocalRegistrationID(c) }
func (x *idStore) Clear() error                                 { return x.in.Clear() }
func (x *idStore) Load(c context.Context, a address.Address) (identity.Key, bool, error) {
	if x.s.hit("id.Load " + a.String()) {
		return identity.Key{}, false, errInjected
	}
	return x.in.Load(c, a)
}
func (x *idStore) Store(c context.Context, a address.Address, k identity.Key) (bool, error) {
	if x.s.hit("id.Store " + a.String()) {
		return false, errInjected
	}
	x.stored = append(x.stored, trustCall{a, hx(k.Bytes()), 0})
	return x.in.Store(c, a, k)
}
func (x *idStore) IsTrustedIdentity(c context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	if x.s.hit("id.IsTrusted " + a.String()) {
		return false, errInjected
	}
	x.asked = append(x.asked, trustCall{a, hx(k.Bytes()), d})
	if x.policy != nil {
		return x.policy(a, k, d)
	}
	return x.in.IsTrustedIdentity(c, a, k, d)
}

type pkStore struct {
	prekey.Store
	s *spy
}
type pkSpy struct{ *pkStore }

func (x pkSpy) Load(c context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	if x.s.hit("pk.Load " + id.String()) {
		return nil, false, errInjected
	}
	return x.pkStore.Store.Load(c, id)
}
func (x pkSpy) Store(c context.Context, id prekey.ID, r *prekey.PreKey) error {
	if x.s.hit("pk.Store " + id.String()) {
		return errInjected
	}
	return x.pkStore.Store.Store(c, id, r)
}
func (x pkSpy) Delete(c context.Context, id prekey.ID) error {
	if x.s.hit("pk.Delete " + id.String()) {
		return errInjected
	}
	return x.pkStore.Store.Delete(c, id)
}

type spkStore struct {
	prekey.SignedStore
	s *spy
}

func (x *spkStore) Load(c context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	if x.s.hit("spk.Load " + id.String()) {
		return nil, false, errInjected
	}
	return x.SignedStore.Load(c, id)
}

// ---- parties

type party struct {
	h      *H
	id     identity.KeyPair
	reg    uint32
	addr   address.Address
	spy    *spy
	sess   sessStore
	ids    *idStore
	pk     pkSpy
	spk    *spkStore
	pkIDs  map[prekey.ID]*curve.KeyPair
	spkIDs map[prekey.ID]*curve.KeyPair
}

func (h *H) kp() *curve.KeyPair {
	k, err := curve.GenerateKeyPair(h)
	if err != nil {
		h.t.Skip("no key pair")
	}
	return k
}

func (h *H) idkp() identity.KeyPair {
	k, err := identity.GenerateKeyPair(h)
	if err != nil {
		h.t.Skip("no identity key pair")
	}
	return k
}

// device is a device number, sometimes an unusual one.
func (h *H) device() address.DeviceID {
	if h.chance(4) {
		return address.DeviceID(h.u32())
	}
	return address.DeviceID(h.n(3) + 1)
}

func (h *H) party(name string) *party {
	p := &party{h: h, id: h.idkp(), reg: h.u32(), addr: address.Address{Name: name, DeviceID: h.device()}, spy: &spy{}, pkIDs: map[prekey.ID]*curve.KeyPair{}, spkIDs: map[prekey.ID]*curve.KeyPair{}}
	p.sess = sessStore{&spySess{session.NewInMemStore(), p.spy}}
	p.ids = &idStore{in: identity.NewInMemStore(p.id, p.reg), s: p.spy}
	p.pk = pkSpy{&pkStore{prekey.NewInMemStore(), p.spy}}
	p.spk = &spkStore{prekey.NewInMemSignedStore(), p.spy}
	return p
}

func (p *party) session(to *party) *session.Session {
	return &session.Session{RemoteAddress: to.addr, SessionStore: p.sess, PreKeyStore: p.pk, SignedPreKeyStore: p.spk, IdentityKeyStore: p.ids}
}

// bundle publishes new pre-keys of p. withPK: with a one-time pre-key.
func (p *party) bundle(withPK bool) *prekey.Bundle {
	h := p.h
	spk := h.kp()
	sid := prekey.ID(h.u32())
	for p.spkIDs[sid] != nil {
		sid = prekey.ID(h.r.Uint32())
	}
	sg, err := p.id.PrivateKey().Sign(h, spk.PublicKey().Bytes())
	if err != nil {
		h.t.Skip("no signature")
	}
	_ = p.spk.SignedStore.Store(ctx, sid, prekey.NewSigned(sid, 1, spk, sg))
	p.spkIDs[sid] = spk
	b := &prekey.Bundle{RegistrationID: p.reg, DeviceID: p.addr.DeviceID, SignedPreKeyID: sid, SignedPreKeyPublic: spk.PublicKey(), SignedPreKeySignature: sg, IdentityKey: p.id.IdentityKey()}
	if withPK {
		pk := h.kp()
		id := prekey.ID(h.u32())
		for id == 0 || p.pkIDs[id] != nil {
			id = prekey.ID(h.r.Uint32())
		}
		_ = p.pk.pkStore.Store.Store(ctx, id, prekey.NewPreKey(id, pk))
		p.pkIDs[id] = pk
		b.PreKeyID, b.PreKeyPublic = &id, pk.PublicKey()
	}
	return b
}

func (p *party) record(of *party) *session.Record {
	r, ok, err := p.sess.spySess.Store.Load(ctx, of.addr)
	if err != nil || !ok {
		return nil
	}
	return r
}

func stateOf(r *session.Record) *v1.SessionStructure {
	if r == nil || r.State() == nil {
		return nil
	}
	var s v1.SessionStructure
	if proto.Unmarshal(r.State().Bytes(), &s) != nil {
		return nil
	}
	return &s
}

func detBytes(s *session.State) string {
	var x v1.SessionStructure
	b := s.Bytes()
	if proto.Unmarshal(b, &x) != nil {
		return hx(b)
	}
	d, _ := proto.MarshalOptions{Deterministic: true}.Marshal(&x)
	return hx(d)
}

// snapRec describes the content of a record.
func snapRec(r *session.Record) string {
	if r == nil {
		return "none"
	}
	var w strings.Builder
	if r.State() == nil {
		w.WriteString("nil")
	} else {
		w.WriteString(detBytes(r.State()))
	}
	ps, err := r.PreviousStates()
	fmt.Fprintf(&w, " %v", err)
	for _, s := range ps {
		w.WriteString("|" + detBytes(s))
	}
	return w.String()
}

// snap describes the content of all stores of p, as far as they concern the given peers.
func (p *party) snap(peers ...*party) string {
	var w strings.Builder
	for _, q := range append(peers, p) {
		w.WriteString(snapRec(p.record(q)))
		k, ok, _ := p.ids.in.Load(ctx, q.addr)
		if ok {
			w.WriteString(" id " + hx(k.Bytes()))
		}
		w.WriteString("\n")
	}
	for _, id := range sortedIDs(p.pkIDs) {
		k, ok, _ := p.pk.pkStore.Store.Load(ctx, id)
		if ok {
			kp, err := k.KeyPair()
			if err == nil {
				fmt.Fprintf(&w, "pk %d %s\n", id, hx(kp.PrivateKey().Bytes()))
			}
		}
	}
	for _, id := range sortedIDs(p.spkIDs) {
		k, ok, _ := p.spk.SignedStore.Load(ctx, id)
		if ok {
			kp, err := k.KeyPair()
			if err == nil {
				fmt.Fprintf(&w, "spk %d %s\n", id, hx(kp.PrivateKey().Bytes()))
			}
		}
	}
	return w.String()
}

func sortedIDs(m map[prekey.ID]*curve.KeyPair) []prekey.ID {
	var o []prekey.ID
	for k := range m {
		o = append(o, k)
	}
	for i := range o {
		for j := i + 1; j < len(o); j++ {
			if o[j] < o[i] {
				o[i], o[j] = o[j], o[i]
			}
		}
	}
	return o
}

// connect makes a session from a to b and lets b read a's first message.
func (h *H) connect(a, b *party, withPK bool) bool {
	if a.session(b).ProcessPreKeyBundle(ctx, h, b.bundle(withPK)) != nil {
		return false
	}
	m, err := a.session(b).EncryptMessage(ctx, []byte("hello"))
	if err != nil {
		return false
	}
	_, err = b.session(a).DecryptMessage(ctx, h, m)
	return err == nil
}

// say sends p from a to b and reports the message and whether b read it.
func (h *H) say(a, b *party, p []byte) (message.Ciphertext, []byte, error) {
	m, err := a.session(b).EncryptMessage(ctx, p)
	if err != nil {
		return nil, nil, err
	}
	pt, err := b.session(a).DecryptMessage(ctx, h, m)
	return m, pt, err
}

// pingpong exchanges n messages in each direction.
func (h *H) pingpong(a, b *party, n int) bool {
	for i := 0; i < n; i++ {
		if _, _, err := h.say(b, a, []byte("x")); err != nil {
			return false
		}
		if _, _, err := h.say(a, b, []byte("y")); err != nil {
			return false
		}
	}
	return true
}

func signalOf(m message.Ciphertext) *message.Signal {
	switch x := m.(type) {
	case *message.Signal:
		return x
	case *message.PreKey:
		return x.Message()
	}
	return nil
}

// ---- reference receiver

type verdict int

const (
	vOK verdict = iota
	vDup
	vFar
	vBad
)

func (v verdict) String() string { return [...]string{"accept", "duplicate", "too far", "refuse"}[v] }

func findChain(st *v1.SessionStructure, pub []byte) *v1.SessionStructure_Chain {
	for _, c := range st.ReceiverChains {
		if bytes.Equal(c.GetSenderRatchetKey(), pub) {
			return c
		}
	}
	return nil
}

// refReceive decrypts the bytes of a Signal message with a copy of st. newPriv is the private
// ratchet key of the next sending chain, if one is needed and known.
func refReceive(st0 *v1.SessionStructure, raw []byte, newPriv []byte) ([]byte, *v1.SessionStructure, verdict, refMK) {
	st := proto.Clone(st0).(*v1.SessionStructure)
	m, ok := parseSig(raw)
	if !ok || st.SenderChain == nil {
		return nil, nil, vBad, refMK{}
	}
	ver := st.SessionVersion
	if ver == 0 {
		ver = 2
	}
	if uint32(m.version) != ver || len(m.ratchet) < 33 || m.ratchet[0] != 5 {
		return nil, nil, vBad, refMK{}
	}
	m.ratchet = m.ratchet[:33]
	ch := findChain(st, m.ratchet)
	if ch == nil {
		if refDH(st.SenderChain.SenderRatchetKeyPrivate, m.ratchet[1:]) == nil {
			return nil, nil, vBad, refMK{}
		}
		r1, c1 := refRoot(st.RootKey, st.SenderChain.SenderRatchetKeyPrivate, m.ratchet[1:])
		ch = &v1.SessionStructure_Chain{SenderRatchetKey: m.ratchet, ChainKey: &v1.SessionStructure_Chain_ChainKey{Index: 0, Key: c1}}
		st.ReceiverChains = append(st.ReceiverChains, ch)
		if len(st.ReceiverChains) > 5 {
			st.ReceiverChains = st.ReceiverChains[1:]
		}
		st.PreviousCounter = 0
		if i := st.SenderChain.GetChainKey().GetIndex(); i > 0 {
			st.PreviousCounter = i - 1
		}
		if len(newPriv) == 32 {
			r2, c2 := refRoot(r1, newPriv, m.ratchet[1:])
			st.RootKey = r2
			st.SenderChain = &v1.SessionStructure_Chain{SenderRatchetKey: refPub(newPriv), SenderRatchetKeyPrivate: newPriv, ChainKey: &v1.SessionStructure_Chain_ChainKey{Index: 0, Key: c2}}
		}
	}
	var mk refMK
	idx := ch.GetChainKey().GetIndex()
	if m.counter < idx {
		found := false
		var keep []*v1.SessionStructure_Chain_MessageKey
		for _, k := range ch.MessageKeys {
			if k.Index == m.counter {
				mk = refMK{k.CipherKey, k.MacKey, k.Iv}
				found = true
			} else {
				keep = append(keep, k)
			}
		}
		if !found {
			return nil, nil, vDup, refMK{}
		}
		ch.MessageKeys = keep
	} else {
		if m.counter-idx > 25000 && !bytes.Equal(st.LocalIdentityPublic, st.RemoteIdentityPublic) {
			return nil, nil, vFar, refMK{}
		}
		ck := ch.ChainKey.Key
		for i := idx; i < m.counter; i++ {
			k := refMKOf(ck)
			ch.MessageKeys = append(ch.MessageKeys, &v1.SessionStructure_Chain_MessageKey{Index: i, CipherKey: k.cipher, MacKey: k.mac, Iv: k.iv})
			if len(ch.MessageKeys) > 2000 {
				ch.MessageKeys = ch.MessageKeys[1:]
			}
			ck = refNext(ck)
		}
		mk = refMKOf(ck)
		ch.ChainKey = &v1.SessionStructure_Chain_ChainKey{Index: m.counter + 1, Key: refNext(ck)}
	}
	if !bytes.Equal(refHMAC(mk.mac, st.RemoteIdentityPublic, st.LocalIdentityPublic, m.body)[:8], m.mac) {
		return nil, nil, vBad, mk
	}
	pt, ok := refDec(mk.cipher, mk.iv, m.ct)
	if !ok {
		return nil, nil, vBad, mk
	}
	st.PendingPreKey = nil
	return pt, st, vOK, mk
}

// forge makes the bytes of a message to the owner of st on its newest receiving chain (or a given one)
// at a counter, under that counter's true key.
func forge(st *v1.SessionStructure, ch *v1.SessionStructure_Chain, counter uint32, pt []byte) []byte {
	ck, i := ch.ChainKey.Key, ch.ChainKey.Index
	if counter < i {
		for _, k := range ch.MessageKeys {
			if k.Index == counter {
				return sigBytes(byte(st.SessionVersion), ch.SenderRatchetKey, counter, 0, refEnc(k.CipherKey, k.Iv, pt), k.MacKey, st.RemoteIdentityPublic, st.LocalIdentityPublic)
			}
		}
		return nil
	}
	for ; i < counter; i++ {
		ck = refNext(ck)
	}
	k := refMKOf(ck)
	return sigBytes(byte(st.SessionVersion), ch.SenderRatchetKey, counter, 0, refEnc(k.cipher, k.iv, pt), k.mac, st.RemoteIdentityPublic, st.LocalIdentityPublic)
}

// allStates are the current state and the archived ones.
func allStates(r *session.Record) []*v1.SessionStructure {
	var o []*v1.SessionStructure
	if st := stateOf(r); st != nil {
		o = append(o, st)
	}
	if r == nil {
		return o
	}
	ps, _ := r.PreviousStates()
	for _, x := range ps {
		o = append(o, stateOf(session.NewRecord(x)))
	}
	return o
}
