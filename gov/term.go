package main

// Terms: hash-consed first-order terms with a simplifying constructor layer.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type SK uint8

const (
	SInt SK = iota
	SBool
	SList
	SData
	SMap
	SU
)

type Field struct {
	Name   string
	S      *Sort
	Lo, Hi *big.Int
}

type Ctor struct {
	Name   string
	S      *Sort
	Fields []Field
	Idx    int
}

type Sort struct {
	K         SK
	Name      string
	Elem, Key *Sort
	Ctors     []*Ctor
}

func (s *Sort) String() string { return s.Name }

var (
	tmu    sync.Mutex
	IntS   = &Sort{K: SInt, Name: "Int"}
	BoolS  = &Sort{K: SBool, Name: "Bool"}
	sorts  = map[string]*Sort{}
	BytesS = listSort(IntS)
)

func internSort(s *Sort) *Sort {
	tmu.Lock()
	defer tmu.Unlock()
	if o, ok := sorts[s.Name]; ok {
		return o
	}
	sorts[s.Name] = s
	return s
}
func listSort(e *Sort) *Sort { return internSort(&Sort{K: SList, Name: "L_" + e.Name, Elem: e}) }
func uSort(n string) *Sort   { return internSort(&Sort{K: SU, Name: "U_" + n}) }
func mapSort(k, v *Sort) *Sort {
	return internSort(&Sort{K: SMap, Name: "M_" + k.Name + "_" + v.Name, Key: k, Elem: v})
}
func optSort(e *Sort) *Sort {
	s := internSort(&Sort{K: SData, Name: "O_" + e.Name})
	tmu.Lock()
	defer tmu.Unlock()
	if s.Ctors == nil {
		s.Ctors = []*Ctor{{Name: "none_" + e.Name, S: s, Idx: 0}, {Name: "some_" + e.Name, S: s, Idx: 1, Fields: []Field{{Name: "val", S: e}}}}
	}
	return s
}
func isOpt(s *Sort) bool { return s.K == SData && strings.HasPrefix(s.Name, "O_") }
func isStruct(s *Sort) bool {
	return s.K == SData && len(s.Ctors) == 1
}

type Op uint8

const (
	OInt Op = iota
	OTrue
	OFalse
	OVar
	OApp // uninterpreted / defined function
	OAdd
	OMulC // I * arg
	OMul
	ODiv
	OMod
	OEq
	OLe // a <= b
	ONot
	OAnd
	OOr
	OIte
	OForall
	OLen
	OAt
	OCat
	OExt
	OUnit
	OUpd
	ORep
	OLit // byte literal in Name
	OEmpty
	OCons
	OSel
	OIs
	OMSel
	OMStore
	OMConst
)

type Term struct {
	Op     Op
	S      *Sort
	Args   []*Term
	Name   string
	I      *big.Int
	C      *Ctor
	F      int
	ID     int
	Lo, Hi *big.Int
	Bound  bool // contains bound variables
	Vars   []*Term
	Trig   [][]*Term
}

var table = map[string]*Term{}
var nextID = 0

func mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|%d", t.Op, t.S.Name, t.Name, t.F)
	if t.I != nil {
		b.WriteString("#" + t.I.String())
	}
	if t.C != nil {
		b.WriteString("@" + t.C.Name)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	for _, v := range t.Vars {
		fmt.Fprintf(&b, ";%d", v.ID)
	}
	k := b.String()
	tmu.Lock()
	defer tmu.Unlock()
	if o, ok := table[k]; ok {
		return o
	}
	nextID++
	t.ID = nextID
	for _, a := range t.Args {
		if a.Bound {
			t.Bound = true
		}
	}
	table[k] = t
	return t
}

var varN = 0

func freshName(p string) string {
	tmu.Lock()
	defer tmu.Unlock()
	varN++
	return fmt.Sprintf("%s!%d", p, varN)
}

func Var(name string, s *Sort) *Term { return mk(&Term{Op: OVar, S: s, Name: name}) }
func Fresh(p string, s *Sort) *Term  { return Var(freshName(p), s) }
func FreshR(p string, lo, hi *big.Int) *Term {
	v := Fresh(p, IntS)
	v.Lo, v.Hi = lo, hi
	return v
}
func BoundVar(p string, s *Sort) *Term {
	v := Fresh("q_"+p, s)
	v.Bound = true
	return v
}

var (
	tTrue  = mk(&Term{Op: OTrue, S: BoolS})
	tFalse = mk(&Term{Op: OFalse, S: BoolS})
)

func BI(n int64) *big.Int   { return big.NewInt(n) }
func IntB(n *big.Int) *Term { return mk(&Term{Op: OInt, S: IntS, I: new(big.Int).Set(n)}) }
func Int(n int64) *Term     { return IntB(BI(n)) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func (t *Term) isInt() bool    { return t.Op == OInt }
func (t *Term) String() string { return pretty(t, 6) }

func pow2(n int) *big.Int { return new(big.Int).Lsh(BI(1), uint(n)) }

// ---- linear arithmetic normal form

type lin struct {
	c  *big.Int
	m  map[int]*big.Int
	ts map[int]*Term
}

func newLin() *lin { return &lin{c: BI(0), m: map[int]*big.Int{}, ts: map[int]*Term{}} }
func (l *lin) addT(t *Term, k *big.Int) {
	switch t.Op {
	case OInt:
		l.c.Add(l.c, new(big.Int).Mul(t.I, k))
	case OAdd:
		for _, a := range t.Args {
			l.addT(a, k)
		}
	case OMulC:
		l.addT(t.Args[0], new(big.Int).Mul(k, t.I))
	default:
		o, ok := l.m[t.ID]
		if !ok {
			o = BI(0)
		}
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, t.ID)
			delete(l.ts, t.ID)
		} else {
			l.m[t.ID] = n
			l.ts[t.ID] = t
		}
	}
}
func (l *lin) term() *Term {
	var ids []int
	for id := range l.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		k := l.m[id]
		if k.Cmp(BI(1)) == 0 {
			args = append(args, l.ts[id])
		} else {
			args = append(args, mk(&Term{Op: OMulC, S: IntS, I: k, Args: []*Term{l.ts[id]}}))
		}
	}
	if l.c.Sign() != 0 {
		args = append(args, IntB(l.c))
	}
	switch len(args) {
	case 0:
		return Int(0)
	case 1:
		return args[0]
	}
	return mk(&Term{Op: OAdd, S: IntS, Args: args})
}
func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.addT(t, BI(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.addT(a, BI(1))
	l.addT(b, BI(-1))
	return l.term()
}
func MulC(k *big.Int, t *Term) *Term {
	l := newLin()
	l.addT(t, k)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.isInt() {
		return MulC(a.I, b)
	}
	if b.isInt() {
		return MulC(b.I, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: OMul, S: IntS, Args: []*Term{a, b}})
}

// Div and Mod: Euclidean, positive constant divisor expected.
func Div(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		if b.I.Cmp(BI(1)) == 0 {
			return a
		}
		if a.isInt() {
			return IntB(new(big.Int).Div(a.I, b.I))
		}
		lo, hi := bounds(a)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(b.I) < 0 {
			return Int(0)
		}
		// split off multiples of b
		l := newLin()
		l.addT(a, BI(1))
		q, r := newLin(), newLin()
		qc, rc := new(big.Int).DivMod(l.c, b.I, new(big.Int))
		q.c, r.c = qc, rc
		for id, k := range l.m {
			qk, rk := new(big.Int).DivMod(k, b.I, new(big.Int))
			if qk.Sign() != 0 && rk.Sign() == 0 {
				q.addT(l.ts[id], qk)
			} else {
				r.addT(l.ts[id], k)
			}
		}
		rt := r.term()
		if len(q.m) > 0 || q.c.Sign() != 0 {
			return Add(q.term(), Div(rt, b))
		}
	}
	return mk(&Term{Op: ODiv, S: IntS, Args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		if a.isInt() {
			return IntB(new(big.Int).Mod(a.I, b.I))
		}
		lo, hi := bounds(a)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(b.I) < 0 {
			return a
		}
		l := newLin()
		l.addT(a, BI(1))
		r := newLin()
		r.c = new(big.Int).Mod(l.c, b.I)
		ch := r.c.Cmp(l.c) != 0
		for id, k := range l.m {
			if new(big.Int).Mod(k, b.I).Sign() == 0 {
				ch = true
				continue
			}
			// (x mod c) with b | c inside: x mod c ≡ x (mod b)
			if t := l.ts[id]; t.Op == OMod && t.Args[1].isInt() && new(big.Int).Mod(t.Args[1].I, b.I).Sign() == 0 {
				r.addT(t.Args[0], k)
				ch = true
				continue
			}
			r.addT(l.ts[id], k)
		}
		if ch {
			return Mod(r.term(), b)
		}
		// a common factor of all coefficients and the modulus
		g := new(big.Int).Set(b.I)
		if l.c.Sign() != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(l.c))
		}
		for _, k := range l.m {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(BI(1)) > 0 {
			q := newLin()
			q.c = new(big.Int).Div(l.c, g)
			for id, k := range l.m {
				q.addT(l.ts[id], new(big.Int).Div(k, g))
			}
			return MulC(g, Mod(q.term(), IntB(new(big.Int).Div(b.I, g))))
		}
	}
	return mk(&Term{Op: OMod, S: IntS, Args: []*Term{a, b}})
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

var big255 = BI(255)
var big0 = BI(0)

func bounds(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case OInt:
		return t.I, t.I
	case OVar, OApp:
		return t.Lo, t.Hi
	case OSel:
		f := t.C.Fields[t.F]
		return f.Lo, f.Hi
	case OAt:
		if t.S == IntS {
			return big0, big255
		}
	case OLen:
		return big0, nil
	case OMod:
		if t.Args[1].isInt() && t.Args[1].I.Sign() > 0 {
			return big0, new(big.Int).Sub(t.Args[1].I, BI(1))
		}
	case ODiv:
		if t.Args[1].isInt() && t.Args[1].I.Sign() > 0 {
			l, h := bounds(t.Args[0])
			if l != nil {
				l = new(big.Int).Div(l, t.Args[1].I)
			}
			if h != nil {
				h = new(big.Int).Div(h, t.Args[1].I)
			}
			return l, h
		}
	case OMulC:
		l, h := bounds(t.Args[0])
		m := func(x *big.Int) *big.Int {
			if x == nil {
				return nil
			}
			return new(big.Int).Mul(x, t.I)
		}
		if t.I.Sign() < 0 {
			return m(h), m(l)
		}
		return m(l), m(h)
	case OAdd:
		lo, hi = BI(0), BI(0)
		for _, a := range t.Args {
			l, h := bounds(a)
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, l)
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, h)
				}
			}
		}
		return
	case OIte:
		if t.S == IntS {
			l1, h1 := bounds(t.Args[1])
			l2, h2 := bounds(t.Args[2])
			return minB(l1, l2), maxB(h1, h2)
		}
	}
	return nil, nil
}

// provLe: a <= b from linear form and static bounds.
func provLe(a, b *Term) bool {
	lo, hi := bounds(Sub(a, b))
	if hi != nil && hi.Sign() <= 0 {
		return true
	}
	if provHook != nil && (lo == nil || lo.Sign() <= 0) {
		return provHook(a, b)
	}
	return false
}

// provHook decides what the terms alone do not, while a slice is read.
var provHook func(a, b *Term) bool

func provLt(a, b *Term) bool { return provLe(Add(a, Int(1)), b) }

func Le(a, b *Term) *Term {
	d := Sub(a, b) // d <= 0
	lo, hi := bounds(d)
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	// canonical: move positive coefficients left, negative right
	l := newLin()
	l.addT(d, BI(1))
	// divide by gcd
	g := BI(0)
	for _, k := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Cmp(BI(1)) > 0 {
		// sum g*k*x <= -c  => sum k*x <= floor(-c/g)
		r := newLin()
		for id, k := range l.m {
			r.addT(l.ts[id], new(big.Int).Div(k, g))
		}
		rhs := new(big.Int).Div(new(big.Int).Neg(l.c), g)
		r.c = new(big.Int).Neg(rhs)
		l = r
	}
	p, n := newLin(), newLin()
	for id, k := range l.m {
		if k.Sign() > 0 {
			p.addT(l.ts[id], k)
		} else {
			n.addT(l.ts[id], new(big.Int).Neg(k))
		}
	}
	if l.c.Sign() > 0 {
		p.c = l.c
	} else {
		n.c = new(big.Int).Neg(l.c)
	}
	return mk(&Term{Op: OLe, S: BoolS, Args: []*Term{p.term(), n.term()}})
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.Args[0]
	case OLe:
		return Lt(a.Args[1], a.Args[0])
	}
	return mk(&Term{Op: ONot, S: BoolS, Args: []*Term{a}})
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == OTrue || seen[t.ID] {
			return true
		}
		if t.Op == OFalse {
			return false
		}
		if t.Op == OAnd {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk(&Term{Op: OAnd, S: BoolS, Args: out})
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == OFalse || seen[t.ID] {
			return true
		}
		if t.Op == OTrue {
			return false
		}
		if t.Op == OOr {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk(&Term{Op: OOr, S: BoolS, Args: out})
}
func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }
func Ite(c, a, b *Term) *Term {
	if c.Op == OTrue || a == b {
		return a
	}
	if c.Op == OFalse {
		return b
	}
	if a.S == BoolS {
		if a.Op == OTrue && b.Op == OFalse {
			return c
		}
		if a.Op == OFalse && b.Op == OTrue {
			return Not(c)
		}
		return And(Imp(c, a), Imp(Not(c), b))
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s", a.S, b.S))
	}
	return mk(&Term{Op: OIte, S: a.S, Args: []*Term{c, a, b}})
}
func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s %s: %v  %v", a.S, b.S, a, b))
	}
	switch a.S.K {
	case SInt:
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.I.Sign() == 0)
		}
		lo, hi := bounds(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		for i := 0; i < 2; i++ {
			x, y := a, b
			if i == 1 {
				x, y = b, a
			}
			if x.Op == OIte && y.isInt() {
				if x.Args[1].isInt() || x.Args[2].isInt() {
					return Ite(x.Args[0], Eq(x.Args[1], y), Eq(x.Args[2], y))
				}
			}
		}
	case SBool:
		if a.Op == OTrue {
			return b
		}
		if b.Op == OTrue {
			return a
		}
		if a.Op == OFalse {
			return Not(b)
		}
		if b.Op == OFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	case SData:
		if a.Op == OCons && b.Op == OCons {
			if a.C != b.C {
				return tFalse
			}
			var es []*Term
			for i := range a.Args {
				es = append(es, Eq(a.Args[i], b.Args[i]))
			}
			return And(es...)
		}
		if a.Op != OCons {
			a, b = b, a
		}
		if a.Op == OCons && len(a.Args) == 0 {
			return Is(a.C, b)
		}
		if a.Op == OCons && b.Op != OIte {
			// decompose against a neutral term
			es := []*Term{Is(a.C, b)}
			for i := range a.Args {
				es = append(es, Eq(a.Args[i], Sel(a.C, i, b)))
			}
			return And(es...)
		}
	case SList:
		if r := eqList(a, b); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: OEq, S: BoolS, Args: []*Term{a, b}})
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func parts(t *Term) []*Term {
	if t.Op == OCat {
		return t.Args
	}
	if t.Op == OEmpty {
		return nil
	}
	return []*Term{t}
}

func eqList(a, b *Term) *Term {
	la, lb := Len(a), Len(b)
	ld := Sub(la, lb)
	lo, hi := bounds(ld)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	pa, pb := parts(a), parts(b)
	if a.Op == OLit && b.Op == OLit {
		return Bool(a.Name == b.Name)
	}
	if len(pa) <= 1 && len(pb) <= 1 {
		if len(pa) == 0 && len(pb) == 1 || len(pb) == 0 && len(pa) == 1 {
			x := a
			if len(pa) == 0 {
				x = b
			}
			return Eq(Len(x), Int(0))
		}
		if len(pa) == 1 && pa[0].Op == OUnit && pb[0].Op == OUnit {
			return Eq(pa[0].Args[0], pb[0].Args[0])
		}
		return nil
	}
	i := 0
	var conj []*Term
	for i < len(pa) && i < len(pb) {
		if pa[i] == pb[i] {
			i++
			continue
		}
		if pa[i].Op == OUnit && pb[i].Op == OUnit {
			conj = append(conj, Eq(pa[i].Args[0], pb[i].Args[0]))
			i++
			continue
		}
		if pa[i].Op == OLit && pb[i].Op == OLit && pa[i].Name != pb[i].Name {
			x, y := pa[i].Name, pb[i].Name
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if x[:n] != y[:n] {
				return tFalse
			}
			pa = append(append(append([]*Term{}, pa[:i]...), Lit(x[:n]), Lit(x[n:])), pa[i+1:]...)
			pb = append(append(append([]*Term{}, pb[:i]...), Lit(y[:n]), Lit(y[n:])), pb[i+1:]...)
			pa, pb = dropEmpty(pa), dropEmpty(pb)
			continue
		}
		// equal symbolic length parts: componentwise
		if Len(pa[i]) == Len(pb[i]) {
			conj = append(conj, Eq(pa[i], pb[i]))
			i++
			continue
		}
		break
	}
	j := 0
	for len(pa)-j > i && len(pb)-j > i {
		x, y := pa[len(pa)-1-j], pb[len(pb)-1-j]
		if x == y {
			j++
			continue
		}
		if Len(x) == Len(y) {
			conj = append(conj, Eq(x, y))
			j++
			continue
		}
		break
	}
	if i == 0 && j == 0 {
		return nil
	}
	ra, rb := Cat(a.S, pa[i:len(pa)-j]...), Cat(a.S, pb[i:len(pb)-j]...)
	if ra.Op == OEmpty && rb.Op == OEmpty {
		return And(conj...)
	}
	return And(append(conj, Eq(ra, rb))...)
}
func dropEmpty(ts []*Term) []*Term {
	var o []*Term
	for _, t := range ts {
		if t.Op != OEmpty {
			o = append(o, t)
		}
	}
	return o
}

// ---- lists

func Empty(s *Sort) *Term { return mk(&Term{Op: OEmpty, S: s}) }
func Lit(b string) *Term {
	if b == "" {
		return Empty(BytesS)
	}
	return mk(&Term{Op: OLit, S: BytesS, Name: b})
}
func Unit(x *Term) *Term {
	if x.S == IntS && x.isInt() {
		return Lit(string([]byte{byte(x.I.Int64())}))
	}
	return mk(&Term{Op: OUnit, S: listSort(x.S), Args: []*Term{x}})
}

// known result lengths of uninterpreted functions
var fnLen = map[string]func(args []*Term) *Term{}

func constLen(n int64) func([]*Term) *Term { return func([]*Term) *Term { return Int(n) } }

func Len(l *Term) *Term {
	switch l.Op {
	case OEmpty:
		return Int(0)
	case OLit:
		return Int(int64(len(l.Name)))
	case OUnit:
		return Int(1)
	case OCat:
		var ls []*Term
		for _, a := range l.Args {
			ls = append(ls, Len(a))
		}
		return Add(ls...)
	case OExt:
		return Sub(l.Args[2], l.Args[1])
	case OUpd:
		return Len(l.Args[0])
	case ORep:
		return l.Args[1]
	case OIte:
		return Ite(l.Args[0], Len(l.Args[1]), Len(l.Args[2]))
	case OApp:
		if f, ok := fnLen[l.Name]; ok {
			return f(l.Args)
		}
	}
	return mk(&Term{Op: OLen, S: IntS, Args: []*Term{l}})
}
func Cat(s *Sort, ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.S != s {
			panic(fmt.Sprintf("cat sorts %s %s: %v", t.S, s, t))
		}
		switch t.Op {
		case OEmpty:
			return
		case OCat:
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.Op == OLit && t.Op == OLit {
				out[n-1] = Lit(p.Name + t.Name)
				return
			}
			if p.Op == OExt && t.Op == OExt && p.Args[0] == t.Args[0] && p.Args[2] == t.Args[1] {
				out = out[:n-1]
				add(Ext(p.Args[0], p.Args[1], t.Args[2]))
				return
			}
			// ext(l,a,b) ++ unit(at(l,b))
			if t.Op == OUnit && t.Args[0].Op == OAt {
				at := t.Args[0]
				if p.Op == OExt && p.Args[0] == at.Args[0] && p.Args[2] == at.Args[1] {
					out = out[:n-1]
					add(Ext(p.Args[0], p.Args[1], Add(p.Args[2], Int(1))))
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(out) {
	case 0:
		return Empty(s)
	case 1:
		return out[0]
	}
	return mk(&Term{Op: OCat, S: s, Args: out})
}
func Ext(l, a, b *Term) *Term {
	if a == b {
		return Empty(l.S)
	}
	if a.isInt() && a.I.Sign() == 0 && b == Len(l) {
		return l
	}
	switch l.Op {
	case OLit:
		if a.isInt() && b.isInt() {
			x, y := a.I.Int64(), b.I.Int64()
			if 0 <= x && x <= y && y <= int64(len(l.Name)) {
				return Lit(l.Name[x:y])
			}
		}
	case OExt:
		return Ext(l.Args[0], Add(l.Args[1], a), Add(l.Args[1], b))
	case ORep:
		return Rep(l.Args[0], Sub(b, a))
	case OUpd:
		i := l.Args[1]
		if provLt(i, a) || provLe(b, i) {
			return Ext(l.Args[0], a, b)
		}
		if provLe(a, i) && provLt(i, b) {
			return Upd(Ext(l.Args[0], a, b), Sub(i, a), l.Args[2])
		}
	case OCat:
		cum := Int(0)
		var out []*Term
		state := 0 // 0: before a, 1: inside
		ok := true
		for _, p := range l.Args {
			end := Add(cum, Len(p))
			if state == 0 {
				if provLe(end, a) {
					cum = end
					continue
				}
				if provLe(cum, a) && provLe(a, end) {
					state = 1
					if provLe(b, end) && provLe(a, b) {
						out = append(out, extPart(p, Sub(a, cum), Sub(b, cum)))
						state = 2
						break
					}
					if provLe(end, b) {
						out = append(out, extPart(p, Sub(a, cum), Len(p)))
						cum = end
						continue
					}
				}
				ok = false
				break
			}
			if provLe(end, b) {
				out = append(out, p)
				cum = end
				continue
			}
			if provLe(cum, b) && provLe(b, end) {
				out = append(out, extPart(p, Int(0), Sub(b, cum)))
				state = 2
				break
			}
			ok = false
			break
		}
		if ok && (state == 2 || state == 1 && (cum == b || provLe(b, cum))) {
			return Cat(l.S, out...)
		}
	case OIte:
		return Ite(l.Args[0], Ext(l.Args[1], a, b), Ext(l.Args[2], a, b))
	}
	return mk(&Term{Op: OExt, S: l.S, Args: []*Term{l, a, b}})
}
func extPart(p, a, b *Term) *Term { return Ext(p, a, b) }

func Rep(x, n *Term) *Term {
	if n.isInt() && n.I.Sign() <= 0 {
		return Empty(listSort(x.S))
	}
	if n.isInt() && x.isInt() && n.I.Int64() <= 4096 {
		return Lit(strings.Repeat(string([]byte{byte(x.I.Int64())}), int(n.I.Int64())))
	}
	if n.isInt() && n.I.Cmp(BI(1)) == 0 {
		return Unit(x)
	}
	return mk(&Term{Op: ORep, S: listSort(x.S), Args: []*Term{x, n}})
}
func inRange(i, n *Term) bool { return provLe(Int(0), i) && provLt(i, n) }

// AtIn is At where the caller guarantees 0 <= i < len(l) on the current path.
func AtIn(l, i *Term) *Term {
	switch l.Op {
	case OExt:
		return AtIn(l.Args[0], Add(l.Args[1], i))
	case ORep:
		return l.Args[0]
	case OUpd:
		if l.Args[1] == i {
			return l.Args[2]
		}
		if Eq(l.Args[1], i).Op == OFalse {
			return AtIn(l.Args[0], i)
		}
	}
	return At(l, i)
}
func At(l, i *Term) *Term {
	switch l.Op {
	case OLit:
		if i.isInt() && i.I.Sign() >= 0 && i.I.Cmp(BI(int64(len(l.Name)))) < 0 {
			return Int(int64(l.Name[i.I.Int64()]))
		}
	case OUnit:
		if i.isInt() && i.I.Sign() == 0 {
			return l.Args[0]
		}
	case OExt:
		if inRange(i, Sub(l.Args[2], l.Args[1])) {
			return At(l.Args[0], Add(l.Args[1], i))
		}
	case ORep:
		if inRange(i, l.Args[1]) {
			return l.Args[0]
		}
	case OUpd:
		if l.Args[1] == i && inRange(i, Len(l)) {
			return l.Args[2]
		}
		if Eq(l.Args[1], i).Op == OFalse {
			return At(l.Args[0], i)
		}
	case OCat:
		cum := Int(0)
		for _, p := range l.Args {
			end := Add(cum, Len(p))
			if provLe(end, i) {
				cum = end
				continue
			}
			if provLe(cum, i) && provLt(i, end) {
				return At(p, Sub(i, cum))
			}
			break
		}
		// from the back: index relative to the end
		end := Len(l)
		for k := len(l.Args) - 1; k >= 0; k-- {
			p := l.Args[k]
			st := Sub(end, Len(p))
			if provLe(st, i) && provLt(i, end) {
				return At(p, Sub(i, st))
			}
			if !provLt(i, st) {
				break
			}
			end = st
		}
	case OIte:
		return Ite(l.Args[0], At(l.Args[1], i), At(l.Args[2], i))
	}
	return mk(&Term{Op: OAt, S: l.S.Elem, Args: []*Term{l, i}})
}
func Upd(l, i, x *Term) *Term {
	if At(l, i) == x {
		return l
	}
	switch l.Op {
	case OUpd:
		if l.Args[1] == i {
			return Upd(l.Args[0], i, x)
		}
		// canonical order of distinct constant indices
		if i.isInt() && l.Args[1].isInt() && i.I.Cmp(l.Args[1].I) < 0 {
			return mk(&Term{Op: OUpd, S: l.S, Args: []*Term{Upd(l.Args[0], i, x), l.Args[1], l.Args[2]}})
		}
	case OUnit:
		if i.isInt() && i.I.Sign() == 0 {
			return Unit(x)
		}
	case OLit:
		if i.isInt() && i.I.Sign() >= 0 && i.I.Cmp(BI(int64(len(l.Name)))) < 0 {
			k := i.I.Int64()
			return Cat(l.S, Lit(l.Name[:k]), Unit(x), Lit(l.Name[k+1:]))
		}
	case OCat:
		cum := Int(0)
		for k, p := range l.Args {
			end := Add(cum, Len(p))
			if provLe(cum, i) && provLt(i, end) {
				np := Upd(p, Sub(i, cum), x)
				out := append([]*Term{}, l.Args...)
				out[k] = np
				return Cat(l.S, out...)
			}
			if !provLe(end, i) {
				break
			}
			cum = end
		}
	}
	if i.isInt() {
		// expand single-byte update of a term with constant length into cat(ext, unit, ext)
		if n := Len(l); n.isInt() && i.I.Sign() >= 0 && i.I.Cmp(n.I) < 0 && l.Op != OUpd {
			return Cat(l.S, Ext(l, Int(0), i), Unit(x), Ext(l, Add(i, Int(1)), n))
		}
	}
	return mk(&Term{Op: OUpd, S: l.S, Args: []*Term{l, i, x}})
}

// ---- data

func Cons(c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.Fields) {
		panic(fmt.Sprintf("cons %s: %d args", c.Name, len(args)))
	}
	for i, a := range args {
		if a.S != c.Fields[i].S {
			panic(fmt.Sprintf("cons %s.%s: sort %s want %s", c.Name, c.Fields[i].Name, a.S, c.Fields[i].S))
		}
	}
	if len(args) > 0 && len(c.S.Ctors) == 1 {
		var base *Term
		for i, a := range args {
			if a.Op == OSel && a.C == c && a.F == i && (base == nil || base == a.Args[0]) {
				base = a.Args[0]
				continue
			}
			base = nil
			break
		}
		if base != nil {
			return base
		}
	}
	return mk(&Term{Op: OCons, S: c.S, C: c, Args: args})
}
func Sel(c *Ctor, f int, t *Term) *Term {
	if t.S != c.S {
		panic(fmt.Sprintf("sel %s.%s on %s", c.Name, c.Fields[f].Name, t.S))
	}
	if t.Op == OCons && t.C == c {
		return t.Args[f]
	}
	if t.Op == OIte {
		a, b := t.Args[1], t.Args[2]
		// a branch of another constructor never matters
		if a.Op == OCons && a.C != c {
			return Sel(c, f, b)
		}
		if b.Op == OCons && b.C != c {
			return Sel(c, f, a)
		}
		return Ite(t.Args[0], Sel(c, f, a), Sel(c, f, b))
	}
	return mk(&Term{Op: OSel, S: c.Fields[f].S, C: c, F: f, Args: []*Term{t}})
}
func Is(c *Ctor, t *Term) *Term {
	if len(c.S.Ctors) == 1 {
		return tTrue
	}
	if t.Op == OCons {
		return Bool(t.C == c)
	}
	if t.Op == OIte {
		return Ite(t.Args[0], Is(c, t.Args[1]), Is(c, t.Args[2]))
	}
	if len(c.S.Ctors) == 2 && c.Idx == 1 {
		return Not(Is(c.S.Ctors[0], t))
	}
	return mk(&Term{Op: OIs, S: BoolS, C: c, Args: []*Term{t}})
}
func None(s *Sort) *Term   { return Cons(s.Ctors[0]) }
func Some(t *Term) *Term   { return Cons(optSort(t.S).Ctors[1], t) }
func IsNone(t *Term) *Term { return Is(t.S.Ctors[0], t) }
func OptVal(t *Term) *Term { return Sel(t.S.Ctors[1], 0, t) }
func fieldIdx(c *Ctor, n string) int {
	for i, f := range c.Fields {
		if f.Name == n {
			return i
		}
	}
	return -1
}
func With(t *Term, f int, v *Term) *Term {
	c := t.S.Ctors[0]
	args := make([]*Term, len(c.Fields))
	for i := range args {
		if i == f {
			args[i] = v
		} else {
			args[i] = Sel(c, i, t)
		}
	}
	return Cons(c, args...)
}

// ---- maps

func MSel(m, k *Term) *Term {
	if m.Op == OMStore {
		e := Eq(m.Args[1], k)
		if e.Op == OTrue {
			return m.Args[2]
		}
		if e.Op == OFalse {
			return MSel(m.Args[0], k)
		}
	}
	if m.Op == OMConst {
		return m.Args[0]
	}
	return mk(&Term{Op: OMSel, S: m.S.Elem, Args: []*Term{m, k}})
}
func MStore(m, k, v *Term) *Term {
	if m.Op == OMStore && m.Args[1] == k {
		return MStore(m.Args[0], k, v)
	}
	return mk(&Term{Op: OMStore, S: m.S, Args: []*Term{m, k, v}})
}
func MConst(s *Sort, v *Term) *Term { return mk(&Term{Op: OMConst, S: s, Args: []*Term{v}}) }

// ---- functions

type RecDef struct {
	Name string
	NPar int                               // index of the counter parameter
	Base func(args []*Term) *Term          // value at 0
	Step func(args []*Term, n *Term) *Term // value at n+1, given n (args[NPar] ignored)
	Ret  *Sort
}

var recDefs = map[string]*RecDef{}
var fnRange = map[string][2]*big.Int{}

// fnSimp: special simplifications of uninterpreted functions
var fnSimp = map[string]func(args []*Term) *Term{}

func App(name string, s *Sort, args ...*Term) *Term {
	if f, ok := fnSimp[name]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	if d, ok := recDefs[name]; ok {
		n := args[d.NPar]
		if n.isInt() {
			if n.I.Sign() <= 0 {
				return d.Base(args)
			}
			if n.I.Cmp(BI(64)) <= 0 {
				return d.Step(args, Sub(n, Int(1)))
			}
		}
	}
	t := mk(&Term{Op: OApp, S: s, Name: name, Args: args})
	if r, ok := fnRange[name]; ok {
		t.Lo, t.Hi = r[0], r[1]
	}
	return t
}

func Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	if body.Op == OTrue {
		return tTrue
	}
	if body.Op == OFalse {
		// domains are non-empty
		return tFalse
	}
	if body.Op == OAnd {
		var cs []*Term
		for _, a := range body.Args {
			cs = append(cs, Forall(vars, a, trig...))
		}
		return And(cs...)
	}
	used := false
	fv := map[int]bool{}
	freeBound(body, fv, map[int]bool{})
	var vs []*Term
	for _, v := range vars {
		if fv[v.ID] {
			used = true
			vs = append(vs, v)
		}
	}
	if !used {
		return body
	}
	if len(trig) == 0 {
		for _, v := range vs {
			if v.S == IntS {
				if d := shiftOf(body, v); d != 0 {
					body = Subst(body, map[int]*Term{v.ID: Sub(v, Int(d))}, map[int]*Term{})
				}
			}
		}
	}
	t := &Term{Op: OForall, S: BoolS, Args: []*Term{body}, Vars: vs, Trig: trig}
	r := mk(t)
	// recompute boundness: bound only if other bound vars occur
	for _, v := range vs {
		delete(fv, v.ID)
	}
	r.Bound = len(fv) > 0
	return r
}

// shiftOf: d when the bound variable indexes lists only as v+d (d != 0).
func shiftOf(body, v *Term) int64 {
	seen := map[int]bool{}
	var d int64
	n, bad := 0, false
	var w func(t *Term)
	w = func(t *Term) {
		if !t.Bound || seen[t.ID] || bad {
			return
		}
		seen[t.ID] = true
		if t.Op == OAt {
			ix := t.Args[1]
			fv := map[int]bool{}
			freeBound(ix, fv, map[int]bool{})
			if fv[v.ID] {
				df := Sub(ix, v)
				if !df.isInt() || !df.I.IsInt64() || df.I.Int64() > 1000 || df.I.Int64() < -1000 {
					bad = true
					return
				}
				if n > 0 && d != df.I.Int64() {
					bad = true
					return
				}
				d = df.I.Int64()
				n++
			}
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(body)
	if bad || n == 0 {
		return 0
	}
	return d
}
func freeBound(t *Term, out map[int]bool, seen map[int]bool) {
	if !t.Bound || seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.Op == OVar {
		out[t.ID] = true
		return
	}
	if t.Op == OForall {
		in := map[int]bool{}
		freeBound(t.Args[0], in, map[int]bool{})
		for _, v := range t.Vars {
			delete(in, v.ID)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBound(a, out, seen)
	}
}

// Subst rebuilds t with replacements applied (through the simplifier).
func Subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.ID]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args, m, memo)
	}
	switch r.Op {
	case OExt:
		// the whole list, once its length is known
		l, a, b := r.Args[0], r.Args[1], r.Args[2]
		if a.isInt() && a.I.Sign() == 0 && !r.Bound && l.Op != OLit {
			if n, ok := m[Len(l).ID]; ok && n == b {
				r = l
			}
		}
	case OCons:
		// some(val(o)) is o when o is known not to be none
		if isOpt(r.S) && len(r.Args) == 1 && r.Args[0].Op == OSel && r.Args[0].Args[0].S == r.S {
			o := r.Args[0].Args[0]
			if x, ok := m[IsNone(o).ID]; ok && x == tFalse {
				r = o
			}
		}
	}
	memo[t.ID] = r
	return r
}
func rebuild(t *Term, a []*Term, m, memo map[int]*Term) *Term {
	switch t.Op {
	case OApp:
		return App(t.Name, t.S, a...)
	case OAdd:
		return Add(a...)
	case OMulC:
		return MulC(t.I, a[0])
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], a[1])
	case OMod:
		return Mod(a[0], a[1])
	case OEq:
		return Eq(a[0], a[1])
	case OLe:
		return Le(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OForall:
		var trig [][]*Term
		for _, tr := range t.Trig {
			var x []*Term
			for _, y := range tr {
				x = append(x, Subst(y, m, memo))
			}
			trig = append(trig, x)
		}
		return Forall(t.Vars, a[0], trig...)
	case OLen:
		return Len(a[0])
	case OAt:
		return At(a[0], a[1])
	case OCat:
		return Cat(t.S, a...)
	case OExt:
		return Ext(a[0], a[1], a[2])
	case OUnit:
		return Unit(a[0])
	case OUpd:
		return Upd(a[0], a[1], a[2])
	case ORep:
		return Rep(a[0], a[1])
	case OCons:
		return Cons(t.C, a...)
	case OSel:
		return Sel(t.C, t.F, a[0])
	case OIs:
		return Is(t.C, a[0])
	case OMSel:
		return MSel(a[0], a[1])
	case OMStore:
		return MStore(a[0], a[1], a[2])
	case OMConst:
		return MConst(t.S, a[0])
	}
	panic("rebuild")
}

// ---- pretty printing

func pretty(t *Term, d int) string {
	if d < 0 {
		return "…"
	}
	as := func(sep string) string {
		var o []string
		for _, a := range t.Args {
			o = append(o, pretty(a, d-1))
		}
		return strings.Join(o, sep)
	}
	switch t.Op {
	case OInt:
		return t.I.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return t.Name
	case OApp:
		return t.Name + "(" + as(", ") + ")"
	case OAdd:
		return "(" + as(" + ") + ")"
	case OMulC:
		return t.I.String() + "*" + as("")
	case OMul:
		return as("*")
	case ODiv:
		return "(" + as(" div ") + ")"
	case OMod:
		return "(" + as(" mod ") + ")"
	case OEq:
		return "(" + as(" == ") + ")"
	case OLe:
		return "(" + as(" <= ") + ")"
	case ONot:
		return "!" + as("")
	case OAnd:
		return "(" + as(" && ") + ")"
	case OOr:
		return "(" + as(" || ") + ")"
	case OIte:
		return "ite(" + as(", ") + ")"
	case OForall:
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, v.Name)
		}
		return "(forall " + strings.Join(vs, ",") + ":: " + as("") + ")"
	case OLen:
		return "len(" + as("") + ")"
	case OAt:
		return pretty(t.Args[0], d-1) + "[" + pretty(t.Args[1], d-1) + "]"
	case OCat:
		return "(" + as(" ++ ") + ")"
	case OExt:
		return pretty(t.Args[0], d-1) + "[" + pretty(t.Args[1], d-1) + ":" + pretty(t.Args[2], d-1) + "]"
	case OUnit:
		return "[" + as("") + "]"
	case OUpd:
		return "upd(" + as(", ") + ")"
	case ORep:
		return "rep(" + as(", ") + ")"
	case OLit:
		return fmt.Sprintf("%q", t.Name)
	case OEmpty:
		return "[]"
	case OCons:
		return t.C.Name + "{" + as(", ") + "}"
	case OSel:
		return pretty(t.Args[0], d) + "." + t.C.Fields[t.F].Name
	case OIs:
		return "is_" + t.C.Name + "(" + as("") + ")"
	case OMSel:
		return pretty(t.Args[0], d-1) + "[" + pretty(t.Args[1], d-1) + "]"
	case OMStore:
		return "store(" + as(", ") + ")"
	case OMConst:
		return "const(" + as("") + ")"
	}
	return "?"
}
