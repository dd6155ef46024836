package main

// Symbolic values, heap objects, and conversion between Go values and terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type PathEl struct {
	F   int
	Idx *Term
}

type PtrV struct {
	Nil  *Term // condition under which the pointer is nil
	Obj  int
	Path []PathEl
}
type SliceV struct {
	Arr           int // 0: nil slice
	Off, Len, Cap *Term
	Elem          types.Type
	NilC          *Term // nil-ness when empty (may be nil: unknown)
}
type StructV struct {
	T types.Type
	F []Val
}
type LazyV struct {
	T    types.Type
	Term *Term
}
type IfaceV struct {
	T     types.Type
	Dyn   types.Type // nil if unknown
	V     Val
	Nil   *Term
	Lazy  *Term // packed term of a multi-implementation interface
	Ghost int   // ghost object
	Op    *Term // opaque identity
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Bt   *ssa.Builtin
}
type MapV struct {
	Obj int
	Nil *Term
}
type TupleV []Val

type focus struct {
	Idx *Term
	Obj int
	Src *Term
}

type Obj struct {
	Kind    string // cell, arr, map, ghost
	T       types.Type
	V       Val
	List    *Term
	Vals    []Val
	Focus   []focus
	Foreign bool
	Stale   string
	Frozen  string
	Shares  string // a parameter whose objects were linked into this one
	Src     *Term  // packed contents at creation (lazy objects)
	G       string
	GT      map[string]*Term
	GV      map[string]Val
	Root    string // name of the parameter this object belongs to
}

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

// ---- sorts of Go types

var (
	typeSorts  = map[string]*Sort{}
	ghostTypes = map[string]*Sort{} // interface type name -> abstract state sort
	extTypes   = map[string]bool{}  // external struct types modelled as uninterpreted sorts
)

const repoPrefix = "github.com/RTann/libsignal-go/protocol/"

func tname(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(p.Path(), repoPrefix)
	})
	return s
}
func mangle(s string) string {
	r := strings.NewReplacer("/", ".", "*", "P", "[", "<", "]", ">", " ", "_")
	return r.Replace(s)
}

func isByteSlice(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}
func isByteArray(t types.Type) (int64, bool) {
	if s, ok := t.Underlying().(*types.Array); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		if ok && b.Kind() == types.Uint8 {
			return s.Len(), true
		}
	}
	return 0, false
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isError(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}
func isInRepo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path()+"/", repoPrefix)
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	switch b.Kind() {
	case types.Uint8:
		return big0, big255
	case types.Uint16:
		return big0, new(big.Int).Sub(pow2(16), BI(1))
	case types.Uint32:
		return big0, new(big.Int).Sub(pow2(32), BI(1))
	case types.Uint64, types.Uint, types.Uintptr:
		return big0, new(big.Int).Sub(pow2(64), BI(1))
	case types.Int8:
		return BI(-128), BI(127)
	case types.Int16:
		return BI(-32768), BI(32767)
	case types.Int32:
		return new(big.Int).Neg(pow2(31)), new(big.Int).Sub(pow2(31), BI(1))
	case types.Int64, types.Int:
		return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), BI(1))
	}
	return nil, nil
}

func protoInternal(n string) bool {
	return n == "state" || n == "sizeCache" || n == "unknownFields"
}

// structFields returns the modelled fields of a struct type (indices into the Go struct).
func structFields(st *types.Struct) []int {
	proto := false
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "sizeCache" {
			proto = true
		}
	}
	var out []int
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if n == "_" || proto && protoInternal(n) {
			continue
		}
		out = append(out, i)
	}
	return out
}

func isExtStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if isInRepo(n.Obj().Pkg()) {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

var implCache = map[string][]types.Type{}

// implementers of a repository interface among repository types.
func (e *Engine) implementers(t types.Type) []types.Type {
	k := tname(t)
	if r, ok := implCache[k]; ok {
		return r
	}
	it := t.Underlying().(*types.Interface)
	var out []types.Type
	for _, p := range e.pkgs {
		sc := p.Pkg.Scope()
		names := sc.Names()
		sort.Strings(names)
		for _, n := range names {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nt, it) {
				out = append(out, nt)
			} else if types.Implements(types.NewPointer(nt), it) {
				out = append(out, types.NewPointer(nt))
			}
		}
	}
	implCache[k] = out
	return out
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) sortOf(t types.Type) *Sort {
	k := tname(t)
	if s, ok := typeSorts[k]; ok {
		return s
	}
	s := e.sortOf1(t, k)
	typeSorts[k] = s
	return s
}
func (e *Engine) sortOf1(t types.Type, k string) *Sort {
	if s, ok := ghostTypes[k]; ok {
		return s
	}
	if isError(t) {
		return IntS
	}
	if isExtStruct(t) {
		return uSort(mangle(k))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolS
		}
		if u.Info()&types.IsInteger != 0 {
			return IntS
		}
		if u.Info()&types.IsString != 0 {
			return BytesS
		}
		return uSort(mangle(k))
	case *types.Pointer:
		return optSort(e.sortOf(u.Elem()))
	case *types.Slice:
		if isByteSlice(t) {
			return BytesS
		}
		return listSort(e.sortOf(u.Elem()))
	case *types.Array:
		if _, ok := isByteArray(t); ok {
			return BytesS
		}
		return listSort(e.sortOf(u.Elem()))
	case *types.Struct:
		name := "D_" + mangle(k)
		if len(name) > 80 {
			name = fmt.Sprintf("D_anon%d", len(typeSorts))
		}
		s := internSort(&Sort{K: SData, Name: name})
		typeSorts[k] = s
		if s.Ctors == nil {
			c := &Ctor{Name: "mk_" + name, S: s}
			for _, i := range structFields(u) {
				f := u.Field(i)
				lo, hi := intRange(f.Type())
				c.Fields = append(c.Fields, Field{Name: f.Name(), S: e.sortOf(f.Type()), Lo: lo, Hi: hi})
			}
			s.Ctors = []*Ctor{c}
		}
		return s
	case *types.Map:
		return mapSort(e.sortOf(u.Key()), e.mapValSort(u.Elem()))
	case *types.Interface:
		n, ok := t.(*types.Named)
		if ok && isInRepo(n.Obj().Pkg()) {
			impl := e.implementers(t)
			if len(impl) == 1 {
				if _, isP := impl[0].(*types.Pointer); isP {
					return e.sortOf(impl[0])
				}
				return optSort(e.sortOf(impl[0]))
			}
			if len(impl) > 1 {
				s := internSort(&Sort{K: SData, Name: "I_" + mangle(k)})
				if s.Ctors == nil {
					s.Ctors = []*Ctor{{Name: "nil_" + s.Name, S: s}}
					for i, im := range impl {
						d := derefT(im)
						s.Ctors = append(s.Ctors, &Ctor{Name: "is_" + mangle(tname(d)) + "_" + s.Name, S: s, Idx: i + 1, Fields: []Field{{Name: d.(*types.Named).Obj().Name(), S: e.sortOf(d)}}})
					}
				}
				return s
			}
		}
		return IntS // opaque identity
	case *types.Signature:
		return IntS
	}
	return uSort(mangle(k))
}

func (e *Engine) mapValSort(t types.Type) *Sort {
	s := e.sortOf(t)
	if isOpt(s) {
		return s // absent == nil pointer
	}
	return optSort(s)
}

// zero value of a type.
func (e *Engine) zero(st *State, t types.Type) Val {
	if isError(t) {
		return Int(0)
	}
	if isExtStruct(t) {
		return LazyV{t, App("zero_"+mangle(tname(t)), e.sortOf(t))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if u.Info()&types.IsString != 0 {
			return Empty(BytesS)
		}
		if u.Info()&types.IsInteger != 0 {
			return Int(0)
		}
		return LazyV{t, App("zero_"+mangle(tname(t)), e.sortOf(t))}
	case *types.Pointer:
		return PtrV{Nil: tTrue}
	case *types.Slice:
		return SliceV{Off: Int(0), Len: Int(0), Cap: Int(0), Elem: u.Elem(), NilC: tTrue}
	case *types.Array:
		if n, ok := isByteArray(t); ok {
			return Rep(Int(0), Int(n))
		}
		var vs []Val
		for i := int64(0); i < u.Len(); i++ {
			vs = append(vs, e.zero(st, u.Elem()))
		}
		return StructV{t, vs}
	case *types.Struct:
		var fs []Val
		for i := 0; i < u.NumFields(); i++ {
			if protoSkip(u, i) {
				fs = append(fs, nil)
				continue
			}
			fs = append(fs, e.zero(st, u.Field(i).Type()))
		}
		return StructV{t, fs}
	case *types.Map:
		return MapV{Nil: tTrue}
	case *types.Interface:
		return IfaceV{T: t, Nil: tTrue}
	case *types.Signature:
		return FuncV{}
	}
	unsupported("zero value of %s", t)
	return nil
}

func protoSkip(u *types.Struct, i int) bool {
	for _, j := range structFields(u) {
		if i == j {
			return false
		}
	}
	return true
}

// fresh symbolic term of a type, with range.
func (e *Engine) freshTerm(name string, t types.Type) *Term {
	s := e.sortOf(t)
	if s == IntS {
		lo, hi := intRange(t)
		return FreshR(name, lo, hi)
	}
	return Fresh(name, s)
}

// open turns a packed term of type t into a value whose references are heap objects.
func (e *Engine) open(st *State, t types.Type, x *Term, root string) Val {
	if g, ok := ghostTypes[tname(t)]; ok && g == x.S {
		id := st.alloc(&Obj{Kind: "ghost", T: t, G: "store:" + tname(t), GT: map[string]*Term{"state": x}, Root: root})
		return IfaceV{T: t, Nil: tFalse, Ghost: id}
	}
	if isError(t) {
		return x
	}
	if isExtStruct(t) {
		return LazyV{t, x}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if x.S.K == SU {
			return LazyV{t, x}
		}
		return x
	case *types.Pointer:
		if x.Op == OCons && x.C.Idx == 0 {
			return PtrV{Nil: tTrue}
		}
		v := OptVal(x)
		id := st.alloc(&Obj{Kind: "cell", T: u.Elem(), V: LazyV{u.Elem(), v}, Src: v, Root: root})
		return PtrV{Nil: IsNone(x), Obj: id}
	case *types.Slice:
		if x.Op == OEmpty {
			return SliceV{Off: Int(0), Len: Int(0), Cap: Int(0), Elem: u.Elem()}
		}
		id := st.alloc(&Obj{Kind: "arr", T: u.Elem(), List: x, Foreign: true, Src: x, Root: root})
		n := Len(x)
		c := FreshR("cap", big0, nil)
		st.assume(Le(n, c))
		return SliceV{Arr: id, Off: Int(0), Len: n, Cap: c, Elem: u.Elem()}
	case *types.Array:
		if _, ok := isByteArray(t); ok {
			return x
		}
		return LazyV{t, x}
	case *types.Struct:
		c := x.S.Ctors[0]
		fs := make([]Val, u.NumFields())
		for k, i := range structFields(u) {
			fs[i] = LazyV{u.Field(i).Type(), Sel(c, k, x)}
		}
		return StructV{t, fs}
	case *types.Map:
		id := st.alloc(&Obj{Kind: "map", T: t, List: x, Src: x, Root: root})
		return MapV{Obj: id, Nil: tFalse}
	case *types.Interface:
		if x.S == IntS {
			return IfaceV{T: t, Op: x, Nil: Eq(x, Int(0))}
		}
		impl := e.implementers(t)
		if len(impl) == 1 {
			pt := impl[0]
			if _, isP := pt.(*types.Pointer); isP {
				pv := e.open(st, pt, x, root).(PtrV)
				n := pv.Nil
				pv.Nil = tFalse
				return IfaceV{T: t, Dyn: pt, V: pv, Nil: n}
			}
			return IfaceV{T: t, Dyn: pt, V: e.open(st, pt, OptVal(x), root), Nil: IsNone(x)}
		}
		if x.Op == OCons && x.C.Idx > 0 {
			im := impl[x.C.Idx-1]
			return e.ifaceCase(st, t, x, im, x.C)
		}
		return IfaceV{T: t, Lazy: x, Nil: Is(x.S.Ctors[0], x)}
	}
	unsupported("open %s", t)
	return nil
}

func (e *Engine) ifaceCase(st *State, t types.Type, x *Term, im types.Type, c *Ctor) IfaceV {
	inner := Sel(c, 0, x)
	if _, isP := im.(*types.Pointer); isP {
		id := st.alloc(&Obj{Kind: "cell", T: derefT(im), V: LazyV{derefT(im), inner}, Src: inner})
		return IfaceV{T: t, Dyn: im, V: PtrV{Nil: tFalse, Obj: id}, Nil: tFalse}
	}
	return IfaceV{T: t, Dyn: im, V: e.open(st, im, inner, ""), Nil: tFalse}
}

// force opens a lazy value one level (struct fields opened too so that copies share references).
func (e *Engine) force(st *State, v Val, root string) Val {
	switch x := v.(type) {
	case LazyV:
		if isExtStruct(x.T) {
			return x
		}
		o := e.open(st, x.T, x.Term, root)
		if s, ok := o.(StructV); ok {
			return e.force(st, s, root)
		}
		return o
	case StructV:
		fs := make([]Val, len(x.F))
		ch := false
		for i, f := range x.F {
			if f == nil {
				continue
			}
			fs[i] = f
			if l, ok := f.(LazyV); ok && !isExtStruct(l.T) {
				if _, arr := l.T.Underlying().(*types.Array); arr {
					if _, b := isByteArray(l.T); !b {
						continue
					}
				}
				fs[i] = e.force(st, f, root)
				ch = true
			} else if s, ok := f.(StructV); ok {
				fs[i] = e.force(st, s, root)
				ch = true
			}
		}
		if !ch {
			return x
		}
		return StructV{x.T, fs}
	}
	return v
}

// pack converts a value to its term.
func (e *Engine) pack(st *State, v Val, t types.Type) *Term { return e.packD(st, v, t, 0) }
func (e *Engine) packD(st *State, v Val, t types.Type, d int) *Term {
	if d > 24 {
		unsupported("cyclic value of type %s", t)
	}
	switch x := v.(type) {
	case *Term:
		return x
	case LazyV:
		return x.Term
	case PtrV:
		s := e.sortOf(t)
		if x.Nil.Op == OTrue {
			return None(s)
		}
		el := derefT(t)
		inner := e.packPath(st, x, el, d)
		if x.Nil.Op == OFalse {
			return Some(inner)
		}
		// lazily opened and unchanged: the original option
		if x.Nil.Op == OIs && x.Nil.C.Idx == 0 && OptVal(x.Nil.Args[0]) == inner {
			return x.Nil.Args[0]
		}
		return Ite(x.Nil, None(s), Some(inner))
	case SliceV:
		s := e.sortOf(t)
		if x.Arr == 0 {
			return Empty(s)
		}
		l := e.arrList(st, x.Arr, d)
		return st.extCtx(Ext(l, x.Off, Add(x.Off, x.Len)))
	case StructV:
		if _, ok := t.Underlying().(*types.Array); ok {
			s := e.sortOf(t)
			var us []*Term
			el := t.Underlying().(*types.Array).Elem()
			for _, f := range x.F {
				us = append(us, Unit(e.packD(st, f, el, d+1)))
			}
			return Cat(s, us...)
		}
		s := e.sortOf(t)
		u := t.Underlying().(*types.Struct)
		var args []*Term
		for _, i := range structFields(u) {
			args = append(args, e.packD(st, x.F[i], u.Field(i).Type(), d+1))
		}
		return Cons(s.Ctors[0], args...)
	case IfaceV:
		s := e.sortOf(t)
		if x.Ghost != 0 {
			o := st.obj(x.Ghost)
			if g, ok := o.GT["state"]; ok && g.S == s {
				return g
			}
			if s == IntS {
				return Int(int64(1000000 + x.Ghost))
			}
			unsupported("packing ghost %s as %s", o.G, s)
		}
		if isError(t) {
			if x.Nil != nil && x.Nil.Op == OTrue {
				return Int(0)
			}
			unsupported("error value of dynamic type %v", x.Dyn)
		}
		if x.Nil != nil && x.Nil.Op == OTrue {
			if s == IntS {
				return Int(0)
			}
			return Cons(s.Ctors[0])
		}
		if x.Lazy != nil {
			return x.Lazy
		}
		if x.Op != nil {
			if s == IntS {
				return x.Op
			}
			unsupported("opaque interface as %s", s)
		}
		if s == IntS {
			return Fresh("iface", IntS)
		}
		impl := e.implementers(t)
		if len(impl) == 1 {
			pt := impl[0]
			if x.Dyn == nil || !types.Identical(pt, x.Dyn) {
				unsupported("interface dynamic type %v", x.Dyn)
			}
			if p, ok := x.V.(PtrV); ok {
				if p.Nil.Op != OFalse {
					// typed nil inside a non-nil interface is not modelled
					if !st.implied(Not(p.Nil)) {
						unsupported("possibly typed-nil interface")
					}
					p.Nil = tFalse
				}
				p.Nil = x.Nil
				return e.packD(st, p, pt, d+1)
			}
			return Ite(x.Nil, None(s), Some(e.packD(st, x.V, pt, d+1)))
		}
		for i, im := range impl {
			if types.Identical(im, x.Dyn) {
				var inner *Term
				if p, ok := x.V.(PtrV); ok {
					if p.Nil.Op != OFalse && !st.implied(Not(p.Nil)) {
						unsupported("possibly typed-nil interface")
					}
					inner = e.packPath(st, p, derefT(im), d)
				} else {
					inner = e.packD(st, x.V, im, d+1)
				}
				return Cons(s.Ctors[i+1], inner)
			}
		}
		unsupported("interface dynamic type %v", x.Dyn)
	case MapV:
		s := e.sortOf(t)
		if x.Obj == 0 {
			return MConst(s, None(s.Elem))
		}
		return e.mapTerm(st, x.Obj, d)
	case FuncV:
		return Int(7)
	case nil:
		return Fresh("undef", e.sortOf(t))
	}
	unsupported("pack %T", v)
	return nil
}

func (e *Engine) packPath(st *State, p PtrV, t types.Type, d int) *Term {
	o := st.obj(p.Obj)
	e.checkLive(o)
	if len(p.Path) == 0 && o.Kind == "cell" {
		return e.packD(st, o.V, t, d+1)
	}
	if len(p.Path) == 0 && o.Kind == "arr" {
		return e.arrList(st, p.Obj, d)
	}
	return e.packD(st, e.load(st, p), t, d+1)
}

func (e *Engine) checkLive(o *Obj) {
	if o.Stale != "" {
		unsupported("use of a stale reference (%s)", o.Stale)
	}
}

// arrList: the current contents of an array object as a list term.
func (e *Engine) arrList(st *State, id int, d int) *Term {
	o := st.obj(id)
	e.checkLive(o)
	if o.Vals != nil {
		s := listSort(e.sortOf(o.T))
		var us []*Term
		for _, v := range o.Vals {
			us = append(us, Unit(e.packD(st, v, o.T, d+1)))
		}
		return Cat(s, us...)
	}
	l := o.List
	for _, f := range o.Focus {
		fo := st.obj(f.Obj)
		if fo.Stale != "" {
			continue
		}
		cur := e.packD(st, fo.V, fo.T, d+1)
		if cur != fo.Src && !st.sameVal(cur, fo.Src, 0) {
			l = Upd(l, f.Idx, Some(cur))
		}
	}
	return l
}

// sameVal: cur is src under the facts known so far.
func (st *State) sameVal(cur, src *Term, d int) bool {
	if cur == nil || src == nil {
		return false
	}
	if cur == src || d > 12 {
		return cur == src
	}
	cur, src = st.norm(cur), st.norm(src)
	if cur == src {
		return true
	}
	if cur.Op != OCons {
		return false
	}
	if len(cur.S.Ctors) > 1 && st.norm(Is(cur.C, src)).Op != OTrue {
		return false
	}
	for i, a := range cur.Args {
		if !st.sameVal(a, Sel(cur.C, i, src), d+1) {
			return false
		}
	}
	return true
}

func (e *Engine) mapTerm(st *State, id int, d int) *Term {
	o := st.obj(id)
	e.checkLive(o)
	m := o.List
	for _, f := range o.Focus {
		fo := st.obj(f.Obj)
		cur := e.packD(st, fo.V, fo.T, d+1)
		if cur != fo.Src && !st.sameVal(cur, fo.Src, 0) {
			m = MStore(m, f.Idx, Some(cur))
		}
	}
	return m
}
