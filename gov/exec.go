package main

// Symbolic execution of SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

const maxSteps = 400000
const maxPaths = 3000

var debugExec = os.Getenv("GOV_TRACE") != ""

// run executes states until they end or stop() says so.
func (e *Engine) run(init []*State, stop func(*State) bool) []*State {
	var out []*State
	work := append([]*State{}, init...)
	n := 0
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for !st.dead && st.end == "" {
			if stop != nil && stop(st) {
				st.end = "stop"
				break
			}
			e.steps++
			if e.steps > maxSteps {
				unsupported("step limit")
			}
			if !e.deadline.IsZero() && e.steps%64 == 0 && time.Now().After(e.deadline) {
				unsupported("time limit")
			}
			more := e.step(st)
			if len(more) > 0 {
				work = append(work, more...)
			}
		}
		if st.dead {
			continue
		}
		n++
		if n > maxPaths {
			unsupported("path limit")
		}
		out = append(out, st)
	}
	return out
}

// step executes one instruction; extra states are returned.
func (e *Engine) step(st *State) (more []*State) {
	fr := st.top()
	if fr.pc == 0 && fr.prev != nil || fr.pc == 0 && fr.block.Index == 0 {
		if h := e.loopAt(st, fr); h != nil {
			return h.handle()
		}
	}
	if fr.pc >= len(fr.block.Instrs) {
		unsupported("fell off block")
	}
	in := fr.block.Instrs[fr.pc]
	if debugExec {
		fmt.Fprintf(os.Stderr, "  [%d] %s b%d: %v\n", len(st.frames), fr.fn.Name(), fr.block.Index, in)
	}
	switch in.(type) {
	case *ssa.UnOp, *ssa.Store, *ssa.IndexAddr, *ssa.FieldAddr:
		st.canFork = true
		defer func() {
			st.canFork = false
			if x := recover(); x != nil {
				f, ok := x.(forkReq)
				if !ok {
					panic(x)
				}
				more = e.forkOn(st, f.c)
			}
		}()
	}
	switch x := in.(type) {
	case *ssa.Phi:
		// all phis of the block at once
		var vals []Val
		var phis []*ssa.Phi
		pi := -1
		for i, p := range fr.block.Preds {
			if p == fr.prev {
				pi = i
			}
		}
		k := fr.pc
		for ; k < len(fr.block.Instrs); k++ {
			p, ok := fr.block.Instrs[k].(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			vals = append(vals, e.val(st, p.Edges[pi]))
		}
		for i, p := range phis {
			fr.regs[p] = vals[i]
		}
		fr.pc = k
		return nil
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := derefT(x.Type())
		fr.regs[x] = PtrV{Nil: tFalse, Obj: e.allocCell(st, t)}
	case *ssa.BinOp:
		fr.regs[x] = e.binop(st, x)
	case *ssa.UnOp:
		fr.regs[x] = e.unop(st, x)
	case *ssa.ChangeType:
		v := e.val(st, x.X)
		if s, ok := v.(StructV); ok {
			s.T = x.Type()
			v = s
		}
		if p, ok := v.(PtrV); ok {
			v = p
		}
		if l, ok := v.(LazyV); ok {
			v = e.retype(st, l, x.Type())
		}
		fr.regs[x] = v
	case *ssa.ChangeInterface:
		v := e.val(st, x.X)
		if iv, ok := v.(IfaceV); ok {
			if e.sortOf(x.Type()) != e.sortOf(iv.T) && iv.Lazy != nil {
				unsupported("interface conversion %s -> %s", iv.T, x.Type())
			}
			iv.T = x.Type()
			v = iv
		}
		fr.regs[x] = v
	case *ssa.Convert:
		fr.regs[x] = e.convert(st, x)
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	case *ssa.Extract:
		fr.regs[x] = e.val(st, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		v := e.force(st, e.val(st, x.X), "")
		fr.regs[x] = v.(StructV).F[x.Field]
	case *ssa.FieldAddr:
		p := e.ptr(st, e.val(st, x.X))
		e.nilCheck(st, p.Nil, x.Pos(), "nil dereference")
		fr.regs[x] = PtrV{Nil: tFalse, Obj: p.Obj, Path: append(append([]PathEl{}, p.Path...), PathEl{F: x.Field})}
	case *ssa.IndexAddr:
		idx := e.intv(st, x.Index)
		switch b := e.val(st, x.X).(type) {
		case SliceV:
			e.safe(st, "index out of range", x.Pos(), And(Le(Int(0), idx), Lt(idx, b.Len)))
			if st.dead {
				return nil
			}
			fr.regs[x] = PtrV{Nil: tFalse, Obj: b.Arr, Path: []PathEl{{F: -1, Idx: st.norm(Add(b.Off, idx))}}}
		case PtrV:
			e.nilCheck(st, b.Nil, x.Pos(), "nil dereference")
			n := derefT(x.X.Type()).Underlying().(*types.Array).Len()
			e.safe(st, "index out of range", x.Pos(), And(Le(Int(0), idx), Lt(idx, Int(n))))
			fr.regs[x] = PtrV{Nil: tFalse, Obj: b.Obj, Path: append(append([]PathEl{}, b.Path...), PathEl{F: -1, Idx: idx})}
		default:
			unsupported("indexaddr on %T", b)
		}
	case *ssa.Index:
		idx := e.intv(st, x.Index)
		v := e.val(st, x.X)
		switch b := v.(type) {
		case *Term:
			e.safe(st, "index out of range", x.Pos(), And(Le(Int(0), idx), Lt(idx, Len(b))))
			fr.regs[x] = e.byteAt(st, b, idx)
		case StructV:
			e.safe(st, "index out of range", x.Pos(), And(Le(Int(0), idx), Lt(idx, Int(int64(len(b.F))))))
			if !idx.isInt() {
				unsupported("symbolic array index")
			}
			fr.regs[x] = b.F[idx.I.Int64()]
		default:
			unsupported("index on %T", v)
		}
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		fr.regs[x] = FuncV{Fn: x.Fn.(*ssa.Function), Bind: bs}
	case *ssa.MakeInterface:
		fr.regs[x] = e.makeIface(st, x)
	case *ssa.MakeMap:
		t := x.Type()
		s := e.sortOf(t)
		id := st.alloc(&Obj{Kind: "map", T: t, List: MConst(s, None(s.Elem))})
		fr.regs[x] = MapV{Obj: id, Nil: tFalse}
	case *ssa.MakeSlice:
		n, c := e.intv(st, x.Len), e.intv(st, x.Cap)
		e.safe(st, "makeslice length", x.Pos(), And(Le(Int(0), n), Le(n, c)))
		fr.regs[x] = e.makeSlice(st, x.Type(), n, c)
	case *ssa.MapUpdate:
		m := e.val(st, x.Map).(MapV)
		e.safe(st, "assignment to nil map", x.Pos(), Not(m.Nil))
		mt := x.Map.Type().Underlying().(*types.Map)
		k := e.pack(st, e.val(st, x.Key), mt.Key())
		v := e.val(st, x.Value)
		e.mapSet(st, m.Obj, k, v, mt)
	case *ssa.Slice:
		fr.regs[x] = e.slice(st, x)
	case *ssa.SliceToArrayPointer:
		s := e.val(st, x.X).(SliceV)
		n := derefT(x.Type()).Underlying().(*types.Array).Len()
		e.safe(st, "slice to array conversion", x.Pos(), Le(Int(n), s.Len))
		if s.Arr == 0 {
			unsupported("array pointer of nil slice")
		}
		l := Ext(e.arrList(st, s.Arr, 0), s.Off, Add(s.Off, Int(n)))
		id := st.alloc(&Obj{Kind: "cell", T: derefT(x.Type()), V: l, Frozen: "array view of a slice"})
		fr.regs[x] = PtrV{Nil: tFalse, Obj: id}
	case *ssa.Store:
		p := e.ptr(st, e.val(st, x.Addr))
		e.nilCheck(st, p.Nil, x.Pos(), "nil dereference")
		e.store(st, p, e.val(st, x.Val), x.Val.Type())
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Call:
		fr.pc++
		return e.call(st, x, &x.Call)
	case *ssa.Defer:
		if x.Call.IsInvoke() {
			unsupported("deferred interface call")
		}
		d := deferred{site: x}
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			fv, ok := e.val(st, x.Call.Value).(FuncV)
			if !ok || fv.Fn == nil {
				unsupported("deferred call of unknown function value")
			}
			d.fn = fv
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(st, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		e.goStmt(st, x)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			// the instruction is repeated until all deferred calls have run
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			if b, ok := d.site.Call.Value.(*ssa.Builtin); ok {
				e.builtin(st, b.Name(), &d.site.Call, d.args)
				return nil
			}
			return e.callFn(st, d.site, &d.site.Call, d.fn.Fn, d.args, d.fn.Bind)
		}
	case *ssa.Jump:
		fr.prev, fr.block, fr.pc, fr.inHdr = fr.block, fr.block.Succs[0], 0, nil
		return nil
	case *ssa.If:
		return e.branch(st, x)
	case *ssa.Return:
		var rs []Val
		for _, r := range x.Results {
			rs = append(rs, e.val(st, r))
		}
		e.ret(st, rs)
		return nil
	case *ssa.Panic:
		e.safe(st, "panic reached", x.Pos(), tFalse)
		st.dead = true
		return nil
	case *ssa.Range, *ssa.Next, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsupported("instruction %T", in)
	default:
		unsupported("instruction %T", in)
	}
	fr.pc++
	return nil
}

func (e *Engine) ret(st *State, rs []Val) {
	fr := st.top()
	if len(st.frames) == 1 {
		st.ret = rs
		st.end = "ret"
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	cf := st.top()
	if v, ok := fr.call.(ssa.Value); ok && v != nil {
		switch len(rs) {
		case 0:
			cf.regs[v] = TupleV{}
		case 1:
			cf.regs[v] = rs[0]
		default:
			cf.regs[v] = TupleV(rs)
		}
	}
}

func (e *Engine) branch(st *State, x *ssa.If) []*State {
	fr := st.top()
	c := st.norm(e.val(st, x.Cond).(*Term))
	goTo := func(s *State, i int) {
		f := s.top()
		f.prev, f.block, f.pc, f.inHdr = f.block, f.block.Succs[i], 0, nil
	}
	if c.Op == OTrue {
		goTo(st, 0)
		return nil
	}
	if c.Op == OFalse {
		goTo(st, 1)
		return nil
	}
	if st.implied(c) {
		goTo(st, 0)
		return nil
	}
	if st.implied(Not(c)) {
		goTo(st, 1)
		return nil
	}
	o := st.clone()
	ln := e.fset.Position(x.Cond.Pos()).Line
	st.trace = append(st.trace, fmt.Sprintf("%s:%d+", fr.fn.Name(), ln))
	o.trace = append(o.trace, fmt.Sprintf("%s:%d-", fr.fn.Name(), ln))
	goTo(st, 0)
	st.assume(c)
	goTo(o, 1)
	o.assume(Not(c))
	if o.dead {
		return nil
	}
	return []*State{o}
}

// fork: continue in both states after re-executing the current instruction under c / not c.
func (e *Engine) forkOn(st *State, c *Term) []*State {
	o := st.clone()
	st.assume(c)
	o.assume(Not(c))
	if o.dead {
		return nil
	}
	return []*State{o}
}

func (e *Engine) nilCheck(st *State, n *Term, pos token.Pos, what string) {
	if n == nil || n.Op == OFalse {
		return
	}
	e.safe(st, what, pos, Not(n))
}

func (e *Engine) ptr(st *State, v Val) PtrV {
	p, ok := v.(PtrV)
	if !ok {
		unsupported("pointer expected, got %T", v)
	}
	return p
}

func (e *Engine) allocCell(st *State, t types.Type) int {
	if g := ghostStruct(t); g != "" {
		return st.alloc(&Obj{Kind: "ghost", T: t, G: g, GT: map[string]*Term{"data": Empty(BytesS)}})
	}
	return st.alloc(&Obj{Kind: "cell", T: t, V: e.zero(st, t)})
}

// val evaluates an SSA operand.
func (e *Engine) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(st, x)
	case *ssa.Global:
		id, ok := e.globals[x]
		if !ok {
			return e.extGlobal(st, x)
		}
		if e.mutGlob[x] && !e.inInit {
			unsupported("package variable %s is assigned outside initialisation", x.Name())
		}
		return PtrV{Nil: tFalse, Obj: id}
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Bt: x}
	case *ssa.FreeVar:
		fr := st.top()
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.bind[i]
			}
		}
	}
	r, ok := st.top().regs[v]
	if !ok {
		unsupported("undefined register %s in %s", v.Name(), st.top().fn)
	}
	return r
}

func (e *Engine) intv(st *State, v ssa.Value) *Term {
	if v == nil {
		return nil
	}
	t, ok := e.val(st, v).(*Term)
	if !ok {
		unsupported("integer expected")
	}
	return st.norm(t)
}

func (e *Engine) constant(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(st, t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		if isByteSlice(t) {
			return e.bytesSlice(st, Lit(constant.StringVal(c.Value)), false)
		}
		return Lit(constant.StringVal(c.Value))
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsupported("constant %v", c)
		}
		return IntB(n)
	}
	unsupported("constant %v", c)
	return nil
}

// bytesSlice: a fresh slice with the given contents.
func (e *Engine) bytesSlice(st *State, l *Term, foreign bool) SliceV {
	id := st.alloc(&Obj{Kind: "arr", T: types.Typ[types.Uint8], List: l, Foreign: foreign})
	n := Len(l)
	return SliceV{Arr: id, Off: Int(0), Len: n, Cap: n, Elem: types.Typ[types.Uint8]}
}

// outSlice: a fresh slice of unknown capacity returned by a callee.
func (e *Engine) outSlice(st *State, l *Term, elem types.Type) SliceV {
	id := st.alloc(&Obj{Kind: "arr", T: elem, List: l})
	n := Len(l)
	c := FreshR("cap", big0, nil)
	st.assume(Le(n, c))
	return SliceV{Arr: id, Off: Int(0), Len: n, Cap: c, Elem: elem}
}

func (e *Engine) makeSlice(st *State, t types.Type, n, c *Term) SliceV {
	el := t.Underlying().(*types.Slice).Elem()
	o := &Obj{Kind: "arr", T: el}
	if isByteSlice(t) {
		o.List = Rep(Int(0), c)
	} else if c.isInt() && c.I.Int64() <= 64 {
		o.Vals = []Val{}
		for i := int64(0); i < c.I.Int64(); i++ {
			o.Vals = append(o.Vals, e.zero(st, el))
		}
	} else {
		o.List = Rep(e.pack(st, e.zero(st, el), el), c)
	}
	return SliceV{Arr: st.alloc(o), Off: Int(0), Len: n, Cap: c, Elem: el, NilC: tFalse}
}

func (e *Engine) byteAt(st *State, l, i *Term) *Term { return AtIn(l, i) }

// ---- loads and stores

func (e *Engine) load(st *State, p PtrV) Val {
	o := st.obj(p.Obj)
	e.checkLive(o)
	if o.Kind == "arr" {
		if len(p.Path) == 0 {
			unsupported("load of whole array object")
		}
		return e.loadElem(st, p.Obj, p.Path, 0)
	}
	if o.Kind == "ghost" {
		unsupported("load of %s value", o.G)
	}
	if len(p.Path) == 0 {
		v := e.force(st, o.V, o.Root)
		if _, lazy := o.V.(LazyV); lazy {
			st.mut(p.Obj).V = v
		} else if sv, ok := o.V.(StructV); ok {
			_ = sv
			st.mut(p.Obj).V = v
		}
		if o.Frozen != "" && o.Root != "#global" {
			e.freeze(st, v, o.Frozen)
		}
		return v
	}
	nv, r := e.loadPath(st, o.V, p.Path, o.Root)
	if nv != nil {
		st.mut(p.Obj).V = nv
	}
	if o.Frozen != "" && o.Root != "#global" {
		e.freeze(st, r, o.Frozen)
	}
	return r
}

// loadPath returns the (possibly materialised) container and the component.
func (e *Engine) loadPath(st *State, v Val, path []PathEl, root string) (Val, Val) {
	if len(path) == 0 {
		f := e.force(st, v, root)
		return f, f
	}
	el := path[0]
	if l, ok := v.(LazyV); ok {
		v = e.open(st, l.T, l.Term, root)
	}
	switch x := v.(type) {
	case StructV:
		i := el.F
		if el.Idx != nil {
			idx := st.norm(el.Idx)
			if !idx.isInt() {
				unsupported("symbolic array index")
			}
			i = int(idx.I.Int64())
		}
		c, r := e.loadPath(st, x.F[i], path[1:], root)
		fs := append([]Val{}, x.F...)
		fs[i] = c
		return StructV{x.T, fs}, r
	case *Term:
		if el.Idx != nil && x.S == BytesS {
			return x, AtIn(x, st.norm(el.Idx))
		}
	case LazyV:
		unsupported("component of %s", x.T)
	}
	unsupported("load path on %T", v)
	return nil, nil
}

func (e *Engine) loadElem(st *State, id int, path []PathEl, depth int) Val {
	o := st.obj(id)
	idx := st.norm(path[0].Idx)
	rest := path[1:]
	if o.Vals != nil {
		if idx.isInt() && idx.I.Sign() >= 0 && idx.I.Int64() < int64(len(o.Vals)) {
			c, r := e.loadPath(st, o.Vals[idx.I.Int64()], rest, o.Root)
			m := st.mut(id)
			m.Vals[idx.I.Int64()] = c
			return r
		}
		e.listify(st, id)
		o = st.obj(id)
	}
	if o.Foreign || o.List != nil {
		switch {
		case o.List.S == BytesS && len(rest) == 0:
			return AtIn(o.List, idx)
		}
		_, isPtr := o.T.Underlying().(*types.Pointer)
		if isPtr {
			if len(rest) > 0 {
				unsupported("path through pointer element")
			}
			return e.focusAt(st, id, idx)
		}
		v := e.open(st, o.T, AtIn(o.List, idx), o.Root)
		_, r := e.loadPath(st, v, rest, o.Root)
		return e.force(st, r, o.Root)
	}
	unsupported("load element")
	return nil
}

// forkReq: the instruction is executed again under the condition and under its negation.
type forkReq struct{ c *Term }

// focusAt: the object behind a pointer element of a list.
func (e *Engine) focusAt(st *State, id int, idx *Term) Val {
	o := st.obj(id)
	for _, f := range o.Focus {
		eq := Eq(f.Idx, idx)
		if eq.Op == OTrue {
			return PtrV{Nil: e.focusNil(st, f), Obj: f.Obj}
		}
		if eq.Op == OFalse {
			continue
		}
		if st.implied(eq) {
			return PtrV{Nil: e.focusNil(st, f), Obj: f.Obj}
		}
		if !st.implied(Not(eq)) {
			// may alias: only allowed if the other one is unchanged and stays frozen
			if st.canFork {
				st.canFork = false
				panic(forkReq{eq})
			}
			unsupported("ambiguous element aliasing")
		}
	}
	el := AtIn(o.List, idx)
	if el.Op == OCons && el.C.Idx == 0 {
		return PtrV{Nil: tTrue}
	}
	t := derefT(o.T)
	v := OptVal(el)
	cid := st.alloc(&Obj{Kind: "cell", T: t, V: LazyV{t, v}, Src: v, Root: o.Root, Frozen: o.Frozen, Shares: o.Shares})
	m := st.mut(id)
	m.Focus = append(m.Focus, focus{Idx: idx, Obj: cid, Src: el})
	return PtrV{Nil: IsNone(el), Obj: cid}
}
func (e *Engine) focusNil(st *State, f focus) *Term {
	if f.Src != nil {
		return IsNone(st.norm(f.Src))
	}
	return tFalse
}

// flush bakes focused elements into the list; the element objects become frozen views.
func (e *Engine) flush(st *State, id int) {
	o := st.obj(id)
	if len(o.Focus) == 0 {
		return
	}
	l := e.arrList(st, id, 0)
	if o.Kind == "map" {
		l = e.mapTerm(st, id, 0)
	}
	m := st.mut(id)
	for _, f := range m.Focus {
		fo := st.mut(f.Obj)
		if fo.Frozen == "" {
			fo.Frozen = "element of a rearranged container"
		}
	}
	m.List = l
	m.Focus = nil
}

func (e *Engine) listify(st *State, id int) {
	l := e.arrList(st, id, 0)
	o := st.obj(id)
	for _, v := range o.Vals {
		e.freeze(st, v, "element of a container")
		e.linked(st, id, v)
	}
	m := st.mut(id)
	m.Vals = nil
	m.List = l
}

// linked: a container now refers to the object behind v, which the list term forgets.
func (e *Engine) linked(st *State, id int, v Val) {
	p, ok := v.(PtrV)
	if !ok || p.Obj == 0 || p.Nil.Op == OTrue {
		return
	}
	o := st.obj(p.Obj)
	c := st.obj(id)
	r := o.Root
	if o.Shares != "" {
		r = o.Shares
	}
	if r == "" || r == "#global" || r == c.Root || c.Shares != "" || o.Kind != "cell" || e.immutable(types.NewPointer(o.T)) {
		return
	}
	st.mut(id).Shares = r
}

// freeze: the pointee was copied by value into a term; later writes would be missed.
func (e *Engine) freeze(st *State, v Val, why string) {
	switch x := v.(type) {
	case PtrV:
		if x.Nil.Op == OTrue || x.Obj == 0 {
			return
		}
		o := st.obj(x.Obj)
		if o.Frozen != "" || o.Root == "#global" {
			return
		}
		m := st.mut(x.Obj)
		m.Frozen = why
		e.freeze(st, m.V, why)
	case StructV:
		for _, f := range x.F {
			e.freeze(st, f, why)
		}
	case SliceV:
		if x.Arr != 0 {
			o := st.obj(x.Arr)
			if o.Frozen == "" && o.Root != "#global" {
				st.mut(x.Arr).Frozen = why
				for _, v := range o.Vals {
					e.freeze(st, v, why)
				}
			}
		}
	case IfaceV:
		if x.V != nil && x.Ghost == 0 {
			e.freeze(st, x.V, why)
		}
	}
}

func (e *Engine) checkWrite(st *State, o *Obj) {
	e.checkLive(o)
	if o.Frozen != "" {
		unsupported("write to %s", o.Frozen)
	}
}

func (e *Engine) store(st *State, p PtrV, v Val, t types.Type) {
	if st.dead {
		return
	}
	o := st.obj(p.Obj)
	e.checkWrite(st, o)
	if o.Root == "#global" && !e.inInit {
		unsupported("package-level data is changed at run time")
	}
	if o.Kind == "arr" {
		e.storeElem(st, p.Obj, p.Path, v)
		return
	}
	if o.Kind == "ghost" {
		unsupported("assignment to %s value", o.G)
	}
	nv := e.storePath(st, o.V, p.Path, v, o.Root)
	st.mut(p.Obj).V = nv
}

func (e *Engine) storePath(st *State, c Val, path []PathEl, v Val, root string) Val {
	if len(path) == 0 {
		return v
	}
	if l, ok := c.(LazyV); ok {
		c = e.open(st, l.T, l.Term, root)
	}
	el := path[0]
	switch x := c.(type) {
	case StructV:
		i := el.F
		if el.Idx != nil {
			idx := st.norm(el.Idx)
			if !idx.isInt() {
				unsupported("symbolic array index")
			}
			i = int(idx.I.Int64())
		}
		fs := append([]Val{}, x.F...)
		fs[i] = e.storePath(st, x.F[i], path[1:], v, root)
		return StructV{x.T, fs}
	case *Term:
		if el.Idx != nil && x.S == BytesS {
			return Upd(x, st.norm(el.Idx), v.(*Term))
		}
	}
	unsupported("store path on %T", c)
	return nil
}

func (e *Engine) storeElem(st *State, id int, path []PathEl, v Val) {
	o := st.obj(id)
	idx := st.norm(path[0].Idx)
	rest := path[1:]
	e.foreignWrite(st, o)
	if o.Vals != nil {
		if idx.isInt() && idx.I.Sign() >= 0 && idx.I.Int64() < int64(len(o.Vals)) {
			m := st.mut(id)
			m.Vals[idx.I.Int64()] = e.storePath(st, m.Vals[idx.I.Int64()], rest, v, o.Root)
			return
		}
		e.listify(st, id)
		o = st.obj(id)
	}
	e.aliasStale(st, id)
	if o.List.S == BytesS {
		st.mut(id).List = Upd(o.List, idx, v.(*Term))
		return
	}
	if len(rest) > 0 {
		cur := e.open(st, o.T, AtIn(o.List, idx), o.Root)
		v = e.storePath(st, cur, rest, v, o.Root)
	}
	if pv, ok := v.(PtrV); ok {
		for _, f := range o.Focus {
			if f.Obj == pv.Obj && pv.Obj != 0 && len(pv.Path) == 0 && (f.Idx == idx || st.implied(Eq(f.Idx, idx))) {
				return // the same pointer is stored back
			}
		}
	}
	e.flush(st, id)
	o = st.obj(id)
	pk := e.pack(st, v, o.T)
	e.freeze(st, v, "element of a container")
	e.linked(st, id, v)
	st.mut(id).List = Upd(o.List, idx, pk)
}

// foreignWrite: the array belongs to memory the function may not modify.
func (e *Engine) foreignWrite(st *State, o *Obj) {
	if !o.Foreign {
		return
	}
	if b, ok := o.T.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		e.frameFail(st, "write to a byte slice owned by the caller or another structure")
		return
	}
}

func (e *Engine) frameFail(st *State, what string) {
	e.prove(st, e.curName+"#frame:"+what, "frame", []string{"C08", "C14"}, "", tFalse)
}

func (e *Engine) aliasStale(st *State, id int) {
	for k, o := range st.heap {
		if o.GT != nil && o.Kind == "arr" {
			continue
		}
		if o.Kind == "arr" && o.GV != nil {
			if a, ok := o.GV["alias"].(int); ok && (a == id || k == id) {
				other := k
				if k == id {
					other = a
				}
				if st.heap[other] != nil {
					st.mut(other).Stale = "array that may share memory with a modified one"
				}
			}
		}
	}
}

// ---- maps

func (e *Engine) mapSet(st *State, id int, k *Term, v Val, mt *types.Map) {
	o := st.obj(id)
	if o.Root == "#global" && !e.inInit {
		unsupported("package-level data is changed at run time")
	}
	e.checkWrite(st, o)
	e.flush(st, id)
	o = st.obj(id)
	pv := e.pack(st, v, mt.Elem())
	s := e.sortOf(mt)
	if pv.S != s.Elem {
		pv = Some(pv)
	}
	e.freeze(st, v, "map element")
	m := st.mut(id)
	m.List = MStore(o.List, k, pv)
	// remember the reference for aliasing checks
	if p, ok := v.(PtrV); ok && p.Nil.Op == OFalse && len(p.Path) == 0 {
		m.Focus = nil
		if m.GV == nil {
			m.GV = map[string]Val{}
		}
		m.GV[fmt.Sprintf("ref%d", k.ID)] = v
	}
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) []*State {
	fr := st.top()
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := e.val(st, x.X).(*Term)
		idx := e.intv(st, x.Index)
		e.safe(st, "index out of range", x.Pos(), And(Le(Int(0), idx), Lt(idx, Len(s))))
		fr.regs[x] = AtIn(s, idx)
		fr.pc++
		return nil
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m := e.val(st, x.X).(MapV)
	k := e.pack(st, e.val(st, x.Index), mt.Key())
	if m.Obj == 0 {
		v := e.zero(st, mt.Elem())
		if x.CommaOk {
			fr.regs[x] = TupleV{v, tFalse}
		} else {
			fr.regs[x] = v
		}
		fr.pc++
		return nil
	}
	o := st.obj(m.Obj)
	e.checkLive(o)
	opt := st.norm(MSel(e.mapTerm(st, m.Obj, 0), k))
	present := st.norm(Not(IsNone(opt)))
	if present.Op != OTrue && present.Op != OFalse {
		if st.implied(present) {
			present = tTrue
		} else if st.implied(Not(present)) {
			present = tFalse
		} else {
			return e.forkOn(st, present) // re-executes under the assumption
		}
	}
	if present.Op == OFalse {
		v := e.zero(st, mt.Elem())
		if x.CommaOk {
			fr.regs[x] = TupleV{v, tFalse}
		} else {
			fr.regs[x] = v
		}
		fr.pc++
		return nil
	}
	var v Val
	if _, isPtr := mt.Elem().Underlying().(*types.Pointer); isPtr {
		v = e.mapFocus(st, m.Obj, k, opt, mt)
	} else {
		v = e.open(st, mt.Elem(), OptVal(opt), o.Root)
		v = e.force(st, v, o.Root)
	}
	if x.CommaOk {
		fr.regs[x] = TupleV{v, tTrue}
	} else {
		fr.regs[x] = v
	}
	fr.pc++
	return nil
}

func (e *Engine) mapFocus(st *State, id int, k, opt *Term, mt *types.Map) Val {
	o := st.obj(id)
	for _, f := range o.Focus {
		eq := Eq(f.Idx, k)
		if eq.Op == OTrue || eq.Op != OFalse && st.implied(eq) {
			return PtrV{Nil: tFalse, Obj: f.Obj}
		}
		if eq.Op != OFalse && !st.implied(Not(eq)) {
			unsupported("ambiguous map element aliasing")
		}
	}
	t := derefT(mt.Elem())
	v := OptVal(opt)
	cid := st.alloc(&Obj{Kind: "cell", T: t, V: LazyV{t, v}, Src: v, Root: o.Root})
	m := st.mut(id)
	m.Focus = append(m.Focus, focus{Idx: k, Obj: cid})
	return PtrV{Nil: tFalse, Obj: cid}
}

// ---- slices

func (e *Engine) slice(st *State, x *ssa.Slice) Val {
	lo, hi, mx := e.intv(st, x.Low), e.intv(st, x.High), e.intv(st, x.Max)
	switch b := e.val(st, x.X).(type) {
	case *Term: // string
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = Len(b)
		}
		e.safe(st, "slice bounds out of range", x.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(b))))
		return Ext(b, lo, hi)
	case SliceV:
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = b.Len
		}
		cp := b.Cap
		if mx != nil {
			e.safe(st, "slice bounds out of range", x.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, b.Cap)))
			cp = mx
		} else {
			e.safe(st, "slice bounds out of range", x.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, b.Cap)))
		}
		if st.dead {
			return b
		}
		if b.Arr != 0 {
			// extending beyond the known contents of a foreign array
			o := st.obj(b.Arr)
			if o.Foreign || o.Vals == nil {
				l := o.List
				if !provLe(Add(b.Off, hi), Len(l)) && !st.implied(Le(Add(b.Off, hi), Len(l))) {
					unsupported("reslicing beyond the length")
				}
			}
		}
		r := SliceV{Arr: b.Arr, Off: st.norm(Add(b.Off, lo)), Len: st.norm(Sub(hi, lo)), Cap: st.norm(Sub(cp, lo)), Elem: b.Elem}
		return r
	case PtrV: // pointer to array
		at := derefT(x.X.Type()).Underlying().(*types.Array)
		n := Int(at.Len())
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.safe(st, "slice bounds out of range", x.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		if len(b.Path) > 0 {
			// array inside a structure: a read-only view
			v := e.load(st, b)
			l, ok := v.(*Term)
			if !ok {
				unsupported("slice of array field")
			}
			id := st.alloc(&Obj{Kind: "arr", T: at.Elem(), List: l, Frozen: "slice of an array field"})
			return SliceV{Arr: id, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo), Elem: at.Elem(), NilC: tFalse}
		}
		// turn the array cell into an array object
		o := st.obj(b.Obj)
		if o.Kind == "cell" {
			m := st.mut(b.Obj)
			m.Kind = "arr"
			m.T = at.Elem()
			switch v := o.V.(type) {
			case *Term:
				m.List = v
			case StructV:
				m.Vals = append([]Val{}, v.F...)
				if m.Vals == nil {
					m.Vals = []Val{}
				}
			case LazyV:
				m.List = v.Term
			}
			m.V = nil
		}
		return SliceV{Arr: b.Obj, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo), Elem: at.Elem(), NilC: tFalse}
	}
	unsupported("slice of %T", e.val(st, x.X))
	return nil
}

// appendList implements append(s, l...) for a list of packed or concrete elements.
func (e *Engine) appendVals(st *State, s SliceV, vals []Val, elem types.Type) SliceV {
	n := Int(int64(len(vals)))
	if s.Arr != 0 {
		o := st.obj(s.Arr)
		e.checkLive(o)
		if o.Vals != nil && s.Len.isInt() && s.Off.isInt() && s.Cap.isInt() {
			st0 := s.Off.I.Int64() + s.Len.I.Int64()
			if st0+int64(len(vals)) <= s.Off.I.Int64()+s.Cap.I.Int64() && s.Off.I.Int64()+s.Cap.I.Int64() <= int64(len(o.Vals)) {
				e.checkWrite(st, o)
				m := st.mut(s.Arr)
				for i, v := range vals {
					m.Vals[st0+int64(i)] = v
				}
				s.Len = Add(s.Len, n)
				s.NilC = tFalse
				return s
			}
		}
	}
	_, isPtr := elem.Underlying().(*types.Pointer)
	concrete := func() bool {
		if s.Arr == 0 {
			return true
		}
		o := st.obj(s.Arr)
		return o.Vals != nil && s.Len.isInt() && s.Off.isInt()
	}
	if isPtr && concrete() && (s.Arr == 0 || s.Len.I.Int64() < 64) {
		// grow into a new concrete array
		var vs []Val
		if s.Arr != 0 {
			o := st.obj(s.Arr)
			a := s.Off.I.Int64()
			vs = append(vs, o.Vals[a:a+s.Len.I.Int64()]...)
		}
		vs = append(vs, vals...)
		id := st.alloc(&Obj{Kind: "arr", T: elem, Vals: vs})
		k := Int(int64(len(vs)))
		return SliceV{Arr: id, Off: Int(0), Len: k, Cap: k, Elem: elem, NilC: tFalse}
	}
	sort := listSort(e.sortOf(elem))
	var us []*Term
	for _, v := range vals {
		us = append(us, Unit(e.pack(st, v, elem)))
		e.freeze(st, v, "element of a container")
	}
	r := e.appendTerm(st, s, Cat(sort, us...), elem)
	for _, v := range vals {
		if r.Arr != 0 {
			e.linked(st, r.Arr, v)
		}
	}
	return r
}

func (e *Engine) appendTerm(st *State, s SliceV, l *Term, elem types.Type) SliceV {
	sort := l.S
	n := st.norm(Len(l))
	if n.isInt() && n.I.Sign() == 0 {
		return s
	}
	if s.Arr == 0 {
		id := st.alloc(&Obj{Kind: "arr", T: elem, List: l})
		c := FreshR("cap", big0, nil)
		st.assume(Le(n, c))
		return SliceV{Arr: id, Off: Int(0), Len: n, Cap: c, Elem: elem}
	}
	o := st.obj(s.Arr)
	e.checkLive(o)
	if o.Vals != nil {
		e.listify(st, s.Arr)
		o = st.obj(s.Arr)
	}
	cur := e.arrList(st, s.Arr, 0)
	total := Add(s.Len, n)
	fits := st.norm(Le(total, s.Cap))
	isByte := sort == BytesS
	if fits.Op == OTrue || fits.Op != OFalse && st.implied(fits) {
		// in place
		end := Add(s.Off, s.Len)
		inList := st.implied(Le(Add(end, n), Len(cur)))
		if o.Foreign && isByte {
			e.frameFail(st, "append writes into memory owned by the caller")
			inList = false
		}
		if inList {
			e.checkWrite(st, o)
			e.aliasStale(st, s.Arr)
			e.flush(st, s.Arr)
			m := st.mut(s.Arr)
			m.List = st.norm(Cat(sort, Ext(cur, Int(0), end), l, Ext(cur, Add(end, n), Len(cur))))
			if n.isInt() && n.I.Cmp(BI(1)) == 0 && !end.isInt() {
				m.List = Upd(cur, end, AtIn(l, Int(0)))
			}
			s.Len = st.norm(total)
			return s
		}
	}
	if o.Foreign && isByte && !o.hasFrozenCap() {
		// may write into spare capacity owned by somebody else
		full := Eq(s.Cap, s.Len)
		e.prove(st, e.curName+"#frame:append may write into memory owned by the caller", "frame", []string{"C08", "C14"}, "", full)
		st.assume(full)
	}
	// new array (or indistinguishable from one): keep the old one unwritten
	nl := Cat(sort, Ext(cur, s.Off, Add(s.Off, s.Len)), l)
	grow := st.norm(Lt(s.Cap, total))
	no := &Obj{Kind: "arr", T: elem, List: nl, Root: o.Root, Shares: o.Shares}
	if !(grow.Op == OTrue || st.implied(grow)) {
		no.GV = map[string]Val{"alias": s.Arr}
	}
	if len(o.Focus) > 0 && s.Off.isInt() && s.Off.I.Sign() == 0 {
		// the same pointers live in the new array
		no.List = Cat(sort, Ext(o.List, s.Off, Add(s.Off, s.Len)), l)
		for _, f := range o.Focus {
			if st.implied(Lt(f.Idx, s.Len)) {
				no.Focus = append(no.Focus, f)
			}
		}
	}
	id := st.alloc(no)
	c := FreshR("cap", big0, nil)
	st.assume(Le(total, c))
	return SliceV{Arr: id, Off: Int(0), Len: st.norm(total), Cap: c, Elem: elem}
}
func (o *Obj) hasFrozenCap() bool { return false }

// listOf: contents of a slice as a term.
func (e *Engine) listOf(st *State, s SliceV) *Term {
	if s.Arr == 0 {
		return Empty(listSort(e.sortOf(s.Elem)))
	}
	return st.extCtx(st.norm(Ext(e.arrList(st, s.Arr, 0), s.Off, Add(s.Off, s.Len))))
}

// extCtx resolves the bounds of a slice of a concatenation with what is known
// on this path.
func (st *State) extCtx(t *Term) *Term {
	if t.Op != OExt || t.Args[0].Op != OCat {
		return t
	}
	provHook = func(a, b *Term) bool {
		h := provHook
		provHook = nil
		defer func() { provHook = h }()
		return st.implied(Le(a, b))
	}
	u := Ext(t.Args[0], t.Args[1], t.Args[2])
	provHook = nil
	return u
}

// writeBytes overwrites s[0:len(l)] with l.
func (e *Engine) writeBytes(st *State, s SliceV, l *Term) {
	n := Len(l)
	if n.isInt() && n.I.Sign() == 0 || s.Arr == 0 {
		return
	}
	o := st.obj(s.Arr)
	e.checkWrite(st, o)
	if o.Root == "#global" && !e.inInit {
		unsupported("package-level data is changed at run time")
	}
	e.foreignWrite(st, o)
	if o.Foreign && l.S == BytesS {
		return
	}
	e.aliasStale(st, s.Arr)
	if o.Vals != nil {
		e.listify(st, s.Arr)
		o = st.obj(s.Arr)
	}
	cur := o.List
	a := s.Off
	b := Add(a, n)
	st.mut(s.Arr).List = st.norm(Cat(cur.S, Ext(cur, Int(0), a), l, Ext(cur, b, Len(cur))))
}

// ---- type operations

func (e *Engine) retype(st *State, l LazyV, t types.Type) Val {
	if e.sortOf(l.T) == e.sortOf(t) {
		l.T = t
		return l
	}
	return e.force(st, l, "")
}

func (e *Engine) makeIface(st *State, x *ssa.MakeInterface) Val {
	v := e.val(st, x.X)
	t := x.X.Type()
	if isError(x.Type()) {
		// a new non-nil error of a concrete type
		er := FreshR("err", BI(1), nil)
		st.assume(Eq(App("errType", IntS, er), Int(typeID(tname(t)))))
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "Unwrap") == nil && ms.Lookup(nil, "Is") == nil {
			for i := int64(1); i <= e.sentN; i++ {
				st.assume(Not(App("errIs", BoolS, er, Int(-i))))
			}
		}
		return er
	}
	return IfaceV{T: x.Type(), Dyn: t, V: v, Nil: tFalse}
}

var typeIDs = map[string]int64{}

func typeID(n string) int64 {
	if v, ok := typeIDs[n]; ok {
		return v
	}
	// stable small hash
	h := int64(7)
	for _, c := range n {
		h = (h*31 + int64(c)) % 1000003
	}
	typeIDs[n] = h + 10
	return h + 10
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	fr := st.top()
	v := e.val(st, x.X)
	set := func(r Val, ok *Term) {
		if x.CommaOk {
			if r == nil {
				r = e.zero(st, x.AssertedType)
			}
			fr.regs[x] = TupleV{r, ok}
		} else {
			fr.regs[x] = r
		}
		fr.pc++
	}
	if er, ok := v.(*Term); ok && isError(x.X.Type()) {
		c := And(Neq(er, Int(0)), Eq(App("errType", IntS, er), Int(typeID(tname(x.AssertedType)))))
		if !x.CommaOk {
			e.safe(st, "type assertion", x.Pos(), c)
		}
		r := LazyV{x.AssertedType, App("errVal_"+mangle(tname(x.AssertedType)), e.sortOf(x.AssertedType), er)}
		set(e.force(st, r, ""), c)
		return nil
	}
	iv, ok := v.(IfaceV)
	if !ok {
		unsupported("type assertion on %T", v)
	}
	n := st.norm(iv.Nil)
	if n.Op != OTrue && n.Op != OFalse {
		if st.implied(Not(n)) {
			n = tFalse
		} else if st.implied(n) {
			n = tTrue
		} else {
			return e.forkOn(st, n)
		}
	}
	if n.Op == OTrue {
		if !x.CommaOk {
			e.safe(st, "type assertion on nil interface", x.Pos(), tFalse)
			st.dead = true
			return nil
		}
		set(nil, tFalse)
		return nil
	}
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if iv.Dyn != nil && types.Implements(iv.Dyn, x.AssertedType.Underlying().(*types.Interface)) {
			iv.T = x.AssertedType
			set(iv, tTrue)
			return nil
		}
		unsupported("assertion to interface %s", x.AssertedType)
	}
	if iv.Lazy != nil {
		impl := e.implementers(iv.T)
		for i, im := range impl {
			if types.Identical(im, x.AssertedType) {
				c := iv.Lazy.S.Ctors[i+1]
				is := st.norm(Is(c, iv.Lazy))
				if is.Op != OTrue && is.Op != OFalse {
					if !x.CommaOk {
						e.safe(st, "type assertion", x.Pos(), is)
						return nil // re-execute
					}
					return e.forkOn(st, is)
				}
				if is.Op == OTrue {
					r := e.ifaceCase(st, iv.T, st.norm(iv.Lazy), im, c)
					// make the opened object canonical for this register
					if rv, ok := x.X.(ssa.Value); ok {
						if _, in := fr.regs[rv]; in {
							fr.regs[rv] = r
						}
					}
					set(r.V, tTrue)
					return nil
				}
				if !x.CommaOk {
					e.safe(st, "type assertion", x.Pos(), tFalse)
					st.dead = true
					return nil
				}
				set(nil, tFalse)
				return nil
			}
		}
		unsupported("assertion %s on %s", x.AssertedType, iv.T)
	}
	if iv.Dyn == nil {
		unsupported("type assertion on opaque interface")
	}
	if types.Identical(iv.Dyn, x.AssertedType) {
		set(iv.V, tTrue)
		return nil
	}
	if !x.CommaOk {
		e.safe(st, "type assertion", x.Pos(), tFalse)
		st.dead = true
		return nil
	}
	set(nil, tFalse)
	return nil
}

func (e *Engine) goStmt(st *State, x *ssa.Go) {
	// A goroutine may run at any time: everything it can reach becomes unusable.
	e.notes["go statement: objects reachable from the goroutine are not used afterwards"] = true
	var mark func(v Val, d int)
	mark = func(v Val, d int) {
		if d > 12 {
			return
		}
		switch y := v.(type) {
		case PtrV:
			if y.Obj != 0 {
				o := st.obj(y.Obj)
				if o.Stale == "" {
					st.mut(y.Obj).Stale = "goroutine"
					mark(o.V, d+1)
				}
			}
		case MapV:
			if y.Obj != 0 {
				st.mut(y.Obj).Stale = "goroutine"
			}
		case SliceV:
			if y.Arr != 0 {
				st.mut(y.Arr).Stale = "goroutine"
			}
		case StructV:
			for _, f := range y.F {
				mark(f, d+1)
			}
		case FuncV:
			for _, b := range y.Bind {
				mark(b, d+1)
			}
		case IfaceV:
			mark(y.V, d+1)
		}
	}
	mark(e.val(st, x.Call.Value), 0)
	for _, a := range x.Call.Args {
		mark(e.val(st, a), 0)
	}
}

// ---- arithmetic

func (e *Engine) wrap(st *State, t *Term, ty types.Type) *Term {
	lo, hi := intRange(ty)
	if lo == nil {
		return t
	}
	bl, bh := bounds(t)
	if bl != nil && bh != nil && bl.Cmp(lo) >= 0 && bh.Cmp(hi) <= 0 {
		return t
	}
	b := ty.Underlying().(*types.Basic)
	if b.Info()&types.IsUnsigned == 0 {
		if b.Kind() == types.Int || b.Kind() == types.Int64 {
			e.assumed["int arithmetic does not overflow 64 bits"] = true
			return t
		}
		if st.implied(And(Le(IntB(lo), t), Le(t, IntB(hi)))) {
			return t
		}
		// two's complement
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, BI(1))
		return Add(Mod(Sub(t, IntB(lo)), IntB(m)), IntB(lo))
	}
	need := []*Term{}
	if bl == nil || bl.Cmp(lo) < 0 {
		need = append(need, Le(IntB(lo), t))
	}
	if bh == nil || bh.Cmp(hi) > 0 {
		need = append(need, Le(t, IntB(hi)))
	}
	if st.implied(And(need...)) {
		return t
	}
	return Mod(t, IntB(new(big.Int).Add(hi, BI(1))))
}

func (e *Engine) isNilVal(st *State, v Val) *Term {
	switch x := v.(type) {
	case PtrV:
		return x.Nil
	case IfaceV:
		return x.Nil
	case MapV:
		return x.Nil
	case SliceV:
		if x.NilC != nil {
			return x.NilC
		}
		if x.Arr == 0 {
			return tTrue
		}
		// unknown nil-ness only matters for empty slices
		n := Fresh("isnil", BoolS)
		st.assume(Imp(n, Eq(x.Len, Int(0))))
		return n
	case FuncV:
		return Bool(x.Fn == nil && x.Bt == nil)
	case *Term:
		return Eq(x, Int(0))
	}
	unsupported("nil comparison on %T", v)
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (e *Engine) eqVal(st *State, a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
	case PtrV:
		y := b.(PtrV)
		if x.Nil.Op == OTrue {
			return y.Nil
		}
		if y.Nil.Op == OTrue {
			return x.Nil
		}
		if x.Obj == y.Obj && len(x.Path) == 0 && len(y.Path) == 0 {
			return tTrue
		}
		unsupported("pointer comparison")
	case IfaceV:
		y, ok := b.(IfaceV)
		if ok {
			if x.Nil.Op == OTrue {
				return y.Nil
			}
			if y.Nil.Op == OTrue {
				return x.Nil
			}
		}
		unsupported("interface comparison")
	}
	// structs, arrays: comparable by value unless they hold references
	if containsRef(t) {
		unsupported("comparison of references")
	}
	return Eq(e.pack(st, a, t), e.pack(st, b, t))
}
func containsRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if containsRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return containsRef(u.Elem())
	}
	return false
}

func (e *Engine) binop(st *State, x *ssa.BinOp) Val {
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if isNilConst(x.X) || isNilConst(x.Y) {
			v := x.X
			if isNilConst(x.X) {
				v = x.Y
			}
			if _, isB := v.Type().Underlying().(*types.Basic); !isB {
				r = e.isNilVal(st, e.val(st, v))
			}
		}
		if r == nil {
			r = e.eqVal(st, e.val(st, x.X), e.val(st, x.Y), x.X.Type())
		}
		r = st.norm(r)
		if x.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, ok1 := e.val(st, x.X).(*Term)
	b, ok2 := e.val(st, x.Y).(*Term)
	if !ok1 || !ok2 {
		unsupported("binop %s", x.Op)
	}
	a, b = st.norm(a), st.norm(b)
	t := x.Type()
	if a.S == BytesS {
		switch x.Op {
		case token.ADD:
			return Cat(BytesS, a, b)
		case token.LSS:
			return strLt(a, b)
		case token.GTR:
			return strLt(b, a)
		case token.LEQ:
			return Not(strLt(b, a))
		case token.GEQ:
			return Not(strLt(a, b))
		}
	}
	switch x.Op {
	case token.ADD:
		return e.wrap(st, Add(a, b), t)
	case token.SUB:
		return e.wrap(st, Sub(a, b), t)
	case token.MUL:
		return e.wrap(st, Mul(a, b), t)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.QUO, token.REM:
		e.safe(st, "division by zero", x.Pos(), Neq(b, Int(0)))
		if !st.implied(And(Le(Int(0), a), Lt(Int(0), b))) {
			unsupported("signed division")
		}
		if x.Op == token.QUO {
			return Div(a, b)
		}
		return Mod(a, b)
	case token.SHL:
		if !b.isInt() || b.I.Sign() < 0 || b.I.Int64() > 64 {
			unsupported("symbolic shift")
		}
		return e.wrap(st, MulC(pow2(int(b.I.Int64())), a), t)
	case token.SHR:
		if !b.isInt() || b.I.Sign() < 0 || b.I.Int64() > 64 {
			unsupported("symbolic shift")
		}
		return Div(a, IntB(pow2(int(b.I.Int64()))))
	case token.AND:
		return bitAnd(a, b)
	case token.OR:
		return bitOr(a, b)
	case token.XOR:
		return bitXor(a, b)
	case token.AND_NOT:
		if b.isInt() && b.I.Sign() >= 0 {
			lo, hi := intRange(t)
			if lo != nil && lo.Sign() == 0 {
				return bitAnd(a, IntB(new(big.Int).AndNot(hi, b.I)))
			}
		}
	}
	if a.S == BoolS {
		switch x.Op {
		case token.LAND:
			return And(a, b)
		case token.LOR:
			return Or(a, b)
		}
	}
	unsupported("binop %s", x.Op)
	return nil
}

func strLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.Op == OLit && b.Op == OLit {
		return Bool(a.Name < b.Name)
	}
	return App("strlt", BoolS, a, b)
}

// maskRuns splits a mask into contiguous bit ranges [lo,hi).
func bitAnd(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).And(a.I, b.I))
	}
	if x, ok := bit01(a); ok {
		if y, ok := bit01(b); ok {
			return Ite(And(x, y), Int(1), Int(0))
		}
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() && b.I.Sign() >= 0 {
		lo, _ := bounds(a)
		if lo != nil && lo.Sign() >= 0 {
			res := Int(0)
			n := b.I.BitLen()
			for i := 0; i < n; {
				if b.I.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for j < n && b.I.Bit(j) == 1 {
					j++
				}
				hi := Mod(a, IntB(pow2(j)))
				if i == 0 {
					res = Add(res, hi)
				} else {
					res = Add(res, MulC(pow2(i), Div(hi, IntB(pow2(i)))))
				}
				i = j
			}
			return res
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("bitand", IntS, a, b)
}

// bit01: the condition under which a value, which is 0 or 1, is 1.
func bit01(t *Term) (*Term, bool) {
	is := func(t *Term, v int64) bool { return t.isInt() && t.I.IsInt64() && t.I.Int64() == v }
	switch {
	case is(t, 0):
		return tFalse, true
	case is(t, 1):
		return tTrue, true
	case t.Op == OIte:
		x, ok1 := bit01(t.Args[1])
		y, ok2 := bit01(t.Args[2])
		if ok1 && ok2 {
			return Or(And(t.Args[0], x), And(Not(t.Args[0]), y)), true
		}
	}
	return nil, false
}

// trailing zero bits known from the linear form
func tz(t *Term) int {
	if t.isInt() && t.I.Sign() == 0 {
		return 64
	}
	l := newLin()
	l.addT(t, BI(1))
	m := 64
	z := func(k *big.Int) int { return int(k.TrailingZeroBits()) }
	if l.c.Sign() != 0 {
		if v := z(l.c); v < m {
			m = v
		}
	}
	for _, k := range l.m {
		if v := z(k); v < m {
			m = v
		}
	}
	return m
}
func below(t *Term, bits int) bool {
	lo, hi := bounds(t)
	return lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(pow2(bits)) < 0
}
func bitOr(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Or(a.I, b.I))
	}
	if x, ok := bit01(a); ok {
		if y, ok := bit01(b); ok {
			return Ite(Or(x, y), Int(1), Int(0))
		}
	}
	if below(b, tz(a)) || below(a, tz(b)) {
		return Add(a, b)
	}
	for i := 0; i < 2; i++ {
		if b.isInt() && b.I.Sign() >= 0 {
			// a | c == a + c - (a & c)
			if lo, _ := bounds(a); lo != nil && lo.Sign() >= 0 {
				return Add(a, Sub(b, bitAnd(a, b)))
			}
		}
		a, b = b, a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("bitor", IntS, a, b)
}
func bitXor(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Xor(a.I, b.I))
	}
	if x, ok := bit01(a); ok {
		if y, ok := bit01(b); ok {
			return Ite(Not(Eq(x, y)), Int(1), Int(0))
		}
	}
	for i := 0; i < 2; i++ {
		if b.isInt() && b.I.Sign() == 0 {
			return a
		}
		if lo, _ := bounds(a); b.isInt() && b.I.Sign() > 0 && lo != nil && lo.Sign() >= 0 {
			// a ^ c == a + c - 2 (a & c)
			return Add(a, Sub(b, MulC(BI(2), bitAnd(a, b))))
		}
		a, b = b, a
	}
	if below(b, tz(a)) || below(a, tz(b)) {
		return Add(a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("bitxor", IntS, a, b)
}

func (e *Engine) unop(st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if _, in := e.globals[g]; !in {
				return e.extGlobalVal(st, g)
			}
		}
		p := e.ptr(st, e.val(st, x.X))
		e.nilCheck(st, p.Nil, x.Pos(), "nil dereference")
		if st.dead {
			return nil
		}
		return e.load(st, p)
	case token.NOT:
		return Not(st.norm(e.val(st, x.X).(*Term)))
	case token.SUB:
		return e.wrap(st, Sub(Int(0), e.intv(st, x.X)), x.Type())
	case token.XOR:
		lo, hi := intRange(x.Type())
		if lo != nil && lo.Sign() == 0 {
			return Sub(IntB(hi), e.intv(st, x.X))
		}
		return Sub(Int(-1), e.intv(st, x.X))
	}
	unsupported("unop %s", x.Op)
	return nil
}

func (e *Engine) convert(st *State, x *ssa.Convert) Val {
	v := e.val(st, x.X)
	from, to := x.X.Type(), x.Type()
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return e.wrapConv(st, st.norm(v.(*Term)), to)
	}
	if fb != nil && fb.Info()&types.IsString != 0 && isByteSlice(to) {
		t := v.(*Term)
		s := e.bytesSlice(st, t, false)
		s.NilC = tFalse
		return s
	}
	if isByteSlice(from) && tb != nil && tb.Info()&types.IsString != 0 {
		return e.listOf(st, v.(SliceV))
	}
	if p, ok := v.(PtrV); ok {
		// pointer to a type with the same underlying representation
		if e.sortOf(derefT(from)) == e.sortOf(derefT(to)) {
			return p
		}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return v
	}
	unsupported("conversion %s -> %s", from, to)
	return nil
}
func (e *Engine) wrapConv(st *State, t *Term, ty types.Type) *Term {
	lo, hi := intRange(ty)
	bl, bh := bounds(t)
	if bl != nil && bh != nil && bl.Cmp(lo) >= 0 && bh.Cmp(hi) <= 0 {
		return t
	}
	if st.implied(And(Le(IntB(lo), t), Le(t, IntB(hi)))) {
		return t
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, BI(1))
	if lo.Sign() == 0 {
		return Mod(t, IntB(m))
	}
	return Add(Mod(Sub(t, IntB(lo)), IntB(m)), IntB(lo))
}
