package main

// Calls: built-ins, contracts, inlining, interface dispatch.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 40

// CC is the context of one external call.
type CC struct {
	st   *State
	site ssa.CallInstruction
	cc   *ssa.CallCommon
	args []Val
	name string
	pos  token.Pos
	sig  *types.Signature
}

func (e *Engine) setRes(st *State, site ssa.CallInstruction, rs []Val) {
	v, ok := site.(ssa.Value)
	if !ok {
		return
	}
	fr := st.top()
	switch len(rs) {
	case 0:
		fr.regs[v] = TupleV{}
	case 1:
		fr.regs[v] = rs[0]
	default:
		fr.regs[v] = TupleV(rs)
	}
}

func (e *Engine) call(st *State, site ssa.CallInstruction, c *ssa.CallCommon) []*State {
	var args []Val
	if c.IsInvoke() {
		return e.invoke(st, site, c)
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.setRes(st, site, e.builtin(st, b.Name(), c, args))
		return nil
	}
	fv, ok := e.val(st, c.Value).(FuncV)
	if !ok || fv.Fn == nil {
		unsupported("call of unknown function value")
	}
	return e.callFn(st, site, c, fv.Fn, args, fv.Bind)
}

func (e *Engine) callFn(st *State, site ssa.CallInstruction, c *ssa.CallCommon, fn *ssa.Function, args []Val, bind []Val) []*State {
	name := fnName(fn)
	if con := e.specs.usable(name, fn.Signature); con != nil && !con.Inline && !e.inInit && !(e.inlineSelf == name) {
		return e.applyContract(st, site, c, con, fn.Signature, args, name)
	}
	if e.specs.NoInline[name] {
		unsupported("call of %s", name)
	}
	inRepo := fn.Pkg != nil && isInRepo(fn.Pkg.Pkg) || fn.Pkg == nil && fn.Origin() != nil && fn.Origin().Pkg != nil && isInRepo(fn.Origin().Pkg.Pkg) || fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Pkg == nil
	if fn.Parent() != nil || inlinedStd(fn) {
		inRepo = true
	}
	if inRepo && e.inInit && strings.Contains(name, "generated/") {
		e.setRes(st, site, e.zeroResults(st, fn.Signature))
		return nil
	}
	if inRepo && e.inInit && fn.Name() == "init" {
		// initialisers of imported packages are run separately
		e.setRes(st, site, nil)
		return nil
	}
	if inRepo && len(fn.Blocks) > 0 {
		if len(st.frames) > maxDepth {
			unsupported("call depth at %s", name)
		}
		rec := 0
		for _, f := range st.frames {
			if f.fn == fn {
				rec++
			}
		}
		if rec > 3 {
			unsupported("recursive call of %s", name)
		}
		e.inlined[name] = true
		fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], bind: bind, call: site}
		for i, p := range fn.Params {
			fr.regs[p] = args[i]
		}
		st.frames = append(st.frames, fr)
		return nil
	}
	return e.extCall(st, &CC{st: st, site: site, cc: c, args: args, name: fn.String(), pos: c.Pos(), sig: fn.Signature})
}

// inlinedStd: generic library helpers which are verified with the code that calls them.
func inlinedStd(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && (fn.Pkg.Pkg.Path() == "slices" || fn.Pkg.Pkg.Path() == "cmp")
}

func (e *Engine) zeroResults(st *State, sig *types.Signature) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, e.zero(st, sig.Results().At(i).Type()))
	}
	return rs
}

func (e *Engine) extCall(st *State, c *CC) []*State {
	m, ok := models[c.name]
	if !ok {
		if strings.HasPrefix(c.name, "github.com/golang/glog.") {
			if strings.Contains(c.name, "Fatal") || strings.Contains(c.name, "Exit") {
				e.safe(st, "process exit", c.pos, tFalse)
				st.dead = true
				return nil
			}
			e.assumed["logging (glog) has no effect on the library's state"] = true
			e.setRes(st, c.site, e.freshResults(st, c.sig))
			return nil
		}
		if e.inInit {
			if strings.HasSuffix(c.name, ".init") {
				e.setRes(st, c.site, nil)
				return nil
			}
		}
		unsupported("no model of %s", c.name)
	}
	e.assumed["model of "+strings.ReplaceAll(c.name, repoPrefix, "")] = true
	rs := m(e, st, c)
	if st.dead {
		return nil
	}
	e.setRes(st, c.site, rs)
	return nil
}

func (e *Engine) freshResults(st *State, sig *types.Signature) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		rs = append(rs, e.open(st, t, e.freshTerm("r", t), ""))
	}
	return rs
}

func (e *Engine) invoke(st *State, site ssa.CallInstruction, c *ssa.CallCommon) []*State {
	recv := e.val(st, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	m := c.Method
	if er, ok := recv.(*Term); ok {
		// error.Error()
		e.safe(st, "nil error method call", c.Pos(), Neq(er, Int(0)))
		if m.Name() == "Error" {
			e.setRes(st, site, []Val{App("errText", BytesS, er)})
			return nil
		}
		unsupported("method %s of error", m.Name())
	}
	iv, ok := recv.(IfaceV)
	if !ok {
		unsupported("invoke on %T", recv)
	}
	n := st.norm(iv.Nil)
	if n.Op != OFalse {
		e.safe(st, "method call on nil interface", c.Pos(), Not(n))
		if st.dead {
			return nil
		}
		// the assumption may have refined the register
		recv = e.val(st, c.Value)
		iv = recv.(IfaceV)
	}
	if iv.Ghost != 0 {
		o := st.obj(iv.Ghost)
		if strings.HasPrefix(o.G, "store:") {
			iname := tname(c.Value.Type()) + "." + m.Name()
			con := e.specs.Contracts[iname]
			if con == nil {
				// by the ghost's own type
				iname = strings.TrimPrefix(o.G, "store:") + "." + m.Name()
				con = e.specs.Contracts[iname]
			}
			if con == nil {
				unsupported("no contract for %s", iname)
			}
			sig := m.Type().(*types.Signature)
			return e.applyContract(st, site, c, con, sig, append([]Val{iv}, args...), iname)
		}
		return e.extCall(st, &CC{st: st, site: site, cc: c, args: append([]Val{iv}, args...), name: o.G + "." + m.Name(), pos: c.Pos(), sig: m.Type().(*types.Signature)})
	}
	if iv.Lazy != nil {
		impl := e.implementers(iv.T)
		l := st.norm(iv.Lazy)
		for i, im := range impl {
			is := st.norm(Is(l.S.Ctors[i+1], l))
			if is.Op == OFalse {
				continue
			}
			if is.Op != OTrue {
				st.top().pc--
				return e.forkOn(st, is)
			}
			r := e.ifaceCase(st, iv.T, l, im, l.S.Ctors[i+1])
			if _, in := st.top().regs[c.Value]; in {
				st.top().regs[c.Value] = r
			}
			iv = r
			break
		}
		if iv.Dyn == nil {
			// every implementer in the module (and nil) is excluded
			st.dead = true
			return nil
		}
	}
	if iv.Dyn != nil {
		fn := e.prog.LookupMethod(iv.Dyn, m.Pkg(), m.Name())
		if fn == nil {
			unsupported("method %s of %s", m.Name(), iv.Dyn)
		}
		return e.callFn(st, site, c, fn, append([]Val{iv.V}, args...), nil)
	}
	return e.extCall(st, &CC{st: st, site: site, cc: c, args: append([]Val{iv}, args...), name: tname(c.Value.Type()) + "." + m.Name(), pos: c.Pos(), sig: m.Type().(*types.Signature)})
}

// ---- built-ins

func (e *Engine) builtin(st *State, name string, c *ssa.CallCommon, args []Val) []Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			return []Val{st.norm(Len(x))}
		case SliceV:
			return []Val{x.Len}
		case StructV:
			return []Val{Int(int64(len(x.F)))}
		}
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			return []Val{x.Cap}
		}
	case "append":
		s := args[0].(SliceV)
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		s.Elem = elem
		switch x := args[1].(type) {
		case *Term: // append([]byte, string...)
			return []Val{e.appendTerm(st, s, x, elem)}
		case SliceV:
			if x.Arr == 0 {
				return []Val{s}
			}
			o := st.obj(x.Arr)
			if o.Vals != nil && x.Len.isInt() && x.Off.isInt() {
				a := x.Off.I.Int64()
				vals := append([]Val{}, o.Vals[a:a+x.Len.I.Int64()]...)
				return []Val{e.appendVals(st, s, vals, elem)}
			}
			if _, isP := elem.Underlying().(*types.Pointer); isP && x.Arr != s.Arr && !e.immutable(elem) {
				unsupported("append of references from another array")
			}
			return []Val{e.appendTerm(st, s, e.listOf(st, x), elem)}
		}
	case "copy":
		d := args[0].(SliceV)
		var src *Term
		switch x := args[1].(type) {
		case *Term:
			src = x
		case SliceV:
			if !isByteElem(x.Elem) {
				if !isByteSlice(x.Elem) && x.Arr != d.Arr {
					unsupported("copy of references between arrays")
				}
				for _, a := range []int{x.Arr, d.Arr} {
					if a != 0 {
						if st.obj(a).Vals != nil {
							e.listify(st, a)
						}
						e.flush(st, a)
					}
				}
			}
			src = e.listOf(st, x)
		}
		n := Len(src)
		if st.implied(Le(n, d.Len)) {
		} else if st.implied(Le(d.Len, n)) {
			n = d.Len
			src = st.norm(Ext(src, Int(0), n))
		} else {
			c := Le(n, d.Len)
			nn := Ite(c, n, d.Len)
			n = nn
			src = Ext(src, Int(0), nn)
		}
		e.writeBytes(st, d, src)
		return []Val{n}
	case "delete":
		m := args[0].(MapV)
		if m.Obj == 0 {
			return nil
		}
		mt := c.Args[0].Type().Underlying().(*types.Map)
		k := e.pack(st, args[1], mt.Key())
		e.flush(st, m.Obj)
		o := st.obj(m.Obj)
		e.checkWrite(st, o)
		if o.Root == "#global" && !e.inInit {
			unsupported("package-level data is changed at run time")
		}
		mm := st.mut(m.Obj)
		mm.List = MStore(o.List, k, None(o.List.S.Elem))
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if name == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Le(r, b), b, r)
			}
		}
		return []Val{r}
	case "clear":
		if m, ok := args[0].(MapV); ok && m.Obj != 0 {
			mm := st.mut(m.Obj)
			mm.Focus = nil
			mm.List = MConst(mm.List.S, None(mm.List.S.Elem))
			return nil
		}
		if d, ok := args[0].(SliceV); ok {
			if d.Arr == 0 {
				return nil
			}
			if isByteElem(d.Elem) {
				e.writeBytes(st, d, Rep(Int(0), d.Len))
				return nil
			}
			if st.obj(d.Arr).Vals != nil {
				e.listify(st, d.Arr)
			}
			e.flush(st, d.Arr)
			e.writeBytes(st, d, Rep(e.pack(st, e.zero(st, d.Elem), d.Elem), d.Len))
			return nil
		}
	case "panic":
		e.safe(st, "panic reached", c.Pos(), tFalse)
		st.dead = true
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := e.ptr(st, args[0])
		e.nilCheck(st, p.Nil, c.Pos(), "nil dereference")
		p.Nil = tFalse
		return []Val{p}
	}
	unsupported("builtin %s", name)
	return nil
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- contracts

// usable returns the contract of a function if its shape still fits.
func (sp *Specs) usable(name string, sig *types.Signature) *Contract {
	c := sp.Contracts[name]
	if c == nil {
		return nil
	}
	n := sig.Params().Len()
	if sig.Recv() != nil {
		n++
	}
	if len(c.Params) != n || len(c.Results) != sig.Results().Len() {
		sp.e.notes["contract of "+name+" no longer fits its signature"] = true
		return nil
	}
	return c
}

func sigTypes(sig *types.Signature, iface types.Type) []types.Type {
	var ts []types.Type
	if sig.Recv() != nil {
		if iface != nil {
			ts = append(ts, iface)
		} else {
			ts = append(ts, sig.Recv().Type())
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

// resolveMod finds the value a modifies-expression denotes.
func (e *Engine) resolveMod(st *State, x *Expr, names []string, args []Val) Val {
	switch x.K {
	case "id":
		for i, n := range names {
			if n == x.S {
				return args[i]
			}
		}
	case "field":
		v := e.resolveMod(st, x.A[0], names, args)
		if p, ok := v.(PtrV); ok {
			if p.Nil.Op == OTrue {
				return p
			}
			v = e.load(st, p)
		}
		v = e.force(st, v, "")
		if s, ok := v.(StructV); ok {
			u := s.T.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == x.S {
					return s.F[i]
				}
			}
		}
	}
	sfail(x.Pos, "cannot resolve modified location")
	return nil
}

func (e *Engine) staleChildren(st *State, v Val, why string, d int) {
	if d > 20 {
		return
	}
	mark := func(id int) bool {
		o := st.obj(id)
		if o.Stale != "" || o.Root == "#global" {
			return false
		}
		return true
	}
	switch x := v.(type) {
	case PtrV:
		if x.Obj != 0 && x.Nil.Op != OTrue && mark(x.Obj) {
			m := st.mut(x.Obj)
			m.Stale = why
			e.staleChildren(st, m.V, why, d+1)
			for _, f := range m.Focus {
				e.staleChildren(st, PtrV{Nil: tFalse, Obj: f.Obj}, why, d+1)
			}
		}
	case SliceV:
		if x.Arr != 0 && mark(x.Arr) {
			o := st.obj(x.Arr)
			if isByteElem(o.T) {
				return // byte slices are never written in place (checked)
			}
			m := st.mut(x.Arr)
			m.Stale = why
			for _, y := range m.Vals {
				e.staleChildren(st, y, why, d+1)
			}
			for _, f := range m.Focus {
				e.staleChildren(st, PtrV{Nil: tFalse, Obj: f.Obj}, why, d+1)
			}
		}
	case MapV:
		if x.Obj != 0 && mark(x.Obj) {
			st.mut(x.Obj).Stale = why
		}
	case StructV:
		for _, f := range x.F {
			e.staleChildren(st, f, why, d+1)
		}
	case IfaceV:
		if x.Ghost == 0 && x.V != nil {
			if _, ok := x.V.(PtrV); ok && e.immutable(x.Dyn) {
				return
			}
			e.staleChildren(st, x.V, why, d+1)
		}
	}
}

// expandFresh: a fresh term with struct values expanded to constructors.
func (e *Engine) freshDeep(name string, t types.Type) *Term {
	if _, ok := ghostTypes[tname(t)]; ok || isExtStruct(t) || isError(t) {
		return e.freshTerm(name, t)
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		s := e.sortOf(t)
		var as []*Term
		for _, i := range structFields(u) {
			as = append(as, e.freshDeep(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return Cons(s.Ctors[0], as...)
	}
	return e.freshTerm(name, t)
}

func (e *Engine) havocMod(st *State, v Val, name string) {
	switch x := v.(type) {
	case PtrV:
		if x.Nil.Op == OTrue {
			return
		}
		if len(x.Path) > 0 {
			unsupported("modified location inside a structure")
		}
		o := st.obj(x.Obj)
		if o.Kind == "ghost" {
			unsupported("modified %s", o.G)
		}
		e.checkWrite(st, o)
		e.staleChildren(st, o.V, "part of a structure modified by "+name, 0)
		st.mut(x.Obj).V = LazyV{o.T, e.freshDeep(name, o.T)}
	case IfaceV:
		if x.Ghost != 0 {
			o := st.mut(x.Ghost)
			s := o.GT["state"].S
			var as []*Term
			for _, f := range s.Ctors[0].Fields {
				n := Fresh("g."+f.Name, f.S)
				n.Lo, n.Hi = f.Lo, f.Hi
				as = append(as, n)
			}
			o.GT["state"] = Cons(s.Ctors[0], as...)
			return
		}
		if x.V != nil {
			e.havocMod(st, x.V, name)
			return
		}
		unsupported("modified interface")
	case MapV:
		o := st.obj(x.Obj)
		m := st.mut(x.Obj)
		m.Focus = nil
		m.List = Fresh("map", o.List.S)
	default:
		unsupported("modified location of kind %T", v)
	}
}

func (e *Engine) contractEnv(st *State, con *Contract, vals map[string]*Term) *Env {
	return &Env{sp: e.specs, vars: vals, lets: con.Lets, st: st}
}

func (e *Engine) applyContract(st *State, site ssa.CallInstruction, c *ssa.CallCommon, con *Contract, sig *types.Signature, args []Val, name string) []*State {
	var iface types.Type
	if c.IsInvoke() && sig.Recv() != nil {
		if iv, ok := args[0].(IfaceV); ok && iv.Ghost != 0 {
			iface = st.obj(iv.Ghost).T
		}
	}
	ts := sigTypes(sig, iface)
	if c.IsInvoke() && sig.Recv() == nil {
		ts = append([]types.Type{c.Value.Type()}, ts...)
	}
	e.calledC[name] = true
	site0 := e.siteName(st)
	// implicit non-nil
	for i, t := range ts {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if con.Nilable[con.Params[i]] || isError(t) {
				continue
			}
			n := st.norm(e.isNilVal(st, args[i]))
			if n.Op == OFalse {
				continue
			}
			if iv, ok := args[i].(IfaceV); ok && iv.Op != nil {
				if tname(t) == "context.Context" {
					continue
				}
			}
			e.require(st, e.curName+"#call:"+name+":nonnil "+con.Params[i]+"@"+site0, "precondition", []string{"C09"}, c.Pos(), Not(n))
			if st.dead {
				return nil
			}
		}
	}
	before := map[string]*Term{}
	for i, n := range con.Params {
		before[n] = st.norm(e.pack(st, args[i], ts[i]))
	}
	before["rand"] = st.rng
	env := e.contractEnv(st, con, before)
	for _, r := range con.Requires {
		g := e.specs.eval(r.E, env)
		e.require(st, e.curName+"#call:"+name+":"+r.ID+"@"+site0, "precondition", r.Tags, c.Pos(), g)
		if st.dead {
			return nil
		}
	}
	for i, n := range con.Params {
		iv := e.specs.invTerm(before[n])
		_ = i
		if iv.Op != OTrue {
			e.require(st, e.curName+"#call:"+name+":inv "+n+"@"+site0, "precondition", nil, c.Pos(), iv)
			if st.dead {
				return nil
			}
		}
	}
	// effects
	for _, m := range con.Modifies {
		e.havocMod(st, e.resolveMod(st, m, con.Params, args), name)
	}
	if con.ModRand {
		n := FreshR("rng", nil, nil)
		old := st.rng
		st.rng = n
		st.assume(Le(old, n))
		// the solver may normalise; keep the position reachable
		if st.dead {
			return nil
		}
	}
	after := map[string]*Term{}
	for k, v := range before {
		after[k] = st.norm(v)
	}
	for i, n := range con.Params {
		if con.modifiesParam(n) {
			after[n] = st.norm(e.pack(st, args[i], ts[i]))
		}
	}
	after["rand"] = st.rng
	var rt []*Term
	for i, n := range con.Results {
		t := sig.Results().At(i).Type()
		x := e.freshDeep("res."+n, t)
		if isError(t) {
			// zero, positive or a sentinel
			x = Fresh("res."+n, IntS)
		}
		rt = append(rt, x)
		after[n] = x
	}
	oenv := e.contractEnv(st, con, normMap(st, before))
	penv := e.contractEnv(st, con, after)
	penv.old = oenv
	if len(con.Ensures) == 0 && !con.Trusted {
		e.notes["contract of "+name+" promises nothing"] = true
	}
	if con.Trusted {
		e.assumed["contract of "+name+" (trusted)"] = true
	}
	var facts []*Term
	for _, x := range con.Ensures {
		facts = append(facts, e.specs.eval(x.E, penv))
	}
	facts = append(facts, e.resultInvs(con, sig, after)...)
	for i, n := range con.Params {
		_ = i
		if con.modifiesParam(n) {
			facts = append(facts, e.specs.invTerm(after[n]))
		}
	}
	for _, f := range facts {
		st.assume(f)
		if st.dead {
			return nil
		}
	}
	var rs []Val
	for i := range con.Results {
		t := sig.Results().At(i).Type()
		v := e.open(st, t, st.norm(rt[i]), "")
		if con.Fresh {
			v = e.own(st, v, t)
		}
		rs = append(rs, v)
	}
	e.setRes(st, site, rs)
	return nil
}

// own: returned byte slices are new memory.
func (e *Engine) own(st *State, v Val, t types.Type) Val {
	if s, ok := v.(SliceV); ok && s.Arr != 0 {
		st.mut(s.Arr).Foreign = false
	}
	return v
}

func normMap(st *State, m map[string]*Term) map[string]*Term {
	o := map[string]*Term{}
	for k, v := range m {
		if v != nil {
			o[k] = st.norm(v)
		}
	}
	return o
}

func (c *Contract) modifiesParam(n string) bool {
	for _, m := range c.Modifies {
		x := m
		for x.K == "field" {
			x = x.A[0]
		}
		if x.K == "id" && x.S == n {
			return true
		}
	}
	return false
}

// resultInvs: type invariants of results, under success.
func (e *Engine) resultInvs(con *Contract, sig *types.Signature, vals map[string]*Term) []*Term {
	guard := tTrue
	for i, n := range con.Results {
		t := sig.Results().At(i).Type()
		if isError(t) {
			guard = And(guard, Eq(vals[n], Int(0)))
		} else if vals[n].S == BoolS && len(con.Results) > 2 {
			guard = And(guard, vals[n])
		}
	}
	var out []*Term
	if !con.AnyErr && !e.isIfaceContract(con.Fn) {
		// errors other than the package-level ones, unless the contract speaks of them
		for i, n := range con.Results {
			if isError(sig.Results().At(i).Type()) {
				t := Le(Int(0), vals[n])
				for i := int64(1); i <= e.sentN; i++ {
					t = And(t, Not(App("errIs", BoolS, vals[n], Int(-i))))
				}
				out = append(out, t)
			}
		}
	}
	for _, n := range con.Results {
		iv := e.specs.invTerm(vals[n])
		if iv.Op != OTrue {
			out = append(out, Imp(guard, iv))
		}
	}
	return out
}

// ---- immutable types: never written through a pointer after construction

func (e *Engine) immutable(t types.Type) bool {
	if t == nil {
		return false
	}
	if isExtStruct(derefT(t)) {
		return false
	}
	return e.deepImm(derefT(t), map[string]bool{})
}

// shallowImm: the object itself is never written, what it refers to may be.
func (e *Engine) shallowImm(t types.Type) bool {
	d := derefT(t)
	return !isExtStruct(d) && !e.mutTypes()[tname(d)]
}

// deepImm: nothing reachable from a value of the type is ever written through a reference.
// Byte slices are left to the memory rules for byte arrays.
func (e *Engine) deepImm(t types.Type, seen map[string]bool) bool {
	if isError(t) {
		return true
	}
	k := t.String()
	if seen[k] {
		return true
	}
	seen[k] = true
	if isExtStruct(t) {
		return true // not written by the code under proof
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Pointer:
		return e.deepImm(u.Elem(), seen)
	case *types.Slice:
		return isByteElem(u.Elem())
	case *types.Array:
		return e.deepImm(u.Elem(), seen)
	case *types.Struct:
		if e.mutTypes()[tname(t)] {
			return false
		}
		for _, i := range structFields(u) {
			if !e.deepImm(u.Field(i).Type(), seen) {
				return false
			}
		}
		return true
	case *types.Interface:
		im := e.implementers(t)
		if len(im) == 0 {
			return false
		}
		for _, x := range im {
			if !e.deepImm(derefT(x), seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) mutTypes() map[string]bool {
	if e.mutT != nil {
		return e.mutT
	}
	e.mutT = map[string]bool{}
	for _, f := range e.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						t := tname(derefT(fa.X.Type()))
						if _, loc := fa.X.(*ssa.Alloc); !loc {
							e.mutT[t] = true
						}
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
			}
		}
	}
	return e.mutT
}

var _ = fmt.Sprintf
