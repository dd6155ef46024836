package main

// Verification of one function against its contract, and of one lemma.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblJ struct {
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Tags   []string `json:"tags,omitempty"`
	Pos    string   `json:"pos,omitempty"`
	Status string   `json:"status"`
	Solver string   `json:"solver,omitempty"`
	MS     int64    `json:"ms"`
	Goal   string   `json:"goal,omitempty"`
	Out    string   `json:"out,omitempty"`
	Lossy  []string `json:"lossy,omitempty"`
	Path   string   `json:"path,omitempty"`
	Count  int      `json:"count"`
	Script string   `json:"script,omitempty"`
}

type FnResult struct {
	Fn      string   `json:"fn"`
	Kind    string   `json:"kind"`   // function, lemma
	Status  string   `json:"status"` // ok, failed, unsupported, missing, misfit
	Msg     string   `json:"msg,omitempty"`
	Obls    []OblJ   `json:"obls"`
	Calls   []string `json:"calls"`
	Inlined []string `json:"inlined"`
	Assumed []string `json:"assumed"`
	Notes   []string `json:"notes"`
	Paths   int      `json:"paths"`
	WallMS  int64    `json:"wall_ms"`
	Queries int      `json:"queries"`
}

type snapshot struct {
	table  map[string]*Term
	nextID int
	varN   interface{}
	objN   int
}

func keys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// paramNonNil: reference parameters are non-nil unless declared nilable.
func (e *Engine) verifyFn(name string, budget time.Duration) (res FnResult) {
	t0 := time.Now()
	res = FnResult{Fn: name, Kind: "function", Status: "ok"}
	e.resetFn()
	e.curName = name
	e.deadline = time.Now().Add(budget)
	con := e.specs.Contracts[name]
	fn := e.funcs[name]
	finish := func() {
		e.wg.Wait()
		res.Obls = e.collect()
		for _, o := range res.Obls {
			if o.Status != "proved" && res.Status == "ok" {
				res.Status = "failed"
			}
		}
		res.Calls, res.Inlined, res.Assumed, res.Notes = keys(e.calledC), keys(e.inlined), keys(e.assumed), keys(e.notes)
		res.WallMS = time.Since(t0).Milliseconds()
		res.Queries = e.queryCnt
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				res.Status = "unsupported"
				res.Msg = x.msg
			case specErr:
				res.Status = "unsupported"
				res.Msg = "spec: " + x.msg
			default:
				if debugPanic {
					panic(r)
				}
				res.Status = "unsupported"
				res.Msg = fmt.Sprintf("internal: %v", r)
			}
			st := res.Status
			finish()
			res.Status = st
		}
	}()
	if fn == nil {
		res.Status = "missing"
		return
	}
	if e.specs.usable(name, fn.Signature) == nil {
		res.Status = "misfit"
		return
	}
	e.cur = fn
	st := e.base.clone()
	st.rng0 = FreshR("rand0", nil, nil)
	st.rng = st.rng0
	st.frames = []*Frame{{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0]}}
	var ts []types.Type
	vals := map[string]*Term{}
	for i, p := range fn.Params {
		t := p.Type()
		pn := con.Params[i]
		ts = append(ts, t)
		var x *Term
		nilable := con.Nilable[pn]
		if pt, ok := t.Underlying().(*types.Pointer); ok && !nilable {
			if isExtStruct(pt.Elem()) && ghostStruct(pt.Elem()) != "" {
				unsupported("parameter of type %s", t)
			}
			x = Some(e.freshDeep(pn, pt.Elem()))
		} else if it, ok := t.Underlying().(*types.Interface); ok && !nilable && !isError(t) {
			_ = it
			s := e.sortOf(t)
			x = Fresh(pn, s)
			if isOpt(s) {
				if impl := e.implementers(t); len(impl) == 1 {
					x = Some(e.freshDeep(pn, derefT(impl[0])))
				}
			} else if _, g := ghostTypes[tname(t)]; g {
				var as []*Term
				for _, f := range s.Ctors[0].Fields {
					n := Fresh(pn+"."+f.Name, f.S)
					n.Lo, n.Hi = f.Lo, f.Hi
					as = append(as, n)
				}
				x = Cons(s.Ctors[0], as...)
			} else if s == IntS {
				st.assume(Lt(Int(0), x))
			} else {
				st.assume(Not(Is(s.Ctors[0], x)))
			}
		} else {
			x = e.freshDeep(pn, t)
		}
		st.entry = append(st.entry, x)
		vals[pn] = x
		v := e.open(st, t, x, pn)
		v = e.force(st, v, pn)
		st.params = append(st.params, v)
	}
	vals["rand"] = st.rng0
	env := e.contractEnv(st, con, vals)
	env.st = nil
	for _, r := range con.Requires {
		st.assume(e.specs.eval(r.E, env))
	}
	for _, n := range con.Params {
		st.assume(e.specs.invTerm(vals[n]))
	}
	if st.dead {
		e.prove(&State{e: e}, name+"#vacuous", "vacuity", nil, con.Pos, tFalse)
		finish()
		return
	}
	e.vacuity(st, name, con.Pos)
	for i, p := range fn.Params {
		st.frames[0].regs[p] = st.params[i]
	}
	old := map[string]*Term{}
	for k, v := range vals {
		old[k] = v
	}
	outs := e.run([]*State{st}, nil)
	res.Paths = len(outs)
	for _, s := range outs {
		if s.end != "ret" {
			unsupported("path ended with %s", s.end)
		}
		e.checkReturn(s, fn, con, ts, old)
	}
	if len(outs) == 0 {
		e.prove(&State{e: e}, name+"#noreturn", "vacuity", nil, con.Pos, tFalse)
	}
	finish()
	return
}

// vacuity: the assumptions of the contract are not contradictory.
func (e *Engine) vacuity(st *State, name, pos string) {
	s := script(st.facts, tFalse)
	r := z3(s, 1500)
	o := &Obl{Name: name + "#satisfiable", Kind: "vacuity", Pos: pos, Goal: "requires and invariants are not contradictory", Solver: r.Solver, Time: r.Time}
	if r.Status == "unsat" {
		o.Status = "failed"
		o.Out = "contradictory assumptions"
	} else {
		o.Status = "proved"
		o.Out = r.Status
	}
	e.obls = append(e.obls, o)
}

func (e *Engine) checkReturn(s *State, fn *ssa.Function, con *Contract, ts []types.Type, entry map[string]*Term) {
	name := e.curName
	after := map[string]*Term{}
	before := map[string]*Term{}
	for k, v := range entry {
		before[k] = s.norm(v)
		after[k] = before[k]
	}
	for i, n := range con.Params {
		cur := s.norm(e.pack(s, s.params[i], ts[i]))
		after[n] = cur
		// frame
		var goals []*Term
		if !con.modifiesParam(n) {
			goals = append(goals, Eq(cur, before[n]))
		} else {
			goals = e.fieldFrame(con, n, before[n], cur)
		}
		for _, g := range goals {
			e.prove(s, name+"#frame:"+n, "frame", nil, con.Pos, g)
		}
	}
	after["rand"] = s.rng
	if !con.ModRand {
		e.prove(s, name+"#frame:rand", "frame", nil, con.Pos, Eq(s.rng, s.rng0))
	}
	sig := fn.Signature
	for i, n := range con.Results {
		if i == 0 && con.Concrete != "" {
			t := e.typeByName(con.Concrete)
			iv, ok := s.ret[0].(IfaceV)
			if t == nil || !ok || iv.Dyn == nil || tname(iv.Dyn) != tname(types.NewPointer(t)) {
				e.prove(s, name+"#concrete type", "ensures", nil, con.Pos, tFalse)
				return
			}
			if p, ok := iv.V.(PtrV); ok && p.Obj != 0 {
				// its maps can be written
				if sv, ok := s.obj(p.Obj).V.(StructV); ok {
					for _, f := range sv.F {
						if m, isM := f.(MapV); isM && m.Obj == 0 {
							e.prove(s, name+"#map is made", "ensures", nil, con.Pos, tFalse)
						}
					}
				}
			}
			after[n] = s.norm(e.pack(s, iv.V, iv.Dyn))
			continue
		}
		after[n] = s.norm(e.pack(s, s.ret[i], sig.Results().At(i).Type()))
	}
	env := e.contractEnv(s, con, after)
	oenv := e.contractEnv(s, con, before)
	env.old = oenv
	for _, c := range con.Ensures {
		g := e.specs.eval(c.E, env)
		e.prove(s, fmt.Sprintf("%s#%s", name, c.ID), "ensures", c.Tags, c.Pos, g)
	}
	for _, g := range e.resultInvs(con, sig, after) {
		e.prove(s, name+"#result invariant", "typeinv", nil, con.Pos, g)
	}
	for _, n := range con.Params {
		if con.modifiesParam(n) {
			g := e.specs.invTerm(after[n])
			if g.Op != OTrue {
				e.prove(s, name+"#invariant of "+n, "typeinv", nil, con.Pos, g)
			}
		}
	}
	// aliasing of results with parameters
	for i := range con.Results {
		if w := e.aliased(s, s.ret[i], con.Fresh, con.Fresh && len(con.Modifies) == 0, ""); w != "" {
			e.prove(s, name+"#alias:result "+con.Results[i]+" shares "+w, "alias", []string{"C08", "C22"}, con.Pos, tFalse)
		}
	}
	for i, n := range con.Params {
		if con.modifiesParam(n) {
			if w := e.aliased(s, s.params[i], false, !con.Inline, n); w != "" {
				e.prove(s, name+"#alias:"+n+" shares "+w, "alias", []string{"C08", "C22"}, con.Pos, tFalse)
			}
		}
	}
}

// fieldFrame: the parts of a parameter outside the modifies clause.
func (e *Engine) fieldFrame(con *Contract, n string, b, a *Term) []*Term {
	var paths [][]string
	for _, m := range con.Modifies {
		var p []string
		x := m
		for x.K == "field" {
			p = append([]string{x.S}, p...)
			x = x.A[0]
		}
		if x.K == "id" && x.S == n {
			if len(p) == 0 {
				return nil
			}
			paths = append(paths, p)
		}
	}
	var walk func(b, a *Term, ps [][]string) []*Term
	walk = func(b, a *Term, ps [][]string) []*Term {
		if len(ps) == 0 {
			return []*Term{Eq(a, b)}
		}
		for _, p := range ps {
			if len(p) == 0 {
				return nil
			}
		}
		var out []*Term
		if isOpt(b.S) {
			out = append(out, Eq(IsNone(a), IsNone(b)))
			b, a = OptVal(b), OptVal(a)
		}
		if b.S.K != SData || len(b.S.Ctors) != 1 {
			return nil
		}
		c := b.S.Ctors[0]
		for i, f := range c.Fields {
			var sub [][]string
			for _, p := range ps {
				if p[0] == f.Name {
					sub = append(sub, p[1:])
				}
			}
			out = append(out, walk(Sel(c, i, b), Sel(c, i, a), sub)...)
		}
		return out
	}
	return walk(b, a, paths)
}

// aliased: a mutable object of another parameter reachable from v.
func (e *Engine) aliased(s *State, v Val, fresh, deep bool, self string) string {
	seen := map[int]bool{}
	imm := e.shallowImm
	if deep {
		imm = e.immutable
	}
	var w func(v Val, d int) string
	obj := func(id int, d int) string {
		if id == 0 || seen[id] || d > 15 {
			return ""
		}
		seen[id] = true
		o := s.heap[id]
		if o == nil {
			return ""
		}
		if deep && o.Shares != "" && o.Shares != self {
			return "parameter " + o.Shares
		}
		if o.Root == "#global" {
			if o.Kind == "cell" && !imm(types.NewPointer(o.T)) {
				return "package data"
			}
			if o.Kind == "arr" && fresh {
				return "package data"
			}
			return ""
		}
		if o.Root != "" && o.Root != self {
			switch o.Kind {
			case "cell":
				if !imm(types.NewPointer(o.T)) {
					return "parameter " + o.Root
				}
			case "arr":
				if !isByteElem(o.T) || fresh {
					return "parameter " + o.Root
				}
			case "map":
				return "parameter " + o.Root
			}
		}
		if fresh && o.Kind == "arr" && o.Foreign && isByteElem(o.T) {
			return "memory of another structure"
		}
		if r := w(o.V, d+1); r != "" {
			return r
		}
		for _, y := range o.Vals {
			if r := w(y, d+1); r != "" {
				return r
			}
		}
		return ""
	}
	w = func(v Val, d int) string {
		switch x := v.(type) {
		case PtrV:
			if x.Nil != nil && x.Nil.Op == OTrue {
				return ""
			}
			return obj(x.Obj, d)
		case SliceV:
			if x.Len != nil && x.Len.isInt() && x.Len.I.Sign() == 0 && x.Cap.isInt() && x.Cap.I.Sign() == 0 {
				return ""
			}
			return obj(x.Arr, d)
		case MapV:
			return obj(x.Obj, d)
		case StructV:
			for _, f := range x.F {
				if r := w(f, d+1); r != "" {
					return r
				}
			}
		case IfaceV:
			if x.Ghost == 0 {
				return w(x.V, d+1)
			}
		}
		return ""
	}
	return w(v, 0)
}

// collect merges obligations with the same name (one per path) into one entry per status.
func (e *Engine) collect() []OblJ {
	idx := map[string]int{}
	var out []OblJ
	for _, o := range e.obls {
		st := o.Status
		if st == "" {
			st = "failed"
		}
		if st == "skipped" {
			st = "failed"
		}
		k := o.Name
		i, ok := idx[k]
		j := OblJ{Name: o.Name, Kind: o.Kind, Tags: o.Tags, Pos: o.Pos, Status: st, Solver: o.Solver, MS: o.Time.Milliseconds(), Goal: trunc(o.Goal, 600), Out: o.Out, Lossy: o.Lossy, Path: o.Path, Count: 1, Script: o.Script}
		if !ok {
			idx[k] = len(out)
			out = append(out, j)
			continue
		}
		p := &out[i]
		p.Count++
		p.MS += j.MS
		if st != "proved" {
			if p.Status == "proved" || len(p.Lossy) > 0 && len(j.Lossy) == 0 {
				c := p.Count
				ms := p.MS
				*p = j
				p.Count, p.MS = c, ms
			}
		} else if p.Solver == "simplifier" || p.Solver == "" {
			p.Solver = j.Solver
		}
	}
	return out
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---- lemmas

func (e *Engine) verifyLemma(name string) (res FnResult) {
	t0 := time.Now()
	res = FnResult{Fn: "lemma " + name, Kind: "lemma", Status: "ok"}
	e.resetFn()
	e.curName = "lemma " + name
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(unsup); ok {
				res.Status, res.Msg = "unsupported", x.msg
				return
			}
			panic(r)
		}
	}()
	var l *Lemma
	for _, x := range e.specs.Lemmas {
		if x.Name == name {
			l = x
		}
	}
	if l == nil {
		res.Status = "missing"
		return
	}
	// earlier axioms and lemmas only
	saved := axioms
	var use []*Axiom
	for _, a := range axioms {
		if a.Name == name {
			break
		}
		use = append(use, a)
	}
	axioms = use
	defer func() { axioms = saved }()
	e.specs.proving = l
	defer func() { e.specs.proving = nil }()
	f := e.specs.evalTop(l.E, l.Pos)
	if l.Induct == "" {
		st := &State{e: e, heap: map[int]*Obj{}, known: map[int]bool{}}
		e.proveLemma(st, "lemma "+name, l, f)
	} else {
		// forall vars :: body, by induction on the named integer variable (>= 0)
		q := l.E
		if q.K != "quant" || q.S != "forall" {
			panic(specErr{"induction lemma must be a forall"})
		}
		run := func(step bool) {
			st := &State{e: e, heap: map[int]*Obj{}, known: map[int]bool{}}
			env := e.specs.env()
			var nv *Term
			for _, v := range q.Vars {
				var x *Term
				if v.Name == l.Induct {
					x = FreshR(v.Name, big0, nil)
					nv = x
					if !step {
						x = Int(0)
					}
				} else {
					x = Fresh(v.Name, e.specs.sort(v.T, l.Pos))
					if v.T.S == "u32" {
						x.Lo, x.Hi = big0, pow2(32)
					}
				}
				env.vars[v.Name] = x
			}
			if step {
				// hypothesis for n, all other variables universally quantified
				henv := e.specs.env()
				var bs []*Term
				for _, v := range q.Vars {
					if v.Name == l.Induct {
						henv.vars[v.Name] = nv
						continue
					}
					b := BoundVar(v.Name, e.specs.sort(v.T, l.Pos))
					bs = append(bs, b)
					henv.vars[v.Name] = b
				}
				e.specs.proving = nil
				h := e.specs.eval(q.A[0], henv)
				if len(bs) > 0 {
					st.facts = append(st.facts, Forall(bs, h))
				}
				// and its instance for the same variables
				st.assume(e.specs.eval(q.A[0], env))
				e.specs.proving = l
				env = env.with(l.Induct, Add(nv, Int(1)))
				e.proveLemma(st, "lemma "+name+" step", l, e.specs.eval(q.A[0], env))
				return
			}
			e.proveLemma(st, "lemma "+name+" base", l, e.specs.eval(q.A[0], env))
		}
		run(false)
		run(true)
	}
	e.wg.Wait()
	res.Obls = e.collect()
	for _, o := range res.Obls {
		if o.Status != "proved" {
			res.Status = "failed"
		}
	}
	res.WallMS = time.Since(t0).Milliseconds()
	return
}

// proveLemma proves a formula, each conjunct of its conclusion on its own.
func (e *Engine) proveLemma(st *State, name string, l *Lemma, f *Term) {
	g := e.skolem(st, f)
	if g.Op != OAnd {
		e.prove(st, name, "lemma", l.Tags, l.Pos, g)
		return
	}
	for _, c := range g.Args {
		e.proveLemma(st.clone(), name, l, c)
		st.assume(c)
	}
}

// skolem strips leading universal quantifiers and implications into the state.
func (e *Engine) skolem(st *State, g *Term) *Term {
	for {
		switch g.Op {
		case OForall:
			m := map[int]*Term{}
			for _, v := range g.Vars {
				f := Fresh("sk."+v.Name, v.S)
				f.Lo, f.Hi = v.Lo, v.Hi
				m[v.ID] = f
			}
			g = Subst(g.Args[0], m, map[int]*Term{})
		case OOr:
			var pos, neg []*Term
			for _, a := range g.Args {
				if a.Op == ONot || a.Op == OLe {
					neg = append(neg, a)
				} else {
					pos = append(pos, a)
				}
			}
			if len(neg) == 0 {
				return g
			}
			if len(pos) == 0 {
				// keep a goal: hypotheses are selected by what it mentions
				pos, neg = neg[len(neg)-1:], neg[:len(neg)-1]
			}
			for _, a := range neg {
				st.assume(Not(a))
			}
			if len(neg) == 0 {
				return st.norm(pos[0])
			}
			g = st.norm(Or(pos...))
		default:
			return st.norm(g)
		}
	}
}

// ---- closure

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

func (c *Contract) taggedFor(p string) bool {
	if hasTag(c.Tags, p) {
		return true
	}
	for _, x := range c.Ensures {
		if hasTag(x.Tags, p) {
			return true
		}
	}
	return false
}

var _ = strings.Join
