package main

// Loops: unrolling when the number of iterations is evident, otherwise invariants
// found by a Houdini-style search over candidates and proved inductive.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := loopCache[f]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopCache[f] = res
	return res
}

type loopRun struct {
	e    *Engine
	st   *State
	l    *loopInfo
	fn   *ssa.Function
	dep  int
	phis []*ssa.Phi
	name string
	mark int
}

var debugLoop = os.Getenv("GOV_LOOP") != ""

func (e *Engine) loopAt(st *State, fr *Frame) *loopRun {
	l := loopsOf(fr.fn)[fr.block]
	if l == nil {
		return nil
	}
	if fr.prev != nil && l.blocks[fr.prev] || fr.inHdr == fr.block {
		return nil
	}
	r := &loopRun{e: e, st: st, l: l, fn: fr.fn, dep: len(st.frames), mark: nextID}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r.phis = append(r.phis, p)
	}
	r.name = fmt.Sprintf("%s#loop%d@%s", e.curName, l.header.Index, fnName(fr.fn))
	return r
}

func (r *loopRun) stop(s *State) bool { return r.class(s) != "" }
func (r *loopRun) class(s *State) string {
	if len(s.frames) < r.dep {
		return "exit"
	}
	if len(s.frames) == r.dep && s.top().pc == 0 {
		f := s.top()
		if f.block == r.l.header && f.inHdr == f.block {
			return ""
		}
		if f.block == r.l.header && f.prev != nil && r.l.blocks[f.prev] {
			return "back"
		}
		if !r.l.blocks[f.block] {
			return "exit"
		}
	}
	return ""
}

// runBody executes one iteration; the start states are positioned at the header.
func (r *loopRun) runBody(ss []*State) (backs, exits []*State) {
	for _, s := range ss {
		// positioned at header: execute the phis before stop conditions apply
		if s.top().pc == 0 {
			s.top().inHdr = s.top().block
			if len(r.phis) > 0 {
				r.e.step1(s)
			}
		}
	}
	outs := r.e.run(ss, r.stop)
	for _, s := range outs {
		if s.end == "ret" {
			exits = append(exits, s)
			continue
		}
		c := r.class(s)
		s.end = ""
		if c == "back" {
			backs = append(backs, s)
		} else {
			exits = append(exits, s)
		}
	}
	return
}

// step1 executes the phis of the current block without loop handling.
func (e *Engine) step1(st *State) {
	fr := st.top()
	pi := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			pi = i
		}
	}
	var vals []Val
	k := 0
	for ; k < len(fr.block.Instrs); k++ {
		p, ok := fr.block.Instrs[k].(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, p.Edges[pi]))
	}
	for i := 0; i < k; i++ {
		fr.regs[fr.block.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	fr.pc = k
}

func (r *loopRun) handle() []*State {
	e := r.e
	if out, ok := r.unroll(); ok {
		r.st.dead = true
		return out
	}
	if e.inInit {
		unsupported("loop in initialiser")
	}
	out := r.invariant()
	r.st.dead = true
	return out
}

// ---- unrolling

func (r *loopRun) unroll() (out []*State, ok bool) {
	e := r.e
	try := func() (exits []*State, done bool) {
		cur := []*State{r.st.clone()}
		for round := 0; round < 12; round++ {
			backs, ex := r.runBody(cur)
			hdr := 0
			for _, s := range ex {
				if s.end != "ret" && len(s.frames) == r.dep && s.top().prev == r.l.header {
					hdr++
				}
			}
			exits = append(exits, ex...)
			if len(backs) == 0 {
				return exits, true
			}
			if hdr > 0 && (r.carried() || round > 0) || len(backs) > 12 {
				return nil, false
			}
			if round >= 3 && len(ex) > 0 && !r.headerDecides() {
				return nil, false
			}
			cur = backs
		}
		return nil, false
	}
	e.muted++
	steps := e.steps
	var done bool
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(unsup); is {
					done = false
					return
				}
				panic(x)
			}
		}()
		_, done = try()
	}()
	e.muted--
	_ = steps
	if !done {
		return nil, false
	}
	return try()
}

// carried: some register changes from one iteration to the next.
func (r *loopRun) carried() bool {
	for _, p := range r.phis {
		for i, b := range r.l.header.Preds {
			if r.l.blocks[b] && p.Edges[i] != ssa.Value(p) {
				return true
			}
		}
	}
	return false
}

// headerDecides: the loop condition is evaluated in the header block.
func (r *loopRun) headerDecides() bool {
	in := r.l.header.Instrs
	if i, ok := in[len(in)-1].(*ssa.If); ok {
		_ = i
		for _, s := range r.l.header.Succs {
			if !r.l.blocks[s] {
				return true
			}
		}
	}
	return false
}

// ---- invariants

type loc struct {
	kind  string // phi, len (length of a slice phi in same-array mode), obj, rng
	phi   *ssa.Phi
	obj   int
	t     types.Type
	entry *Term
	hav   *Term
	name  string
	exact bool
}

type cand struct {
	text  string
	inst  func(v []*Term) *Term
	exact int   // location characterised, -1 none
	eqs   []int // integer or boolean locations it relates to the others by an equation
	dead  bool
}

func (r *loopRun) entryVal(st *State, p *ssa.Phi) Val {
	pi := -1
	for i, b := range r.l.header.Preds {
		if b == r.st.top().prev {
			pi = i
		}
	}
	return r.e.val(st, p.Edges[pi])
}
func (r *loopRun) backVal(s *State, p *ssa.Phi) Val {
	for i, b := range r.l.header.Preds {
		if b == s.top().prev {
			return r.e.val(s, p.Edges[i])
		}
	}
	unsupported("loop edge")
	return nil
}

// shallow equality of values between an earlier state (normalised by s2) and s2.
func (e *Engine) sameShallow(s2 *State, a, b Val, t types.Type) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && s2.norm(x) == s2.norm(y)
	case LazyV:
		if y, ok := b.(LazyV); ok {
			return s2.norm(x.Term) == s2.norm(y.Term)
		}
		return s2.norm(e.pack(s2, b, x.T)) == s2.norm(x.Term)
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || s2.norm(x.Nil) != s2.norm(y.Nil) || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i].F != y.Path[i].F || x.Path[i].Idx != nil && s2.norm(x.Path[i].Idx) != s2.norm(y.Path[i].Idx) {
				return false
			}
		}
		return true
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.Arr == y.Arr && s2.norm(x.Off) == s2.norm(y.Off) && s2.norm(x.Len) == s2.norm(y.Len)
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.sameShallow(s2, x.F[i], y.F[i], nil) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || x.Ghost != y.Ghost {
			return false
		}
		if x.Lazy != nil {
			if y.Lazy != nil {
				return s2.norm(x.Lazy) == s2.norm(y.Lazy)
			}
			return s2.norm(e.pack(s2, b, x.T)) == s2.norm(x.Lazy)
		}
		if x.Op != nil {
			return y.Op != nil && s2.norm(x.Op) == s2.norm(y.Op)
		}
		if s2.norm(x.Nil) != s2.norm(y.Nil) {
			return false
		}
		if x.V == nil || y.V == nil {
			return x.V == nil && y.V == nil
		}
		return e.sameShallow(s2, x.V, y.V, nil)
	case MapV:
		y, ok := b.(MapV)
		return ok && x.Obj == y.Obj
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.Fn == y.Fn && len(x.Bind) == len(y.Bind)
	}
	return false
}

type loopPlan struct {
	objs    map[int]bool
	sameArr map[*ssa.Phi]int // slice phis that keep their array
	foreign map[*ssa.Phi]bool
	shares  map[*ssa.Phi]string
	rng     bool
	search  *searchInv
}

type searchInv struct {
	phi  *ssa.Phi
	p    *Term
	cond *Term
}

// setup builds the havoced state.
func (r *loopRun) setup(pl *loopPlan) (*State, []*loc) {
	e := r.e
	st := r.st.clone()
	var locs []*loc
	add := func(l *loc) { locs = append(locs, l) }
	// entry values of the objects first (before anything is changed)
	var ids []int
	for id := range pl.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	content := func(s *State, id int) *Term {
		o := s.obj(id)
		switch o.Kind {
		case "arr":
			return s.norm(e.arrList(s, id, 0))
		case "map":
			return s.norm(e.mapTerm(s, id, 0))
		case "ghost":
			if g, ok := o.GT["state"]; ok {
				return s.norm(g)
			}
			if g, ok := o.GT["data"]; ok {
				return s.norm(g)
			}
			unsupported("loop modifies %s", o.G)
		}
		return s.norm(e.pack(s, o.V, o.T))
	}
	entries := map[int]*Term{}
	for _, id := range ids {
		entries[id] = content(st, id)
	}
	fr := st.top()
	regs := map[*ssa.Phi]Val{}
	for _, p := range r.phis {
		ev := r.entryVal(st, p)
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		t := p.Type()
		switch x := ev.(type) {
		case SliceV:
			if arr, ok := pl.sameArr[p]; ok && arr == x.Arr {
				ln := FreshR("len."+n, big0, nil)
				cp := st.norm(x.Cap)
				regs[p] = SliceV{Arr: x.Arr, Off: x.Off, Len: ln, Cap: cp, Elem: x.Elem}
				st.assume(Le(ln, cp))
				add(&loc{kind: "len", phi: p, t: types.Typ[types.Int], entry: st.norm(x.Len), hav: ln, name: "len(" + n + ")"})
				continue
			}
			s := e.sortOf(t)
			h := Fresh("loop."+n, s)
			o := &Obj{Kind: "arr", T: x.Elem, List: h, Foreign: pl.foreign[p], Shares: pl.shares[p]}
			ln := Len(h)
			cp := FreshR("cap", big0, nil)
			st.assume(Le(ln, cp))
			regs[p] = SliceV{Arr: st.alloc(o), Off: Int(0), Len: ln, Cap: cp, Elem: x.Elem}
			add(&loc{kind: "phi", phi: p, t: t, entry: st.norm(e.pack(st, x, t)), hav: h, name: n})
			// the array the slice started from may be written through the loop
			if x.Arr != 0 {
				if ob := st.obj(x.Arr); !ob.Foreign && ob.Root != "#global" && ob.Stale == "" {
					st.mut(x.Arr).Stale = "array grown in a loop"
				}
			}
		case *Term, LazyV, StructV, PtrV, IfaceV:
			if iv, ok := ev.(IfaceV); ok && iv.Ghost != 0 {
				unsupported("loop-carried interface")
			}
			et := st.norm(e.pack(st, ev, t))
			h := e.freshDeep("loop."+n, t)
			if pt, ok := t.Underlying().(*types.Pointer); ok && !e.immutable(pt) {
				unsupported("loop-carried pointer to a mutable %s", pt.Elem())
			}
			v := e.open(st, t, h, "")
			v = e.force(st, v, "")
			regs[p] = v
			add(&loc{kind: "phi", phi: p, t: t, entry: et, hav: h, name: n})
		default:
			unsupported("loop-carried value of kind %T", ev)
		}
	}
	for p, v := range regs {
		fr.regs[p] = v
	}
	fr.pc = len(r.phis)
	for _, id := range ids {
		o := st.obj(id)
		var h *Term
		switch o.Kind {
		case "arr":
			e.flush(st, id)
			if st.obj(id).Vals != nil {
				e.listify(st, id)
			}
			h = Fresh("loop.arr", entries[id].S)
			st.mut(id).List = h
		case "map":
			m := st.mut(id)
			m.Focus = nil
			h = Fresh("loop.map", entries[id].S)
			m.List = h
		case "ghost":
			m := st.mut(id)
			k := "state"
			if _, ok := m.GT[k]; !ok {
				k = "data"
				h = Fresh("loop.buf", BytesS)
			} else {
				s := m.GT[k].S
				var as []*Term
				for _, f := range s.Ctors[0].Fields {
					n := Fresh("loop.g."+f.Name, f.S)
					n.Lo, n.Hi = f.Lo, f.Hi
					as = append(as, n)
				}
				h = Cons(s.Ctors[0], as...)
			}
			m.GT[k] = h
		default:
			e.checkWrite(st, o)
			e.staleChildren(st, o.V, "part of a structure modified in a loop", 0)
			h = e.freshDeep("loop.obj", o.T)
			st.mut(id).V = LazyV{o.T, h}
		}
		add(&loc{kind: "obj", obj: id, t: o.T, entry: entries[id], hav: h, name: fmt.Sprintf("obj(%s)", tname(o.T))})
	}
	if pl.rng {
		h := FreshR("loop.rng", nil, nil)
		add(&loc{kind: "rng", t: types.Typ[types.Int], entry: r.st.norm(st.rng), hav: h, name: "rand"})
		st.rng = h
	}
	return st, locs
}

// current values of the locations in a back-edge state.
func (r *loopRun) current(s *State, locs []*loc) []*Term {
	e := r.e
	var out []*Term
	for _, l := range locs {
		switch l.kind {
		case "rng":
			out = append(out, s.norm(s.rng))
		case "len":
			sv, ok := r.backVal(s, l.phi).(SliceV)
			if !ok {
				unsupported("slice phi")
			}
			out = append(out, s.norm(sv.Len))
		case "phi":
			out = append(out, s.norm(e.pack(s, r.backVal(s, l.phi), l.t)))
		case "obj":
			o := s.obj(l.obj)
			switch o.Kind {
			case "arr":
				out = append(out, s.norm(e.arrList(s, l.obj, 0)))
			case "map":
				out = append(out, s.norm(e.mapTerm(s, l.obj, 0)))
			case "ghost":
				if g, ok := o.GT["state"]; ok {
					out = append(out, s.norm(g))
				} else {
					out = append(out, s.norm(o.GT["data"]))
				}
			default:
				out = append(out, s.norm(e.pack(s, o.V, o.T)))
			}
		}
	}
	return out
}

// growPlan compares a back state with the havoced one; true if the plan changed.
// sharesOf: the parameter whose objects were linked into the object or its parts.
func (e *Engine) sharesOf(s *State, id int) string {
	seen := map[int]bool{}
	var w func(v Val, d int) string
	obj := func(id, d int) string {
		o := s.heap[id]
		if o == nil || seen[id] || d > 12 {
			return ""
		}
		seen[id] = true
		if o.Shares != "" {
			return o.Shares
		}
		if r := w(o.V, d+1); r != "" {
			return r
		}
		for _, v := range o.Vals {
			if p, ok := v.(PtrV); ok && p.Obj != 0 {
				if q := s.heap[p.Obj]; q != nil && q.Root != "" && q.Root != "#global" && q.Root != o.Root && q.Kind == "cell" && !e.immutable(types.NewPointer(q.T)) {
					return q.Root
				}
			}
			if r := w(v, d+1); r != "" {
				return r
			}
		}
		return ""
	}
	w = func(v Val, d int) string {
		switch x := v.(type) {
		case PtrV:
			return obj(x.Obj, d)
		case SliceV:
			return obj(x.Arr, d)
		case StructV:
			for _, f := range x.F {
				if r := w(f, d+1); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return obj(id, 0)
}

func (r *loopRun) growPlan(pl *loopPlan, hs, s *State) bool {
	e := r.e
	ch := false
	var ids []int
	for id := range r.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if pl.objs[id] {
			continue
		}
		o1 := r.st.heap[id]
		if o1.Root == "#global" || o1.Stale != "" {
			continue
		}
		h1, ok := hs.heap[id]
		o2, ok2 := s.heap[id]
		if !ok || !ok2 || h1.Stale != "" {
			continue
		}
		if sh := e.sharesOf(s, id); sh != "" && r.st.heap[id].Shares == "" && sh != o1.Root {
			r.st.mut(id).Shares = sh
			ch = true
		}
		if h1 == o2 {
			continue
		}
		diff := false
		if o2.Stale != "" {
			// became unusable inside the loop body
			if r.st.heap[id].Stale == "" {
				m := r.st.mut(id)
				m.Stale = o2.Stale
				ch = true
			}
			continue
		}
		switch o2.Kind {
		case "arr":
			diff = s.norm(e.arrList(hs, id, 0)) != s.norm(e.arrList(s, id, 0))
		case "map":
			diff = s.norm(e.mapTerm(hs, id, 0)) != s.norm(e.mapTerm(s, id, 0))
		case "ghost":
			for k, v := range o2.GT {
				if w, ok := h1.GT[k]; !ok || s.norm(w) != s.norm(v) {
					diff = true
				}
			}
		default:
			if h1.V == nil && o2.V == nil {
				break
			}
			if !e.sameShallow(s, h1.V, o2.V, o2.T) {
				diff = true
				// materialise instead when only a nested object may have changed
				if l, ok := r.st.heap[id].V.(LazyV); ok && !isExtStruct(l.T) {
					if _, isS := l.T.Underlying().(*types.Struct); isS {
						if o2s, ok := o2.V.(StructV); ok {
							_ = o2s
							r.st.mut(id).V = e.force(r.st, l, o1.Root)
							ch = true
							diff = false
						}
					}
				}
			}
		}
		if diff {
			if o2.Kind == "cell" {
				r.noNewAlias(h1.V, o2.V)
			}
			pl.objs[id] = true
			ch = true
		}
	}
	if s.norm(hs.rng) != s.norm(s.rng) && !pl.rng {
		pl.rng = true
		ch = true
	}
	// slice phis
	for _, p := range r.phis {
		ev, ok := r.entryVal(r.st, p).(SliceV)
		if !ok {
			continue
		}
		bv, ok := r.backVal(s, p).(SliceV)
		if !ok {
			continue
		}
		if arr, same := pl.sameArr[p]; same && (bv.Arr != arr || s.norm(bv.Off) != s.norm(ev.Off)) {
			delete(pl.sameArr, p)
			ch = true
		}
		if bv.Arr != 0 && pl.shares[p] == "" {
			if sh := e.sharesOf(s, bv.Arr); sh != "" {
				pl.shares[p] = sh
				ch = true
			}
		}
		if _, same := pl.sameArr[p]; !same && bv.Arr != 0 && s.obj(bv.Arr).Foreign && !pl.foreign[p] {
			pl.foreign[p] = true
			ch = true
		}
	}
	return ch
}

func (r *loopRun) invariant() []*State {
	e := r.e
	pl := &loopPlan{objs: map[int]bool{}, sameArr: map[*ssa.Phi]int{}, foreign: map[*ssa.Phi]bool{}, shares: map[*ssa.Phi]string{}}
	for _, p := range r.phis {
		if sv, ok := r.entryVal(r.st, p).(SliceV); ok {
			if sv.Arr != 0 {
				pl.sameArr[p] = sv.Arr
				if r.st.obj(sv.Arr).Foreign {
					pl.foreign[p] = true
				}
			}
		}
	}
	var hs *State
	var locs []*loc
	var cs []*cand
	// modification set and search condition
	for it := 0; ; it++ {
		if it > 12 {
			unsupported("loop: modification set does not stabilise")
		}
		hs, locs = r.setup(pl)
		cs = r.basic(hs, locs)
		ref := hs.clone()
		r.assumeAll(hs, locs, cs)
		if hs.dead {
			unsupported("loop: contradictory candidates")
		}
		e.muted++
		backs, _ := r.runBody([]*State{hs})
		e.muted--
		ch := false
		for _, s := range backs {
			if r.growPlan(pl, ref, s) {
				ch = true
				break
			}
		}
		if !ch {
			r.findSearch(pl, locs, ref, backs)
			break
		}
	}
	hs, locs = r.setup(pl)
	base := hs
	cs = r.candidates(base, locs, pl)
	cs = r.filterEntry(locs, cs)
	for round := 0; ; round++ {
		if round > 30 {
			unsupported("loop: invariant search does not stabilise")
		}
		h := base.clone()
		r.assumeAll(h, locs, cs)
		if h.dead {
			unsupported("loop: contradictory invariants")
		}
		e.muted++
		backs, _ := r.runBody([]*State{h})
		e.muted--
		n := len(cs)
		cs = r.preserved(backs, locs, cs)
		if debugLoop {
			fmt.Fprintf(os.Stderr, "%s round %d: %d -> %d candidates, %d back states\n", r.name, round, n, len(cs), len(backs))
		}
		if len(cs) == n {
			break
		}
	}
	cs = minimize(cs)
	if debugLoop {
		for _, c := range cs {
			fmt.Fprintf(os.Stderr, "   inv %s\n", c.text)
		}
	}
	// the recorded run
	ev := r.entryVals(locs)
	for _, c := range cs {
		e.prove(r.st, r.name+"#init "+c.text, "invariant", nil, "", c.inst(ev))
	}
	h := base.clone()
	r.assumeAll(h, locs, cs)
	backs, exits := r.runBody([]*State{h})
	for _, s := range backs {
		v := r.current(s, locs)
		for _, c := range cs {
			e.prove(s, r.name+"#inv "+c.text, "invariant", nil, "", c.inst(v))
		}
	}
	// what is not characterised exactly
	var bad []int
	for i, l := range locs {
		ok := l.t != nil && isError(l.t) || r.counts(l, backs)
		for _, c := range cs {
			if c.exact == i {
				ok = true
			}
			for _, j := range c.eqs {
				ok = ok || j == i
			}
		}
		if !ok {
			bad = append(bad, i)
		}
	}
	for _, i := range r.undetermined(base, locs, cs, bad, backs) {
		for _, s := range exits {
			s.lossy = append(s.lossy, fmt.Sprintf("%s: value of %s after the loop is not characterised exactly", r.name, locs[i].name))
		}
	}
	return exits
}

// undetermined: the locations among bad which the invariant does not make functions of the other ones.
func (r *loopRun) undetermined(base *State, locs []*loc, cs []*cand, bad []int, backs []*State) []int {
	if len(bad) == 0 {
		return nil
	}
	e := r.e
	st := base.clone()
	r.assumeAll(st, locs, cs)
	var v, w []*Term
	for _, l := range locs {
		v = append(v, l.hav)
		w = append(w, l.hav)
	}
	for _, i := range bad {
		w[i] = Fresh("other", v[i].S)
		if s := v[i].S; len(s.Ctors) == 1 && locs[i].kind == "phi" {
			// a field which counts the iterations is determined
			var as []*Term
			for k, f := range s.Ctors[0].Fields {
				a := Sel(s.Ctors[0], k, locs[i].hav)
				if !r.countsAt(locs[i], k, backs) {
					n := Fresh("other."+f.Name, f.S)
					n.Lo, n.Hi = a.Lo, a.Hi
					a = n
				}
				as = append(as, a)
			}
			w[i] = Cons(s.Ctors[0], as...)
		}
	}
	for _, c := range cs {
		st.assume(st.norm(c.inst(w)))
	}
	var out []int
	for _, i := range bad {
		a, b := st.norm(v[i]), st.norm(w[i])
		s2 := st.clone()
		goals := []*Term{s2.norm(mkEq(a, b))}
		if a.S.K == SList {
			j := Fresh("j", IntS)
			s2.assume(And(Le(Int(0), j), Lt(j, Len(a))))
			// what equations of sublists say of element j
			var walk func(t *Term)
			walk = func(t *Term) {
				if t.Op == OAnd || t.Op == OOr || t.Op == ONot {
					for _, x := range t.Args {
						walk(x)
					}
				}
				if t.Op != OEq {
					return
				}
				for k := 0; k < 2; k++ {
					x, p, in := t.Args[k], t.Args[1-k], tTrue
					if x.Op == OIte {
						in, x = x.Args[0], x.Args[1]
					}
					if x.Op == OExt && (x.Args[0] == a || x.Args[0] == b) {
						lo, hi := x.Args[1], x.Args[2]
						s2.assume(Imp(And(t, in, Le(Int(0), lo), Le(lo, j), Lt(j, hi), Le(hi, Len(x.Args[0]))), mkEq(At(x.Args[0], j), At(p, Sub(j, lo)))))
					}
				}
			}
			for _, c := range cs {
				walk(c.inst(v))
				walk(c.inst(w))
			}
			goals = []*Term{s2.norm(mkEq(Len(a), Len(b))), s2.norm(mkEq(At(a, j), At(b, j)))}
		}
		ok := true
		for k, x := range e.checkMany([]*State{s2, s2}[:len(goals)], goals) {
			if !x && debugLoop {
				fmt.Fprintf(os.Stderr, "   undetermined: %v\n", goals[k])
				for _, f := range relevant(s2.facts, goals[k]) {
					fmt.Fprintf(os.Stderr, "      %v\n", f)
				}
			}
			ok = ok && x
		}
		if !ok {
			out = append(out, i)
		} else if debugLoop {
			fmt.Fprintf(os.Stderr, "   determined by the rest: %s\n", locs[i].name)
		}
	}
	return out
}

// countsAt: field k of the location advances by the same amount in every iteration.
func (r *loopRun) countsAt(l *loc, k int, backs []*State) bool {
	c := l.hav.S.Ctors[0]
	if c.Fields[k].S != IntS {
		return false
	}
	return r.steady(backs, func(s *State) *Term {
		return Sub(Sel(c, k, r.current(s, []*loc{l})[0]), Sel(c, k, l.hav))
	})
}

// counts: the location advances by the same amount in every iteration.
func (r *loopRun) counts(l *loc, backs []*State) bool {
	if l.hav.S != IntS {
		return false
	}
	return r.steady(backs, func(s *State) *Term { return Sub(r.current(s, []*loc{l})[0], l.hav) })
}

// steady: the term has the same constant value at the end of every iteration.
func (r *loopRun) steady(backs []*State, f func(s *State) *Term) bool {
	var ds []*Term
	var step *Term
	for _, s := range backs {
		d := s.norm(f(s))
		ds = append(ds, d)
		if d.isInt() {
			if step != nil && step != d {
				return false
			}
			step = d
		}
	}
	try := []*Term{step}
	if step == nil {
		try = []*Term{Int(1), Int(-1)}
	}
next:
	for _, x := range try {
		var sts []*State
		var goals []*Term
		for i, d := range ds {
			if !d.isInt() {
				sts = append(sts, backs[i])
				goals = append(goals, Eq(d, x))
			}
		}
		if len(goals) > 0 {
			for _, ok := range r.e.checkMany(sts, goals) {
				if !ok {
					continue next
				}
			}
		}
		return true
	}
	return false
}

func minimize(cs []*cand) []*cand { return cs }

func (r *loopRun) entryVals(locs []*loc) []*Term {
	var ev []*Term
	for _, l := range locs {
		ev = append(ev, r.st.norm(l.entry))
	}
	return ev
}
func havVals(st *State, locs []*loc) []*Term {
	var v []*Term
	for _, l := range locs {
		v = append(v, st.norm(l.hav))
	}
	return v
}

func (r *loopRun) assumeAll(h *State, locs []*loc, cs []*cand) {
	for _, c := range cs {
		h.assume(c.inst(havVals(h, locs)))
		if h.dead {
			return
		}
	}
}

func (r *loopRun) filterEntry(locs []*loc, cs []*cand) []*cand {
	ev := r.entryVals(locs)
	goals := make([]*Term, len(cs))
	sts := make([]*State, len(cs))
	for i, c := range cs {
		goals[i] = r.st.norm(c.inst(ev))
		sts[i] = r.st
	}
	ok := r.e.checkMany(sts, goals)
	var out []*cand
	for i, c := range cs {
		if ok[i] {
			out = append(out, c)
		} else if debugLoop {
			fmt.Fprintf(os.Stderr, "   entry rejects %s\n", c.text)
		}
	}
	return out
}

func (r *loopRun) preserved(backs []*State, locs []*loc, cs []*cand) []*cand {
	var goals []*Term
	var sts []*State
	var idx []int
	for _, s := range backs {
		v := r.current(s, locs)
		for i, c := range cs {
			g := s.norm(c.inst(v))
			if g.Op == OTrue {
				continue
			}
			goals = append(goals, g)
			sts = append(sts, s)
			idx = append(idx, i)
		}
	}
	ok := r.e.checkMany(sts, goals)
	bad := map[int]bool{}
	for k := range goals {
		if !ok[k] {
			bad[idx[k]] = true
		}
	}
	var out []*cand
	for i, c := range cs {
		if !bad[i] {
			out = append(out, c)
		} else if debugLoop {
			fmt.Fprintf(os.Stderr, "   not preserved: %s\n", c.text)
		}
	}
	return out
}

var candMS = 1500

// checkMany decides implications in parallel.
func (e *Engine) checkMany(sts []*State, goals []*Term) []bool {
	res := make([]bool, len(goals))
	type job struct {
		i int
		s []string
	}
	var jobs []job
	for i, g := range goals {
		gs := splitGoal(sts[i], g)
		if len(gs) == 0 {
			res[i] = true
			continue
		}
		bad := false
		var ss []string
		for _, x := range gs {
			if x.Op == OFalse && len(sts[i].facts) == 0 {
				bad = true
			}
			ss = append(ss, script(relevant(sts[i].facts, x), x))
		}
		if bad {
			continue
		}
		jobs = append(jobs, job{i, ss})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			e.pool <- struct{}{}
			defer func() { <-e.pool }()
			for _, s := range j.s {
				if !candOK(s) {
					return
				}
			}
			res[j.i] = true
		}(j)
	}
	wg.Wait()
	return res
}

var candCache sync.Map

func candOK(s string) bool {
	if v, ok := candCache.Load(s); ok {
		return v.(bool)
	}
	r := z3(s, candMS)
	ok := r.Status == "unsat"
	candCache.Store(s, ok)
	return ok
}

// basic candidates, used already while the modification set is computed.
func (r *loopRun) basic(hs *State, locs []*loc) []*cand {
	cs := r.intCands(hs, locs)
	// pointers and errors keep their nil-ness
	for i, l := range locs {
		i, l := i, l
		if isOpt(l.hav.S) {
			cs = append(cs, &cand{text: l.name + " != nil", exact: -1, inst: func(v []*Term) *Term { return Not(IsNone(v[i])) }})
		}
	}
	cs = r.filterEntry(locs, cs)
	// keep only those that hold by one body execution
	for round := 0; round < 6; round++ {
		h := hs.clone()
		r.assumeAll(h, locs, cs)
		if h.dead {
			return nil
		}
		r.e.muted++
		backs, _ := r.runBody([]*State{h})
		r.e.muted--
		n := len(cs)
		cs = r.preserved(backs, locs, cs)
		if len(cs) == n {
			break
		}
	}
	return cs
}

func (r *loopRun) intCands(hs *State, locs []*loc) []*cand {
	e := r.e
	var cs []*cand
	seen := map[string]bool{}
	add := func(text string, f func(v []*Term) *Term, eqs ...int) {
		if seen[text] {
			return
		}
		seen[text] = true
		cs = append(cs, &cand{text: text, inst: f, exact: -1, eqs: eqs})
	}
	// errors which are no sentinels
	for i, l := range locs {
		i, l := i, l
		if l.hav.S == IntS && isError(l.t) {
			add(l.name+" >= 0", func(v []*Term) *Term { return Le(Int(0), v[i]) })
		}
	}
	// loop-invariant integers: operands of comparisons in the loop
	var invs []*Term
	seenT := map[int]bool{}
	addInv := func(t *Term) {
		if t != nil && t.S == IntS && !seenT[t.ID] {
			seenT[t.ID] = true
			invs = append(invs, t)
		}
	}
	for _, b := range r.fn.Blocks {
		if !r.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				switch c := o.(type) {
				case *ssa.Const:
					if c.Value != nil {
						if t, ok := e.constant(r.st, c).(*Term); ok && t.S == IntS && len(invs) < 8 {
							addInv(t)
						}
					}
				default:
					if v, ok := r.st.top().regs[o]; ok {
						if t, ok := v.(*Term); ok {
							addInv(r.st.norm(t))
						}
					}
				}
			}
		}
	}
	// lengths of slices in scope that are indexed in the loop
	for _, b := range r.fn.Blocks {
		if !r.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.IndexAddr); ok {
				if v, ok := r.st.top().regs[x.X].(SliceV); ok {
					addInv(r.st.norm(v.Len))
				}
			}
		}
	}
	for i, l := range locs {
		i, l := i, l
		if l.kind == "rng" || l.hav.S != IntS || isError(l.t) {
			if l.hav.S == IntS {
				add(l.name+" == entry", func(v []*Term) *Term { return Eq(v[i], r.en(l)) }, i)
				if l.kind == "rng" {
					add("rand >= entry", func(v []*Term) *Term { return Le(r.en(l), v[i]) })
				}
			}
			continue
		}
		add(l.name+" >= entry", func(v []*Term) *Term { return Le(r.en(l), v[i]) })
		add(l.name+" <= entry", func(v []*Term) *Term { return Le(v[i], r.en(l)) })
		add(l.name+" == entry", func(v []*Term) *Term { return Eq(v[i], r.en(l)) }, i)
		add(l.name+" >= 0", func(v []*Term) *Term { return Le(Int(0), v[i]) })
		for k, t := range invs {
			t := t
			nm := fmt.Sprintf("%s(%d)", pretty(t, 3), k)
			add(l.name+" <= "+nm, func(v []*Term) *Term { return Le(v[i], r.st.norm(t)) })
			add(l.name+" < "+nm, func(v []*Term) *Term { return Lt(v[i], r.st.norm(t)) })
			add(l.name+" >= "+nm, func(v []*Term) *Term { return Le(r.st.norm(t), v[i]) })
			add(l.name+" <= max("+nm+",entry)", func(v []*Term) *Term { return Or(Le(v[i], r.st.norm(t)), Le(v[i], r.en(l))) })
		}
		for j, m := range locs {
			j, m := j, m
			if j == i || m.hav.S != IntS || m.kind == "rng" || isError(m.t) {
				continue
			}
			add(l.name+" - "+m.name+" == entry", func(v []*Term) *Term { return Eq(Sub(v[i], v[j]), Sub(r.en(l), r.en(m))) }, i, j)
			add(l.name+" <= "+m.name, func(v []*Term) *Term { return Le(v[i], v[j]) })
			add(l.name+" <= "+m.name+"+1", func(v []*Term) *Term { return Le(v[i], Add(v[j], Int(1))) })
		}
		for j, m := range locs {
			j, m := j, m
			if m.hav.S.K != SList || m.kind != "phi" {
				continue
			}
			add("len("+m.name+") - "+l.name+" == entry", func(v []*Term) *Term {
				return Eq(Sub(Len(v[j]), v[i]), Sub(Len(r.en(m)), r.en(l)))
			}, i)
			for k, o := range locs {
				k, o := k, o
				if k == i || o.hav.S != IntS || o.kind == "rng" || isError(o.t) {
					continue
				}
				add("len("+m.name+") + "+l.name+" - "+o.name+" == entry", func(v []*Term) *Term {
					return Eq(Sub(Add(Len(v[j]), v[i]), v[k]), Sub(Add(Len(r.en(m)), r.en(l)), r.en(o)))
				}, i)
			}
			add("len("+m.name+") <= "+l.name+"+1", func(v []*Term) *Term { return Le(Len(v[j]), Add(v[i], Int(1))) })
		}
	}
	for i, l := range locs {
		i, l := i, l
		if l.hav.S.K != SList {
			continue
		}
		add("len("+l.name+") == entry", func(v []*Term) *Term { return Eq(Len(v[i]), Len(r.en(l))) })
	}
	return cs
}

func (r *loopRun) en(l *loc) *Term { return r.st.norm(l.entry) }

func (r *loopRun) candidates(hs *State, locs []*loc, pl *loopPlan) []*cand {
	e := r.e
	cs := r.intCands(hs, locs)
	add := func(text string, exact int, f func(v []*Term) *Term) {
		cs = append(cs, &cand{text: text, inst: f, exact: exact})
	}
	for i, l := range locs {
		i, l := i, l
		s := l.hav.S
		if s != IntS {
			add(l.name+" == entry", i, func(v []*Term) *Term { return Eq(v[i], r.en(l)) })
		}
		if isOpt(s) {
			add(l.name+" != nil", -1, func(v []*Term) *Term { return Not(IsNone(v[i])) })
		}
		if s.K == SData && len(s.Ctors) == 1 {
			for k, f := range s.Ctors[0].Fields {
				k := k
				add(l.name+"."+f.Name+" == entry", -1, func(v []*Term) *Term { return Eq(Sel(s.Ctors[0], k, v[i]), Sel(s.Ctors[0], k, r.en(l))) })
				if isOpt(f.S) {
					add(l.name+"."+f.Name+" != nil", -1, func(v []*Term) *Term { return Not(IsNone(Sel(s.Ctors[0], k, v[i]))) })
				}
			}
		}
		if iv := e.specs.invTerm(l.hav); iv.Op != OTrue {
			add("inv("+l.name+")", -1, func(v []*Term) *Term { return e.specs.invTerm(v[i]) })
		}
		if s.K == SList && l.kind == "obj" {
			// untouched suffix
			for j, m := range locs {
				j, m := j, m
				if m.hav.S != IntS || m.kind == "rng" {
					continue
				}
				for d := int64(0); d <= 1; d++ {
					d := d
					add(fmt.Sprintf("%s[j] == entry for j >= %s+%d", l.name, m.name, d), -1, func(v []*Term) *Term {
						b := BoundVar("j", IntS)
						return Forall([]*Term{b}, Imp(And(Le(Add(v[j], Int(d)), b), Lt(b, Len(v[i])), Le(Int(0), b)), Eq(At(v[i], b), At(r.en(l), b))), []*Term{At(v[i], b)})
					})
				}
			}
		}
	}
	// search condition
	if sv := pl.search; sv != nil {
		for i, l := range locs {
			if l.phi == sv.phi && l.kind == "phi" {
				i, l := i, l
				add("every earlier iteration continued", -1, func(v []*Term) *Term {
					b := BoundVar("j", IntS)
					body := Subst(r.st.norm(sv.cond), map[int]*Term{sv.p.ID: b}, map[int]*Term{})
					return Forall([]*Term{b}, Imp(And(Le(r.en(l), b), Lt(b, v[i])), body))
				})
			}
		}
	}
	cs = append(cs, r.templates(hs, locs)...)
	return cs
}

// countsDown: an integer variable which every iteration decrements by one.
func (r *loopRun) countsDown(l *loc) bool {
	if l.kind != "phi" || l.phi == nil {
		return false
	}
	n := 0
	for _, x := range l.phi.Edges {
		if b, ok := x.(*ssa.BinOp); ok && b.Op == token.SUB && b.X == l.phi {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() == 1 {
				n++
			}
		}
	}
	return n > 0 && n == len(l.phi.Edges)-1
}

// templates instantiates the candidate schemes of the specification.
func (r *loopRun) templates(hs *State, locs []*loc) []*cand {
	e := r.e
	var cs []*cand
	// loop-invariant values
	type term struct {
		t   *Term
		i   int // location or -1
		d   int64
		txt string
		k   string // kind of an integer: int, u32, error
		neg bool   // how far the location has come down from its entry value
	}
	ik := func(t types.Type) string {
		if t == nil {
			return "int"
		}
		if isError(t) {
			return "error"
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
			return "u32"
		}
		return "int"
	}
	var pool []term
	for i, l := range locs {
		pool = append(pool, term{l.hav, i, 0, l.name, ik(l.t), false})
		if l.hav.S == IntS && !isError(l.t) && l.kind != "rng" {
			pool = append(pool, term{l.hav, i, 1, l.name + "+1", ik(l.t), false})
			if r.countsDown(l) {
				pool = append(pool, term{l.hav, i, 0, "entry-" + l.name, "int", true}, term{l.hav, i, 1, "entry-" + l.name + "+1", "int", true})
			}
		}
		if isOpt(l.hav.S) {
			pool = append(pool, term{l.hav, i, 0, "*" + l.name, "", false})
		}
	}
	seen := map[int]bool{}
	addInv := func(t *Term, txt, k string) {
		if t == nil || seen[t.ID] || t.Bound {
			return
		}
		if t.S == BoolS || isConstT(t) && t.S == IntS && false {
			return
		}
		seen[t.ID] = true
		pool = append(pool, term{t, -1, 0, txt, k, false})
	}
	func() {
		fr := r.st.top()
		var vs []ssa.Value
		for v := range fr.regs {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
		for _, p := range fr.fn.Params {
			vs = append(vs, p)
		}
		for _, v := range vs {
			if !usedIn(v, r.l) && !isParam(v, fr.fn) {
				continue
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(unsup); !ok {
							panic(x)
						}
					}
				}()
				val := fr.regs[v]
				if _, tup := val.(TupleV); tup {
					return
				}
				if _, fnv := val.(FuncV); fnv {
					return
				}
				if iv, ok := val.(IfaceV); ok && iv.Ghost != 0 {
					return
				}
				addInv(r.st.norm(e.pack(r.st.clone(), val, v.Type())), v.Name(), ik(v.Type()))
			}()
		}
	}()
	// fields of those, one level deep
	for _, p := range pool {
		t := p.t
		if p.i >= 0 {
			continue
		}
		if isOpt(t.S) {
			t = OptVal(t)
		}
		if t.S.K != SData || len(t.S.Ctors) != 1 {
			continue
		}
		for fi, f := range t.S.Ctors[0].Fields {
			if f.S.K == SList || isOpt(f.S) {
				addInv(r.st.norm(Sel(t.S.Ctors[0], fi, t)), p.txt+"."+f.Name, "")
			}
		}
	}
	total := 0
	for _, tm := range e.specs.Templates {
		var sorts []*Sort
		for _, h := range tm.Holes {
			sorts = append(sorts, e.specs.sort(h.T, tm.Pos))
		}
		pick := make([]term, len(sorts))
		cnt := 0
		var rec func(k int)
		rec = func(k int) {
			if cnt > 400 || total > 1200 {
				return
			}
			if k == len(sorts) {
				any := false
				for _, p := range pick {
					if p.i >= 0 {
						any = true
					}
				}
				if !any || pick[0].i < 0 {
					return
				}
				cnt++
				total++
				ps := append([]term{}, pick...)
				txt := tm.Name + "("
				for i, p := range ps {
					if i > 0 {
						txt += ", "
					}
					txt += p.txt
				}
				txt += ")"
				ex := -1
				if tm.Exact {
					ex = ps[0].i
				}
				var eqs []int
				for _, p := range ps {
					if p.i >= 0 && (locs[p.i].hav.S == IntS || locs[p.i].hav.S == BoolS) {
						eqs = append(eqs, p.i)
					}
				}
				cs = append(cs, &cand{text: txt, exact: ex, eqs: eqs, inst: func(v []*Term) *Term {
					cur := map[string]*Term{}
					ini := map[string]*Term{}
					for i, p := range ps {
						x := p.t
						y := r.st.norm(p.t)
						if p.i >= 0 {
							x = v[p.i]
							y = r.en(locs[p.i])
							if p.neg {
								x, y = Sub(y, x), Int(0)
							}
						} else {
							x = y
						}
						if p.d != 0 {
							x = Add(x, Int(p.d))
							y = Add(y, Int(p.d))
						}
						if x.S != sorts[i] {
							x, y = OptVal(x), OptVal(y)
						}
						cur[tm.Holes[i].Name] = x
						ini[tm.Holes[i].Name] = y
					}
					env := &Env{sp: e.specs, vars: cur}
					env.init = &Env{sp: e.specs, vars: ini}
					return e.specs.eval(tm.E, env)
				}})
				return
			}
			for _, p := range pool {
				if sorts[k] == IntS {
					h := tm.Holes[k].T.S
					if (h == "error") != (p.k == "error") || h == "u32" && p.k != "u32" {
						continue
					}
				}
				if p.t.S == sorts[k] || isOpt(p.t.S) && p.t.S.Ctors[1].Fields[0].S == sorts[k] && (p.i < 0 || p.txt[0] == '*') {
					dup := false
					for j := 0; j < k; j++ {
						if pick[j].i >= 0 && pick[j].i == p.i && pick[j].d == p.d {
							dup = true
						}
					}
					if dup {
						continue
					}
					pick[k] = p
					rec(k + 1)
				}
			}
		}
		rec(0)
	}
	return cs
}

func isParam(v ssa.Value, f *ssa.Function) bool {
	for _, p := range f.Params {
		if v == ssa.Value(p) {
			return true
		}
	}
	return false
}

// usedIn: the value is an operand of an instruction of the loop.
func usedIn(v ssa.Value, l *loopInfo) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, in := range *rs {
		if l.blocks[in.Block()] {
			return true
		}
	}
	return false
}

// findSearch: for loops that only advance a counter, the condition under which an iteration continues.
func (r *loopRun) findSearch(pl *loopPlan, locs []*loc, ref *State, backs []*State) {
	var ctr *loc
	for _, l := range locs {
		if l.kind == "phi" && l.hav.S == IntS && l.hav.Op == OVar {
			ok := len(backs) > 0
			for _, s := range backs {
				b, isT := r.backVal(s, l.phi).(*Term)
				if !isT || s.norm(b) != s.norm(Add(l.hav, Int(1))) {
					ok = false
				}
			}
			if ok {
				ctr = l
			}
		}
	}
	if ctr == nil {
		return
	}
	p := ctr.hav
	var alts []*Term
	for _, s := range backs {
		isBad := func(x *Term) bool { return x.Op == OVar && !x.Bound && x != p && !r.entryVar(x) }
		var hasBad func(x *Term, seen map[int]bool) bool
		hasBad = func(x *Term, seen map[int]bool) bool {
			if seen[x.ID] {
				return false
			}
			seen[x.ID] = true
			if isBad(x) {
				return true
			}
			for _, a := range x.Args {
				if hasBad(a, seen) {
					return true
				}
			}
			return false
		}
		var nf []*Term
		for _, f := range s.facts {
			if !ref.known[f.ID] {
				nf = append(nf, f)
			}
		}
		var cj []*Term
		for _, f := range elimVars(nf, isBad) {
			if !hasBad(f, map[int]bool{}) {
				cj = append(cj, f)
			}
		}
		if os.Getenv("GOV_LOOP") == "2" {
			fmt.Fprintf(os.Stderr, "   search alternative: %v\n     from %v\n", elimVars(nf, isBad), nf)
		}
		if len(cj) == 0 {
			return
		}
		alts = append(alts, And(cj...))
	}
	pl.search = &searchInv{phi: ctr.phi, p: p, cond: Or(alts...)}
}

// elimVars rewrites facts so that they mention fewer variables made during an iteration.
func elimVars(fs []*Term, bad func(*Term) bool) []*Term {
	split := func(fs []*Term) []*Term {
		var out []*Term
		var w func(f *Term)
		w = func(f *Term) {
			if f.Op == OAnd {
				for _, a := range f.Args {
					w(a)
				}
				return
			}
			if f != tTrue {
				out = append(out, f)
			}
		}
		for _, f := range fs {
			w(f)
		}
		return out
	}
	// a field of an unknown value, or all of it
	selOf := func(x *Term) bool {
		for x.Op == OSel {
			x = x.Args[0]
		}
		return bad(x)
	}
	fs = split(fs)
	done := map[int]bool{}
	for n := 0; n < 60; n++ {
		again := false
		for i, f := range fs {
			if done[f.ID] {
				continue
			}
			m := map[int]*Term{}
			drop := false
			switch {
			case f.Op == OEq && selOf(f.Args[0]) && !contains(f.Args[1], f.Args[0]):
				m[f.Args[0].ID], drop = f.Args[1], true
			case f.Op == OEq && selOf(f.Args[1]) && !contains(f.Args[0], f.Args[1]):
				m[f.Args[1].ID], drop = f.Args[0], true
			case f.Op == ONot:
				m[f.Args[0].ID] = tFalse
			case f.Op == OOr || f.Op == OForall || f.Op == OVar:
				continue
			default:
				m[f.ID] = tTrue
			}
			done[f.ID] = true
			var out []*Term
			for j, g := range fs {
				if j == i {
					if !drop {
						out = append(out, g)
					}
					continue
				}
				out = append(out, Subst(g, m, map[int]*Term{}))
			}
			fs = split(out)
			again = true
			break
		}
		if !again {
			break
		}
	}
	return fs
}

// entryVar: the variable existed before the loop.
func (r *loopRun) entryVar(x *Term) bool { return x.ID <= r.mark }

// noNewAlias: a loop body must not link existing mutable objects into other existing structures.
func (r *loopRun) noNewAlias(before, after Val) {
	old := map[int]bool{}
	var w func(v Val, f func(id int))
	w = func(v Val, f func(id int)) {
		switch x := v.(type) {
		case PtrV:
			f(x.Obj)
		case StructV:
			for _, y := range x.F {
				w(y, f)
			}
		case IfaceV:
			w(x.V, f)
		case SliceV:
			f(x.Arr)
		case MapV:
			f(x.Obj)
		}
	}
	w(before, func(id int) { old[id] = true })
	w(after, func(id int) {
		if id == 0 || old[id] {
			return
		}
		o, ok := r.st.heap[id]
		if !ok || o.Root == "#global" {
			return
		}
		if o.Kind == "cell" && r.e.immutable(types.NewPointer(o.T)) || o.Kind == "arr" && isByteElem(o.T) {
			return
		}
		unsupported("loop links an existing object into a structure")
	})
}
