package main

// Engine: loading the repository, symbolic states, obligations.

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog     *ssa.Program
	pkgs     []*ssa.Package
	byName   map[string]*ssa.Package // short path ("session") -> package
	fset     *token.FileSet
	specs    *Specs
	funcs    map[string]*ssa.Function
	base     *State // state after package initialisation
	globals  map[*ssa.Global]int
	mutGlob  map[*ssa.Global]bool
	objN     int
	sentN    int64
	sentName map[int64]string
	inInit   bool

	// per function
	cur        *ssa.Function
	curName    string
	obls       []*Obl
	ended      []*State
	maxPath    int
	notes      map[string]bool
	assumed    map[string]bool
	inlined    map[string]bool
	calledC    map[string]bool
	muted      int // >0: obligations are discarded (trial runs)
	steps      int
	deadline   time.Time
	pool       chan struct{}
	wg         sync.WaitGroup
	omu        sync.Mutex
	failed     map[string]int
	queryCnt   int
	inlineSelf string
	mutT       map[string]bool
}

type Obl struct {
	Name   string
	Kind   string
	Tags   []string
	Pos    string
	Status string // proved, failed, trivially
	Solver string
	Time   time.Duration
	Goal   string
	Out    string
	Lossy  []string
	Path   string
	Script string
	Insts  int
}

// deferred is a postponed call with its evaluated operands.
type deferred struct {
	site *ssa.Defer
	fn   FuncV
	args []Val
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	bind   []Val
	call   ssa.CallInstruction     // call site in the caller, nil for the top frame
	loops  map[*ssa.BasicBlock]int // header -> visits (unrolling)
	defers []deferred
	goInl  bool
	inHdr  *ssa.BasicBlock // loop header whose first instructions are being executed
}

type sub struct {
	from int
	to   *Term
}

type State struct {
	e       *Engine
	heap    map[int]*Obj
	facts   []*Term
	known   map[int]bool
	subs    []sub
	frames  []*Frame
	rng     *Term
	rng0    *Term
	dead    bool
	canFork bool // the current instruction may be executed again in two cases
	ret     []Val
	end     string // "", ret, panic, stop, fatal
	lossy   []string
	trace   []string
	entry   []*Term // packed entry values of parameters
	params  []Val
	ghostL  map[string]*Term
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[int]*Obj, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = append([]*Term{}, st.facts...)
	n.known = make(map[int]bool, len(st.known)+8)
	for k := range st.known {
		n.known[k] = true
	}
	n.subs = append([]sub{}, st.subs...)
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs)+8)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		if f.loops != nil {
			g.loops = map[*ssa.BasicBlock]int{}
			for k, v := range f.loops {
				g.loops[k] = v
			}
		}
		g.defers = append([]deferred{}, f.defers...)
		n.frames[i] = &g
	}
	n.lossy = append([]string{}, st.lossy...)
	n.trace = append([]string{}, st.trace...)
	n.entry = append([]*Term{}, st.entry...)
	n.params = append([]Val{}, st.params...)
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) alloc(o *Obj) int {
	st.e.objN++
	st.heap[st.e.objN] = o
	return st.e.objN
}
func (st *State) obj(id int) *Obj {
	o, ok := st.heap[id]
	if !ok {
		unsupported("dangling object %d", id)
	}
	return o
}

// mut returns a private copy of an object for modification.
func (st *State) mut(id int) *Obj {
	o := *st.obj(id)
	o.Vals = append([]Val{}, o.Vals...)
	if len(o.Vals) == 0 {
		o.Vals = nil
		if st.heap[id].Vals != nil {
			o.Vals = []Val{}
		}
	}
	o.Focus = append([]focus{}, o.Focus...)
	if o.GT != nil {
		g := map[string]*Term{}
		for k, v := range o.GT {
			g[k] = v
		}
		o.GT = g
	}
	if o.GV != nil {
		g := map[string]Val{}
		for k, v := range o.GV {
			g[k] = v
		}
		o.GV = g
	}
	st.heap[id] = &o
	return &o
}

// ---- rewriting

func mapVal(v Val, f func(*Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		if x == nil {
			return v
		}
		return f(x)
	case PtrV:
		if x.Nil != nil {
			x.Nil = f(x.Nil)
		}
		if len(x.Path) > 0 {
			p := append([]PathEl{}, x.Path...)
			for i := range p {
				if p[i].Idx != nil {
					p[i].Idx = f(p[i].Idx)
				}
			}
			x.Path = p
		}
		return x
	case SliceV:
		x.Off, x.Len, x.Cap = f(x.Off), f(x.Len), f(x.Cap)
		if x.NilC != nil {
			x.NilC = f(x.NilC)
		}
		return x
	case StructV:
		fs := make([]Val, len(x.F))
		for i, y := range x.F {
			fs[i] = mapVal(y, f)
		}
		x.F = fs
		return x
	case LazyV:
		x.Term = f(x.Term)
		return x
	case IfaceV:
		if x.V != nil {
			x.V = mapVal(x.V, f)
		}
		if x.Nil != nil {
			x.Nil = f(x.Nil)
		}
		if x.Lazy != nil {
			x.Lazy = f(x.Lazy)
		}
		if x.Op != nil {
			x.Op = f(x.Op)
		}
		return x
	case FuncV:
		if len(x.Bind) > 0 {
			b := make([]Val, len(x.Bind))
			for i, y := range x.Bind {
				b[i] = mapVal(y, f)
			}
			x.Bind = b
		}
		return x
	case MapV:
		if x.Nil != nil {
			x.Nil = f(x.Nil)
		}
		return x
	case TupleV:
		o := make(TupleV, len(x))
		for i, y := range x {
			o[i] = mapVal(y, f)
		}
		return o
	}
	return v
}

func (st *State) rewrite(f func(*Term) *Term) {
	for _, fr := range st.frames {
		for k, v := range fr.regs {
			fr.regs[k] = mapVal(v, f)
		}
		if len(fr.bind) > 0 {
			b := make([]Val, len(fr.bind))
			for i, y := range fr.bind {
				b[i] = mapVal(y, f)
			}
			fr.bind = b
		}
	}
	for id, o := range st.heap {
		if o.Root == "#global" {
			continue
		}
		n := *o
		ch := false
		g := func(t *Term) *Term {
			r := f(t)
			if r != t {
				ch = true
			}
			return r
		}
		if o.V != nil {
			n.V = mapVal(o.V, g)
		}
		if o.List != nil {
			n.List = g(o.List)
		}
		if o.Src != nil {
			n.Src = g(o.Src)
		}
		if o.Vals != nil {
			n.Vals = make([]Val, len(o.Vals))
			for i, y := range o.Vals {
				n.Vals[i] = mapVal(y, g)
			}
		}
		if o.Focus != nil {
			n.Focus = append([]focus{}, o.Focus...)
			for i := range n.Focus {
				n.Focus[i].Idx = g(n.Focus[i].Idx)
				if n.Focus[i].Src != nil {
					n.Focus[i].Src = g(n.Focus[i].Src)
				}
			}
		}
		if o.GT != nil {
			n.GT = map[string]*Term{}
			for k, v := range o.GT {
				n.GT[k] = g(v)
			}
		}
		if o.GV != nil {
			n.GV = map[string]Val{}
			for k, v := range o.GV {
				n.GV[k] = mapVal(v, g)
			}
		}
		if ch {
			st.heap[id] = &n
		}
	}
	for i, p := range st.params {
		st.params[i] = mapVal(p, f)
	}
	for i, p := range st.ret {
		st.ret[i] = mapVal(p, f)
	}
	for i, t := range st.entry {
		st.entry[i] = f(t)
	}
	if st.rng != nil {
		st.rng = f(st.rng)
	}
	if st.rng0 != nil {
		st.rng0 = f(st.rng0)
	}
}

// norm applies the accumulated rewriting to a term.
func (st *State) norm(t *Term) *Term {
	if len(st.subs) == 0 {
		return t
	}
	for k := 0; k < 3; k++ {
		t0 := t
		for _, s := range st.subs {
			t = Subst(t, map[int]*Term{s.from: s.to}, map[int]*Term{})
		}
		if t == t0 {
			break
		}
	}
	return t
}

func isConstT(t *Term) bool {
	switch t.Op {
	case OInt, OTrue, OFalse, OLit, OEmpty:
		return true
	case OCons:
		for _, a := range t.Args {
			if !isConstT(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (st *State) assume(t *Term) {
	work := []*Term{st.norm(t)}
	n0 := len(st.subs)
	for len(work) > 0 && !st.dead {
		t := work[0]
		work = work[1:]
		if len(st.subs) > n0 {
			t = st.norm(t)
		}
		switch t.Op {
		case OTrue:
			continue
		case OFalse:
			st.dead = true
			return
		case OAnd:
			work = append(append([]*Term{}, t.Args...), work...)
			continue
		}
		if st.known[t.ID] {
			continue
		}
		if st.known[Not(t).ID] {
			st.dead = true
			return
		}
		st.known[t.ID] = true
		st.facts = append(st.facts, t)
		var m map[int]*Term
		add := func(a, b *Term) {
			m = map[int]*Term{a.ID: b}
		}
		switch t.Op {
		case OEq:
			a, b := t.Args[0], t.Args[1]
			isV := func(x *Term) bool { return x.Op == OVar && !x.Bound }
			red := func(x *Term) bool {
				return (x.Op == OApp && len(x.Args) > 0 || x.Op == OSel || x.Op == OAt || x.Op == OMSel || x.Op == OLen) && !x.Bound
			}
			switch {
			case isV(a) && !contains(b, a) && !(isV(b) && b.ID > a.ID && false):
				add(a, b)
			case isV(b) && !contains(a, b):
				add(b, a)
			case red(a) && isConstT(b):
				add(a, b)
			case red(b) && isConstT(a):
				add(b, a)
			case a.Op == OSel && red(a) && !contains(b, a) && b.Op == OCons:
				add(a, b)
			case b.Op == OSel && red(b) && !contains(a, b) && a.Op == OCons:
				add(b, a)
			case a.Op == OAdd && b.Op == OInt || b.Op == OAdd && a.Op == OInt:
				// solve for a variable with unit coefficient
				s, c := a, b
				if s.Op == OInt {
					s, c = c, s
				}
				for _, x := range s.Args {
					if isV(x) {
						rest := Sub(c, Sub(s, x))
						if !contains(rest, x) {
							add(x, rest)
							break
						}
					}
				}
				if m == nil {
					add(t, tTrue)
				}
			default:
				add(t, tTrue)
			}
		case ONot:
			x := t.Args[0]
			if x.Op == OIs && len(x.C.S.Ctors) == 2 && x.Args[0].Op == OVar && !x.Bound {
				v := x.Args[0]
				o := x.C.S.Ctors[1-x.C.Idx]
				var as []*Term
				for _, f := range o.Fields {
					n := Fresh(v.Name+"."+f.Name, f.S)
					n.Lo, n.Hi = f.Lo, f.Hi
					as = append(as, n)
				}
				add(v, Cons(o, as...))
			} else if x.Op != OForall {
				add(x, tFalse)
			}
		case OIs:
			x := t.Args[0]
			if len(t.C.Fields) == 0 && !x.Bound {
				add(x, Cons(t.C))
			} else if x.Op == OVar {
				var as []*Term
				for _, f := range t.C.Fields {
					n := Fresh(x.Name+"."+f.Name, f.S)
					n.Lo, n.Hi = f.Lo, f.Hi
					as = append(as, n)
				}
				add(x, Cons(t.C, as...))
			} else {
				add(t, tTrue)
			}
		case OForall:
		case OOr:
			add(t, tTrue)
		default:
			add(t, tTrue)
		}
		if m == nil {
			continue
		}
		memo := map[int]*Term{}
		f := func(x *Term) *Term { return Subst(x, m, memo) }
		if t.Op == OLe {
			// the negation is a different atom
			m[Not(t).ID] = tFalse
		}
		for k, v := range m {
			st.subs = append(st.subs, sub{k, v})
		}
		var nf []*Term
		for _, x := range st.facts {
			if x == t {
				nf = append(nf, x)
				continue
			}
			y := f(x)
			if y == x {
				nf = append(nf, x)
			} else {
				delete(st.known, x.ID)
				if isDef(x) {
					// keep definitional equalities for the solver
					nf = append(nf, x)
				}
				work = append(work, y)
			}
		}
		st.facts = nf
		st.rewrite(f)
	}
}

func isDef(t *Term) bool { return false }

func (st *State) implied(c *Term) bool {
	c = st.norm(c)
	if c.Op == OTrue {
		return true
	}
	if c.Op == OFalse {
		return false
	}
	if st.known[c.ID] {
		return true
	}
	return st.e.quick(st, c)
}

// quick asks the solver whether c follows from the facts (short budget, cached).
var quickCache = map[string]bool{}
var quickMS = 400

func (e *Engine) quick(st *State, c *Term) bool {
	if c.Op == OAnd {
		for _, a := range c.Args {
			if !st.implied(a) {
				return false
			}
		}
		return true
	}
	if e.quickOff() {
		return false
	}
	s := script(relevant(st.facts, c), c)
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(s)))
	if r, ok := quickCache[h]; ok {
		return r
	}
	e.queryCnt++
	r := z3(s, quickMS)
	if dumpDir != "" {
		e.dump("quick_"+r.Status, s)
	}
	quickCache[h] = r.Status == "unsat"
	return quickCache[h]
}
func (e *Engine) quickOff() bool { return false }

var dumpDir = os.Getenv("GOV_DUMP")
var dumpN = 0

func (e *Engine) dump(tag, s string) {
	e.omu.Lock()
	dumpN++
	n := dumpN
	e.omu.Unlock()
	_ = os.WriteFile(fmt.Sprintf("%s/%04d_%s.smt2", dumpDir, n, tag), []byte(s), 0o644)
}

// relevant keeps facts sharing symbols (transitively) with the goal.
func relevant(facts []*Term, goal *Term) []*Term {
	syms := func(t *Term) map[string]bool {
		out := map[string]bool{}
		seen := map[int]bool{}
		var w func(x *Term)
		w = func(x *Term) {
			if seen[x.ID] {
				return
			}
			seen[x.ID] = true
			if x.Op == OVar && !x.Bound {
				out[x.Name] = true
			}
			for _, a := range x.Args {
				w(a)
			}
		}
		w(t)
		return out
	}
	have := syms(goal)
	fs := make([]map[string]bool, len(facts))
	for i, f := range facts {
		fs[i] = syms(f)
	}
	in := make([]bool, len(facts))
	for ch := true; ch; {
		ch = false
		for i := range facts {
			if in[i] {
				continue
			}
			hit := len(fs[i]) == 0
			for s := range fs[i] {
				if have[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for s := range fs[i] {
					have[s] = true
				}
			}
		}
	}
	var out []*Term
	for i := range facts {
		if in[i] {
			out = append(out, facts[i])
		}
	}
	return out
}

// ---- obligations

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/protocol/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

var proveMS = []int{4000, 8000, 12000}

// prove records an obligation; the goal is assumed afterwards by the caller if wanted.
func (e *Engine) prove(st *State, name, kind string, tags []string, pos string, goal *Term) {
	if e.muted > 0 || st.dead {
		return
	}
	goal = st.norm(goal)
	o := &Obl{Name: name, Kind: kind, Tags: tags, Pos: pos, Goal: pretty(goal, 9), Lossy: append([]string{}, st.lossy...), Path: strings.Join(st.trace, " ")}
	e.obls = append(e.obls, o)
	goals := splitGoal(st, goal)
	if len(goals) == 0 {
		o.Status = "proved"
		o.Solver = "simplifier"
		return
	}
	var scripts []string
	// a conjunct may rely on the conjuncts before it
	for i, g := range goals {
		fs := st.facts
		if i > 0 {
			fs = append(append([]*Term{}, fs...), goals[:i]...)
		}
		scripts = append(scripts, script(relevant(fs, g), g))
	}
	e.omu.Lock()
	skip := e.failed[name] >= 2
	e.omu.Unlock()
	if skip {
		o.Status = "skipped"
		return
	}
	e.wg.Add(1)
	go func() {
		e.pool <- struct{}{}
		defer func() { <-e.pool; e.wg.Done() }()
		e.omu.Lock()
		sk := e.failed[name] >= 2
		e.omu.Unlock()
		if sk {
			o.Status = "skipped"
			return
		}
		ok := true
		for _, s := range scripts {
			r := solveAll(s)
			o.Time += r.Time
			o.Solver = r.Solver
			if dumpDir != "" {
				e.dump(mangle(name)+"_"+r.Status, s)
			}
			if r.Status != "unsat" {
				ok = false
				o.Out = r.Status
				o.Script = s
				break
			}
		}
		if ok {
			o.Status = "proved"
		} else {
			o.Status = "failed"
			e.omu.Lock()
			e.failed[name]++
			e.omu.Unlock()
		}
	}()
}

var solveCache sync.Map
var retries atomic.Int32

func solveAll(s string) SolveResult {
	h := sha256.Sum256([]byte(s))
	if r, ok := solveCache.Load(h); ok {
		return r.(SolveResult)
	}
	r := z3(s, proveMS[0])
	if r.Status != "unsat" {
		t := r.Time
		r2 := cvc5(s, proveMS[1])
		if r2.Status == "unsat" {
			r = r2
		} else {
			r3 := z3old(s, proveMS[2])
			if r3.Status == "unsat" {
				r = r3
			} else if r2.Status == "sat" || r3.Status == "sat" {
				r.Status = "sat"
			}
			r.Time += r3.Time
			// a machine under load: a few queries which ran out of time get a second, longer chance
			if r.Status != "unsat" && r.Status != "sat" && (r2.Status == "timeout" || r3.Status == "timeout" && r2.Status != "unknown") && retries.Add(1) <= 3 {
				if r4 := cvc5(s, 5*proveMS[1]); r4.Status == "unsat" {
					r4.Time += r.Time
					r = r4
				}
			}
		}
		r.Time += t + r2.Time
	}
	solveCache.Store(h, r)
	return r
}

// splitGoal flattens conjunctions and drops known conjuncts.
func splitGoal(st *State, g *Term) []*Term {
	if g.Op == OTrue || st.known[g.ID] {
		return nil
	}
	if g.Op == OAnd {
		var o []*Term
		for _, a := range g.Args {
			o = append(o, splitGoal(st, a)...)
		}
		return o
	}
	return []*Term{g}
}

// require: obligation followed by assumption.
func (e *Engine) require(st *State, name, kind string, tags []string, pos token.Pos, goal *Term) {
	goal = st.norm(goal)
	if goal.Op == OTrue {
		e.prove(st, name, kind, tags, e.posStr(pos), goal)
		return
	}
	e.prove(st, name, kind, tags, e.posStr(pos), goal)
	st.assume(goal)
}

// safe: a run-time panic condition must not arise.
func (e *Engine) safe(st *State, what string, pos token.Pos, goal *Term) {
	e.require(st, e.curName+"#nopanic:"+what+"@"+e.siteName(st), "nopanic", []string{"C09"}, pos, goal)
}
func (e *Engine) siteName(st *State) string {
	return fnName(st.top().fn)
}

// ---- names

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, repoPrefix, "")
	return s
}

// ---- loading

func loadEngine(dir string) (*Engine, error) {
	cfg := &packages.Config{
		Dir:  dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	ps, err := packages.Load(cfg, "./...", "slices", "cmp")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("load: %v", er)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, fset: prog.Fset, byName: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, globals: map[*ssa.Global]int{}, mutGlob: map[*ssa.Global]bool{}, sentName: map[int64]string{}}
	for _, p := range spkgs {
		if p == nil || !isInRepo(p.Pkg) {
			continue
		}
		e.pkgs = append(e.pkgs, p)
		e.byName[strings.TrimPrefix(p.Pkg.Path(), repoPrefix)] = p
	}
	sort.Slice(e.pkgs, func(i, j int) bool { return e.pkgs[i].Pkg.Path() < e.pkgs[j].Pkg.Path() })
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && isInRepo(f.Pkg.Pkg) && f.Synthetic == "" {
			e.funcs[fnName(f)] = f
		}
	}
	e.resetFn()
	e.pool = make(chan struct{}, 3)
	e.findMutGlobals()
	return e, nil
}

func (e *Engine) resetFn() {
	e.obls = nil
	e.notes = map[string]bool{}
	e.assumed = map[string]bool{}
	e.inlined = map[string]bool{}
	e.calledC = map[string]bool{}
	e.failed = map[string]int{}
	e.muted = 0
	e.steps = 0
	e.ended = nil
	e.queryCnt = 0
}

// contentChanged: the map, slice or object which the value refers to is written through it in this function.
// (Writes through parameters are caught where the parameter is written.)
func contentChanged(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
			// the reference is kept elsewhere
			if x.Val == v && isRef(v.Type()) && !localAddr(x.Addr) {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
			if w := in.(ssa.Value); isRef(w.Type()) && contentChanged(w, seen) {
				return true
			}
		case *ssa.Lookup, *ssa.Extract, *ssa.Field, *ssa.TypeAssert, *ssa.MakeInterface:
			if w := in.(ssa.Value); contentChanged(w, seen) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isRef(x.Type()) && contentChanged(x, seen) {
				return true
			}
		case ssa.CallInstruction:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok && len(c.Args) > 0 && c.Args[0] == v {
				switch b.Name() {
				case "delete", "clear", "copy", "append":
					return true
				}
			}
		}
	}
	return false
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

func (e *Engine) findMutGlobals() {
	names := make([]string, 0, len(e.funcs))
	for n := range e.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := e.funcs[n]
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if contentChanged(u, map[ssa.Value]bool{}) {
							e.mutGlob[g] = true
						}
						continue
					}
					e.mutGlob[g] = true
				}
			}
		}
	}
}

// runInit evaluates the repository's package initialisers.
func (e *Engine) runInit() error {
	st := &State{e: e, heap: map[int]*Obj{}, known: map[int]bool{}, rng: Int(0)}
	e.base = st
	e.objN = 0
	e.sentN = 0
	e.globals = map[*ssa.Global]int{}
	e.inInit = true
	e.muted++
	defer func() { e.inInit = false; e.muted-- }()
	done := map[*ssa.Package]bool{}
	var initP func(p *ssa.Package) error
	initP = func(p *ssa.Package) (err error) {
		if done[p] {
			return nil
		}
		done[p] = true
		for _, ip := range p.Pkg.Imports() {
			if isInRepo(ip) {
				if q := e.prog.Package(ip); q != nil {
					if err := initP(q); err != nil {
						return err
					}
				}
			}
		}
		if strings.Contains(p.Pkg.Path(), "/generated/") {
			return nil
		}
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				e.globals[g] = st.alloc(&Obj{Kind: "cell", T: derefT(g.Type()), V: e.zeroG(st, derefT(g.Type()))})
			}
		}
		f := p.Func("init")
		if f == nil {
			return nil
		}
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					// globals of this package become unknown
					err = nil
					e.notes["init of "+p.Pkg.Path()+": "+u.msg] = true
					return
				}
				panic(r)
			}
		}()
		s2 := st
		s2.frames = []*Frame{{fn: f, regs: map[ssa.Value]Val{}, block: f.Blocks[0]}}
		s2.end = ""
		outs := e.run([]*State{s2}, nil)
		if len(outs) != 1 {
			return fmt.Errorf("init of %s: %d paths", p.Pkg.Path(), len(outs))
		}
		*st = *outs[0]
		st.end = ""
		st.frames = nil
		return nil
	}
	for _, p := range e.pkgs {
		if err := initP(p); err != nil {
			return err
		}
	}
	for _, o := range st.heap {
		o.Root = "#global"
		if o.Kind == "arr" {
			o.Foreign = true
		}
	}
	return nil
}

func (e *Engine) zeroG(st *State, t types.Type) (v Val) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsup); ok {
				v = nil
				return
			}
			panic(r)
		}
	}()
	return e.zero(st, t)
}
