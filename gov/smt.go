package main

// SMT-LIB printing and solver invocation.

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type printer struct {
	b      *strings.Builder
	sorts  map[string]bool
	order  []*Sort
	decl   map[string]bool
	names  map[int]string
	seen   map[int]bool
	terms  []*Term // ground subterms in dependency order
	axUsed map[string]bool
	facts  []string
	bseen  map[int]bool
	nested []*Term
}

func smtName(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + s + "|"
}

func sortName(s *Sort) string {
	switch s.K {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SMap:
		return "(Array " + sortName(s.Key) + " " + sortName(s.Elem) + ")"
	}
	return smtName(s.Name)
}

func (p *printer) needSort(s *Sort) {
	if p.sorts[s.Name] {
		return
	}
	p.sorts[s.Name] = true
	switch s.K {
	case SList:
		p.needSort(s.Elem)
	case SMap:
		p.needSort(s.Key)
		p.needSort(s.Elem)
	case SData:
		for _, c := range s.Ctors {
			for _, f := range c.Fields {
				p.needSort(f.S)
			}
		}
	}
	p.order = append(p.order, s)
}

func (p *printer) visit(t *Term) {
	if p.seen[t.ID] {
		return
	}
	p.seen[t.ID] = true
	for _, a := range t.Args {
		p.visit(a)
	}
	for _, v := range t.Vars {
		p.needSort(v.S)
	}
	for _, tr := range t.Trig {
		for _, a := range tr {
			p.visit(a)
		}
	}
	p.needSort(t.S)
	p.terms = append(p.terms, t)
}

func selName(c *Ctor, f int) string { return smtName(c.Name + "." + c.Fields[f].Name) }

func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t.ID]; ok {
		return n
	}
	return p.expr(t)
}

func (p *printer) expr(t *Term) string {
	r := func(i int) string { return p.ref(t.Args[i]) }
	all := func() string {
		var o []string
		for i := range t.Args {
			o = append(o, r(i))
		}
		return strings.Join(o, " ")
	}
	switch t.Op {
	case OInt:
		if t.I.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.I.String(), "-") + ")"
		}
		return t.I.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return smtName(t.Name)
	case OApp:
		if len(t.Args) == 0 {
			return smtName(t.Name)
		}
		return "(" + smtName(t.Name) + " " + all() + ")"
	case OAdd:
		return "(+ " + all() + ")"
	case OMulC:
		return "(* " + p.expr(IntB(t.I)) + " " + r(0) + ")"
	case OMul:
		return "(* " + all() + ")"
	case ODiv:
		return "(div " + all() + ")"
	case OMod:
		return "(mod " + all() + ")"
	case OEq:
		return "(= " + all() + ")"
	case OLe:
		return "(<= " + all() + ")"
	case ONot:
		return "(not " + all() + ")"
	case OAnd:
		return "(and " + all() + ")"
	case OOr:
		return "(or " + all() + ")"
	case OIte:
		return "(ite " + all() + ")"
	case OForall:
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, "("+smtName(v.Name)+" "+sortName(v.S)+")")
		}
		body := r(0)
		trig := t.Trig
		if len(trig) == 0 {
			trig = autoTrig(t)
		}
		if len(trig) > 0 {
			var ps string
			for _, tr := range trig {
				var xs []string
				for _, x := range tr {
					xs = append(xs, p.ref(x))
				}
				ps += " :pattern (" + strings.Join(xs, " ") + ")"
			}
			body = "(! " + body + ps + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	case OLen:
		return "(len_" + t.Args[0].S.Name + " " + r(0) + ")"
	case OAt:
		return "(at_" + t.Args[0].S.Name + " " + all() + ")"
	case OCat:
		s := r(len(t.Args) - 1)
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(cat_" + t.S.Name + " " + r(i) + " " + s + ")"
		}
		return s
	case OExt:
		return "(ext_" + t.S.Name + " " + all() + ")"
	case OUnit:
		return "(unit_" + t.S.Name + " " + all() + ")"
	case OUpd:
		return "(upd_" + t.S.Name + " " + all() + ")"
	case ORep:
		return "(rep_" + t.S.Name + " " + all() + ")"
	case OLit:
		return litName(t)
	case OEmpty:
		return "empty_" + t.S.Name
	case OCons:
		if len(t.Args) == 0 {
			return smtName(t.C.Name)
		}
		return "(" + smtName(t.C.Name) + " " + all() + ")"
	case OSel:
		return "(" + selName(t.C, t.F) + " " + r(0) + ")"
	case OIs:
		return "((_ is " + smtName(t.C.Name) + ") " + r(0) + ")"
	case OMSel:
		return "(select " + all() + ")"
	case OMStore:
		return "(store " + all() + ")"
	case OMConst:
		return "((as const " + sortName(t.S) + ") " + r(0) + ")"
	}
	panic("expr")
}

// autoTrig picks at()/app terms covering all bound variables.
func autoTrig(t *Term) [][]*Term {
	var cands []*Term
	seen := map[int]bool{}
	vset := map[int]bool{}
	for _, v := range t.Vars {
		vset[v.ID] = true
	}
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.Bound || seen[x.ID] {
			return
		}
		seen[x.ID] = true
		if x.Op == OForall {
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
		switch x.Op {
		case OAt, OApp, OMSel, OLen:
			// arguments must not be interpreted arithmetic over bound vars other than plain variable
			ok := true
			for _, a := range x.Args {
				if a.Bound && (a.Op == OAdd || a.Op == OMulC || a.Op == OMul || a.Op == OIte) {
					ok = false
				}
				if !patternable(a) {
					ok = false
				}
			}
			if ok {
				cands = append(cands, x)
			}
		}
	}
	walk(t.Args[0])
	var out [][]*Term
	for _, c := range cands {
		fv := map[int]bool{}
		freeBound(c, fv, map[int]bool{})
		n := 0
		for _, v := range t.Vars {
			if fv[v.ID] {
				n++
			}
		}
		if n == len(t.Vars) {
			out = append(out, []*Term{c})
		}
	}
	// keep minimal ones only (drop candidates containing another candidate)
	var keep [][]*Term
	for i, a := range out {
		dom := false
		for j, b := range out {
			if i != j && a[0] != b[0] && contains(a[0], b[0]) {
				dom = true
			}
		}
		if !dom {
			keep = append(keep, a)
		}
	}
	if len(keep) > 0 {
		if len(keep) > 4 {
			keep = keep[:4]
		}
		return keep
	}
	// multi-pattern
	if len(cands) >= 2 {
		var multi []*Term
		cov := map[int]bool{}
		for _, c := range cands {
			fv := map[int]bool{}
			freeBound(c, fv, map[int]bool{})
			add := false
			for k := range fv {
				if vset[k] && !cov[k] {
					add = true
				}
			}
			if add {
				for k := range fv {
					cov[k] = true
				}
				multi = append(multi, c)
			}
		}
		full := true
		for k := range vset {
			if !cov[k] {
				full = false
			}
		}
		if full {
			return [][]*Term{multi}
		}
	}
	return nil
}

// patternable: no interpreted connective inside.
func patternable(t *Term) bool {
	if t.S == BoolS && t.Op != OApp && t.Op != OVar && t.Op != OSel {
		return false
	}
	if t.Op == OIte || t.Op == OForall {
		return false
	}
	for _, a := range t.Args {
		if !patternable(a) {
			return false
		}
	}
	return true
}

func contains(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if contains(a, s) {
			return true
		}
	}
	return false
}

func litName(t *Term) string { return fmt.Sprintf("lit!%d", t.ID) }

// listAxioms for a list sort.
func listAxioms(s *Sort, ops map[string]bool) string {
	n := s.Name
	e := sortName(s.Elem)
	L := smtName(n)
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	w("(declare-fun len_%s (%s) Int)", n, L)
	w("(declare-fun at_%s (%s Int) %s)", n, L, e)
	w("(declare-const empty_%s %s)", n, L)
	w("(assert (= (len_%s empty_%s) 0))", n, n)
	w("(assert (forall ((l %s)) (! (and (>= (len_%s l) 0) (=> (= (len_%s l) 0) (= l empty_%s))) :pattern ((len_%s l)))))", L, n, n, n, n)
	if s == BytesS {
		w("(assert (forall ((l %s) (i Int)) (! (and (<= 0 (at_%s l i)) (<= (at_%s l i) 255)) :pattern ((at_%s l i)))))", L, n, n, n)
	}
	if ops["unit"] {
		w("(declare-fun unit_%s (%s) %s)", n, e, L)
		w("(assert (forall ((x %s)) (! (and (= (len_%s (unit_%s x)) 1) (= (at_%s (unit_%s x) 0) x)) :pattern ((unit_%s x)))))", e, n, n, n, n, n)
	}
	if ops["cat"] {
		w("(declare-fun cat_%s (%s %s) %s)", n, L, L, L)
		w("(assert (forall ((a %s) (b %s)) (! (= (len_%s (cat_%s a b)) (+ (len_%s a) (len_%s b))) :pattern ((cat_%s a b)))))", L, L, n, n, n, n, n)
		w("(assert (forall ((a %s) (b %s) (i Int)) (! (and (=> (and (<= 0 i) (< i (len_%s a))) (= (at_%s (cat_%s a b) i) (at_%s a i))) (=> (and (<= (len_%s a) i) (< i (+ (len_%s a) (len_%s b)))) (= (at_%s (cat_%s a b) i) (at_%s b (- i (len_%s a)))))) :pattern ((at_%s (cat_%s a b) i)))))", L, L, n, n, n, n, n, n, n, n, n, n, n, n, n)
	}
	if ops["ext"] {
		w("(declare-fun ext_%s (%s Int Int) %s)", n, L, L)
		w("(assert (forall ((l %s) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len_%s l))) (= (len_%s (ext_%s l a b)) (- b a))) :pattern ((ext_%s l a b)))))", L, n, n, n, n)
		w("(assert (forall ((l %s) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len_%s l)) (<= 0 i) (< i (- b a))) (= (at_%s (ext_%s l a b) i) (at_%s l (+ a i)))) :pattern ((at_%s (ext_%s l a b) i)))))", L, n, n, n, n, n, n)
		w("(assert (forall ((l %s) (b Int)) (! (=> (= b (len_%s l)) (= (ext_%s l 0 b) l)) :pattern ((ext_%s l 0 b)))))", L, n, n, n)
		w("(assert (forall ((l %s) (a Int) (b Int)) (! (=> (= a b) (= (ext_%s l a b) empty_%s)) :pattern ((ext_%s l a b)))))", L, n, n, n)
	}
	if ops["upd"] {
		w("(declare-fun upd_%s (%s Int %s) %s)", n, L, e, L)
		w("(assert (forall ((l %s) (i Int) (x %s)) (! (= (len_%s (upd_%s l i x)) (len_%s l)) :pattern ((upd_%s l i x)))))", L, e, n, n, n, n)
		w("(assert (forall ((l %s) (i Int) (x %s) (j Int)) (! (=> (and (<= 0 i) (< i (len_%s l))) (= (at_%s (upd_%s l i x) j) (ite (= i j) x (at_%s l j)))) :pattern ((at_%s (upd_%s l i x) j)) :pattern ((upd_%s l i x) (at_%s l j)))))", L, e, n, n, n, n, n, n, n, n)
	}
	if ops["rep"] {
		w("(declare-fun rep_%s (%s Int) %s)", n, e, L)
		w("(assert (forall ((x %s) (k Int)) (! (=> (>= k 0) (= (len_%s (rep_%s x k)) k)) :pattern ((rep_%s x k)))))", e, n, n, n)
		w("(assert (forall ((x %s) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k)) (= (at_%s (rep_%s x k) i) x)) :pattern ((at_%s (rep_%s x k) i)))))", e, n, n, n, n)
	}
	return b.String()
}

// Axiom: a closed formula to be included when all trigger functions occur.
type Axiom struct {
	Name  string
	Needs []string
	F     *Term
	Late  bool // for lemmas only
}

var axioms []*Axiom

// script builds an SMT query: hyps and the negation of goal.
func script(hyps []*Term, goal *Term) string {
	p := &printer{sorts: map[string]bool{}, decl: map[string]bool{}, names: map[int]string{}, seen: map[int]bool{}}
	all := append([]*Term{}, hyps...)
	neg := Not(goal)
	all = append(all, neg)
	// extensionality instances for list disequalities to be proved
	ext := extInstances(goal)
	all = append(all, ext...)
	// recursive definitions and function facts: to fixpoint with depth
	collectSeen := map[int]bool{}
	apps := map[string]bool{}
	var newFacts []*Term
	depth := map[int]int{}
	var coll func(t *Term, d int)
	coll = func(t *Term, d int) {
		if collectSeen[t.ID] {
			return
		}
		collectSeen[t.ID] = true
		depth[t.ID] = d
		for _, a := range t.Args {
			coll(a, d)
		}
		for _, tr := range t.Trig {
			for _, a := range tr {
				coll(a, d)
			}
		}
		if t.Op == OApp {
			apps[t.Name] = true
			if d <= 2 {
				if rd, ok := recDefs[t.Name]; ok && !t.Bound {
					n := t.Args[rd.NPar]
					if !n.isInt() {
						f1 := Imp(Eq(n, Int(0)), Eq(t, rd.Base(t.Args)))
						f2 := Imp(Lt(Int(0), n), Eq(t, rd.Step(t.Args, Sub(n, Int(1)))))
						newFacts = append(newFacts, f1, f2)
						coll(f1, d+1)
						coll(f2, d+1)
					}
				}
			}
		}
		if !t.Bound {
			// ranges and known lengths
			switch t.Op {
			case OSel, OVar, OApp:
				if t.S == IntS {
					lo, hi := bounds(t)
					if lo != nil {
						newFacts = append(newFacts, mk(&Term{Op: OLe, S: BoolS, Args: []*Term{IntB(lo), t}}))
					}
					if hi != nil {
						newFacts = append(newFacts, mk(&Term{Op: OLe, S: BoolS, Args: []*Term{t, IntB(hi)}}))
					}
				}
			}
			if t.S.K == SList {
				if t.Op == OApp {
					if _, ok := fnLen[t.Name]; ok {
						l := mk(&Term{Op: OLen, S: IntS, Args: []*Term{t}})
						f := mk(&Term{Op: OEq, S: BoolS, Args: []*Term{l, Len(t)}})
						newFacts = append(newFacts, f)
						coll(f, d)
					}
				}
			}
		}
	}
	for _, t := range all {
		coll(t, 0)
	}
	// axioms by need
	used := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, ax := range axioms {
			if used[ax.Name] {
				continue
			}
			ok := true
			for _, n := range ax.Needs {
				if !apps[n] {
					ok = false
				}
			}
			if ok {
				used[ax.Name] = true
				ch = true
				newFacts = append(newFacts, ax.F)
				coll(ax.F, 3)
			}
		}
	}
	for _, f := range newFacts {
		p.visit(f)
	}
	for _, t := range all {
		p.visit(t)
	}
	var b strings.Builder
	p.b = &b
	b.WriteString("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n")
	// sorts
	var datas []*Sort
	for _, s := range p.order {
		switch s.K {
		case SList, SU:
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", smtName(s.Name))
		case SData:
			datas = append(datas, s)
		}
	}
	if len(datas) > 0 {
		emit := func(ds []*Sort) {
			b.WriteString("(declare-datatypes (")
			for _, s := range ds {
				fmt.Fprintf(&b, "(%s 0)", smtName(s.Name))
			}
			b.WriteString(") (\n")
			for _, s := range ds {
				b.WriteString(" (")
				for _, c := range s.Ctors {
					b.WriteString("(" + smtName(c.Name))
					for i, f := range c.Fields {
						fmt.Fprintf(&b, " (%s %s)", selName(c, i), sortName(f.S))
					}
					b.WriteString(")")
				}
				b.WriteString(")\n")
			}
			b.WriteString("))\n")
		}
		// one at a time when their order allows it (arrays of datatypes may not be part of a group)
		done := map[*Sort]bool{}
		var ready func(s *Sort) bool
		ready = func(s *Sort) bool {
			switch s.K {
			case SData:
				return done[s]
			case SMap:
				return ready(s.Key) && ready(s.Elem)
			}
			return true
		}
		single := true
		for _, s := range datas {
			for _, c := range s.Ctors {
				for _, f := range c.Fields {
					if !ready(f.S) {
						single = false
					}
				}
			}
			done[s] = true
		}
		if single {
			for _, s := range datas {
				emit([]*Sort{s})
			}
		} else {
			emit(datas)
		}
	}
	ops := map[string]map[string]bool{}
	op := func(s *Sort, o string) {
		if ops[s.Name] == nil {
			ops[s.Name] = map[string]bool{}
		}
		ops[s.Name][o] = true
	}
	for _, t := range p.terms {
		switch t.Op {
		case OUnit:
			op(t.S, "unit")
		case OCat:
			op(t.S, "cat")
		case OExt:
			op(t.S, "ext")
		case OUpd:
			op(t.S, "upd")
		case ORep:
			op(t.S, "rep")
		}
	}
	for _, s := range p.order {
		if s.K == SList {
			o := ops[s.Name]
			if o == nil {
				o = map[string]bool{}
			}
			b.WriteString(listAxioms(s, o))
		}
	}
	// declarations
	for _, t := range p.terms {
		switch t.Op {
		case OVar:
			if !t.Bound && !p.decl[t.Name] {
				p.decl[t.Name] = true
				fmt.Fprintf(&b, "(declare-const %s %s)\n", smtName(t.Name), sortName(t.S))
			}
		case OApp:
			if !p.decl[t.Name] {
				p.decl[t.Name] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, sortName(a.S))
				}
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtName(t.Name), strings.Join(as, " "), sortName(t.S))
			}
		case OLit:
			fmt.Fprintf(&b, "(declare-const %s %s)\n(assert (= (len_%s %s) %d))\n", litName(t), smtName(t.S.Name), t.S.Name, litName(t), len(t.Name))
			if len(t.Name) <= 64 {
				for i := 0; i < len(t.Name); i++ {
					fmt.Fprintf(&b, "(assert (= (at_%s %s %d) %d))\n", t.S.Name, litName(t), i, t.Name[i])
				}
			}
		}
	}
	// literals of different content differ
	var lits []*Term
	for _, t := range p.terms {
		if t.Op == OLit {
			lits = append(lits, t)
		}
	}
	if len(lits) > 1 {
		sort.Slice(lits, func(i, j int) bool { return lits[i].ID < lits[j].ID })
		b.WriteString("(assert (distinct")
		for _, l := range lits {
			b.WriteString(" " + litName(l))
		}
		b.WriteString("))\n")
	}
	// shared ground terms
	uses := map[int]int{}
	for _, t := range p.terms {
		for _, a := range t.Args {
			uses[a.ID]++
		}
	}
	for _, t := range p.terms {
		if t.Bound || len(t.Args) == 0 || uses[t.ID] < 2 {
			continue
		}
		e := p.expr(t)
		n := fmt.Sprintf("t!%d", t.ID)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, sortName(t.S), e)
		p.names[t.ID] = n
	}
	for _, f := range newFacts {
		if f.Op == OTrue {
			continue
		}
		fmt.Fprintf(&b, "(assert %s)\n", p.ref(f))
	}
	for _, t := range all {
		fmt.Fprintf(&b, "(assert %s)\n", p.ref(t))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// extInstances adds extensionality instances for the equalities occurring in a goal.
func extInstances(goal *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	donePair := map[[2]int]bool{}
	var pair func(a, b *Term, d int)
	pair = func(a, b *Term, d int) {
		if a == b || d > 8 {
			return
		}
		k := [2]int{a.ID, b.ID}
		if donePair[k] {
			return
		}
		donePair[k] = true
		if a.Op == OIte && d < 4 {
			pair(a.Args[1], b, d+1)
			pair(a.Args[2], b, d+1)
		} else if b.Op == OIte && d < 4 {
			pair(a, b.Args[1], d+1)
			pair(a, b.Args[2], d+1)
		} else if a.Op == OApp && b.Op == OApp && a.Name == b.Name && len(a.Args) == len(b.Args) {
			for i := range a.Args {
				pair(a.Args[i], b.Args[i], d+1)
			}
		}
		switch a.S.K {
		case SList:
			i := App("diff_"+a.S.Name, IntS, a, b)
			x, y := At(a, i), At(b, i)
			out = append(out, Or(mkEq(a, b), Neq(Len(a), Len(b)), And(Le(Int(0), i), Lt(i, Len(a)), Not(mkEqD(x, y)))))
			pair(x, y, d+1)
		case SMap:
			i := App("mdiff_"+a.S.Name, a.S.Key, a, b)
			x, y := MSel(a, i), MSel(b, i)
			out = append(out, Or(mkEq(a, b), Not(mkEqD(x, y))))
			pair(x, y, d+1)
		case SData:
			for _, c := range a.S.Ctors {
				for f := range c.Fields {
					fs := c.Fields[f].S
					if fs.K == SList || fs.K == SData || fs.K == SMap {
						pair(Sel(c, f, a), Sel(c, f, b), d+1)
					}
				}
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] || t.Op == OForall {
			return
		}
		seen[t.ID] = true
		if t.Op == OEq && !t.Bound {
			pair(t.Args[0], t.Args[1], 0)
		}
		if t.S == BoolS {
			for _, a := range t.Args {
				walk(a)
			}
		}
	}
	walk(goal)
	return out
}

// mkEq builds the raw equality (no decomposition).
func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: OEq, S: BoolS, Args: []*Term{a, b}})
}
func mkEqD(a, b *Term) *Term { return mkEq(a, b) }

type SolveResult struct {
	Status string // unsat, sat, unknown, timeout
	Solver string
	Time   time.Duration
	Out    string
}

var stat = struct {
	Queries int
	Time    time.Duration
}{}

func runSolver(bin string, args []string, in string, to time.Duration) SolveResult {
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(in)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	st := time.Now()
	_ = cmd.Run()
	d := time.Since(st)
	stat.Queries++
	stat.Time += d
	s := strings.TrimSpace(o.String())
	for strings.HasPrefix(s, "WARNING") {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			break
		}
		s = strings.TrimSpace(s[i+1:])
	}
	r := SolveResult{Solver: bin, Time: d, Out: s}
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch {
	case first == "unsat":
		r.Status = "unsat"
	case first == "sat":
		r.Status = "sat"
	case strings.HasPrefix(first, "(error"):
		r.Status = "error"
	default:
		r.Status = "unknown"
	}
	if ctx.Err() != nil || strings.Contains(s, "timeout") || r.Status == "unknown" && d > to*9/10 {
		r.Status = "timeout"
	}
	return r
}

func z3(in string, ms int) SolveResult {
	return runSolver("z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms)}, in, time.Duration(ms)*time.Millisecond)
}
func z3old(in string, ms int) SolveResult {
	return runSolver("z3", []string{"-in", fmt.Sprintf("-t:%d", ms)}, in, time.Duration(ms)*time.Millisecond)
}
func cvc5(in string, ms int) SolveResult {
	var lines []string
	for _, l := range strings.Split(in, "\n") {
		if !strings.HasPrefix(l, "(set-option :smt.mbqi") && !strings.HasPrefix(l, "(set-option :auto_config") {
			lines = append(lines, l)
		}
	}
	return runSolver("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}, "(set-logic ALL)\n"+strings.Join(lines, "\n"), time.Duration(ms)*time.Millisecond)
}
