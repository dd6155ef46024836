package main

// Specification language: parser and evaluation to terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Expr struct {
	K    string // num str id call field index slice bin un quant list cons with let ite
	S    string
	A    []*Expr
	Vars []SVar
	N    []string
	T    *TypeX
	Pos  string
	Trig [][]*Expr
}
type TypeX struct {
	S string
	A []*TypeX
}
type SVar struct {
	Name string
	T    *TypeX
}

type Clause struct {
	E    *Expr
	Tags []string
	Text string
	Idx  int
	Pos  string
	ID   string
}

type Contract struct {
	Fn       string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Expr
	ModRand  bool
	Nilable  map[string]bool
	Trusted  bool
	Reveal   []string
	Concrete string
	Inline   bool // callers execute the body (results or parameters alias)
	Iface    bool
	Pos      string
	Tags     []string
	Fresh    bool
	AnyErr   bool
	Lets     []letDef
}
type letDef struct {
	Name string
	E    *Expr
}

type FuncDef struct {
	Name   string
	Params []SVar
	Ret    *TypeX
	Body   *Expr // macro
	Base   *Expr
	Step   *Expr
	LenE   *Expr
	Rec    bool
	Opaque bool // unfolded only where revealed
	psorts []*Sort
	ret    *Sort
}

type Lemma struct {
	Name   string
	E      *Expr
	Induct string
	Axiom  bool
	Tags   []string
	Pos    string
	Order  int
	Auto   bool // available to every query that mentions its triggers
	Late   bool // stated after all contracts: not used in their proofs
	before int  // contracts stated before it
	Reveal []string
}

type Template struct {
	Name  string
	Holes []SVar // hole types
	E     *Expr
	Exact bool
	Pos   string
}

type TypeInv struct {
	T   string
	Var string
	E   *Expr
	Pos string
}

type Specs struct {
	invSorts  map[string][]*TypeInv
	invMemo   map[string]int
	e         *Engine
	Contracts map[string]*Contract
	Order     []string
	Funcs     map[string]*FuncDef
	Lemmas    []*Lemma
	Templates []*Template
	TypeInvs  map[string]*TypeInv
	Ghosts    map[string]*Sort
	ghostDefs []string
	NoInline  map[string]bool
	nlet      int
	proving   *Lemma // the lemma being proved: earlier ones may be instantiated in it
}

type specErr struct{ msg string }

func sfail(pos, f string, a ...interface{}) {
	panic(specErr{pos + ": " + fmt.Sprintf(f, a...)})
}

// ---- lexer

type tok struct {
	k   string // id num str op eof
	s   string
	pos string
}

func lex(src, pos string) []tok {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "++", "+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ":", ".", "=", "|", ";"}
	for i < len(src) {
		c := src[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
			continue
		}
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' {
			j := i
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] == '_' || src[j] == '$' || src[j] == '\'' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], pos})
			i = j
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] == 'X' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == '_') {
				j++
			}
			out = append(out, tok{"num", strings.ReplaceAll(src[i:j], "_", ""), pos})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				sfail(pos, "bad string %s", src[i:j+1])
			}
			out = append(out, tok{"str", s, pos})
			i = j + 1
			continue
		}
		hit := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, pos})
				i += len(o)
				hit = true
				break
			}
		}
		if !hit {
			sfail(pos, "unexpected %q", string(c))
		}
	}
	return append(out, tok{"eof", "", pos})
}

type parser struct {
	t   []tok
	i   int
	pos string
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return (p.t[p.i].k == "op" || p.t[p.i].k == "id") && p.t[p.i].s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		sfail(p.pos, "expected %q, got %q", s, p.peek().s)
	}
}
func (p *parser) id() string {
	t := p.next()
	if t.k != "id" {
		sfail(p.pos, "expected identifier, got %q", t.s)
	}
	return t.s
}

func (p *parser) typ() *TypeX {
	if p.accept("*") {
		return &TypeX{S: "opt", A: []*TypeX{p.typ()}}
	}
	n := p.id()
	for p.is(".") || p.is("/") {
		n += p.next().s + p.id()
	}
	t := &TypeX{S: n}
	if p.accept("<") {
		for {
			t.A = append(t.A, p.typ())
			if !p.accept(",") {
				break
			}
		}
		p.expect(">")
	}
	return t
}

func (p *parser) vars(end string) []SVar {
	var vs []SVar
	for !p.is(end) {
		n := p.id()
		t := p.typ()
		vs = append(vs, SVar{n, t})
		if !p.accept(",") {
			break
		}
	}
	p.expect(end)
	return vs
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr() *Expr { return p.bin(1) }
func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		if pr == 5 && l.K == "bin" && binPrec[l.S] == 5 && l.N == nil {
			// chained comparison
			l = &Expr{K: "bin", S: "&&", A: []*Expr{l, {K: "bin", S: t.s, A: []*Expr{l.A[1], r}, Pos: p.pos}}, N: []string{"chain"}, Pos: p.pos}
			continue
		}
		if pr == 5 && l.K == "bin" && l.S == "&&" && len(l.N) == 1 && l.N[0] == "chain" {
			l = &Expr{K: "bin", S: "&&", A: []*Expr{l, {K: "bin", S: t.s, A: []*Expr{l.A[1].A[1], r}, Pos: p.pos}}, N: []string{"chain"}, Pos: p.pos}
			continue
		}
		l = &Expr{K: "bin", S: t.s, A: []*Expr{l, r}, Pos: p.pos}
	}
}
func (p *parser) unary() *Expr {
	if p.accept("!") {
		return &Expr{K: "un", S: "!", A: []*Expr{p.unary()}, Pos: p.pos}
	}
	if p.accept("-") {
		return &Expr{K: "un", S: "-", A: []*Expr{p.unary()}, Pos: p.pos}
	}
	return p.postfix(p.prim())
}
func (p *parser) prim() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		return &Expr{K: "num", S: t.s, Pos: p.pos}
	case "str":
		return &Expr{K: "str", S: t.s, Pos: p.pos}
	case "op":
		switch t.s {
		case "(":
			e := p.expr()
			p.expect(")")
			// parenthesised comparisons do not chain
			if e.K == "bin" && binPrec[e.S] == 5 {
				return &Expr{K: "bin", S: e.S, A: e.A, N: []string{"paren"}, Pos: p.pos}
			}
			return e
		case "[":
			e := &Expr{K: "list", Pos: p.pos}
			for !p.is("]") {
				e.A = append(e.A, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("]")
			return e
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			e := &Expr{K: "quant", S: t.s, Pos: p.pos}
			e.Vars = p.vars("::")
			for p.is("{") {
				p.next()
				var tr []*Expr
				for !p.is("}") {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				e.Trig = append(e.Trig, tr)
			}
			e.A = []*Expr{p.expr()}
			return e
		case "let":
			n := p.id()
			p.expect("=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			return &Expr{K: "let", S: n, A: []*Expr{v, b}, Pos: p.pos}
		}
		return &Expr{K: "id", S: t.s, Pos: p.pos}
	}
	sfail(p.pos, "unexpected %q", t.s)
	return nil
}
func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.next()
			e = &Expr{K: "field", S: p.id(), A: []*Expr{e}, Pos: p.pos}
		case p.is("("):
			p.next()
			c := &Expr{K: "call", A: nil, Pos: p.pos}
			if e.K == "id" {
				c.S = e.S
			} else {
				sfail(p.pos, "call of expression")
			}
			for !p.is(")") {
				c.A = append(c.A, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.is("["):
			p.next()
			var lo, hi *Expr
			if !p.is(":") {
				lo = p.expr()
			}
			if p.accept(":") {
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{K: "slice", A: []*Expr{e, lo, hi}, Pos: p.pos}
			} else {
				p.expect("]")
				e = &Expr{K: "index", A: []*Expr{e, lo}, Pos: p.pos}
			}
		case p.is("with"):
			p.next()
			p.expect("{")
			w := &Expr{K: "with", A: []*Expr{e}, Pos: p.pos}
			for !p.is("}") {
				w.N = append(w.N, p.id())
				p.expect(":")
				w.A = append(w.A, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e = w
		case p.is("{") && (e.K == "id" || e.K == "field"):
			// constructor: Type{f: e}
			n := exprName(e)
			if n == "" {
				return e
			}
			p.next()
			w := &Expr{K: "cons", S: n, Pos: p.pos}
			for !p.is("}") {
				w.N = append(w.N, p.id())
				p.expect(":")
				w.A = append(w.A, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e = w
		default:
			return e
		}
	}
}
func exprName(e *Expr) string {
	if e.K == "id" {
		return e.S
	}
	if e.K == "field" {
		b := exprName(e.A[0])
		if b == "" {
			return ""
		}
		return b + "." + e.S
	}
	return ""
}

// ---- file parsing

var keywords = map[string]bool{"def": true, "rec": true, "func": true, "axiom": true, "lemma": true, "contract": true, "requires": true, "ensures": true, "modifies": true, "nilable": true, "trusted": true, "template": true, "typeinv": true, "ghosttype": true, "ghost": true, "noinline": true, "tags": true, "fresh": true, "anyerror": true, "concrete": true, "inline": true, "opaque": true, "reveal": true, "where": true}

func loadSpecs(e *Engine, dir string) (sp *Specs, err error) {
	sp = &Specs{e: e, Contracts: map[string]*Contract{}, Funcs: map[string]*FuncDef{}, TypeInvs: map[string]*TypeInv{}, Ghosts: map[string]*Sort{}, NoInline: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("spec: %s", s.msg)
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	e.specs = sp
	for _, f := range files {
		b, er := os.ReadFile(f)
		if er != nil {
			return nil, er
		}
		sp.parseFile(filepath.Base(f), string(b))
	}
	baseAxioms = len(axioms)
	sp.resolve()
	return sp, nil
}

func (sp *Specs) parseFile(name, src string) {
	type stmt struct {
		kw, body, pos string
	}
	var ss []stmt
	for i, ln := range strings.Split(src, "\n") {
		// strip comments (// not inside strings)
		t := ln
		inS := false
		for j := 0; j < len(t); j++ {
			if t[j] == '"' && (j == 0 || t[j-1] != '\\') {
				inS = !inS
			}
			if !inS && strings.HasPrefix(t[j:], "//") {
				t = t[:j]
				break
			}
		}
		tr := strings.TrimSpace(t)
		if tr == "" {
			continue
		}
		w := tr
		if k := strings.IndexAny(tr, " \t[("); k >= 0 {
			w = tr[:k]
		}
		pos := fmt.Sprintf("%s:%d", name, i+1)
		if keywords[w] {
			ss = append(ss, stmt{w, strings.TrimSpace(tr[len(w):]), pos})
		} else {
			if len(ss) == 0 {
				sfail(pos, "unexpected %q", tr)
			}
			ss[len(ss)-1].body += "\n" + t
		}
	}
	var cur *Contract
	tagsOf := func(body string) ([]string, string) {
		if strings.HasPrefix(body, "[") {
			k := strings.Index(body, "]")
			ts := strings.Fields(strings.ReplaceAll(body[1:k], ",", " "))
			return ts, strings.TrimSpace(body[k+1:])
		}
		return nil, body
	}
	mkP := func(body, pos string) *parser { return &parser{t: lex(body, pos), pos: pos} }
	full := func(p *parser) *Expr {
		e := p.expr()
		if p.peek().k != "eof" {
			sfail(p.pos, "trailing %q", p.peek().s)
		}
		return e
	}
	for _, s := range ss {
		switch s.kw {
		case "func", "def", "rec", "opaque":
			p := mkP(s.body, s.pos)
			fd := &FuncDef{Name: p.id()}
			p.expect("(")
			fd.Params = p.vars(")")
			fd.Ret = p.typ()
			switch s.kw {
			case "def", "opaque":
				p.expect("=")
				fd.Body = full(p)
				fd.Opaque = s.kw == "opaque"
			case "rec":
				fd.Rec = true
				p.expect("=")
				fd.Base = p.expr()
				p.expect("|")
				fd.Step = p.expr()
				if p.accept("len") {
					fd.LenE = full(p)
				}
			case "func":
				if p.accept("len") {
					fd.LenE = full(p)
				}
			}
			if _, dup := sp.Funcs[fd.Name]; dup {
				sfail(s.pos, "duplicate %s", fd.Name)
			}
			sp.Funcs[fd.Name] = fd
			sp.defNow(fd, s.pos)
		case "axiom", "lemma":
			tags, body := tagsOf(s.body)
			k := strings.Index(body, ":")
			head := strings.Fields(body[:k])
			l := &Lemma{Name: head[0], Axiom: s.kw == "axiom", Pos: s.pos, Tags: tags, Order: len(sp.Lemmas), before: len(sp.Order)}
			for i := 1; i < len(head); i++ {
				if head[i] == "induct" {
					l.Induct = head[i+1]
					i++
				} else if head[i] == "reveal" {
					l.Reveal = append(l.Reveal, head[i+1])
					i++
				}
			}
			l.E = full(mkP(body[k+1:], s.pos))
			sp.Lemmas = append(sp.Lemmas, l)
		case "contract":
			cur = parseHeader(s.body, s.pos)
			if _, dup := sp.Contracts[cur.Fn]; dup {
				sfail(s.pos, "duplicate contract %s", cur.Fn)
			}
			sp.Contracts[cur.Fn] = cur
			sp.Order = append(sp.Order, cur.Fn)
		case "requires", "ensures":
			tags, body := tagsOf(s.body)
			c := &Clause{E: full(mkP(body, s.pos)), Tags: tags, Text: body, Pos: s.pos}
			if strings.Contains(body, "perrors.") {
				cur.AnyErr = true
			}
			if s.kw == "requires" {
				c.Idx = len(cur.Requires)
				cur.Requires = append(cur.Requires, c)
			} else {
				c.Idx = len(cur.Ensures)
				cur.Ensures = append(cur.Ensures, c)
			}
			c.ID = fmt.Sprintf("%s%d", s.kw, c.Idx+1)
		case "where":
			p := mkP(s.body, s.pos)
			n := p.id()
			p.expect("=")
			cur.Lets = append(cur.Lets, letDef{n, full(p)})
		case "modifies":
			for _, x := range strings.Split(s.body, ",") {
				x = strings.TrimSpace(x)
				if x == "rand" {
					cur.ModRand = true
					continue
				}
				cur.Modifies = append(cur.Modifies, full(mkP(x, s.pos)))
			}
		case "nilable":
			for _, x := range strings.Fields(strings.ReplaceAll(s.body, ",", " ")) {
				cur.Nilable[x] = true
			}
		case "trusted":
			cur.Trusted = true
		case "fresh":
			cur.Fresh = true
		case "reveal":
			cur.Reveal = append(cur.Reveal, strings.Fields(strings.ReplaceAll(s.body, ",", " "))...)
		case "inline":
			cur.Inline = true
		case "concrete":
			// the first result is an interface holding a *T
			cur.Concrete = strings.TrimSpace(s.body)
			cur.Inline = true
		case "anyerror":
			cur.AnyErr = true
		case "tags":
			cur.Tags = strings.Fields(strings.ReplaceAll(s.body, ",", " "))
		case "noinline":
			sp.NoInline[s.body] = true
		case "template":
			// template name(h T, ...) [exact] : expr
			ex := false
			body := s.body
			if strings.HasPrefix(body, "exact ") {
				ex = true
				body = strings.TrimSpace(body[6:])
			}
			p := mkP(body, s.pos)
			t := &Template{Name: p.id(), Exact: ex, Pos: s.pos}
			p.expect("(")
			t.Holes = p.vars(")")
			p.expect(":")
			t.E = full(p)
			sp.Templates = append(sp.Templates, t)
		case "typeinv":
			p := mkP(s.body, s.pos)
			t := p.typ()
			p.expect("(")
			v := p.id()
			p.expect(")")
			p.expect(":")
			sp.TypeInvs[t.S] = &TypeInv{T: t.S, Var: v, E: full(p), Pos: s.pos}
		case "ghosttype":
			p := mkP(s.body, s.pos)
			t := p.typ()
			p.expect("=")
			g := p.typ()
			so := sp.sort(g, s.pos)
			ghostTypes[t.S] = so
			delete(typeSorts, t.S)
		case "ghost":
			// ghost Name{f T, ...}
			p := mkP(s.body, s.pos)
			n := p.id()
			p.expect("{")
			vs := p.vars("}")
			so := internSort(&Sort{K: SData, Name: "G_" + n})
			if so.Ctors == nil {
				c := &Ctor{Name: "mk_G_" + n, S: so}
				for _, v := range vs {
					var lo, hi *big.Int
					if v.T.S == "u32" {
						lo, hi = big0, new(big.Int).Sub(pow2(32), BI(1))
					}
					c.Fields = append(c.Fields, Field{Name: v.Name, S: sp.sort(v.T, s.pos), Lo: lo, Hi: hi})
				}
				so.Ctors = []*Ctor{c}
			}
			sp.Ghosts[n] = so
		}
	}
}

func parseHeader(body, pos string) *Contract {
	// name(params) (results)
	body = strings.TrimSpace(body)
	var name, ps, rs string
	// the name may itself start with "(": (*session.Session).Foo(
	i := 0
	if strings.HasPrefix(body, "(") {
		i = strings.Index(body, ")") + 1
	}
	k := i + strings.Index(body[i:], "(")
	name = strings.TrimSpace(body[:k])
	j := k + strings.Index(body[k:], ")")
	ps = body[k+1 : j]
	rest := strings.TrimSpace(body[j+1:])
	if strings.HasPrefix(rest, "(") {
		rs = strings.TrimSuffix(strings.TrimPrefix(rest, "("), ")")
	} else {
		rs = rest
	}
	sp := func(s string) []string { return strings.Fields(strings.ReplaceAll(s, ",", " ")) }
	return &Contract{Fn: name, Params: sp(ps), Results: sp(rs), Nilable: map[string]bool{}, Pos: pos}
}

// ---- sorts

func (sp *Specs) sort(t *TypeX, pos string) *Sort {
	switch t.S {
	case "int", "u32", "error", "u8":
		return IntS
	case "bool":
		return BoolS
	case "bytes", "string":
		return BytesS
	case "list":
		return listSort(sp.sort(t.A[0], pos))
	case "opt":
		return optSort(sp.sort(t.A[0], pos))
	case "map":
		return mapSort(sp.sort(t.A[0], pos), sp.sort(t.A[1], pos))
	}
	if g, ok := sp.Ghosts[t.S]; ok {
		return g
	}
	if strings.HasPrefix(t.S, "U.") {
		return uSort(t.S[2:])
	}
	ty := sp.e.typeByName(t.S)
	if ty == nil {
		sfail(pos, "unknown type %s", t.S)
	}
	return sp.e.sortOf(ty)
}

func (e *Engine) typeByName(n string) types.Type {
	k := strings.LastIndex(n, ".")
	if k < 0 {
		return nil
	}
	pk, tn := n[:k], n[k+1:]
	for _, p := range e.pkgs {
		sh := strings.TrimPrefix(p.Pkg.Path(), repoPrefix)
		if sh == pk || strings.HasSuffix(sh, "/"+pk) {
			if o, ok := p.Pkg.Scope().Lookup(tn).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

// ---- evaluation

type Env struct {
	sp   *Specs
	vars map[string]*Term
	old  *Env
	init *Env
	lets []letDef
	st   *State
	// deferred well-definedness is expressed by total operators
}

func (sp *Specs) env() *Env { return &Env{sp: sp, vars: map[string]*Term{}} }
func (v *Env) with(n string, t *Term) *Env {
	m := make(map[string]*Term, len(v.vars)+1)
	for k, x := range v.vars {
		m[k] = x
	}
	m[n] = t
	o := *v
	o.vars = m
	return &o
}

func (sp *Specs) defNow(fd *FuncDef, pos string) {
	for _, p := range fd.Params {
		fd.psorts = append(fd.psorts, sp.sort(p.T, pos))
	}
	fd.ret = sp.sort(fd.Ret, pos)
	if fd.Body != nil && !fd.Opaque {
		return
	}
	bindArgs := func(args []*Term) *Env {
		env := sp.env()
		for i, p := range fd.Params {
			env.vars[p.Name] = args[i]
		}
		return env
	}
	if fd.Rec {
		n := len(fd.Params) - 1
		recDefs[fd.Name] = &RecDef{Name: fd.Name, NPar: n, Ret: fd.ret,
			Base: func(args []*Term) *Term { return sp.coerce(sp.eval(fd.Base, bindArgs(args)), fd.ret) },
			Step: func(args []*Term, k *Term) *Term {
				env := bindArgs(args)
				env.vars[fd.Params[n].Name] = k
				pa := append([]*Term{}, args...)
				pa[n] = k
				env.vars["prev"] = App(fd.Name, fd.ret, pa...)
				return sp.coerce(sp.eval(fd.Step, env), fd.ret)
			}}
	}
	if fd.LenE != nil {
		fnLen[fd.Name] = func(args []*Term) *Term { return sp.eval(fd.LenE, bindArgs(args)) }
	}
	if fd.Ret.S == "u32" {
		fnRange[fd.Name] = [2]*big.Int{big0, new(big.Int).Sub(pow2(32), BI(1))}
	}
}

// revealed names opaque definitions which are unfolded in the current task.
var revealed = map[string]bool{}

// withReveal runs f with the given opaque definitions unfolded.
func (sp *Specs) withReveal(names []string, f func()) {
	if len(names) == 0 {
		f()
		return
	}
	saved := axioms
	for _, n := range names {
		if n == "all" {
			for k, fd := range sp.Funcs {
				if fd.Opaque {
					revealed[k] = true
				}
			}
			continue
		}
		if fd := sp.Funcs[n]; fd == nil || !fd.Opaque {
			panic(specErr{"reveal of " + n + ", which is not opaque"})
		}
		revealed[n] = true
	}
	axioms = axioms[:baseAxioms:baseAxioms]
	sp.resolve()
	defer func() {
		axioms = saved
		revealed = map[string]bool{}
	}()
	f()
}

var baseAxioms int

func (sp *Specs) resolve() {
	// axioms and lemmas become available in order
	for _, l := range sp.Lemmas {
		l.Late = !l.Axiom && l.before == len(sp.Order)
		f := sp.evalTop(l.E, l.Pos)
		ns := l.trigApps(f)
		if len(ns) == 0 {
			if l.Axiom {
				panic(specErr{l.Name + ": an axiom needs a trigger"})
			}
			continue // an end result: proved, never used
		}
		if badTrigger(f) {
			if len(revealed) > 0 {
				continue // a trigger whose function is unfolded here
			}
			panic(specErr{l.Name + ": trigger with a conditional (make the definition opaque)"})
		}
		l.Auto = true
		sort.Strings(ns)
		axioms = append(axioms, &Axiom{Name: l.Name, Needs: ns, F: f, Late: l.Late})
	}
}

// badTrigger: a trigger with logical operators, which solvers do not match.
func badTrigger(f *Term) bool {
	bad := false
	var in func(t *Term)
	in = func(t *Term) {
		switch t.Op {
		case OIte, OAnd, OOr, ONot, OEq, OLe:
			bad = true
		}
		for _, a := range t.Args {
			in(a)
		}
	}
	var w func(t *Term)
	w = func(t *Term) {
		if t.Op == OForall {
			for _, tr := range t.Trig {
				for _, x := range tr {
					in(x)
				}
			}
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(f)
	return bad
}

// trigApps: function names in explicit triggers.
func (l *Lemma) trigApps(f *Term) []string {
	var out []string
	var w func(t *Term)
	w = func(t *Term) {
		if t.Op == OForall {
			for _, tr := range t.Trig {
				m := map[string]bool{}
				for _, x := range tr {
					collectApps(x, m)
				}
				for n := range m {
					out = append(out, n)
				}
			}
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(f)
	return out
}
func collectApps(t *Term, out map[string]bool) {
	seen := map[int]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == OApp {
			out[t.Name] = true
		}
		for _, a := range t.Args {
			w(a)
		}
		for _, tr := range t.Trig {
			for _, a := range tr {
				w(a)
			}
		}
	}
	w(t)
}

func (sp *Specs) evalTop(e *Expr, pos string) *Term { return sp.eval(e, sp.env()) }

func (sp *Specs) coerce(t *Term, s *Sort) *Term {
	if t.S == s {
		return t
	}
	if isOpt(t.S) && t.S.Ctors[1].Fields[0].S == s {
		return OptVal(t)
	}
	if isOpt(s) && s.Ctors[1].Fields[0].S == t.S {
		return Some(t)
	}
	if t.Op == OEmpty && s.K == SList {
		return Empty(s)
	}
	if t == nilT && isOpt(s) {
		return None(s)
	}
	if t == nilT && s.K == SList {
		return Empty(s)
	}
	if t == nilT && s == IntS {
		return Int(0)
	}
	if t == nilT && s.K == SData {
		return Cons(s.Ctors[0])
	}
	panic(specErr{fmt.Sprintf("sort mismatch: %s where %s expected: %v", t.S, s, t)})
}

var nilSort = uSort("nil")
var nilT = Var("nil", nilSort)

func deref(t *Term) *Term {
	if isOpt(t.S) {
		return OptVal(t)
	}
	return t
}

func (sp *Specs) eval(e *Expr, env *Env) *Term {
	bad := func(f string, a ...interface{}) { sfail(e.Pos, f, a...) }
	ev := func(i int) *Term { return sp.eval(e.A[i], env) }
	switch e.K {
	case "num":
		n, ok := new(big.Int).SetString(e.S, 0)
		if !ok {
			bad("number %s", e.S)
		}
		return IntB(n)
	case "str":
		return Lit(e.S)
	case "id":
		switch e.S {
		case "true":
			return tTrue
		case "false":
			return tFalse
		case "nil":
			return nilT
		}
		if t, ok := env.vars[e.S]; ok {
			return t
		}
		for _, l := range env.lets {
			if l.Name == e.S {
				return sp.eval(l.E, env)
			}
		}
		if f, ok := sp.Funcs[e.S]; ok && len(f.Params) == 0 {
			return sp.call(f, nil, e, env)
		}
		if t := sp.constByName(e.S); t != nil {
			return t
		}
		bad("unknown name %s", e.S)
	case "let":
		return sp.eval(e.A[1], env.with(e.S, ev(0)))
	case "field":
		// package constant?
		if n := exprName(e); n != "" && e.A[0].K == "id" {
			if _, bound := env.vars[e.A[0].S]; !bound && !env.hasLet(e.A[0].S) {
				if t := sp.constByName(n); t != nil {
					return t
				}
			}
		}
		x := deref(ev(0))
		if x.S.K != SData {
			bad("field %s of %s", e.S, x.S)
		}
		for _, c := range x.S.Ctors {
			if i := fieldIdx(c, e.S); i >= 0 {
				return Sel(c, i, x)
			}
		}
		bad("no field %s in %s", e.S, x.S)
	case "index":
		x := ev(0)
		if isOpt(x.S) {
			x = OptVal(x)
		}
		i := ev(1)
		if x.S.K == SMap {
			return MSel(x, sp.coerce(i, x.S.Key))
		}
		if x.S.K != SList {
			bad("index of %s", x.S)
		}
		return At(x, i)
	case "slice":
		x := deref(ev(0))
		lo, hi := Int(0), Len(x)
		if e.A[1] != nil {
			lo = ev(1)
		}
		if e.A[2] != nil {
			hi = ev(2)
		}
		ok := And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(x)))
		if env.st != nil && ok.Op != OTrue {
			ok = env.st.norm(ok)
			if ok.Op != OTrue && !boundIn(ok) && env.st.implied(ok) {
				ok = tTrue
			}
		}
		return Ite(ok, Ext(x, lo, hi), Empty(x.S))
	case "list":
		if len(e.A) == 0 {
			return Empty(BytesS)
		}
		var us []*Term
		for i := range e.A {
			us = append(us, Unit(ev(i)))
		}
		return Cat(us[0].S, us...)
	case "un":
		if e.S == "!" {
			return Not(ev(0))
		}
		return Sub(Int(0), ev(0))
	case "quant":
		env2 := env
		var vs []*Term
		for _, v := range e.Vars {
			b := BoundVar(v.Name, sp.sort(v.T, e.Pos))
			if v.T.S == "u32" {
				b.Lo, b.Hi = big0, new(big.Int).Sub(pow2(32), BI(1))
			}
			if v.T.S == "u8" {
				b.Lo, b.Hi = big0, big255
			}
			vs = append(vs, b)
			env2 = env2.with(v.Name, b)
		}
		body := sp.eval(e.A[0], env2)
		for _, v := range vs {
			if v.Lo != nil {
				body = Imp(mk(&Term{Op: OAnd, S: BoolS, Args: []*Term{mk(&Term{Op: OLe, S: BoolS, Args: []*Term{IntB(v.Lo), v}}), mk(&Term{Op: OLe, S: BoolS, Args: []*Term{v, IntB(v.Hi)}})}}), body)
			}
		}
		var trig [][]*Term
		for _, tr := range e.Trig {
			var x []*Term
			for _, y := range tr {
				x = append(x, sp.eval(y, env2))
			}
			trig = append(trig, x)
		}
		if e.S == "forall" {
			return Forall(vs, body, trig...)
		}
		return Not(Forall(vs, Not(body), trig...))
	case "with":
		x := ev(0)
		opt := isOpt(x.S)
		if opt {
			x = OptVal(x)
		}
		for i, n := range e.N {
			k := fieldIdx(x.S.Ctors[0], n)
			if k < 0 {
				bad("no field %s in %s", n, x.S)
			}
			x = With(x, k, sp.coerce(ev(i+1), x.S.Ctors[0].Fields[k].S))
		}
		return x
	case "cons":
		s := sp.sort(&TypeX{S: e.S}, e.Pos)
		if isOpt(s) {
			s = s.Ctors[1].Fields[0].S
		}
		c := s.Ctors[0]
		args := make([]*Term, len(c.Fields))
		for i, n := range e.N {
			k := fieldIdx(c, n)
			if k < 0 {
				bad("no field %s in %s", n, s)
			}
			args[k] = sp.coerce(ev(i), c.Fields[k].S)
		}
		for i := range args {
			if args[i] == nil {
				args[i] = zeroSort(c.Fields[i].S)
			}
		}
		return Cons(c, args...)
	case "bin":
		switch e.S {
		case "&&":
			return And(ev(0), ev(1))
		case "||":
			return Or(ev(0), ev(1))
		case "==>":
			a := ev(0)
			if a.Op == OFalse {
				return tTrue
			}
			return Imp(a, ev(1))
		case "<==>":
			return Iff(ev(0), ev(1))
		case "==", "!=":
			a, b := ev(0), ev(1)
			r := sp.equal(a, b, e)
			if e.S == "!=" {
				return Not(r)
			}
			return r
		}
		a, b := deref(ev(0)), deref(ev(1))
		if e.S == "++" {
			if a.Op == OEmpty {
				return b
			}
			if b.Op == OEmpty {
				return a
			}
			return Cat(a.S, a, b)
		}
		if a.S != IntS || b.S != IntS {
			bad("arithmetic on %s, %s", a.S, b.S)
		}
		switch e.S {
		case "<":
			return Lt(a, b)
		case "<=":
			return Le(a, b)
		case ">":
			return Lt(b, a)
		case ">=":
			return Le(b, a)
		case "+":
			return Add(a, b)
		case "-":
			return Sub(a, b)
		case "*":
			return Mul(a, b)
		case "/":
			return Div(a, b)
		case "%":
			return Mod(a, b)
		}
	case "call":
		return sp.evalCall(e, env)
	}
	bad("cannot evaluate %s", e.K)
	return nil
}

func boundIn(t *Term) bool { return t.Bound }

func (v *Env) hasLet(n string) bool {
	for _, l := range v.lets {
		if l.Name == n {
			return true
		}
	}
	return false
}

func zeroSort(s *Sort) *Term {
	switch s.K {
	case SInt:
		return Int(0)
	case SBool:
		return tFalse
	case SList:
		return Empty(s)
	case SData:
		if isOpt(s) || len(s.Ctors) > 1 {
			return Cons(s.Ctors[0])
		}
		var as []*Term
		for _, f := range s.Ctors[0].Fields {
			as = append(as, zeroSort(f.S))
		}
		return Cons(s.Ctors[0], as...)
	case SMap:
		return MConst(s, None(s.Elem))
	}
	return App("zero_"+strings.TrimPrefix(s.Name, "U_"), s)
}

func (sp *Specs) equal(a, b *Term, e *Expr) *Term {
	if a == nilT {
		a, b = b, a
	}
	if b == nilT {
		if a == nilT {
			return tTrue
		}
		if isOpt(a.S) {
			return IsNone(a)
		}
		if a.S.K == SList {
			return Eq(Len(a), Int(0))
		}
		if a.S == IntS {
			return Eq(a, Int(0))
		}
		if a.S.K == SData {
			return Is(a.S.Ctors[0], a)
		}
	}
	if a.S == b.S {
		return Eq(a, b)
	}
	if a.Op == OEmpty {
		a, b = b, a
	}
	if b.Op == OEmpty && a.S.K == SList {
		return Eq(Len(a), Int(0))
	}
	if isOpt(a.S) && a.S.Ctors[1].Fields[0].S == b.S {
		return Eq(a, Some(b))
	}
	if isOpt(b.S) && b.S.Ctors[1].Fields[0].S == a.S {
		return Eq(b, Some(a))
	}
	sfail(e.Pos, "cannot compare %s and %s", a.S, b.S)
	return nil
}

// instance is a lemma or axiom applied to arguments: a hint for the proof of a later lemma, and true elsewhere.
func (sp *Specs) instance(l *Lemma, e *Expr, env *Env) *Term {
	q := l.E
	if q.K != "quant" || q.S != "forall" || len(q.Vars) != len(e.A) {
		sfail(e.Pos, "cannot apply %s to %d arguments", l.Name, len(e.A))
	}
	if env.st != nil {
		sfail(e.Pos, "%s applied outside a lemma", l.Name)
	}
	if sp.proving == nil {
		return tTrue
	}
	if l.Order >= sp.proving.Order {
		sfail(e.Pos, "%s applied before it is proved", l.Name)
	}
	in := sp.env()
	guard := tTrue
	for i, v := range q.Vars {
		x := sp.coerce(sp.eval(e.A[i], env), sp.sort(v.T, e.Pos))
		switch v.T.S {
		case "u32":
			guard = And(guard, Le(Int(0), x), Lt(x, IntB(pow2(32))))
		case "u8":
			guard = And(guard, Le(Int(0), x), Le(x, Int(255)))
		}
		in.vars[v.Name] = x
	}
	// hints within it are true
	p := sp.proving
	sp.proving = nil
	defer func() { sp.proving = p }()
	return Imp(guard, sp.eval(q.A[0], in))
}

// needed: the lemmas which a check of the property proves: its own, those any query may use, and those applied in their proofs.
func (sp *Specs) needed(prop string) []*Lemma {
	by := map[string]*Lemma{}
	for _, l := range sp.Lemmas {
		by[l.Name] = l
	}
	in := map[*Lemma]bool{}
	var visit func(e *Expr)
	var add func(l *Lemma)
	visit = func(e *Expr) {
		if e == nil {
			return
		}
		if e.K == "call" && by[e.S] != nil && sp.Funcs[e.S] == nil {
			add(by[e.S])
		}
		for _, a := range e.A {
			visit(a)
		}
	}
	add = func(l *Lemma) {
		if !in[l] {
			in[l] = true
			visit(l.E)
		}
	}
	late := false
	for _, l := range sp.Lemmas {
		if hasTag(l.Tags, prop) || l.Auto && !l.Late {
			add(l)
			late = late || l.Late
		}
	}
	for _, l := range sp.Lemmas {
		if late && l.Auto {
			add(l)
		}
	}
	var res []*Lemma
	for _, l := range sp.Lemmas {
		if in[l] && !l.Axiom {
			res = append(res, l)
		}
	}
	return res
}

func (sp *Specs) evalCall(e *Expr, env *Env) *Term {
	ev := func(i int) *Term { return sp.eval(e.A[i], env) }
	switch e.S {
	case "len":
		return Len(deref(ev(0)))
	case "old":
		if env.old == nil {
			sfail(e.Pos, "old() not available")
		}
		o := *env.old
		// quantified and let-bound variables stay visible
		m := map[string]*Term{}
		for k, v := range env.vars {
			m[k] = v
		}
		for k, v := range env.old.vars {
			m[k] = v
		}
		o.vars = m
		o.lets = env.lets
		o.st = env.st
		return sp.eval(e.A[0], &o)
	case "init":
		if env.init == nil {
			sfail(e.Pos, "init() not available")
		}
		o := *env.init
		m := map[string]*Term{}
		for k, v := range env.vars {
			m[k] = v
		}
		for k, v := range env.init.vars {
			m[k] = v
		}
		o.vars = m
		o.st = env.st
		return sp.eval(e.A[0], &o)
	case "ite":
		c := ev(0)
		if c.Op == OTrue {
			return ev(1)
		}
		if c.Op == OFalse {
			return ev(2)
		}
		a, b := ev(1), ev(2)
		if a.S != b.S {
			if a == nilT || a.Op == OEmpty || isOpt(b.S) && !isOpt(a.S) {
				a = sp.coerce(a, b.S)
			} else {
				b = sp.coerce(b, a.S)
			}
		}
		return Ite(c, a, b)
	case "some":
		return Some(ev(0))
	case "val":
		return OptVal(ev(0))
	case "store":
		m := ev(0)
		return MStore(m, sp.coerce(ev(1), m.S.Key), sp.coerce(ev(2), m.S.Elem))
	case "upd":
		l := ev(0)
		return Upd(l, ev(1), sp.coerce(ev(2), l.S.Elem))
	case "rep":
		return Rep(ev(0), ev(1))
	case "unit":
		return Unit(ev(0))
	case "isA", "asA":
		x := ev(0)
		n := exprName(e.A[1])
		for _, c := range x.S.Ctors {
			if len(c.Fields) == 1 && c.Fields[0].Name == n {
				if e.S == "isA" {
					return Is(c, x)
				}
				return Sel(c, 0, x)
			}
		}
		sfail(e.Pos, "no case %s", n)
	case "wrapA":
		// wrapA(sortOf, Case, v)
		x := ev(0)
		n := exprName(e.A[1])
		for _, c := range x.S.Ctors {
			if len(c.Fields) == 1 && c.Fields[0].Name == n {
				return Cons(c, sp.coerce(ev(2), c.Fields[0].S))
			}
		}
		sfail(e.Pos, "no case %s", n)
	case "errIs":
		return App("errIs", BoolS, ev(0), ev(1))
	case "errType":
		return App("errType", IntS, ev(0))
	case "randReader":
		return Int(2000000 + typeID("crypto/rand.Reader"))
	case "typeId":
		return Int(typeID(exprName(e.A[0])))
	case "inv":
		x := ev(0)
		return sp.invTerm(x)
	case "marshal":
		x := deref(ev(0))
		return App("marshal_"+x.S.Name, BytesS, x)
	case "unmarshal", "unmarshalOk":
		s := sp.sort(&TypeX{S: exprName(e.A[0])}, e.Pos)
		b := ev(1)
		if e.S == "unmarshal" {
			return App("unmarshal_"+s.Name, s, b)
		}
		return App("unmarshalOk_"+s.Name, BoolS, b)
	case "zero":
		return zeroSort(sp.sort(&TypeX{S: exprName(e.A[0])}, e.Pos))
	case "emptyList":
		return Empty(listSort(sp.sort(&TypeX{S: exprName(e.A[0])}, e.Pos)))
	}
	if _, ok := sp.Funcs[e.S]; !ok {
		for _, l := range sp.Lemmas {
			if l.Name == e.S {
				return sp.instance(l, e, env)
			}
		}
	}
	f, ok := sp.Funcs[e.S]
	if !ok {
		if s, ok := extSig[e.S]; ok {
			var as []*Term
			for i := range e.A {
				x := ev(i)
				if i < len(s.args) {
					x = sp.coerce(x, s.args[i])
				}
				as = append(as, x)
			}
			return App(e.S, s.ret, as...)
		}
		sfail(e.Pos, "unknown function %s", e.S)
	}
	var args []*Term
	for i := range e.A {
		args = append(args, ev(i))
	}
	return sp.call(f, args, e, env)
}

func (sp *Specs) call(f *FuncDef, args []*Term, e *Expr, env *Env) *Term {
	if len(args) != len(f.Params) {
		sfail(e.Pos, "%s: %d arguments", f.Name, len(args))
	}
	for i := range args {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						sfail(e.Pos, "%s argument %d: %s", f.Name, i+1, s.msg)
					}
					panic(r)
				}
			}()
			args[i] = sp.coerce(args[i], f.psorts[i])
		}()
	}
	if f.Body != nil && (!f.Opaque || revealed[f.Name]) {
		en := &Env{sp: sp, vars: map[string]*Term{}, st: env.st}
		for i, p := range f.Params {
			en.vars[p.Name] = args[i]
		}
		return sp.coerce(sp.eval(f.Body, en), f.ret)
	}
	return App(f.Name, f.ret, args...)
}

// hasInv: whether values of the sort carry a declared invariant, at any depth.
func (sp *Specs) hasInv(s *Sort) bool {
	if sp.invSorts == nil {
		sp.invSorts = map[string][]*TypeInv{}
		for _, n := range sp.invNames() {
			if ty := sp.e.typeByName(n); ty != nil {
				k := sp.e.sortOf(ty).Name
				sp.invSorts[k] = append(sp.invSorts[k], sp.TypeInvs[n])
			}
		}
		sp.invMemo = map[string]int{}
	}
	switch sp.invMemo[s.Name] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	sp.invMemo[s.Name] = 3
	r := len(sp.invSorts[s.Name]) > 0
	switch s.K {
	case SData:
		for _, c := range s.Ctors {
			for _, f := range c.Fields {
				if sp.hasInv(f.S) {
					r = true
				}
			}
		}
	case SList, SMap:
		if sp.hasInv(s.Elem) {
			r = true
		}
	}
	sp.invMemo[s.Name] = 2
	if r {
		sp.invMemo[s.Name] = 1
	}
	return r
}

// invVar: the bound variable of x's invariant, the same for the same x.
func invVar(x *Term, s *Sort) *Term {
	v := Var(fmt.Sprintf("q_inv!%d", x.ID), s)
	v.Bound = true
	return v
}

// invTerm: the type invariant of a value, with those of the values it holds.
func (sp *Specs) invTerm(x *Term) *Term {
	if !sp.hasInv(x.S) {
		return tTrue
	}
	var out []*Term
	for _, ti := range sp.invSorts[x.S.Name] {
		out = append(out, sp.eval(ti.E, &Env{sp: sp, vars: map[string]*Term{ti.Var: x}}))
	}
	switch x.S.K {
	case SData:
		for _, c := range x.S.Ctors {
			for i, f := range c.Fields {
				if !sp.hasInv(f.S) {
					continue
				}
				if len(x.S.Ctors) == 1 {
					out = append(out, sp.invTerm(Sel(c, i, x)))
				} else if is := Is(c, x); is.Op != OFalse {
					out = append(out, Imp(is, sp.invTerm(Sel(c, i, x))))
				}
			}
		}
	case SList:
		i := invVar(x, IntS)
		b := sp.invTerm(At(x, i))
		if b.Op != OTrue {
			out = append(out, Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, Len(x))), b), []*Term{At(x, i)}))
		}
	case SMap:
		k := invVar(x, x.S.Key)
		b := sp.invTerm(MSel(x, k))
		if b.Op != OTrue {
			out = append(out, Forall([]*Term{k}, b, []*Term{MSel(x, k)}))
		}
	}
	return And(out...)
}

// constByName resolves Go constants (pkg.Name) and error sentinels.
func (sp *Specs) constByName(n string) *Term {
	k := strings.LastIndex(n, ".")
	if k < 0 {
		return nil
	}
	for _, p := range sp.e.pkgs {
		sh := strings.TrimPrefix(p.Pkg.Path(), repoPrefix)
		if sh == n[:k] || strings.HasSuffix(sh, "/"+n[:k]) {
			o := p.Pkg.Scope().Lookup(n[k+1:])
			switch c := o.(type) {
			case *types.Const:
				v, ok := new(big.Int).SetString(c.Val().ExactString(), 10)
				if ok {
					return IntB(v)
				}
				s, err := strconv.Unquote(c.Val().ExactString())
				if err == nil {
					return Lit(s)
				}
			case *types.Var:
				if isError(c.Type()) {
					return sp.e.sentinel(n)
				}
			}
		}
	}
	return nil
}

// sentinel: the constant denoting a package-level error variable.
func (e *Engine) sentinel(n string) *Term {
	k := strings.LastIndex(n, ".")
	for g, id := range e.globals {
		if g.Name() == n[k+1:] && strings.HasSuffix(strings.TrimPrefix(g.Pkg.Pkg.Path(), repoPrefix), n[:k]) {
			if t, ok := e.base.heap[id].V.(*Term); ok {
				return t
			}
		}
	}
	return Int(-9999)
}

func (sp *Specs) invNames() []string {
	var ns []string
	for n := range sp.TypeInvs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
