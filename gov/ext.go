package main

// Models of functions outside the repository (standard library, protobuf, uuid, edwards25519, hkdf).
// Every model is an assumption and is listed as such in the evidence.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sigX struct {
	args []*Sort
	ret  *Sort
}

var extSig = map[string]sigX{
	"hmac256":   {[]*Sort{BytesS, BytesS}, BytesS},
	"hmac512":   {[]*Sort{BytesS, BytesS}, BytesS},
	"sha512":    {[]*Sort{BytesS}, BytesS},
	"sha256":    {[]*Sort{BytesS}, BytesS},
	"hkdf256":   {[]*Sort{BytesS, BytesS, BytesS}, BytesS},
	"rnd":       {[]*Sort{IntS, IntS, IntS}, BytesS},
	"rndOk":     {[]*Sort{IntS, IntS, IntS}, BoolS}, // whether the reader gives that many bytes
	"cbcEnc":    {[]*Sort{BytesS, BytesS, BytesS}, BytesS},
	"cbcDec":    {[]*Sort{BytesS, BytesS, BytesS}, BytesS},
	"edVerify":  {[]*Sort{BytesS, BytesS, BytesS}, BoolS},
	"x25519":    {[]*Sort{BytesS, BytesS}, BytesS},
	"uuidOk":    {[]*Sort{BytesS}, BoolS},
	"uuidVal":   {[]*Sort{BytesS}, BytesS},
	"uuidStr":   {[]*Sort{BytesS}, BytesS},
	"fmtPad5":   {[]*Sort{IntS}, BytesS},
	"fmtUint":   {[]*Sort{IntS, IntS}, BytesS},
	"strlt":     {[]*Sort{BytesS, BytesS}, BoolS},
	"errText":   {[]*Sort{IntS}, BytesS},
	"hexEnc":    {[]*Sort{BytesS}, BytesS},
	"scClamp":   {[]*Sort{BytesS}, scalarU},
	"scUniform": {[]*Sort{BytesS}, scalarU},
	"scMulAdd":  {[]*Sort{scalarU, scalarU, scalarU}, scalarU},
	"scBytes":   {[]*Sort{scalarU}, BytesS},
	"baseMult":  {[]*Sort{scalarU}, pointU},
	"ptBytes":   {[]*Sort{pointU}, BytesS},
	"ptMont":    {[]*Sort{pointU}, BytesS},
	"feBytes":   {[]*Sort{BytesS}, fieldU},
	"feOut":     {[]*Sort{fieldU}, BytesS},
	"feOne":     {nil, fieldU},
	"feNeg":     {[]*Sort{fieldU}, fieldU},
	"feSub":     {[]*Sort{fieldU, fieldU}, fieldU},
	"feAdd":     {[]*Sort{fieldU, fieldU}, fieldU},
	"feMul":     {[]*Sort{fieldU, fieldU}, fieldU},
	"feInv":     {[]*Sort{fieldU}, fieldU},
	"ecdhPriv":  {[]*Sort{BytesS}, ecdhPrivU},
	"ecdhPub":   {[]*Sort{BytesS}, ecdhPubU},
}

var (
	scalarU   = uSort("filippo.io.edwards25519.Scalar")
	pointU    = uSort("filippo.io.edwards25519.Point")
	fieldU    = uSort("filippo.io.edwards25519.field.Element")
	ecdhPrivU = uSort("crypto.ecdh.PrivateKey")
	ecdhPubU  = uSort("crypto.ecdh.PublicKey")
)

func init() {
	for _, n := range []string{"hmac256", "sha256", "x25519", "scBytes", "ptBytes", "ptMont", "feOut"} {
		fnLen[n] = constLen(32)
	}
	for _, n := range []string{"hmac512", "sha512"} {
		fnLen[n] = constLen(64)
	}
	fnLen["hkdf256"] = constLen(8160)
	fnLen["uuidVal"] = constLen(16)
	fnLen["uuidStr"] = constLen(36)
	fnLen["rnd"] = func(a []*Term) *Term { return a[2] }
	fnLen["cbcEnc"] = func(a []*Term) *Term { return Len(a[2]) }
	fnLen["cbcDec"] = func(a []*Term) *Term { return Len(a[2]) }
	fnLen["hexEnc"] = func(a []*Term) *Term { return MulC(BI(2), Len(a[0])) }
	fnLen["fmtPad5"] = func(a []*Term) *Term {
		return Ite(Le(a[0], Int(99999)), Int(5), App("fmtPad5Len", IntS, a[0]))
	}
	fnSimp["cbcDec"] = func(a []*Term) *Term {
		if a[2].Op == OApp && a[2].Name == "cbcEnc" && a[2].Args[0] == a[0] && a[2].Args[1] == a[1] {
			return a[2].Args[2]
		}
		return nil
	}
	fnSimp["cbcEnc"] = func(a []*Term) *Term {
		if a[2].Op == OApp && a[2].Name == "cbcDec" && a[2].Args[0] == a[0] && a[2].Args[1] == a[1] {
			return a[2].Args[2]
		}
		return nil
	}
	fnSimp["hkdf256"] = func(a []*Term) *Term {
		n := Len(a[1])
		if n.isInt() && n.I.Sign() == 0 {
			return App("hkdf256", BytesS, a[0], Rep(Int(0), Int(32)), a[2])
		}
		return nil
	}
	fnSimp["errIs"] = func(a []*Term) *Term {
		if a[0] == a[1] {
			return tTrue
		}
		if a[1].isInt() && a[1].I.Sign() == 0 {
			return Eq(a[0], Int(0))
		}
		if a[0].isInt() && a[1].isInt() {
			return Bool(a[0].I.Cmp(a[1].I) == 0)
		}
		if a[0].Op == OIte {
			return Ite(a[0].Args[0], App("errIs", BoolS, a[0].Args[1], a[1]), App("errIs", BoolS, a[0].Args[2], a[1]))
		}
		return nil
	}
	fnSimp["errType"] = func(a []*Term) *Term {
		if a[0].isInt() && a[0].I.Sign() < 0 {
			return Int(typeID("*errors.errorString"))
		}
		if a[0].isInt() && a[0].I.Sign() == 0 {
			return Int(0)
		}
		return nil
	}
}

// ghostStruct: external struct types kept as ghost byte sequences.
func ghostStruct(t types.Type) string {
	switch tname(t) {
	case "bytes.Buffer", "strings.Builder":
		return "buffer"
	}
	return ""
}

func (e *Engine) extGlobal(st *State, g *ssa.Global) Val {
	// a read-only cell holding the value
	id := st.alloc(&Obj{Kind: "cell", T: derefT(g.Type()), V: e.extGlobalVal(st, g), Frozen: "package variable of another module"})
	return PtrV{Nil: tFalse, Obj: id}
}

func (e *Engine) extGlobalVal(st *State, g *ssa.Global) Val {
	t := derefT(g.Type())
	n := g.String()
	if isError(t) {
		return Int(-1000000 - typeID(n))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return IfaceV{T: t, Nil: tFalse, Op: Int(2000000 + typeID(n))}
	}
	if isExtStruct(t) {
		return LazyV{t, App("zero_"+mangle(tname(t)), e.sortOf(t))}
	}
	unsupported("external variable %s", n)
	return nil
}

type model = func(e *Engine, st *State, c *CC) []Val

func (c *CC) bytes(e *Engine, i int) *Term {
	switch x := c.args[i].(type) {
	case SliceV:
		return e.listOf(c.st, x)
	case *Term:
		return x
	case LazyV:
		return x.Term
	}
	unsupported("bytes argument of %s", c.name)
	return nil
}
func (c *CC) recvT(e *Engine, i int) *Term {
	p, ok := c.args[i].(PtrV)
	if !ok {
		unsupported("receiver of %s", c.name)
	}
	e.nilCheck(c.st, p.Nil, c.pos, "nil dereference")
	v := e.load(c.st, p)
	if l, ok := v.(LazyV); ok {
		return l.Term
	}
	unsupported("receiver of %s", c.name)
	return nil
}

func (e *Engine) newErr(st *State, typ string) *Term {
	er := FreshR("err", BI(1), nil)
	st.assume(Eq(App("errType", IntS, er), Int(typeID(typ))))
	for i := int64(1); i <= e.sentN; i++ {
		st.assume(Not(App("errIs", BoolS, er, Int(-i))))
	}
	return er
}

// errIf: nil exactly when ok.
func (e *Engine) errIf(st *State, ok *Term) *Term {
	ok = st.norm(ok)
	if ok.Op == OTrue {
		return Int(0)
	}
	er := e.newErr(st, "external error")
	return Ite(ok, Int(0), er)
}

func (e *Engine) ghost(c *CC, i int) (*Obj, int) {
	var id int
	switch x := c.args[i].(type) {
	case IfaceV:
		id = x.Ghost
		if p, ok := x.V.(PtrV); ok && id == 0 && len(p.Path) == 0 {
			id = p.Obj
		}
	case PtrV:
		e.nilCheck(c.st, x.Nil, c.pos, "nil dereference")
		if len(x.Path) > 0 {
			unsupported("embedded buffer")
		}
		id = x.Obj
	}
	if id == 0 {
		unsupported("argument of %s", c.name)
	}
	o := c.st.obj(id)
	e.checkLive(o)
	if o.Kind != "ghost" {
		unsupported("argument of %s", c.name)
	}
	return o, id
}

func (e *Engine) newGhost(st *State, t types.Type, g string, gt map[string]*Term, gv map[string]Val) int {
	return st.alloc(&Obj{Kind: "ghost", T: t, G: g, GT: gt, GV: gv})
}

func (e *Engine) newCell(st *State, t types.Type, x *Term) PtrV {
	id := st.alloc(&Obj{Kind: "cell", T: t, V: LazyV{t, x}, Src: x})
	return PtrV{Nil: tFalse, Obj: id}
}

func bufAppend(n func(e *Engine, c *CC) *Term, res func(x *Term) []Val) model {
	return func(e *Engine, st *State, c *CC) []Val {
		_, id := e.ghost(c, 0)
		x := n(e, c)
		m := st.mut(id)
		m.GT["data"] = st.norm(Cat(BytesS, m.GT["data"], x))
		return res(x)
	}
}

func hashAlg(c *CC, v Val) string {
	f, ok := v.(FuncV)
	if ok && f.Fn != nil {
		switch f.Fn.String() {
		case "crypto/sha256.New":
			return "256"
		case "crypto/sha512.New":
			return "512"
		}
	}
	unsupported("hash function of %s", c.name)
	return ""
}

// setter: methods of external value types that overwrite the receiver and return it.
func setter(f func(e *Engine, st *State, c *CC) *Term) model {
	return func(e *Engine, st *State, c *CC) []Val {
		p := c.args[0].(PtrV)
		e.nilCheck(st, p.Nil, c.pos, "nil dereference")
		x := f(e, st, c)
		e.store(st, p, LazyV{derefT(c.sig.Recv().Type()), x}, nil)
		return []Val{PtrV{Nil: tFalse, Obj: p.Obj, Path: p.Path}}
	}
}

var models map[string]model

// format is the result of formatting with literal text and verbs whose meaning is modelled, or nil.
func format(f string, as []*Term) *Term {
	var ps []*Term
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i != 0 {
			if i < 0 {
				i = len(f)
			}
			ps = append(ps, Lit(f[:i]))
			f = f[i:]
			continue
		}
		verb := ""
		for _, v := range []string{"%05d", "%.5d", "%d", "%s", "%%"} {
			if strings.HasPrefix(f, v) {
				verb = v
			}
		}
		f = f[len(verb):]
		if verb == "%%" {
			ps = append(ps, Lit("%"))
			continue
		}
		if verb == "" || len(as) == 0 {
			return nil
		}
		a := as[0]
		as = as[1:]
		switch {
		case verb == "%s" && a.S == BytesS:
			ps = append(ps, a)
		case verb == "%d" && a.S == IntS:
			ps = append(ps, App("fmtUint", BytesS, a, Int(10)))
		case (verb == "%05d" || verb == "%.5d") && a.S == IntS:
			if lo, _ := bounds(a); lo == nil || lo.Sign() < 0 {
				return nil
			}
			ps = append(ps, App("fmtPad5", BytesS, a))
		default:
			return nil
		}
	}
	if len(as) != 0 {
		return nil
	}
	return Cat(BytesS, ps...)
}

func sprintf(e *Engine, st *State, c *CC, fi int) *Term {
	f := c.args[fi].(*Term)
	if f.Op != OLit && f.Op != OEmpty {
		return Fresh("fmt", BytesS)
	}
	sl := c.args[fi+1].(SliceV)
	var as []*Term
	if sl.Arr != 0 {
		o := st.obj(sl.Arr)
		if o.Vals == nil {
			return Fresh("fmt", BytesS)
		}
		for _, v := range o.Vals {
			iv, ok := v.(IfaceV)
			if !ok {
				return Fresh("fmt", BytesS)
			}
			t, ok := iv.V.(*Term)
			if !ok || iv.Dyn == nil {
				return Fresh("fmt", BytesS)
			}
			if n, isN := iv.Dyn.(*types.Named); isN && e.prog.LookupMethod(n, n.Obj().Pkg(), "String") != nil {
				return Fresh("fmt", BytesS)
			}
			as = append(as, t)
		}
	}
	if f.Op == OLit {
		if t := format(f.Name, as); t != nil {
			return st.norm(t)
		}
	}
	n := ""
	if f.Op == OLit {
		n = f.Name
	}
	key := "sprintf_" + mangle(n)
	for _, a := range as {
		key += "_" + a.S.Name
	}
	return App(key, BytesS, as...)
}

func protoArg(e *Engine, st *State, v Val) (PtrV, types.Type) {
	iv, ok := v.(IfaceV)
	if !ok || iv.Dyn == nil {
		unsupported("protobuf message of unknown type")
	}
	p, ok := iv.V.(PtrV)
	if !ok {
		unsupported("protobuf message of unknown type")
	}
	return p, derefT(iv.Dyn)
}

func init() {
	models = map[string]model{
		// errors and formatting
		"errors.New": func(e *Engine, st *State, c *CC) []Val {
			if e.inInit {
				e.sentN++
				return []Val{Int(-e.sentN)}
			}
			return []Val{e.newErr(st, "*errors.errorString")}
		},
		"errors.Is": func(e *Engine, st *State, c *CC) []Val {
			return []Val{st.norm(App("errIs", BoolS, c.args[0].(*Term), c.args[1].(*Term)))}
		},
		"fmt.Errorf": func(e *Engine, st *State, c *CC) []Val {
			er := FreshR("err", BI(1), nil)
			st.assume(Eq(App("errType", IntS, er), Int(typeID("*fmt.wrapError"))))
			var inner *Term
			f := c.args[0].(*Term)
			if f.Op != OLit || strings.Contains(f.Name, "%w") {
				if sl := c.args[1].(SliceV); sl.Arr != 0 {
					o := st.obj(sl.Arr)
					n := 0
					for _, v := range o.Vals {
						if t, ok := v.(*Term); ok {
							inner = t
							n++
						}
					}
					if n != 1 || strings.Count(f.Name, "%w") != 1 {
						unsupported("error wrapping")
					}
				}
			}
			for i := int64(1); i <= e.sentN; i++ {
				r := tFalse
				if inner != nil {
					r = App("errIs", BoolS, inner, Int(-i))
				}
				st.assume(Iff(App("errIs", BoolS, er, Int(-i)), r))
			}
			return []Val{er}
		},
		"fmt.Sprintf": func(e *Engine, st *State, c *CC) []Val { return []Val{sprintf(e, st, c, 0)} },
		"fmt.Fprintf": func(e *Engine, st *State, c *CC) []Val {
			iv, ok := c.args[0].(IfaceV)
			if !ok || iv.Dyn == nil {
				unsupported("fmt.Fprintf to an unknown writer")
			}
			switch iv.Dyn.String() {
			case "*bytes.Buffer", "*strings.Builder":
			default:
				unsupported("fmt.Fprintf to a %s", iv.Dyn)
			}
			_, id := e.ghost(c, 0)
			x := sprintf(e, st, c, 1)
			m := st.mut(id)
			m.GT["data"] = st.norm(Cat(BytesS, m.GT["data"], x))
			return []Val{Len(x), Int(0)}
		},
		"encoding/hex.EncodeToString": func(e *Engine, st *State, c *CC) []Val {
			return []Val{App("hexEnc", BytesS, c.bytes(e, 0))}
		},
		"strconv.FormatUint": func(e *Engine, st *State, c *CC) []Val {
			return []Val{App("fmtUint", BytesS, c.args[0].(*Term), c.args[1].(*Term))}
		},
		"strconv.FormatInt": func(e *Engine, st *State, c *CC) []Val {
			return []Val{App("fmtUint", BytesS, c.args[0].(*Term), c.args[1].(*Term))}
		},
		"strconv.Itoa": func(e *Engine, st *State, c *CC) []Val {
			return []Val{App("fmtUint", BytesS, c.args[0].(*Term), Int(10))}
		},
		// comparisons
		"bytes.Equal":   func(e *Engine, st *State, c *CC) []Val { return []Val{st.norm(Eq(c.bytes(e, 0), c.bytes(e, 1)))} },
		"bytes.Compare": func(e *Engine, st *State, c *CC) []Val { return []Val{compare(c.bytes(e, 0), c.bytes(e, 1))} },
		"strings.Compare": func(e *Engine, st *State, c *CC) []Val {
			return []Val{compare(c.args[0].(*Term), c.args[1].(*Term))}
		},
		// one goroutine at a time: locks have no effect
		"(*sync.Mutex).Lock":      noEffect,
		"(*sync.Mutex).Unlock":    noEffect,
		"(*sync.RWMutex).Lock":    noEffect,
		"(*sync.RWMutex).Unlock":  noEffect,
		"(*sync.RWMutex).RLock":   noEffect,
		"(*sync.RWMutex).RUnlock": noEffect,
		"runtime.KeepAlive":       noEffect,
		"bytes.HasPrefix":         func(e *Engine, st *State, c *CC) []Val { return []Val{hasPrefix(c.bytes(e, 0), c.bytes(e, 1))} },
		"strings.HasPrefix": func(e *Engine, st *State, c *CC) []Val {
			return []Val{hasPrefix(c.args[0].(*Term), c.args[1].(*Term))}
		},
		"bytes.HasSuffix": func(e *Engine, st *State, c *CC) []Val { return []Val{hasSuffix(c.bytes(e, 0), c.bytes(e, 1))} },
		"strings.HasSuffix": func(e *Engine, st *State, c *CC) []Val {
			return []Val{hasSuffix(c.args[0].(*Term), c.args[1].(*Term))}
		},
		"crypto/hmac.Equal": func(e *Engine, st *State, c *CC) []Val {
			return []Val{st.norm(Eq(c.bytes(e, 0), c.bytes(e, 1)))}
		},
		"crypto/subtle.ConstantTimeEq":     ctEq,
		"crypto/subtle.ConstantTimeByteEq": ctEq,
		"crypto/subtle.ConstantTimeLessOrEq": func(e *Engine, st *State, c *CC) []Val {
			return []Val{Ite(st.norm(Le(c.args[0].(*Term), c.args[1].(*Term))), Int(1), Int(0))}
		},
		"google.golang.org/protobuf/proto.Bool":   protoPtr,
		"google.golang.org/protobuf/proto.Int32":  protoPtr,
		"google.golang.org/protobuf/proto.Int64":  protoPtr,
		"google.golang.org/protobuf/proto.Uint32": protoPtr,
		"google.golang.org/protobuf/proto.Uint64": protoPtr,
		"google.golang.org/protobuf/proto.String": protoPtr,
		"crypto/subtle.ConstantTimeCompare": func(e *Engine, st *State, c *CC) []Val {
			return []Val{Ite(st.norm(Eq(c.bytes(e, 0), c.bytes(e, 1))), Int(1), Int(0))}
		},
		"bytes.Repeat": func(e *Engine, st *State, c *CC) []Val {
			b, n := c.bytes(e, 0), c.args[1].(*Term)
			e.safe(st, "negative repeat count", c.pos, Le(Int(0), n))
			if l := Len(b); !(l.isInt() && l.I.Int64() == 1) {
				unsupported("bytes.Repeat of several bytes")
			}
			return []Val{e.bytesSlice(st, Rep(AtIn(b, Int(0)), n), false)}
		},
		"bytes.Clone": func(e *Engine, st *State, c *CC) []Val {
			return []Val{e.outSlice(st, c.bytes(e, 0), types.Typ[types.Uint8])}
		},
		"bytes.Join": func(e *Engine, st *State, c *CC) []Val {
			s := c.args[0].(SliceV)
			if s.Arr == 0 {
				return []Val{e.bytesSlice(st, Empty(BytesS), false)}
			}
			o := st.obj(s.Arr)
			sep := c.bytes(e, 1)
			if o.Vals == nil || !s.Off.isInt() || !s.Len.isInt() {
				_, f := recDefs["flatTo"]
				if l := st.norm(Len(sep)); !f || !(l.isInt() && l.I.Sign() == 0) {
					unsupported("bytes.Join of a symbolic list")
				}
				l := e.listOf(st, s)
				return []Val{e.bytesSlice(st, App("flatTo", BytesS, l, Len(l)), false)}
			}
			var ps []*Term
			for i, v := range o.Vals[s.Off.I.Int64() : s.Off.I.Int64()+s.Len.I.Int64()] {
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, e.listOf(st, v.(SliceV)))
			}
			return []Val{e.bytesSlice(st, Cat(BytesS, ps...), false)}
		},
		// buffers
		"bytes.NewBuffer": func(e *Engine, st *State, c *CC) []Val {
			id := e.newGhost(st, derefT(c.sig.Results().At(0).Type()), "buffer", map[string]*Term{"data": c.bytes(e, 0)}, nil)
			if s := c.args[0].(SliceV); s.Arr != 0 {
				o := st.obj(s.Arr)
				if o.Foreign {
					full := Eq(s.Cap, s.Len)
					e.prove(st, e.curName+"#frame:buffer may write into memory owned by the caller", "frame", []string{"C08", "C14"}, "", full)
				}
				if o.Frozen == "" && o.Root != "#global" {
					st.mut(s.Arr).Frozen = "memory owned by a buffer"
				}
			}
			return []Val{PtrV{Nil: tFalse, Obj: id}}
		},
		"(*bytes.Buffer).Write":          bufAppend(func(e *Engine, c *CC) *Term { return c.bytes(e, 1) }, func(x *Term) []Val { return []Val{Len(x), Int(0)} }),
		"(*bytes.Buffer).WriteString":    bufAppend(func(e *Engine, c *CC) *Term { return c.args[1].(*Term) }, func(x *Term) []Val { return []Val{Len(x), Int(0)} }),
		"(*bytes.Buffer).WriteByte":      bufAppend(func(e *Engine, c *CC) *Term { return Unit(c.args[1].(*Term)) }, func(x *Term) []Val { return []Val{Int(0)} }),
		"(*strings.Builder).Write":       bufAppend(func(e *Engine, c *CC) *Term { return c.bytes(e, 1) }, func(x *Term) []Val { return []Val{Len(x), Int(0)} }),
		"(*strings.Builder).WriteString": bufAppend(func(e *Engine, c *CC) *Term { return c.args[1].(*Term) }, func(x *Term) []Val { return []Val{Len(x), Int(0)} }),
		"(*strings.Builder).WriteByte":   bufAppend(func(e *Engine, c *CC) *Term { return Unit(c.args[1].(*Term)) }, func(x *Term) []Val { return []Val{Int(0)} }),
		"(*strings.Builder).String":      bufString,
		"(*strings.Builder).Len":         bufLen,
		"(*strings.Builder).Grow":        bufGrow,
		"(*bytes.Buffer).String":         bufString,
		"(*bytes.Buffer).Len":            bufLen,
		"(*bytes.Buffer).Grow":           bufGrow,
		"(*bytes.Buffer).Bytes": func(e *Engine, st *State, c *CC) []Val {
			o, _ := e.ghost(c, 0)
			id := st.alloc(&Obj{Kind: "arr", T: types.Typ[types.Uint8], List: o.GT["data"], Frozen: "memory owned by a buffer"})
			n := Len(o.GT["data"])
			cp := FreshR("cap", big0, nil)
			st.assume(Le(n, cp))
			return []Val{SliceV{Arr: id, Off: Int(0), Len: n, Cap: cp, Elem: types.Typ[types.Uint8]}}
		},
		"(*bytes.Buffer).Reset": func(e *Engine, st *State, c *CC) []Val {
			_, id := e.ghost(c, 0)
			st.mut(id).GT["data"] = Empty(BytesS)
			return nil
		},
		// hashes
		"crypto/sha256.New": func(e *Engine, st *State, c *CC) []Val { return newHash(e, st, c, "sha256", nil) },
		"crypto/sha512.New": func(e *Engine, st *State, c *CC) []Val { return newHash(e, st, c, "sha512", nil) },
		"crypto/hmac.New": func(e *Engine, st *State, c *CC) []Val {
			return newHash(e, st, c, "hmac"+hashAlg(c, c.args[0]), c.bytes(e, 1))
		},
		"crypto/sha512.Sum512": func(e *Engine, st *State, c *CC) []Val { return []Val{App("sha512", BytesS, c.bytes(e, 0))} },
		"crypto/sha256.Sum256": func(e *Engine, st *State, c *CC) []Val { return []Val{App("sha256", BytesS, c.bytes(e, 0))} },
		"hash.Write":           bufAppend(func(e *Engine, c *CC) *Term { return c.bytes(e, 1) }, func(x *Term) []Val { return []Val{Len(x), Int(0)} }),
		"hash.Sum": func(e *Engine, st *State, c *CC) []Val {
			o, _ := e.ghost(c, 0)
			x := hashVal(o)
			return []Val{e.appendTerm(st, c.args[1].(SliceV), x, types.Typ[types.Uint8])}
		},
		"hash.Reset": func(e *Engine, st *State, c *CC) []Val {
			_, id := e.ghost(c, 0)
			st.mut(id).GT["data"] = Empty(BytesS)
			return nil
		},
		"hash.Size": func(e *Engine, st *State, c *CC) []Val {
			o, _ := e.ghost(c, 0)
			return []Val{Len(hashVal(o))}
		},
		// key derivation and randomness
		"golang.org/x/crypto/hkdf.New": func(e *Engine, st *State, c *CC) []Val {
			if hashAlg(c, c.args[0]) != "256" {
				unsupported("hkdf hash")
			}
			salt := c.bytes(e, 2)
			s := App("hkdf256", BytesS, c.bytes(e, 1), salt, c.bytes(e, 3))
			if n := Len(salt); !n.isInt() {
				s = App("hkdf256", BytesS, c.bytes(e, 1), Ite(st.norm(Eq(n, Int(0))), Rep(Int(0), Int(32)), salt), c.bytes(e, 3))
			}
			id := e.newGhost(st, c.sig.Results().At(0).Type(), "hkdf", map[string]*Term{"stream": s, "pos": Int(0)}, nil)
			return []Val{IfaceV{T: c.sig.Results().At(0).Type(), Nil: tFalse, Ghost: id}}
		},
		"io.ReadFull": readFull,
		"crypto/rand.Read": func(e *Engine, st *State, c *CC) []Val {
			return readRandom(e, st, c, Int(2000000+typeID("crypto/rand.Reader")), c.args[0].(SliceV))
		},
		"encoding/binary.Read": binaryRead,
		// uuid
		"github.com/google/uuid.Parse":      uuidParse,
		"github.com/google/uuid.ParseBytes": uuidParse,
		"github.com/google/uuid.MustParse": func(e *Engine, st *State, c *CC) []Val {
			b := c.bytes(e, 0)
			e.safe(st, "uuid.MustParse of an invalid identifier", c.pos, App("uuidOk", BoolS, b))
			return []Val{App("uuidVal", BytesS, b)}
		},
		"(github.com/google/uuid.UUID).String": func(e *Engine, st *State, c *CC) []Val {
			return []Val{App("uuidStr", BytesS, c.bytes(e, 0))}
		},
		// AES
		"crypto/aes.NewCipher": func(e *Engine, st *State, c *CC) []Val {
			k := c.bytes(e, 0)
			n := Len(k)
			ok := st.norm(Or(Eq(n, Int(16)), Eq(n, Int(24)), Eq(n, Int(32))))
			t := c.sig.Results().At(0).Type()
			id := e.newGhost(st, t, "aesblock", map[string]*Term{"key": k}, nil)
			return []Val{IfaceV{T: t, Nil: Not(ok), Ghost: id}, e.errIf(st, ok)}
		},
		"crypto/cipher.NewCBCEncrypter": func(e *Engine, st *State, c *CC) []Val { return newCBC(e, st, c, "cbcenc") },
		"crypto/cipher.NewCBCDecrypter": func(e *Engine, st *State, c *CC) []Val { return newCBC(e, st, c, "cbcdec") },
		"cbcenc.CryptBlocks":            func(e *Engine, st *State, c *CC) []Val { return cryptBlocks(e, st, c, "cbcEnc") },
		"cbcdec.CryptBlocks":            func(e *Engine, st *State, c *CC) []Val { return cryptBlocks(e, st, c, "cbcDec") },
		"cbcenc.BlockSize":              func(e *Engine, st *State, c *CC) []Val { return []Val{Int(16)} },
		"cbcdec.BlockSize":              func(e *Engine, st *State, c *CC) []Val { return []Val{Int(16)} },
		"aesblock.BlockSize":            func(e *Engine, st *State, c *CC) []Val { return []Val{Int(16)} },
		// signatures
		"crypto/ed25519.Verify": func(e *Engine, st *State, c *CC) []Val {
			p := c.bytes(e, 0)
			e.safe(st, "ed25519 public key length", c.pos, Eq(Len(p), Int(32)))
			return []Val{App("edVerify", BoolS, p, c.bytes(e, 1), c.bytes(e, 2))}
		},
		"filippo.io/edwards25519.NewScalar": func(e *Engine, st *State, c *CC) []Val {
			t := derefT(c.sig.Results().At(0).Type())
			return []Val{e.newCell(st, t, App("zero_"+mangle(tname(t)), e.sortOf(t)))}
		},
		"(*filippo.io/edwards25519.Scalar).SetBytesWithClamping": func(e *Engine, st *State, c *CC) []Val {
			b := c.bytes(e, 1)
			ok := st.norm(Eq(Len(b), Int(32)))
			return setErr(e, st, c, ok, App("scClamp", scalarU, b))
		},
		"(*filippo.io/edwards25519.Scalar).SetUniformBytes": func(e *Engine, st *State, c *CC) []Val {
			b := c.bytes(e, 1)
			ok := st.norm(Eq(Len(b), Int(64)))
			return setErr(e, st, c, ok, App("scUniform", scalarU, b))
		},
		"(*filippo.io/edwards25519.Scalar).MultiplyAdd": setter(func(e *Engine, st *State, c *CC) *Term {
			return App("scMulAdd", scalarU, c.recvT(e, 1), c.recvT(e, 2), c.recvT(e, 3))
		}),
		"(*filippo.io/edwards25519.Scalar).Bytes": extBytes("scBytes"),
		"(*filippo.io/edwards25519.Point).ScalarBaseMult": setter(func(e *Engine, st *State, c *CC) *Term {
			return App("baseMult", pointU, c.recvT(e, 1))
		}),
		"(*filippo.io/edwards25519.Point).Bytes":           extBytes("ptBytes"),
		"(*filippo.io/edwards25519.Point).BytesMontgomery": extBytes("ptMont"),
		"(*filippo.io/edwards25519/field.Element).SetBytes": func(e *Engine, st *State, c *CC) []Val {
			b := c.bytes(e, 1)
			ok := st.norm(Eq(Len(b), Int(32)))
			return setErr(e, st, c, ok, App("feBytes", fieldU, b))
		},
		"(*filippo.io/edwards25519/field.Element).One":    setter(func(e *Engine, st *State, c *CC) *Term { return App("feOne", fieldU) }),
		"(*filippo.io/edwards25519/field.Element).Negate": setter(func(e *Engine, st *State, c *CC) *Term { return App("feNeg", fieldU, c.recvT(e, 1)) }),
		"(*filippo.io/edwards25519/field.Element).Invert": setter(func(e *Engine, st *State, c *CC) *Term { return App("feInv", fieldU, c.recvT(e, 1)) }),
		"(*filippo.io/edwards25519/field.Element).Subtract": setter(func(e *Engine, st *State, c *CC) *Term {
			return App("feSub", fieldU, c.recvT(e, 1), c.recvT(e, 2))
		}),
		"(*filippo.io/edwards25519/field.Element).Add": setter(func(e *Engine, st *State, c *CC) *Term {
			return App("feAdd", fieldU, c.recvT(e, 1), c.recvT(e, 2))
		}),
		"(*filippo.io/edwards25519/field.Element).Multiply": setter(func(e *Engine, st *State, c *CC) *Term {
			return App("feMul", fieldU, c.recvT(e, 1), c.recvT(e, 2))
		}),
		"(*filippo.io/edwards25519/field.Element).Equal": func(e *Engine, st *State, c *CC) []Val {
			return []Val{Ite(st.norm(Eq(c.recvT(e, 0), c.recvT(e, 1))), Int(1), Int(0))}
		},
		"(*filippo.io/edwards25519/field.Element).Bytes": extBytes("feOut"),
		// X25519
		"crypto/ecdh.X25519": func(e *Engine, st *State, c *CC) []Val {
			return []Val{IfaceV{T: c.sig.Results().At(0).Type(), Nil: tFalse, Op: Int(2000001)}}
		},
		"crypto/ecdh.Curve.NewPrivateKey": func(e *Engine, st *State, c *CC) []Val { return newEcdh(e, st, c, "ecdhPriv", ecdhPrivU) },
		"crypto/ecdh.Curve.NewPublicKey":  func(e *Engine, st *State, c *CC) []Val { return newEcdh(e, st, c, "ecdhPub", ecdhPubU) },
		"(*crypto/ecdh.PrivateKey).ECDH": func(e *Engine, st *State, c *CC) []Val {
			a, b := c.recvT(e, 0), c.recvT(e, 1)
			k := App("ecdhPrivBytes", BytesS, a)
			p := App("ecdhPubBytes", BytesS, b)
			r := App("x25519", BytesS, k, p)
			ok := st.norm(Not(Eq(r, Rep(Int(0), Int(32)))))
			er := e.errIf(st, ok)
			// nil on failure
			out := Ite(Eq(er, Int(0)), r, Empty(BytesS))
			id := st.alloc(&Obj{Kind: "arr", T: types.Typ[types.Uint8], List: out})
			n := Len(out)
			return []Val{SliceV{Arr: id, Off: Int(0), Len: n, Cap: n, Elem: types.Typ[types.Uint8]}, er}
		},
		// protobuf
		"google.golang.org/protobuf/proto.Marshal": func(e *Engine, st *State, c *CC) []Val {
			p, t := protoArg(e, st, c.args[0])
			s := e.sortOf(t)
			if p.Nil.Op == OTrue {
				return []Val{e.bytesSlice(st, Empty(BytesS), false), Int(0)}
			}
			e.nilCheck(st, p.Nil, c.pos, "nil protobuf message")
			x := e.pack(st, PtrV{Nil: tFalse, Obj: p.Obj, Path: p.Path}, types.NewPointer(t))
			b := App("marshal_"+s.Name, BytesS, OptVal(x))
			return []Val{e.outSlice(st, b, types.Typ[types.Uint8]), Int(0)}
		},
		"google.golang.org/protobuf/proto.Unmarshal": func(e *Engine, st *State, c *CC) []Val {
			b := c.bytes(e, 0)
			p, t := protoArg(e, st, c.args[1])
			e.nilCheck(st, p.Nil, c.pos, "nil protobuf message")
			s := e.sortOf(t)
			ok := st.norm(App("unmarshalOk_"+s.Name, BoolS, b))
			x := App("unmarshal_"+s.Name, s, b)
			v := Ite(ok, x, Fresh("partial", s))
			e.store(st, p, LazyV{t, v}, t)
			return []Val{e.errIf(st, ok)}
		},
		"google.golang.org/protobuf/proto.Clone": func(e *Engine, st *State, c *CC) []Val {
			p, t := protoArg(e, st, c.args[0])
			iv := c.args[0].(IfaceV)
			if p.Nil.Op == OTrue {
				return []Val{iv}
			}
			x := e.packPath(st, p, t, 0)
			n := e.newCell(st, t, x)
			n.Nil = p.Nil
			return []Val{IfaceV{T: iv.T, Dyn: iv.Dyn, V: n, Nil: tFalse}}
		},
	}
	fnSimp["ecdhPrivBytes"] = func(a []*Term) *Term {
		if a[0].Op == OApp && a[0].Name == "ecdhPriv" {
			return a[0].Args[0]
		}
		return nil
	}
	fnSimp["ecdhPubBytes"] = func(a []*Term) *Term {
		if a[0].Op == OApp && a[0].Name == "ecdhPub" {
			return a[0].Args[0]
		}
		return nil
	}
	fnLen["ecdhPrivBytes"] = constLen(32)
	fnLen["ecdhPubBytes"] = constLen(32)
	extSig["ecdhPrivBytes"] = sigX{[]*Sort{ecdhPrivU}, BytesS}
	extSig["ecdhPubBytes"] = sigX{[]*Sort{ecdhPubU}, BytesS}
}

func newEcdh(e *Engine, st *State, c *CC, f string, s *Sort) []Val {
	b := c.bytes(e, 1)
	ok := st.norm(Eq(Len(b), Int(32)))
	p := e.newCell(st, derefT(c.sig.Results().At(0).Type()), App(f, s, b))
	p.Nil = Not(ok)
	return []Val{p, e.errIf(st, ok)}
}

func setErr(e *Engine, st *State, c *CC, ok, x *Term) []Val {
	p := c.args[0].(PtrV)
	e.nilCheck(st, p.Nil, c.pos, "nil dereference")
	old := c.recvT(e, 0)
	e.store(st, p, LazyV{derefT(c.sig.Recv().Type()), Ite(ok, x, old)}, nil)
	return []Val{PtrV{Nil: Not(ok), Obj: p.Obj, Path: p.Path}, e.errIf(st, ok)}
}

func extBytes(f string) model {
	return func(e *Engine, st *State, c *CC) []Val {
		return []Val{e.bytesSlice(st, App(f, BytesS, c.recvT(e, 0)), false)}
	}
}

func newHash(e *Engine, st *State, c *CC, alg string, key *Term) []Val {
	gt := map[string]*Term{"data": Empty(BytesS)}
	if key != nil {
		gt["key"] = key
	}
	t := c.sig.Results().At(0).Type()
	id := e.newGhost(st, t, "hash", gt, map[string]Val{"alg": alg})
	return []Val{IfaceV{T: t, Nil: tFalse, Ghost: id}}
}
func hashVal(o *Obj) *Term {
	alg := o.GV["alg"].(string)
	if k, ok := o.GT["key"]; ok {
		return App(alg, BytesS, k, o.GT["data"])
	}
	return App(alg, BytesS, o.GT["data"])
}

func bufString(e *Engine, st *State, c *CC) []Val {
	o, _ := e.ghost(c, 0)
	return []Val{o.GT["data"]}
}
func bufLen(e *Engine, st *State, c *CC) []Val {
	o, _ := e.ghost(c, 0)
	return []Val{Len(o.GT["data"])}
}
func bufGrow(e *Engine, st *State, c *CC) []Val {
	e.safe(st, "negative Grow", c.pos, Le(Int(0), c.args[1].(*Term)))
	return nil
}

func readFull(e *Engine, st *State, c *CC) []Val {
	iv, ok := c.args[0].(IfaceV)
	if !ok {
		unsupported("reader")
	}
	e.nilCheck(st, st.norm(iv.Nil), c.pos, "nil reader")
	if st.dead {
		return nil
	}
	s := c.args[1].(SliceV)
	if iv.Ghost != 0 {
		o := st.obj(iv.Ghost)
		if o.G != "hkdf" {
			unsupported("io.ReadFull from %s", o.G)
		}
		pos := o.GT["pos"]
		end := st.norm(Add(pos, s.Len))
		if !st.implied(Le(end, Int(8160))) {
			unsupported("hkdf output limit")
		}
		e.writeBytes(st, s, st.norm(Ext(o.GT["stream"], pos, end)))
		st.mut(iv.Ghost).GT["pos"] = end
		return []Val{s.Len, Int(0)}
	}
	if iv.Op == nil {
		unsupported("reader of type %v", iv.Dyn)
	}
	return readRandom(e, st, c, iv.Op, s)
}

func readRandom(e *Engine, st *State, c *CC, rd *Term, s SliceV) []Val {
	if st.rng == nil {
		unsupported("randomness")
	}
	er := e.newErr(st, "external error")
	ok := App("rndOk", BoolS, rd, st.rng, s.Len)
	if c.name == "crypto/rand.Read" {
		ok = tTrue
	}
	v := App("rnd", BytesS, rd, st.rng, s.Len)
	bad := Fresh("partial", BytesS)
	st.assume(Eq(Len(bad), s.Len))
	e.writeBytes(st, s, Ite(ok, v, bad))
	st.rng = Add(st.rng, Int(1))
	n := FreshR("n", big0, nil)
	return []Val{Ite(ok, s.Len, n), Ite(ok, Int(0), er)}
}

func compare(a, b *Term) *Term {
	return Ite(Eq(a, b), Int(0), Ite(strLt(a, b), Int(-1), Int(1)))
}

func hasPrefix(a, b *Term) *Term {
	return And(Le(Len(b), Len(a)), Eq(Ext(a, Int(0), Len(b)), b))
}

func hasSuffix(a, b *Term) *Term {
	return And(Le(Len(b), Len(a)), Eq(Ext(a, Sub(Len(a), Len(b)), Len(a)), b))
}

// fixed: the unsigned integer encoded in the first n bytes of b.
func fixed(b *Term, n int, big bool) *Term {
	r := Int(0)
	for i := 0; i < n; i++ {
		sh := 8 * i
		if big {
			sh = 8 * (n - 1 - i)
		}
		r = Add(r, MulC(pow2(sh), AtIn(b, Int(int64(i)))))
	}
	return r
}

// fixedBytes encodes v in n bytes.
func fixedBytes(v *Term, n int, big bool) *Term {
	var ps []*Term
	for i := 0; i < n; i++ {
		sh := 8 * i
		if big {
			sh = 8 * (n - 1 - i)
		}
		ps = append(ps, Unit(Mod(Div(v, IntB(pow2(sh))), Int(256))))
	}
	return Cat(BytesS, ps...)
}

func init() {
	for _, o := range []string{"littleEndian", "bigEndian"} {
		big := o == "bigEndian"
		for bits := 16; bits <= 64; bits *= 2 {
			n := bits / 8
			u := "Uint" + strconv.Itoa(bits)
			for _, pre := range []string{"encoding/binary." + o + ".", "(encoding/binary." + o + ")."} {
				models[pre+u] = func(e *Engine, st *State, c *CC) []Val {
					b := c.bytes(e, 1)
					e.safe(st, "binary."+u+" of a short slice", c.pos, Le(Int(int64(n)), Len(b)))
					return []Val{fixed(b, n, big)}
				}
				models[pre+"Put"+u] = func(e *Engine, st *State, c *CC) []Val {
					s := c.args[1].(SliceV)
					e.safe(st, "binary.Put"+u+" to a short slice", c.pos, Le(Int(int64(n)), s.Len))
					if !st.dead {
						s.Len = Int(int64(n))
						e.writeBytes(st, s, fixedBytes(c.args[2].(*Term), n, big))
					}
					return nil
				}
				models[pre+"Append"+u] = func(e *Engine, st *State, c *CC) []Val {
					return []Val{e.appendTerm(st, c.args[1].(SliceV), fixedBytes(c.args[2].(*Term), n, big), types.Typ[types.Uint8])}
				}
			}
		}
	}
}

// binaryRead: of one fixed-size unsigned integer.
func binaryRead(e *Engine, st *State, c *CC) []Val {
	rd, ok := c.args[0].(IfaceV)
	if !ok || rd.Op == nil {
		unsupported("binary.Read from this reader")
	}
	e.nilCheck(st, st.norm(rd.Nil), c.pos, "nil reader")
	ord, ok := c.args[1].(IfaceV)
	dst, ok2 := c.args[2].(IfaceV)
	if !ok || !ok2 || ord.Dyn == nil || dst.Dyn == nil {
		unsupported("binary.Read")
	}
	pt, ok := dst.Dyn.Underlying().(*types.Pointer)
	if !ok {
		unsupported("binary.Read into %v", dst.Dyn)
	}
	b, ok := pt.Elem().Underlying().(*types.Basic)
	sizes := map[types.BasicKind]int{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}
	n := 0
	if ok {
		n = sizes[b.Kind()]
	}
	big, little := strings.HasSuffix(tname(ord.Dyn), "bigEndian"), strings.HasSuffix(tname(ord.Dyn), "littleEndian")
	if n == 0 || !big && !little {
		unsupported("binary.Read into %v", dst.Dyn)
	}
	if st.rng == nil {
		unsupported("randomness")
	}
	if st.dead {
		return nil
	}
	er := e.newErr(st, "external error")
	good := st.norm(App("rndOk", BoolS, rd.Op, st.rng, Int(int64(n))))
	v := App("rnd", BytesS, rd.Op, st.rng, Int(int64(n)))
	p := e.ptr(st, dst.V)
	e.nilCheck(st, p.Nil, c.pos, "binary.Read into a nil pointer")
	old := e.load(st, p).(*Term)
	e.store(st, p, st.norm(Ite(good, fixed(v, n, big), old)), pt.Elem())
	st.rng = Add(st.rng, Int(1))
	return []Val{Ite(good, Int(0), er)}
}

func uuidParse(e *Engine, st *State, c *CC) []Val {
	b := c.bytes(e, 0)
	ok := st.norm(App("uuidOk", BoolS, b))
	return []Val{App("uuidVal", BytesS, b), e.errIf(st, ok)}
}

func newCBC(e *Engine, st *State, c *CC, g string) []Val {
	iv, ok := c.args[0].(IfaceV)
	if !ok || iv.Ghost == 0 {
		unsupported("block cipher")
	}
	e.nilCheck(st, st.norm(iv.Nil), c.pos, "nil block cipher")
	if st.dead {
		return nil
	}
	v := c.bytes(e, 1)
	e.safe(st, "IV length", c.pos, Eq(Len(v), Int(16)))
	o := st.obj(iv.Ghost)
	if o.G != "aesblock" {
		unsupported("block cipher")
	}
	t := c.sig.Results().At(0).Type()
	id := e.newGhost(st, t, g, map[string]*Term{"key": o.GT["key"], "iv": v}, nil)
	return []Val{IfaceV{T: t, Nil: tFalse, Ghost: id}}
}

func cryptBlocks(e *Engine, st *State, c *CC, f string) []Val {
	o, id := e.ghost(c, 0)
	dst, src := c.args[1].(SliceV), c.args[2].(SliceV)
	e.safe(st, "CryptBlocks input length", c.pos, Eq(Mod(src.Len, Int(16)), Int(0)))
	e.safe(st, "CryptBlocks output length", c.pos, Le(src.Len, dst.Len))
	if st.dead {
		return nil
	}
	if dst.Arr == src.Arr && dst.Arr != 0 && dst.Off != src.Off {
		unsupported("overlapping CryptBlocks")
	}
	in := e.listOf(st, src)
	out := App(f, BytesS, o.GT["key"], o.GT["iv"], in)
	e.writeBytes(st, dst, out)
	m := st.mut(id)
	n := Fresh("iv", BytesS)
	st.assume(Eq(Len(n), Int(16)))
	m.GT["iv"] = n
	return nil
}

func noEffect(e *Engine, st *State, c *CC) []Val { return nil }

func ctEq(e *Engine, st *State, c *CC) []Val {
	return []Val{Ite(st.norm(Eq(c.args[0].(*Term), c.args[1].(*Term))), Int(1), Int(0))}
}

// protoPtr: proto.Uint32 and the like, a pointer to a copy of the argument.
func protoPtr(e *Engine, st *State, c *CC) []Val {
	t := derefT(c.sig.Results().At(0).Type())
	id := st.alloc(&Obj{Kind: "cell", T: t, V: c.args[0]})
	return []Val{PtrV{Nil: tFalse, Obj: id}}
}
