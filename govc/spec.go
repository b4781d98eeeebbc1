package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// STy is a specification type: a Go type, or seq[T], arr[K]V, set[K], map[K]V, ref, nil.
type STy struct {
	Kind string
	Go   types.Type
	Key  *STy
	Elem *STy
}

func goTy(t types.Type) *STy { return &STy{Kind: "go", Go: t} }

func (t *STy) sorts() []string {
	switch t.Kind {
	case "go":
		var out []string
		for _, c := range layout(t.Go) {
			out = append(out, c.Sort)
		}
		return out
	case "ref":
		return []string{"Int"}
	case "seq":
		return []string{seqSort(t.Elem.sorts()[0])}
	case "arr":
		var out []string
		for _, s := range t.Elem.sorts() {
			out = append(out, arrSort(t.Key.sorts()[0], s))
		}
		return out
	case "set":
		return []string{arrSort(t.Key.sorts()[0], "Bool")}
	case "map":
		k := t.Key.sorts()[0]
		out := []string{arrSort(k, "Bool")}
		for _, s := range t.Elem.sorts() {
			out = append(out, arrSort(k, s))
		}
		return out
	case "sort":
		return []string{t.Go.(*sortType).name}
	}
	panic("sorts of " + t.Kind)
}

type sortType struct{ name string }

func (s *sortType) Underlying() types.Type { return s }
func (s *sortType) String() string         { return s.name }

func (v *Val) sty() *STy {
	if v.Sp != nil {
		return v.Sp
	}
	return goTy(v.T)
}

func mkVal(t *STy, c []*Term) *Val {
	if t.Kind == "go" {
		return &Val{T: t.Go, C: c}
	}
	return &Val{Sp: t, C: c}
}

var tyInt, tyString, tyBool = types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Bool]
var tyIface types.Type = types.NewInterfaceType(nil, nil)

func intV(t *Term) *Val  { return &Val{T: tyInt, C: []*Term{t}} }
func boolV(t *Term) *Val { return &Val{T: tyBool, C: []*Term{t}} }
func strV(t *Term) *Val  { return &Val{T: tyString, C: []*Term{t}} }

func (V *Verifier) parseSTy(s string, pkg string) *STy {
	s = strings.TrimSpace(s)
	switch s {
	case "ref":
		return &STy{Kind: "ref"}
	case "iface":
		return goTy(tyIface)
	case "error":
		return goTy(types.Universe.Lookup("error").Type())
	}
	if strings.HasPrefix(s, "sort ") {
		return &STy{Kind: "sort", Go: &sortType{strings.TrimSpace(s[5:])}}
	}
	for _, k := range []string{"seq", "set", "arr", "map"} {
		if strings.HasPrefix(s, k+"[") && k != "map" || k == "map" && strings.HasPrefix(s, "mapv[") {
			i := strings.Index(s, "[")
			d, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '[' {
					d++
				}
				if s[j] == ']' {
					d--
					if d == 0 {
						break
					}
				}
			}
			in := V.parseSTy(s[i+1:j], pkg)
			switch k {
			case "seq":
				return &STy{Kind: "seq", Elem: in}
			case "set":
				return &STy{Kind: "set", Key: in}
			}
			return &STy{Kind: k, Key: in, Elem: V.parseSTy(s[j+1:], pkg)}
		}
	}
	return goTy(V.goType(s, pkg))
}

func (V *Verifier) goType(s, pkg string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(V.goType(s[1:], pkg))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(V.goType(s[2:], pkg))
	}
	if strings.HasPrefix(s, "map[") {
		j := strings.Index(s, "]")
		return types.NewMap(V.goType(s[4:j], pkg), V.goType(s[j+1:], pkg))
	}
	if s == "interface{}" || s == "any" {
		return tyIface
	}
	if strings.HasPrefix(s, "func(") {
		if j := strings.Index(s, ")"); j > 0 && !strings.Contains(s[5:], "(") {
			tup := func(l string) *types.Tuple {
				var vs []*types.Var
				for _, p := range strings.Split(l, ",") {
					if strings.TrimSpace(p) != "" {
						vs = append(vs, types.NewVar(0, nil, "", V.goType(p, pkg)))
					}
				}
				return types.NewTuple(vs...)
			}
			return types.NewSignatureType(nil, nil, nil, tup(s[5:j]), tup(s[j+1:]), false)
		}
	}
	if strings.HasPrefix(s, "func") || strings.HasPrefix(s, "interface") {
		tv, err := types.Eval(V.fset, V.tpkg(pkg), 0, "(*("+s+"))(nil)")
		if err != nil {
			panic(fmt.Sprintf("type %s: %v", s, err))
		}
		return deref(tv.Type)
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if i := strings.Index(s, "."); i >= 0 {
		p := V.pkgByName(s[:i])
		if p == nil {
			panic("unknown package in type " + s)
		}
		o := p.Scope().Lookup(s[i+1:])
		if o == nil {
			panic("unknown type " + s)
		}
		return o.Type()
	}
	o := V.tpkg(pkg).Scope().Lookup(s)
	if o == nil {
		panic("unknown type " + s + " in " + pkg)
	}
	return o.Type()
}

// SEnv evaluates specification expressions.
type SEnv struct {
	x     *Exec
	s     *State
	old   *State
	vars  map[string]*Val
	pkg   string
	loop  *LoopCtx
	inBV  int
	noCur bool
}

func (e *SEnv) with(n string, v *Val) *SEnv {
	m := make(map[string]*Val, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	c := *e
	c.vars = m
	return &c
}

type specErr struct{ msg string }

func (e *SEnv) bad(f string, a ...interface{}) *Val {
	panic(specErr{fmt.Sprintf(f, a...)})
}

func (e *SEnv) boolean(ex *Expr) *Term {
	v := e.eval(ex)
	if len(v.C) != 1 || v.C[0].Sort != "Bool" {
		e.bad("not a boolean: %s", exprStr(ex))
	}
	return v.C[0]
}

func exprStr(e *Expr) string {
	if e == nil {
		return ""
	}
	if e.Src != "" {
		return e.Src
	}
	var as []string
	for _, a := range e.Args {
		as = append(as, exprStr(a))
	}
	return e.Op + " " + e.Name + e.I + "(" + strings.Join(as, ",") + ")"
}

var nilSTy = &STy{Kind: "nil"}

func isNilV(v *Val) bool { return v.Sp == nilSTy }

func (e *SEnv) ident(n string) *Val {
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return boolV(tTrue)
	case "false":
		return boolV(tFalse)
	case "nil":
		return &Val{Sp: nilSTy}
	}
	if strings.HasPrefix(n, "$") {
		if st, ok := e.x.V.specs.GVars[n]; ok {
			return e.gvar(n, st)
		}
	}
	if f, ok := e.x.V.specs.Funs[n]; ok && len(f.Params) == 0 {
		return e.callFun(f, nil)
	}
	if strings.HasPrefix(n, "call_") && e.x.con != nil {
		// an argument of a call this path does not make: an arbitrary value
		for k := range e.x.con.CallA {
			c, fn := e.x.V.specs.Contracts[k], e.x.V.funs[k]
			if c == nil || fn == nil || len(c.Params) != len(fn.Params) {
				continue
			}
			for i, p := range c.Params {
				if "call_"+p == n {
					v := &Val{T: fn.Params[i].Type()}
					for _, co := range layout(v.T) {
						v.C = append(v.C, freshSym("nocall!"+p+co.Suffix, co.Sort))
					}
					e.vars[n] = v
					return v
				}
			}
		}
	}
	if o := e.x.V.tpkg(e.pkg).Scope().Lookup(n); o != nil {
		if v := e.object(o); v != nil {
			return v
		}
	}
	return nil
}

func (e *SEnv) gvar(n, st string) *Val {
	t := e.x.V.parseSTy(st, e.pkg)
	ss := t.sorts()
	v := mkVal(t, nil)
	for i, s := range ss {
		v.C = append(v.C, e.x.heapGet(e.s, gvarHeap(n, i), s))
	}
	return v
}

func gvarHeap(n string, i int) string {
	if i == 0 {
		return "G:" + n
	}
	return fmt.Sprintf("G:%s#%d", n, i)
}

func (e *SEnv) object(o types.Object) *Val {
	switch o := o.(type) {
	case *types.Const:
		return e.constant(o)
	case *types.Var:
		return e.x.load(e.s, &Addr{Heap: "V:" + o.Pkg().Name() + "." + o.Name(), T: o.Type()})
	case *types.Func:
		if sp := e.x.V.prog.Package(o.Pkg()); sp != nil {
			if f := sp.Func(o.Name()); f != nil {
				return e.x.funcVal(f, nil)
			}
		}
	}
	return nil
}

func (e *SEnv) constant(o *types.Const) *Val {
	switch o.Val().Kind() {
	case constant.String:
		return &Val{T: o.Type(), C: []*Term{tStr(constant.StringVal(o.Val()))}}
	case constant.Bool:
		return boolV(tBool(constant.BoolVal(o.Val())))
	case constant.Int:
		i, ok := constant.Val(o.Val()).(*big.Int)
		if !ok {
			i64, _ := constant.Int64Val(o.Val())
			i = big.NewInt(i64)
		}
		return &Val{T: o.Type(), C: []*Term{tBig(i)}}
	}
	return e.bad("constant %s", o.Name())
}

func (e *SEnv) eval(ex *Expr) *Val {
	switch ex.Op {
	case "int":
		i, _ := new(big.Int).SetString(ex.I, 10)
		return intV(tBig(i))
	case "str":
		return strV(tStr(ex.Name))
	case "id":
		v := e.ident(ex.Name)
		if v == nil {
			e.bad("unknown identifier %s", ex.Name)
		}
		return v
	case "if":
		c := e.boolean(ex.Args[0])
		if c.Op == "true" {
			return e.eval(ex.Args[1])
		}
		if c.Op == "false" {
			return e.eval(ex.Args[2])
		}
		a, b := e.eval(ex.Args[1]), e.eval(ex.Args[2])
		a, b = e.unify(a, b)
		r := *a
		r.C = nil
		r.Clo = nil
		r.Addr = nil
		for i := range a.C {
			r.C = append(r.C, tIte(c, a.C[i], b.C[i]))
		}
		return &r
	case "let":
		return e.with(ex.Name, e.eval(ex.Args[0])).eval(ex.Args[1])
	case "forall", "exists":
		ne := e
		var bvs []*Term
		for _, b := range ex.Bind {
			t := e.x.V.parseSTy(b.Type, e.pkg)
			var cs []*Term
			for _, s := range t.sorts() {
				bv := freshBV(b.Name, s)
				bvs = append(bvs, bv)
				cs = append(cs, bv)
			}
			ne = ne.with(b.Name, mkVal(t, cs))
		}
		c2 := *ne
		c2.inBV++
		body := c2.boolean(ex.Args[0])
		if ex.Op == "exists" {
			return boolV(tExists(bvs, body))
		}
		var trig [][]*Term
		for _, ts := range ex.Trig {
			var tt []*Term
			for _, t := range ts {
				v := c2.eval(t)
				for _, c := range v.C {
					if c.Op == "ite" && c.Args[0].Op == "select" { // map read: the membership test
						c = c.Args[0]
					}
					if c.hasBV && c.Op != "bv" && c.Op != "not" && c.Op != "and" && c.Op != "or" && c.Op != "ite" && c.Op != "=" {
						tt = append(tt, c)
						break
					}
				}
			}
			if len(tt) > 0 {
				trig = append(trig, tt)
			}
		}
		return boolV(tForall(bvs, trig, body))
	case "un":
		if ex.Name == "*" {
			p := e.eval(ex.Args[0])
			a := *e.x.addrOf(e.s, p)
			a.T = deref(p.T)
			return e.x.load(e.s, &a)
		}
		v := e.eval(ex.Args[0])
		if ex.Name == "!" {
			return boolV(tNot(v.C[0]))
		}
		return intV(tSub(tInt(0), v.C[0]))
	case "bin":
		return e.binary(ex)
	case "field":
		return e.field(ex)
	case "index":
		return e.index(e.eval(ex.Args[0]), e.eval(ex.Args[1]))
	case "slice":
		v := e.eval(ex.Args[0])
		lo := tInt(0)
		if ex.Args[1] != nil {
			lo = e.eval(ex.Args[1]).C[0]
		}
		var hi *Term
		if ex.Args[2] != nil {
			hi = e.eval(ex.Args[2]).C[0]
		}
		if v.Sp != nil && v.Sp.Kind == "seq" {
			if hi == nil {
				hi = tSeqLen(v.C[0])
			}
			return mkVal(v.Sp, []*Term{tSeqSub(v.C[0], lo, tSub(hi, lo))})
		}
		if v.C[0].Sort == "String" {
			if hi == nil {
				hi = tStrLen(v.C[0])
			}
			return strV(tSubstr(v.C[0], lo, tSub(hi, lo)))
		}
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			if hi == nil {
				hi = v.C[2]
			}
			return &Val{T: v.T, C: []*Term{v.C[0], tAdd(v.C[1], lo), tSub(hi, lo), tSub(v.C[3], lo)}}
		}
		return e.bad("slice of %s", exprStr(ex.Args[0]))
	case "call":
		return e.call(ex)
	}
	return e.bad("cannot evaluate %s", ex.Op)
}

// unify adapts nil and integer/ref kinds of two values.
func (e *SEnv) unify(a, b *Val) (*Val, *Val) {
	if isNilV(a) && isNilV(b) {
		z := intV(tInt(0))
		return z, z
	}
	if isNilV(a) {
		return e.nilLike(b), b
	}
	if isNilV(b) {
		return a, e.nilLike(a)
	}
	if a.T != nil && b.T != nil {
		ai, bi := types.IsInterface(a.T), types.IsInterface(b.T)
		if ai && !bi {
			b = &Val{T: a.T, C: []*Term{boxVal(b, b.T)}}
		} else if bi && !ai {
			a = &Val{T: b.T, C: []*Term{boxVal(a, a.T)}}
		}
	}
	if len(a.C) != len(b.C) {
		// a slice against a sequence: compare views
		if a.Sp != nil && a.Sp.Kind == "seq" && b.T != nil {
			return a, e.lst(b)
		}
		if b.Sp != nil && b.Sp.Kind == "seq" && a.T != nil {
			return e.lst(a), b
		}
		e.bad("type mismatch %d/%d components", len(a.C), len(b.C))
	}
	return a, b
}

func (e *SEnv) nilLike(v *Val) *Val {
	if v.Sp != nil {
		if v.Sp.Kind == "ref" {
			return mkVal(v.Sp, []*Term{tInt(0)})
		}
		e.bad("nil against %s", v.Sp.Kind)
	}
	return zeroVal(v.T)
}

func (e *SEnv) equal(a, b *Val) *Term {
	if a.T != nil && !isNilV(a) {
		if _, ok := a.T.Underlying().(*types.Slice); ok && isNilV(b) {
			return tEq(a.C[0], tInt(0))
		}
	}
	if b.T != nil && !isNilV(b) {
		if _, ok := b.T.Underlying().(*types.Slice); ok && isNilV(a) {
			return tEq(b.C[0], tInt(0))
		}
	}
	a, b = e.unify(a, b)
	var cs []*Term
	for i := range a.C {
		cs = append(cs, tEq(a.C[i], b.C[i]))
	}
	return tAnd(cs...)
}

func (e *SEnv) binary(ex *Expr) *Val {
	switch ex.Name {
	case "==>":
		a := e.boolean(ex.Args[0])
		if a.Op == "false" {
			return boolV(tTrue)
		}
		return boolV(tImp(a, e.boolean(ex.Args[1])))
	case "&&":
		a := e.boolean(ex.Args[0])
		if a.Op == "false" {
			return boolV(tFalse)
		}
		return boolV(tAnd(a, e.boolean(ex.Args[1])))
	case "||":
		a := e.boolean(ex.Args[0])
		if a.Op == "true" {
			return boolV(tTrue)
		}
		return boolV(tOr(a, e.boolean(ex.Args[1])))
	case "<==>":
		return boolV(tEq(e.boolean(ex.Args[0]), e.boolean(ex.Args[1])))
	}
	a, b := e.eval(ex.Args[0]), e.eval(ex.Args[1])
	switch ex.Name {
	case "==":
		return boolV(e.equal(a, b))
	case "!=":
		return boolV(tNot(e.equal(a, b)))
	case "in":
		if b.Sp != nil && b.Sp.Kind == "map" || b.Sp != nil && b.Sp.Kind == "set" {
			return boolV(tSelect(b.C[0], a.C[0]))
		}
		if b.T != nil {
			if _, ok := b.T.Underlying().(*types.Map); ok {
				_, has := e.x.mapGet(e.s, b, a)
				return boolV(has)
			}
		}
		return e.bad("in")
	}
	p, q := a.C[0], b.C[0]
	if ex.Name == "++" || p.Sort == "String" && ex.Name == "+" {
		if p.Sort == "String" {
			return strV(tConcat(p, q))
		}
		if a.Sp == nil || a.Sp.Kind != "seq" {
			a = e.lst(a)
		}
		if b.Sp == nil || b.Sp.Kind != "seq" {
			b = e.lst(b)
		}
		return mkVal(a.Sp, []*Term{tSeqCat(a.C[0], b.C[0])})
	}
	switch ex.Name {
	case "+":
		return intV(tAdd(p, q))
	case "-":
		return intV(tSub(p, q))
	case "*":
		return intV(tMul(p, q))
	case "/":
		return intV(op("div", "Int", p, q))
	case "%":
		return intV(op("mod", "Int", p, q))
	case "<":
		return boolV(tLt(p, q))
	case "<=":
		return boolV(tLe(p, q))
	case ">":
		return boolV(tGt(p, q))
	case ">=":
		return boolV(tGe(p, q))
	}
	return e.bad("operator %s", ex.Name)
}

func (e *SEnv) field(ex *Expr) *Val {
	// package-qualified names
	if b := ex.Args[0]; b.Op == "id" {
		if v := e.identQuiet(b.Name); v == nil {
			if p := e.x.V.pkgByName(b.Name); p != nil {
				if o := p.Scope().Lookup(ex.Name); o != nil {
					if v := e.object(o); v != nil {
						return v
					}
				}
			}
			e.bad("unknown %s.%s", b.Name, ex.Name)
		}
	}
	v := e.eval(ex.Args[0])
	return e.fieldOf(v, ex.Name)
}

func (e *SEnv) identQuiet(n string) *Val { return e.ident(n) }

func (e *SEnv) fieldOf(v *Val, name string) *Val {
	if v.T == nil {
		return e.bad("field %s of specification value", name)
	}
	t := v.T
	if pt := deref(t); pt != nil {
		a := *e.x.addrOf(e.s, v)
		st, ok := pt.Underlying().(*types.Struct)
		if !ok {
			return e.bad("field %s of %s", name, t)
		}
		if isOpaqueStruct(pt) {
			a.Heap, a.Path = "F:"+typeStr(types.Unalias(pt)), ""
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() == name {
				a.Path += "." + name
				a.T = f.Type()
				if _, ok := f.Type().Underlying().(*types.Array); ok {
					return &Val{T: types.NewPointer(f.Type()), C: []*Term{tInt(0)}, Addr: &a}
				}
				r := e.x.load(e.s, &a)
				if e.inBV == 0 && e.x.probe == nil {
					e.x.valFacts(e.s, r)
				}
				return r
			}
		}
		for i := 0; i < st.NumFields(); i++ { // promoted
			f := st.Field(i)
			if f.Embedded() {
				if r := e.tryField(v, f.Name(), name); r != nil {
					return r
				}
			}
		}
		return e.bad("no field %s in %s", name, pt)
	}
	if st, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				lo, hi := fieldRange(t, i)
				return &Val{T: st.Field(i).Type(), C: v.C[lo:hi]}
			}
		}
	}
	return e.bad("no field %s in %s", name, t)
}

func (e *SEnv) tryField(v *Val, emb, name string) (r *Val) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(specErr); ok {
				r = nil
				return
			}
			panic(p)
		}
	}()
	return e.fieldOf(e.fieldOf(v, emb), name)
}

func (e *SEnv) index(v, i *Val) *Val {
	if v.Sp != nil {
		switch v.Sp.Kind {
		case "seq":
			return mkVal(v.Sp.Elem, []*Term{tSeqNth(v.C[0], i.C[0])})
		case "arr", "set":
			var cs []*Term
			for _, c := range v.C {
				cs = append(cs, tSelect(c, i.C[0]))
			}
			if v.Sp.Kind == "set" {
				return boolV(cs[0])
			}
			return mkVal(v.Sp.Elem, cs)
		case "map":
			var cs []*Term
			for j, c := range v.C[1:] {
				cs = append(cs, tIte(tSelect(v.C[0], i.C[0]), tSelect(c, i.C[0]), zeroOfSort(v.Sp.Elem.sorts()[j])))
			}
			return mkVal(v.Sp.Elem, cs)
		}
	}
	switch t := v.T.Underlying().(type) {
	case *types.Slice:
		return e.x.load(e.s, &Addr{Heap: elemHeap(t.Elem()), Ref: v.C[0], Ixs: []*Term{tAdd(v.C[1], i.C[0])}, T: t.Elem()})
	case *types.Map:
		r, _ := e.x.mapGet(e.s, v, i)
		return r
	case *types.Basic:
		return intV(charAt(v.C[0], i.C[0]))
	case *types.Array:
		r := &Val{T: t.Elem()}
		for _, c := range v.C {
			r.C = append(r.C, tSelect(c, i.C[0]))
		}
		return r
	case *types.Pointer:
		if arr, ok := t.Elem().Underlying().(*types.Array); ok {
			ad := *e.x.addrOf(e.s, v)
			ad.Ixs = append(append([]*Term(nil), ad.Ixs...), i.C[0])
			if ad.Arr {
				ad.Arr = false
			} else {
				ad.Path += "[]"
			}
			ad.T = arr.Elem()
			return e.x.load(e.s, &ad)
		}
	}
	return e.bad("index of %s", v.T)
}

func (e *SEnv) lst(v *Val) *Val {
	if v.Sp != nil && v.Sp.Kind == "seq" {
		return v
	}
	if isNilV(v) {
		return e.bad("lst(nil)")
	}
	st, ok := v.T.Underlying().(*types.Slice)
	if !ok {
		return e.bad("lst of %s", v.T)
	}
	return mkVal(&STy{Kind: "seq", Elem: goTy(st.Elem())}, []*Term{e.x.lst(e.s, v, 0)})
}

func (e *SEnv) inState(s *State) *SEnv {
	c := *e
	c.s = s
	return &c
}

func calleeName(ex *Expr) string {
	switch ex.Op {
	case "id":
		return ex.Name
	case "field":
		return calleeName(ex.Args[0]) + "." + ex.Name
	}
	return ""
}

func (e *SEnv) mapV(v *Val) *Val {
	if v.Sp != nil && v.Sp.Kind == "map" {
		return v
	}
	mt, ok := v.T.Underlying().(*types.Map)
	if !ok {
		return e.bad("mapval of %s", v.T)
	}
	d, vs := e.x.mapComps(e.s, v)
	return mkVal(&STy{Kind: "map", Key: goTy(mt.Key()), Elem: goTy(mt.Elem())}, append([]*Term{d}, vs...))
}

func (e *SEnv) call(ex *Expr) *Val {
	name := calleeName(ex.Args[0])
	args := ex.Args[1:]
	arg := func(i int) *Val {
		if i >= len(args) {
			e.bad("%s: missing argument %d", name, i)
		}
		return e.eval(args[i])
	}
	switch name {
	case "old":
		if e.old == nil {
			e.bad("old() not available")
		}
		return e.inState(e.old).eval(args[0])
	case "entry": // loop entry state
		if e.loop == nil {
			e.bad("entry() outside a loop")
		}
		return e.inState(e.loop.entry).eval(args[0])
	case "len":
		v := arg(0)
		if v.Sp != nil && v.Sp.Kind == "seq" {
			return intV(tSeqLen(v.C[0]))
		}
		switch t := v.T.Underlying().(type) {
		case *types.Slice:
			return intV(v.C[2])
		case *types.Basic:
			return intV(tStrLen(v.C[0]))
		case *types.Map:
			d, _ := e.x.mapComps(e.s, v)
			return intV(mapCard(d))
		case *types.Pointer:
			return intV(tInt(t.Elem().Underlying().(*types.Array).Len()))
		}
		return e.bad("len")
	case "cap":
		return intV(arg(0).C[3])
	case "base":
		return &Val{Sp: &STy{Kind: "ref"}, C: arg(0).C[:1]}
	case "lst":
		return e.lst(arg(0))
	case "mapval":
		return e.mapV(arg(0))
	case "dom":
		m := e.mapV(arg(0))
		return mkVal(&STy{Kind: "set", Key: m.Sp.Key}, m.C[:1])
	case "put":
		m, k, v := e.mapV(arg(0)), arg(1), arg(2)
		cs := []*Term{tStore(m.C[0], k.C[0], tTrue)}
		for i := range m.C[1:] {
			cs = append(cs, tStore(m.C[i+1], k.C[0], v.C[i]))
		}
		return mkVal(m.Sp, cs)
	case "emptymap":
		t := e.x.V.parseSTy(args[0].Name, e.pkg)
		ss := t.sorts()
		var cs []*Term
		for _, s := range ss {
			cs = append(cs, tConstArr(s, zeroOfSort(arrElem(s))))
		}
		return mkVal(t, cs)
	case "store":
		a, i, v := arg(0), arg(1), arg(2)
		if isNilV(v) {
			v = e.nilLike(mkVal(a.Sp.Elem, nil))
		}
		if a.Sp.Kind == "arr" && a.Sp.Elem.Kind == "seq" && v.Sp == nil {
			v = e.lst(v)
		}
		var cs []*Term
		for j := range a.C {
			cs = append(cs, tStore(a.C[j], i.C[0], v.C[j]))
		}
		return mkVal(a.Sp, cs)
	case "unit":
		v := arg(0)
		if len(v.C) != 1 {
			e.bad("unit of composite value")
		}
		return mkVal(&STy{Kind: "seq", Elem: v.sty()}, []*Term{tSeqUnit(v.C[0])})
	case "empty": // empty("T")
		t := e.x.V.parseSTy(args[0].Name, e.pkg)
		return mkVal(&STy{Kind: "seq", Elem: t}, []*Term{tSeqEmpty(seqSort(t.sorts()[0]))})
	case "inseq":
		v, q := arg(0), e.lst(arg(1))
		if isNilV(v) {
			v = e.nilLike(mkVal(q.Sp.Elem, nil))
		}
		return boolV(op("seq.contains", "Bool", q.C[0], tSeqUnit(v.C[0])))
	case "istype": // istype(iface, "T")
		v := arg(0)
		t := e.x.V.goType(args[1].Name, e.pkg)
		if it, ok := t.Underlying().(*types.Interface); ok {
			return boolV(tAnd(tNe(v.C[0], zeroOfSort("Iface")), implTerm(dynType(v.C[0]), it, types.TypeString(t, nil))))
		}
		return boolV(tEq(dynType(v.C[0]), typeTag(t)))
	case "sametype":
		return boolV(tEq(dynType(arg(0).C[0]), dynType(arg(1).C[0])))
	case "unbox":
		v := arg(0)
		r := unboxVal(v.C[0], e.x.V.goType(args[1].Name, e.pkg))
		e.x.attachClosure(r)
		return r
	case "box": // box(v, "T")
		v := arg(0)
		t := v.T
		if len(args) > 1 {
			t = e.x.V.goType(args[1].Name, e.pkg)
			if isNilV(v) {
				v = zeroVal(t)
			}
		}
		return &Val{T: tyIface, C: []*Term{boxVal(v, t)}}
	case "as": // as(v, "T"): reinterpret components
		v := *arg(0)
		v.T = e.x.V.goType(args[1].Name, e.pkg)
		v.Sp = nil
		return &v
	case "outer": // outer(e): in the state the enclosing function started in (closure contracts)
		if e.x.outerSt == nil {
			return e.bad("outer() outside a closure contract")
		}
		c2 := *e
		c2.s = e.x.outerSt
		// the names are the enclosing function's, also at a call of something whose parameters have the same names
		c2.vars = map[string]*Val{}
		for n, v := range e.vars {
			c2.vars[n] = v
		}
		for n, v := range e.vars {
			if strings.HasPrefix(n, "my_") {
				c2.vars[n[3:]] = v
			}
		}
		return c2.eval(args[0])
	case "via": // via(v, "M"): the interface value whose method M the boxed struct v promotes, or v itself
		return &Val{T: tyIface, C: []*Term{e.via(arg(0).C[0], args[1].Name)}}
	case "zero": // zero("T")
		return zeroVal(e.x.V.goType(args[0].Name, e.pkg))
	case "fresh":
		v := arg(0)
		return boolV(tLe(e.x.oldTop(e), v.C[0]))
	case "freshslice":
		v := arg(0)
		return boolV(tOr(tLe(e.x.oldTop(e), v.C[0]), tEq(v.C[3], tInt(0))))
	case "allocated":
		return boolV(tLt(arg(0).C[0], e.s.top))
	case "ord": // the place of an object in the order of allocation
		return mkVal(goTy(tyInt), []*Term{arg(0).C[0]})
	case "isnew": // allocated since the start of the function under verification
		return boolV(tLe(e.x.entryTop, arg(0).C[0]))
	case "ncalls", "npanics": // calls (panicking calls) of a function made so far by the function under verification
		if len(args) != 1 || args[0].Op != "str" {
			e.bad("%s takes a function key", name)
		}
		e.x.V.specs.Counted[args[0].Name] = true
		n := "N:" + args[0].Name
		if name == "npanics" {
			n = "N:panic:" + args[0].Name
		}
		return mkVal(goTy(tyInt), []*Term{tSub(e.x.heapGet(e.s, n, "Int"), app(n+"@0", "Int"))})
	case "ispanic":
		return boolV(tFalse)
	case "fst", "snd", "third":
		v := arg(0)
		return v.Tup[map[string]int{"fst": 0, "snd": 1, "third": 2}[name]]
	case "bytes":
		return mkVal(&STy{Kind: "seq", Elem: goTy(types.Typ[types.Byte])}, []*Term{bytesOf(arg(0).C[0])})
	case "strof":
		v := e.lst(arg(0))
		return strV(strOf(v.C[0]))
	case "contains":
		return boolV(tContains(arg(0).C[0], arg(1).C[0]))
	case "indexof":
		return intV(tIndexOf(arg(0).C[0], arg(1).C[0], tInt(0)))
	case "hasprefix":
		return boolV(tPrefixOf(arg(1).C[0], arg(0).C[0]))
	case "hassuffix":
		return boolV(tSuffixOf(arg(1).C[0], arg(0).C[0]))
	case "replay", "trigger":
		return boolV(tTrue)
	case "ret":
		// ret("key", args...): result of an uncontracted pure function, by model
	case "fieldptr": // fieldptr(p, f): the address of a field as a reference
		p := arg(0)
		a := *e.x.addrOf(e.s, p)
		a.Path += "." + args[1].Name
		st := deref(p.T).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == args[1].Name {
				a.T = st.Field(i).Type()
			}
		}
		return ptrVal(types.NewPointer(a.T), &a)
	case "fnval": // fnval("func(*Context)", f)
		v := *arg(1)
		v.T = e.x.V.goType(args[0].Name, e.pkg)
		return &v
	}
	if f, ok := e.x.V.specs.Funs[name]; ok {
		var vs []*Val
		for i := range args {
			vs = append(vs, e.eval(args[i]))
		}
		return e.callFun(f, vs)
	}
	// conversion to a Go type, or a pure function of a dependency
	if v := e.pureCall(name, args); v != nil {
		return v
	}
	return e.bad("unknown specification function %s", name)
}

func mapCard(d *Term) *Term {
	if d.Op == "const-array" {
		return tInt(0)
	}
	return app("card!"+sanit.Replace(d.Sort), "Int", d)
}

func (x *Exec) oldTop(e *SEnv) *Term {
	if e.old != nil {
		return e.old.top
	}
	return x.entryTop
}

func (e *SEnv) coerce(v *Val, t *STy, what string) *Val {
	if isNilV(v) {
		if t.Kind == "go" {
			return zeroVal(t.Go)
		}
		if t.Kind == "ref" {
			return mkVal(t, []*Term{tInt(0)})
		}
		e.bad("nil as %s", what)
	}
	if t.Kind == "seq" && v.Sp == nil {
		v = e.lst(v)
	}
	if t.Kind == "map" && v.Sp == nil {
		v = e.mapV(v)
	}
	if t.Kind == "go" && types.IsInterface(t.Go) && v.T != nil && !types.IsInterface(v.T) {
		return &Val{T: t.Go, C: []*Term{boxVal(v, v.T)}}
	}
	ss := t.sorts()
	if len(ss) != len(v.C) {
		e.bad("argument %s: %d components, want %d", what, len(v.C), len(ss))
	}
	for i := range ss {
		if ss[i] != v.C[i].Sort {
			e.bad("argument %s: sort %s, want %s", what, v.C[i].Sort, ss[i])
		}
	}
	r := mkVal(t, v.C)
	r.Clo, r.Addr = v.Clo, v.Addr
	return r
}

// ---- specification functions ----

type funInst struct {
	f     *SpecFun
	heaps []string
}

func (e *SEnv) callFun(f *SpecFun, args []*Val) *Val {
	V := e.x.V
	if len(args) != len(f.Params) {
		return e.bad("%s: %d arguments, want %d", f.Name, len(args), len(f.Params))
	}
	var vs []*Val
	for i, p := range f.Params {
		vs = append(vs, e.coerce(args[i], V.parseSTy(p.Type, f.pkg(e.pkg)), f.Name+"."+p.Name))
	}
	rt := V.parseSTy(f.Ret, f.pkg(e.pkg))
	if f.Def {
		if e.x.depthSpec > 60 {
			e.bad("recursive def %s", f.Name)
		}
		e.x.depthSpec++
		ne := &SEnv{x: e.x, s: e.s, old: e.old, vars: map[string]*Val{}, pkg: f.pkg(e.pkg), loop: e.loop, inBV: e.inBV}
		for i, p := range f.Params {
			ne.vars[p.Name] = vs[i]
		}
		r := ne.eval(f.Body)
		e.x.depthSpec--
		return e.coerce(r, rt, f.Name)
	}
	var flat []*Term
	for _, v := range vs {
		flat = append(flat, v.C...)
	}
	if f.Rec {
		for _, h := range V.footprint(f) {
			flat = append(flat, e.x.heapGet(e.s, h, heapSorts[h]))
		}
	}
	var cs []*Term
	ss := rt.sorts()
	for i, s := range ss {
		if V.footBusy {
			cs = append(cs, freshSym("probe", s))
			continue
		}
		cs = append(cs, app(fmt.Sprintf("fun!%s#%d", f.Name, i), s, flat...))
	}
	if f.Rec {
		V.funByName[f.Name] = f
	}
	return mkVal(rt, cs)
}

func (f *SpecFun) pkg(def string) string {
	if f.Pkg != "" {
		return f.Pkg
	}
	return def
}

// footprint gives the heaps a recursive specification function reads (transitively).
func (V *Verifier) footprint(f *SpecFun) []string {
	if !V.footDone && !V.footBusy {
		V.footBusy = true
		V.computeFootprints()
		V.footBusy, V.footDone = false, true
	}
	if f.broken != "" && !V.footBusy {
		panic(specErr{f.broken})
	}
	return f.foot
}

// computeFootprints is a fixpoint over all (mutually) recursive specification functions.
func (V *Verifier) computeFootprints() {
	var names []string
	for n, f := range V.specs.Funs {
		if f.Rec {
			names = append(names, n)
		}
	}
	sortStrings(names)
	for changed := true; changed; {
		changed = false
		for _, n := range names {
			f := V.specs.Funs[n]
			if f.broken == "" && V.probeFun(f) {
				changed = true
			}
		}
	}
}

func (V *Verifier) probeFun(f *SpecFun) (grew bool) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				f.broken = se.msg
			} else {
				f.broken = fmt.Sprint(r)
			}
		}
	}()
	px := &Exec{V: V, probe: map[string]string{}, notes: map[string]bool{}, closures: map[*Term]*Closure{}, top0: app("top0", "Int"), con: &Contract{Key: "probe"}}
	s := newState()
	s.top = px.top0
	e := &SEnv{x: px, s: s, vars: map[string]*Val{}, pkg: f.pkg("water"), inBV: 1}
	for _, p := range f.Params {
		t := V.parseSTy(p.Type, f.pkg("water"))
		var cs []*Term
		for i, srt := range t.sorts() {
			cs = append(cs, app(fmt.Sprintf("probe!%s!%d!%s", p.Name, i, sanit.Replace(srt)), srt))
		}
		e.vars[p.Name] = mkVal(t, cs)
	}
	e.eval(f.Body)
	seen := map[string]bool{}
	for _, h := range f.foot {
		seen[h] = true
	}
	for h := range px.probe {
		if !seen[h] {
			f.foot = append(f.foot, h)
			grew = true
		}
	}
	sortStrings(f.foot)
	return grew
}

// unfold gives the defining equations of a ground application of a recursive specification function.
func (V *Verifier) unfold(t *Term) []*Term {
	name := t.Name[4:strings.LastIndex(t.Name, "#")]
	f := V.funByName[name]
	if f == nil || !f.Rec {
		return nil
	}
	px := &Exec{V: V, notes: map[string]bool{}, closures: map[*Term]*Closure{}, top0: app("top0", "Int"), con: &Contract{Key: "unfold"}, probe: map[string]string{}}
	s := newState()
	s.top = px.top0
	e := &SEnv{x: px, s: s, vars: map[string]*Val{}, pkg: f.pkg("water"), inBV: 1}
	i := 0
	for _, p := range f.Params {
		ty := V.parseSTy(p.Type, f.pkg("water"))
		n := len(ty.sorts())
		e.vars[p.Name] = mkVal(ty, t.Args[i:i+n])
		i += n
	}
	foot := V.footprint(f)
	for _, h := range foot {
		s.heaps[h] = t.Args[i]
		i++
	}
	if i != len(t.Args) {
		panic("unfold arity " + name)
	}
	rt := V.parseSTy(f.Ret, f.pkg("water"))
	v := e.coerce(e.eval(f.Body), rt, name)
	var out []*Term
	for j, c := range v.C {
		out = append(out, tEq(app(fmt.Sprintf("fun!%s#%d", name, j), c.Sort, t.Args...), c))
	}
	return out
}

func newState() *State {
	return &State{heaps: map[string]*Term{}, pcset: map[*Term]bool{}, known: map[*Term]*Term{}, env: map[envKey]*Val{}, iters: map[int]*Term{}, frames: map[int]*FrameSt{}, ghost: map[string]*Val{}}
}

// pureCall evaluates a call to a pure dependency function in a specification.
func (e *SEnv) pureCall(name string, args []*Expr) *Val {
	sl := strings.LastIndex(name, "/") + 1
	i := strings.Index(name[sl:], ".") + sl
	if i < sl {
		return nil
	}
	p := e.x.V.pkgByName(name[:i])
	if p == nil {
		return nil
	}
	rest := name[i+1:]
	var sig *types.Signature
	var key string
	var recv types.Type
	if j := strings.Index(rest, "."); j >= 0 {
		tn := p.Scope().Lookup(rest[:j])
		if tn == nil {
			return nil
		}
		recv = tn.Type()
		var lt types.Type = types.NewPointer(recv)
		if types.IsInterface(recv) {
			lt = recv
		}
		obj, _, _ := types.LookupFieldOrMethod(lt, true, p, rest[j+1:])
		fn, ok := obj.(*types.Func)
		if !ok {
			return nil
		}
		sig = fn.Type().(*types.Signature)
		key = p.Path() + "." + rest
	} else {
		o := p.Scope().Lookup(rest)
		switch o := o.(type) {
		case *types.Func:
			sig = o.Type().(*types.Signature)
			key = p.Path() + "." + rest
		case *types.TypeName:
			v := *e.eval(args[0])
			v.T = o.Type()
			return &v
		default:
			return nil
		}
	}
	var vs []*Val
	for _, a := range args {
		vs = append(vs, e.eval(a))
	}
	// parameter types
	var ptypes []types.Type
	if recv != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for k := 0; k < sig.Params().Len(); k++ {
		ptypes = append(ptypes, sig.Params().At(k).Type())
	}
	for k := range vs {
		if k >= len(ptypes) {
			return e.bad("%s: too many arguments", name)
		}
		if isNilV(vs[k]) {
			vs[k] = zeroVal(ptypes[k])
		} else if types.IsInterface(ptypes[k]) && vs[k].T != nil && !types.IsInterface(vs[k].T) {
			vs[k] = &Val{T: ptypes[k], C: []*Term{boxVal(vs[k], vs[k].T)}}
		}
	}
	if r := e.x.model(e.s, key, vs, sig); r != nil {
		if len(r) == 1 {
			return r[0]
		}
		return &Val{Tup: r}
	}
	if !e.x.V.isPure(key) {
		return e.bad("%s is not declared pure", key)
	}
	r := e.x.pureApp(e.s, key, vs, sig, true)
	if len(r) == 1 {
		return r[0]
	}
	return &Val{Tup: r}
}

// pureApp applies a dependency function treated as a mathematical function of its arguments.
// In specifications slice results stay sequences; in code they become fresh slices.
func (x *Exec) pureApp(s *State, key string, args []*Val, sig *types.Signature, spec bool) []*Val {
	var flat []*Term
	for _, a := range args {
		if a.Sp != nil {
			flat = append(flat, a.C...)
			continue
		}
		if st, ok := a.T.Underlying().(*types.Slice); ok {
			for ci := range layout(st.Elem()) {
				flat = append(flat, x.lst(s, a, ci))
			}
			continue
		}
		flat = append(flat, a.C...)
	}
	var out []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		nm := fmt.Sprintf("pure!%s#%d", key, i)
		if st, ok := rt.Underlying().(*types.Slice); ok {
			var seqs []*Term
			for ci, c := range layout(st.Elem()) {
				seqs = append(seqs, app(fmt.Sprintf("%s.%d", nm, ci), seqSort(c.Sort), flat...))
			}
			if spec {
				out = append(out, mkVal(&STy{Kind: "seq", Elem: goTy(st.Elem())}, seqs))
			} else {
				v := x.freshSlice(s, rt, seqs)
				isnil := app(nm+"nil", "Bool", flat...)
				s.assume(tImp(isnil, tEq(tSeqLen(seqs[0]), tInt(0))))
				out = append(out, v)
			}
			continue
		}
		v := &Val{T: rt}
		for ci, c := range layout(rt) {
			v.C = append(v.C, app(fmt.Sprintf("%s.%d", nm, ci), c.Sort, flat...))
		}
		if !spec && len(v.C) == 1 {
			x.valFacts(s, v)
		}
		out = append(out, v)
	}
	return out
}

func (V *Verifier) isPure(key string) bool { return V.specs.Pure[key] }

var _ = ssa.NewProgram

// via follows method promotion: a struct (or pointer to one) that embeds an interface and gets its
// method from it hands calls of the method on to the embedded value.
func (e *SEnv) via(i *Term, method string) *Term {
	if i.Op == "ite" {
		return tIte(i.Args[0], e.via(i.Args[1], method), e.via(i.Args[2], method))
	}
	n := dynType(i)
	if n.Op != "int" || n.I == nil {
		return i
	}
	t := tagType[n.I.Int64()]
	if t == nil {
		return i
	}
	sel := types.NewMethodSet(t).Lookup(nil, method)
	if sel == nil || len(sel.Index()) != 2 {
		return i
	}
	v := unboxVal(i, t)
	st, ptr := t.Underlying().(*types.Struct)
	ptr = !ptr
	if ptr {
		d := deref(t)
		if d == nil {
			return i
		}
		if st, _ = d.Underlying().(*types.Struct); st == nil {
			return i
		}
	}
	f := st.Field(sel.Index()[0])
	if _, ok := f.Type().Underlying().(*types.Interface); !ok {
		return i
	}
	return e.fieldOf(v, f.Name()).C[0]
}
