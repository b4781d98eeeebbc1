package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn      *ssa.Function
	id      int
	parent  *Frame
	key     string
	depth   int
	bind    []*Val
	deferOf *Frame // frame whose deferred calls are being run, if this one was deferred
	params  []*Val
}

type Outcome struct {
	pan  *Term // non-nil: panicked with this value
	vals []*Val
}

type modTarget struct {
	heap string
	ref  *Term
}

type Oblig struct {
	Fn    string
	Kind  string
	Name  string
	Tags  map[string]bool
	Facts []*Term
	Goal  *Term
	Cand  string // candidate key for Houdini
	Pos   string
	Trail []string
	Res   *QRes
	Plain bool
}

type restart struct{ why string }

type loopInfo struct {
	havoc   map[string]bool
	all     bool // epoch havoc inside
	targets map[string]map[*Term]bool
	cands   map[string]bool // names seen
}

// Exec verifies one function.
type Exec struct {
	V                           *Verifier
	fn                          *ssa.Function
	con                         *Contract
	prop                        string
	obls                        []*Oblig
	loops                       map[string]*loopInfo
	dropped                     map[string]bool
	modSet                      []modTarget
	noFrame                     bool
	entryTop                    *Term
	top0                        *Term
	entry                       *State
	params                      map[string]*Val
	closures                    map[*Term]*Closure
	probe                       map[string]string
	nframe                      int
	niter                       int
	paths                       int
	usedCon                     map[string]bool
	notes                       map[string]bool
	phase                       string
	covers                      []*Oblig
	curTags                     map[string]bool
	outerSt                     *State
	rets                        int
	depthSpec                   int
	quiet                       int
	registered                  []regCall
	disc                        []*discovery
	iterVals                    map[int]*Iter
	regKeys                     map[string]bool
	usedModel, inlined, unknown map[string]bool
	quietFields                 int
	args0                       []*Val
	nEpoch                      int
}

type regCall struct {
	key  string
	args []*Val
	s    *State
}

type execErr struct{ msg string }

func (x *Exec) fail(f string, a ...interface{}) {
	panic(execErr{fmt.Sprintf(f, a...)})
}

func (x *Exec) note(f string, a ...interface{}) {
	x.notes[fmt.Sprintf(f, a...)] = true
}

func (x *Exec) oblige(s *State, kind, name string, tags map[string]bool, goal *Term) {
	x.obligeC(s, kind, name, tags, goal, "")
}

func (x *Exec) obligeC(s *State, kind, name string, tags map[string]bool, goal *Term, cand string) {
	if x.quiet > 0 {
		return
	}
	if len(tags) > 0 && x.prop != "" && !tags[x.prop] {
		return
	}
	o := &Oblig{Fn: x.con.Key, Kind: kind, Name: name, Tags: tags, Facts: s.pc, Goal: goal, Cand: cand, Trail: s.trail}
	x.obls = append(x.obls, o)
	if len(x.obls) > 60000 {
		x.fail("too many obligations")
	}
}

func (fr *Frame) get(x *Exec, s *State, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &Val{T: c.Type(), C: []*Term{globRef(c)}, Addr: &Addr{Heap: "V:" + c.Pkg.Pkg.Name() + "." + c.Name(), T: deref(c.Type())}}
	case *ssa.Function:
		return x.funcVal(c, nil)
	case *ssa.Builtin:
		return &Val{T: c.Type()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.bind[i]
			}
		}
	}
	r, ok := s.env[envKey{fr.id, v}]
	if !ok {
		panic(fmt.Sprintf("value %s = %s undefined in %s", v.Name(), v, fr.fn))
	}
	return r
}

func globRef(c *ssa.Global) *Term {
	return app("glob!"+c.Pkg.Pkg.Path()+"."+c.Name(), "Int")
}

func (x *Exec) funcVal(f *ssa.Function, bind []*Val) *Val {
	v := &Val{T: f.Signature}
	var sym *Term
	if len(bind) == 0 {
		sym = app("fn!"+f.String(), "Int")
	} else {
		sym = freshSym("clo!"+f.Name(), "Int")
	}
	v.Clo = &Closure{Fn: f, Bind: bind, Sym: sym}
	v.C = []*Term{sym}
	x.closures[sym] = v.Clo
	return v
}

func (x *Exec) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return &Val{T: t, C: []*Term{tBool(constant.BoolVal(c.Value))}}
		case b.Info()&types.IsString != 0:
			return &Val{T: t, C: []*Term{tStr(constant.StringVal(c.Value))}}
		case b.Info()&types.IsInteger != 0:
			i, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int)
			if !ok {
				i64, _ := constant.Int64Val(constant.ToInt(c.Value))
				i = big.NewInt(i64)
			}
			return &Val{T: t, C: []*Term{tBig(i)}}
		case b.Info()&types.IsFloat != 0:
			if constant.Sign(c.Value) == 0 {
				return zeroVal(t)
			}
			return &Val{T: t, C: []*Term{app("f64!"+c.Value.ExactString(), "F64")}}
		}
	}
	return &Val{T: t, C: []*Term{app("const!"+c.String(), layout(t)[0].Sort)}}
}

func (x *Exec) addrOf(s *State, p *Val) *Addr {
	if p.Addr != nil {
		return p.Addr
	}
	et := deref(p.T)
	if et == nil {
		panic("addrOf non-pointer " + p.T.String())
	}
	_, isArr := et.Underlying().(*types.Array)
	return &Addr{Heap: objHeap(et), Ref: p.C[0], T: et, Arr: isArr}
}

func ptrVal(t types.Type, a *Addr) *Val {
	ref := a.Ref
	if ref == nil {
		ref = tInt(0)
	}
	if a.Path == "" && len(a.Ixs) == 0 && a.Ref != nil {
		return &Val{T: t, C: []*Term{a.Ref}, Addr: a}
	}
	return &Val{T: t, C: []*Term{app("addr!"+a.Heap+a.Path+fmt.Sprint(len(a.Ixs)), "Int", append([]*Term{ref}, a.Ixs...)...)}, Addr: a}
}

// ---- running ----

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame, bind []*Val) *Frame {
	x.nframe++
	fr := &Frame{fn: fn, id: x.nframe, parent: parent, bind: bind}
	fr.key = fn.Name()
	if parent != nil {
		fr.key = parent.key + ">" + fn.Name()
		fr.depth = parent.depth + 1
	}
	return fr
}

func (x *Exec) runFunc(fr *Frame, s *State, args []*Val, k func(*State, Outcome)) {
	if fr.fn.Blocks == nil {
		x.fail("no body for %s", fr.fn)
	}
	if len(args) != len(fr.fn.Params) {
		x.fail("arity of %s", fr.fn)
	}
	s.frames[fr.id] = &FrameSt{}
	fr.params = args
	for i, p := range fr.fn.Params {
		s.env[envKey{fr.id, p}] = args[i]
	}
	kk := func(st *State, o Outcome) {
		// drop the frame's environment
		for kx := range st.env {
			if kx.fid == fr.id {
				delete(st.env, kx)
			}
		}
		k(st, o)
	}
	x.block(fr, s, fr.fn.Blocks[0], nil, kk)
}

func (x *Exec) block(fr *Frame, s *State, b *ssa.BasicBlock, prev *ssa.BasicBlock, k func(*State, Outcome)) {
	x.paths++
	if x.paths > 400000 {
		x.fail("path explosion in %s", fr.fn)
	}
	if n := len(x.disc); n > 0 && x.disc[n-1].fid == fr.id && !x.disc[n-1].body[b] {
		return
	}
	if isHeader(b) {
		if prev != nil && b.Dominates(prev) {
			x.loopBack(fr, s, b, prev)
			return
		}
		x.loopEnter(fr, s, b, prev, k)
		return
	}
	// phis
	x.setPhis(fr, s, b, prev, nil)
	x.instrs(fr, s, b, firstNonPhi(b), k)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			if _, ok := in.(*ssa.DebugRef); !ok {
				return i
			}
		}
	}
	return len(b.Instrs)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	panic("pred")
}

func (x *Exec) setPhis(fr *Frame, s *State, b, prev *ssa.BasicBlock, skip map[*ssa.Phi]bool) {
	var vals []*Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			break
		}
		vals = append(vals, fr.get(x, s, p.Edges[predIndex(b, prev)]))
		phis = append(phis, p)
	}
	for i, p := range phis {
		v := *vals[i]
		v.T = p.Type()
		s.env[envKey{fr.id, p}] = &v
	}
}

func (x *Exec) set(fr *Frame, s *State, v ssa.Value, val *Val) {
	s.env[envKey{fr.id, v}] = val
}

// instrs executes the instructions of b from index i.
func (x *Exec) instrs(fr *Frame, s *State, b *ssa.BasicBlock, i int, k func(*State, Outcome)) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// set already
		case *ssa.Jump:
			x.block(fr, s, b.Succs[0], b, k)
			return
		case *ssa.If:
			c := fr.get(x, s, in.Cond).C[0]
			x.fork(s, c, func(t *State) { x.block(fr, t, b.Succs[0], b, k) },
				func(f *State) { x.block(fr, f, b.Succs[1], b, k) })
			return
		case *ssa.Return:
			var vals []*Val
			for j, r := range in.Results {
				v := *fr.get(x, s, r)
				v.T = fr.fn.Signature.Results().At(j).Type()
				vals = append(vals, &v)
			}
			k(s, Outcome{vals: vals})
			return
		case *ssa.Panic:
			v := fr.get(x, s, in.X)
			s.trail = append(s.trail, "panic at "+x.V.pos(in.Pos()))
			x.doPanic(fr, s, v.C[0], k)
			return
		case *ssa.RunDefers:
			j := i + 1
			x.runDefers(fr, s, func(s2 *State, o Outcome) {
				if o.pan != nil {
					x.doPanic(fr, s2, o.pan, k)
					return
				}
				x.instrs(fr, s2, b, j, k)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: x.V.pos(in.Pos())}
			d.fn, d.args = x.callOperands(fr, s, &in.Call)
			s.frames[fr.id].defers = append(s.frames[fr.id].defers, d)
		case *ssa.Call:
			j := i + 1
			f, args := x.callOperands(fr, s, &in.Call)
			x.call(fr, nil, s, &in.Call, f, args, in.Pos(), func(s2 *State, o Outcome) {
				if o.pan != nil {
					x.doPanic(fr, s2, o.pan, k)
					return
				}
				x.setResult(fr, s2, in, o.vals)
				x.instrs(fr, s2, b, j, k)
			})
			return
		case *ssa.Go, *ssa.Send, *ssa.Select:
			x.fail("unsupported instruction %s in %s", in, fr.fn)
		case *ssa.Store:
			j := i + 1
			p := fr.get(x, s, in.Addr)
			v := fr.get(x, s, in.Val)
			x.deref(fr, s, p, in.Pos(), k, func(s2 *State) {
				a := *x.addrOf(s2, p)
				a.T = deref(in.Addr.Type())
				nv := *v
				x.store(s2, &a, &nv)
				x.instrs(fr, s2, b, j, k)
			})
			return
		case *ssa.MapUpdate:
			j := i + 1
			m := fr.get(x, s, in.Map)
			key, v := fr.get(x, s, in.Key), fr.get(x, s, in.Value)
			x.safety(fr, s, tNe(m.C[0], tInt(0)), "assignment to entry in nil map", in.Pos(), k, func(s2 *State) {
				x.mapPut(s2, m, key, v)
				x.instrs(fr, s2, b, j, k)
			})
			return
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				x.fail("unsupported instruction %T %s in %s", in, in, fr.fn)
			}
			j := i + 1
			done := false
			x.value(fr, s, v, k, func(s2 *State, val *Val) {
				if s2 == s && !done {
					done = true
					x.set(fr, s2, v, val)
					return
				}
				x.set(fr, s2, v, val)
				x.instrs(fr, s2, b, j, k)
			})
			if !done {
				return
			}
		}
	}
	x.fail("block without terminator")
}

func (x *Exec) fork(s *State, c *Term, yes, no func(*State)) {
	if c.Op == "true" || s.holds(c) {
		yes(s)
		return
	}
	if c.Op == "false" || s.holds(tNot(c)) {
		no(s)
		return
	}
	t := s.clone()
	if t.assume(c) {
		yes(t)
	}
	if s.assume(tNot(c)) {
		no(s)
	}
}

// forkV is fork that also asks the solver whether a branch is feasible.
func (x *Exec) feasible(s *State) bool {
	return !x.V.quickUnsat(s.pc)
}

// safety checks a runtime panic condition; the path continues with cond.
func (x *Exec) safety(fr *Frame, s *State, cond *Term, what string, pos token.Pos, k func(*State, Outcome), cont func(*State)) {
	if s.holds(cond) {
		cont(s)
		return
	}
	t := s.clone()
	if t.assume(tNot(cond)) {
		t.trail = append(t.trail, "runtime panic: "+what+" at "+x.V.pos(pos))
		x.doPanic(fr, t, app("runtimeError", "Iface"), k)
	}
	if s.assume(cond) {
		cont(s)
	}
}

func (x *Exec) deref(fr *Frame, s *State, p *Val, pos token.Pos, k func(*State, Outcome), cont func(*State)) {
	a := p.Addr
	if a != nil && (a.Ref == nil || a.Path != "" || len(a.Ixs) > 0) {
		cont(s)
		return
	}
	r := p.C[0]
	if r.Op == "app" && strings.HasPrefix(r.Name, "alloc!") {
		cont(s)
		return
	}
	x.safety(fr, s, tNe(r, tInt(0)), "nil dereference", pos, k, cont)
}

// doPanic runs the deferred calls of the frame and either recovers or propagates.
func (x *Exec) doPanic(fr *Frame, s *State, pv *Term, k func(*State, Outcome)) {
	fs := s.frames[fr.id]
	if len(fs.defers) == 0 {
		k(s, Outcome{pan: pv})
		return
	}
	fs.panicking, fs.pval = true, pv
	x.runDefers(fr, s, func(s2 *State, o Outcome) {
		f2 := s2.frames[fr.id]
		if o.pan != nil {
			f2.recovered = false
			x.doPanic(fr, s2, o.pan, k)
			return
		}
		if f2.recovered {
			f2.panicking, f2.recovered = false, false
			if fr.fn.Recover != nil {
				x.instrs(fr, s2, fr.fn.Recover, 0, k)
				return
			}
			var vals []*Val
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				vals = append(vals, zeroVal(rs.At(i).Type()))
			}
			k(s2, Outcome{vals: vals})
			return
		}
		k(s2, Outcome{pan: f2.pval})
	})
}

func (x *Exec) runDefers(fr *Frame, s *State, k func(*State, Outcome)) {
	fs := s.frames[fr.id]
	if len(fs.defers) == 0 {
		k(s, Outcome{})
		return
	}
	d := fs.defers[len(fs.defers)-1]
	fs.defers = fs.defers[:len(fs.defers)-1]
	x.call(fr, fr, s, d.call, d.fn, d.args, token.NoPos, func(s2 *State, o Outcome) {
		if o.pan != nil {
			f2 := s2.frames[fr.id]
			if len(f2.defers) == 0 {
				k(s2, o)
				return
			}
			f2.panicking, f2.pval, f2.recovered = true, o.pan, false
			x.runDefers(fr, s2, k)
			return
		}
		x.runDefers(fr, s2, k)
	})
}

func (x *Exec) setResult(fr *Frame, s *State, in *ssa.Call, vals []*Val) {
	switch len(vals) {
	case 0:
		x.set(fr, s, in, &Val{T: in.Type()})
	case 1:
		x.set(fr, s, in, vals[0])
	default:
		x.set(fr, s, in, &Val{T: in.Type(), Tup: vals})
	}
}

func (x *Exec) callOperands(fr *Frame, s *State, c *ssa.CallCommon) (*Val, []*Val) {
	f := fr.get(x, s, c.Value)
	var args []*Val
	for _, a := range c.Args {
		args = append(args, fr.get(x, s, a))
	}
	return f, args
}

// value evaluates a value instruction.
func (x *Exec) value(fr *Frame, s *State, v ssa.Value, k func(*State, Outcome), ret func(*State, *Val)) {
	switch in := v.(type) {
	case *ssa.Alloc:
		et := deref(in.Type())
		_, isArr := et.Underlying().(*types.Array)
		r := x.alloc(s, objHeap(et), et, isArr)
		ret(s, &Val{T: in.Type(), C: []*Term{r}})
	case *ssa.BinOp:
		x.binop(fr, s, in, k, ret)
	case *ssa.UnOp:
		a := fr.get(x, s, in.X)
		switch in.Op {
		case token.MUL:
			x.deref(fr, s, a, in.Pos(), k, func(s2 *State) {
				ad := *x.addrOf(s2, a)
				ad.T = in.Type()
				val := x.load(s2, &ad)
				x.valFacts(s2, val)
				ret(s2, val)
			})
		case token.NOT:
			ret(s, &Val{T: in.Type(), C: []*Term{tNot(a.C[0])}})
		case token.SUB:
			if a.C[0].Sort == "Int" {
				ret(s, &Val{T: in.Type(), C: []*Term{tSub(tInt(0), a.C[0])}})
			} else {
				ret(s, &Val{T: in.Type(), C: []*Term{app("fneg", "F64", a.C[0])}})
			}
		default:
			x.fail("unop %s", in)
		}
	case *ssa.FieldAddr:
		a := fr.get(x, s, in.X)
		x.deref(fr, s, a, in.Pos(), k, func(s2 *State) {
			ad := *x.addrOf(s2, a)
			st := deref(in.X.Type()).Underlying().(*types.Struct)
			f := st.Field(in.Field)
			if isOpaqueStruct(deref(in.X.Type())) {
				// exported field of an opaque dependency struct: its own heap family
				ad.Heap, ad.Path = "F:"+typeStr(types.Unalias(deref(in.X.Type()))), ""
			}
			ad.Path += "." + f.Name()
			ad.T = f.Type()
			ad.Ixs = append([]*Term(nil), ad.Ixs...)
			ret(s2, ptrVal(in.Type(), &ad))
		})
	case *ssa.Field:
		a := fr.get(x, s, in.X)
		lo, hi := fieldRange(in.X.Type(), in.Field)
		ret(s, &Val{T: in.Type(), C: a.C[lo:hi]})
	case *ssa.IndexAddr:
		a := fr.get(x, s, in.X)
		ix := fr.get(x, s, in.Index).C[0]
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.safety(fr, s, tAnd(tLe(tInt(0), ix), tLt(ix, a.C[2])), "index out of range", in.Pos(), k, func(s2 *State) {
				ad := &Addr{Heap: elemHeap(t.Elem()), Ref: a.C[0], Ixs: []*Term{tAdd(a.C[1], ix)}, T: t.Elem()}
				ret(s2, ptrVal(in.Type(), ad))
			})
		case *types.Pointer:
			arr := t.Elem().Underlying().(*types.Array)
			x.deref(fr, s, a, in.Pos(), k, func(s1 *State) {
				x.safety(fr, s1, tAnd(tLe(tInt(0), ix), tLt(ix, tInt(arr.Len()))), "index out of range", in.Pos(), k, func(s2 *State) {
					ad := *x.addrOf(s2, a)
					ad.Ixs = append(append([]*Term(nil), ad.Ixs...), ix)
					if ad.Arr {
						ad.Arr = false
					} else {
						ad.Path += "[]"
					}
					ad.T = arr.Elem()
					ret(s2, ptrVal(in.Type(), &ad))
				})
			})
		default:
			x.fail("indexaddr %s", in)
		}
	case *ssa.Index:
		a := fr.get(x, s, in.X)
		ix := fr.get(x, s, in.Index).C[0]
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(fr, s, tAnd(tLe(tInt(0), ix), tLt(ix, tInt(t.Len()))), "index out of range", in.Pos(), k, func(s2 *State) {
				val := &Val{T: in.Type()}
				for _, c := range a.C {
					val.C = append(val.C, tSelect(c, ix))
				}
				ret(s2, val)
			})
		case *types.Basic:
			x.strIndex(fr, s, a, ix, in.Pos(), in.Type(), k, ret)
		default:
			x.fail("index %s", in)
		}
	case *ssa.Lookup:
		a := fr.get(x, s, in.X)
		ixv := fr.get(x, s, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			x.strIndex(fr, s, a, ixv.C[0], in.Pos(), in.Type(), k, ret)
			return
		}
		val, has := x.mapGet(s, a, ixv)
		x.valFacts(s, val)
		if in.CommaOk {
			ret(s, &Val{T: in.Type(), Tup: []*Val{val, {T: types.Typ[types.Bool], C: []*Term{has}}}})
			return
		}
		ret(s, val)
	case *ssa.Extract:
		a := fr.get(x, s, in.Tuple)
		r := *a.Tup[in.Index]
		ret(s, &r)
	case *ssa.ChangeType:
		a := *fr.get(x, s, in.X)
		a.T = in.Type()
		ret(s, &a)
	case *ssa.ChangeInterface:
		a := *fr.get(x, s, in.X)
		a.T = in.Type()
		ret(s, &a)
	case *ssa.Convert:
		ret(s, x.convert(s, fr.get(x, s, in.X), in.Type()))
	case *ssa.MakeInterface:
		a := fr.get(x, s, in.X)
		b := boxVal(a, in.X.Type())
		if a.Addr != nil && (a.Addr.Path != "" || a.Addr.Ref == nil) {
			x.closures[b] = &Closure{Fn: a}
		}
		ret(s, &Val{T: in.Type(), C: []*Term{b}})
	case *ssa.MakeClosure:
		var bind []*Val
		for _, bv := range in.Bindings {
			bind = append(bind, fr.get(x, s, bv))
		}
		f := x.funcVal(in.Fn.(*ssa.Function), bind)
		f.T = in.Type()
		ret(s, f)
	case *ssa.MakeMap:
		r := x.newMap(s, in.Type())
		ret(s, r)
	case *ssa.MakeSlice:
		l, c := fr.get(x, s, in.Len).C[0], fr.get(x, s, in.Cap).C[0]
		x.safety(fr, s, tAnd(tLe(tInt(0), l), tLe(l, c)), "makeslice: len out of range", in.Pos(), k, func(s2 *State) {
			et := in.Type().Underlying().(*types.Slice).Elem()
			r := freshSym("alloc", "Int")
			x.bumpTop(s2, r)
			for _, c := range layout(et) {
				as := arrSort("Int", c.Sort)
				x.defineAt(s2, elemHeap(et)+c.Suffix, as, r, tConstArr(as, zeroOfSort(c.Sort)))
			}
			ret(s2, &Val{T: in.Type(), C: []*Term{r, tInt(0), l, c}})
		})
	case *ssa.Slice:
		x.sliceOp(fr, s, in, k, ret)
	case *ssa.TypeAssert:
		x.typeAssert(fr, s, in, k, ret)
	case *ssa.Range:
		x.niter++
		id := x.niter
		m := fr.get(x, s, in.X)
		it := &Iter{Map: m, ID: id}
		x.iterVals[id] = it
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			ks := layout(mt.Key())[0].Sort
			s.iters[id] = tConstArr(arrSort(ks, "Bool"), tFalse)
		} else {
			it.Str = true
			s.iters[id] = tInt(0)
		}
		ret(s, &Val{T: in.Type(), Iter: it})
	case *ssa.Next:
		x.next(fr, s, in, ret)
	default:
		x.fail("unsupported value %T: %s", v, v)
	}
}

func (x *Exec) strIndex(fr *Frame, s *State, a *Val, ix *Term, pos token.Pos, t types.Type, k func(*State, Outcome), ret func(*State, *Val)) {
	x.safety(fr, s, tAnd(tLe(tInt(0), ix), tLt(ix, tStrLen(a.C[0]))), "index out of range", pos, k, func(s2 *State) {
		c := charAt(a.C[0], ix)
		s2.assume(tLe(tInt(0), c), tLe(c, tInt(255)))
		ret(s2, &Val{T: t, C: []*Term{c}})
	})
}

func charAt(s, i *Term) *Term {
	if isStr(s) && isInt(i) && i.I.IsInt64() && i.I.Int64() >= 0 && i.I.Int64() < int64(len(s.S)) {
		return tInt(int64(s.S[i.I.Int64()]))
	}
	return op("str.to_code", "Int", op("str.at", "String", s, i))
}

func (x *Exec) next(fr *Frame, s *State, in *ssa.Next, ret func(*State, *Val)) {
	it := fr.get(x, s, in.Iter).Iter
	tup := in.Type().(*types.Tuple)
	if it.Str {
		str := it.Map.C[0]
		pos := s.iters[it.ID]
		ok := tLt(pos, tStrLen(str))
		c := charAt(str, pos)
		w := freshSym("runew", "Int")
		r := freshSym("rune", "Int")
		s.assume(tImp(ok, tAnd(tLe(tInt(1), w), tLe(w, tInt(4)), tLe(tAdd(pos, w), tStrLen(str)))))
		s.assume(tImp(tAnd(ok, tLt(c, tInt(128))), tAnd(tEq(w, tInt(1)), tEq(r, c))))
		s.assume(tImp(tAnd(ok, tNot(tLt(c, tInt(128)))), tLe(tInt(128), r)))
		for i := int64(1); i < 4; i++ { // the continuation bytes of a rune are not ASCII
			s.assume(tImp(tAnd(ok, tLt(tInt(i), w)), tLe(tInt(128), charAt(str, tAdd(pos, tInt(i))))))
		}
		s.iters[it.ID] = tIte(ok, tAdd(pos, w), pos)
		ret(s, &Val{T: tup, Tup: []*Val{{T: tup.At(0).Type(), C: []*Term{ok}}, {T: types.Typ[types.Int], C: []*Term{pos}}, {T: types.Typ[types.Rune], C: []*Term{r}}}})
		return
	}
	mt := it.Map.T.Underlying().(*types.Map)
	ks := layout(mt.Key())[0].Sort
	dom, _ := x.mapComps(s, it.Map)
	vis := s.iters[it.ID]
	ok := freshSym("ok", "Bool")
	key := freshSym("key", ks)
	s.assume(tImp(ok, tAnd(tSelect(dom, key), tNot(tSelect(vis, key)))))
	bv := freshBV("k", ks)
	s.assume(tImp(tNot(ok), tForall([]*Term{bv}, [][]*Term{{tSelect(dom, bv)}}, tImp(tSelect(dom, bv), tSelect(vis, bv)))))
	t := s.clone()
	if t.assume(ok) {
		t.iters[it.ID] = tStore(vis, key, tTrue)
		kv := &Val{T: mt.Key(), C: []*Term{key}}
		val, _ := x.mapGet(t, it.Map, kv)
		x.valFacts(t, val)
		ret(t, &Val{T: tup, Tup: []*Val{{T: types.Typ[types.Bool], C: []*Term{tTrue}}, kv, val}})
	}
	if s.assume(tNot(ok)) {
		st2 := s.clone() // force the continuation form
		ret(st2, &Val{T: tup, Tup: []*Val{{T: types.Typ[types.Bool], C: []*Term{tFalse}}, zeroVal(mt.Key()), zeroVal(mt.Elem())}})
	}
}

// ---- maps ----

func (x *Exec) mapNames(t types.Type) (dom string, domSort string, vals []string, valSorts []string) {
	mt := t.Underlying().(*types.Map)
	fam := mapHeap(t)
	ks := layout(mt.Key())
	if len(ks) != 1 {
		panic("map key type " + mt.Key().String())
	}
	k := ks[0].Sort
	dom, domSort = fam+"#d", arrSort(k, "Bool")
	for _, c := range layout(mt.Elem()) {
		vals = append(vals, fam+"#v"+c.Suffix)
		valSorts = append(valSorts, arrSort(k, c.Sort))
	}
	return
}

func (x *Exec) mapComps(s *State, m *Val) (*Term, []*Term) {
	d, ds, vs, vss := x.mapNames(m.T)
	dom := x.known(s, tSelect(x.heapGet(s, d, arrSort("Int", ds)), m.C[0]))
	var out []*Term
	for i := range vs {
		out = append(out, x.known(s, tSelect(x.heapGet(s, vs[i], arrSort("Int", vss[i])), m.C[0])))
	}
	if m.C[0].Op == "int" && m.C[0].I.Sign() == 0 {
		dom = tConstArr(ds, tFalse)
	} else if !m.C[0].hasBV && x.probe == nil {
		s.assume(tImp(tEq(m.C[0], tInt(0)), tEq(dom, tConstArr(ds, tFalse))))
	}
	return dom, out
}

func (x *Exec) mapGet(s *State, m, key *Val) (*Val, *Term) {
	mt := m.T.Underlying().(*types.Map)
	dom, vals := x.mapComps(s, m)
	has := tSelect(dom, key.C[0])
	v := &Val{T: mt.Elem()}
	for i, c := range layout(mt.Elem()) {
		v.C = append(v.C, tIte(has, tSelect(vals[i], key.C[0]), zeroOfSort(c.Sort)))
	}
	if _, ok := mt.Elem().Underlying().(*types.Slice); ok && len(v.C) == 4 && !has.hasBV {
		// keep slices flat: introduce names so that sequence views stay simple
		if has.Op != "true" && has.Op != "false" && x.probe == nil && x.depthSpec == 0 {
			w := &Val{T: mt.Elem()}
			for i, c := range v.C {
				f := app(fmt.Sprintf("mapsl!%d", c.id), c.Sort)
				s.assume(tEq(f, c))
				s.assume(tImp(has, tEq(f, tSelect(vals[i], key.C[0]))))
				w.C = append(w.C, f)
			}
			return w, has
		}
	}
	return v, has
}

func (x *Exec) mapPut(s *State, m, key, v *Val) {
	d, ds, vs, vss := x.mapNames(m.T)
	h := x.heapGet(s, d, arrSort("Int", ds))
	dom, vals := x.mapComps(s, m)
	s.heaps[d] = tStore(h, m.C[0], tStore(dom, key.C[0], tTrue))
	x.wrote(s, d, m.C[0])
	for i := range vs {
		h := x.heapGet(s, vs[i], arrSort("Int", vss[i]))
		s.heaps[vs[i]] = tStore(h, m.C[0], tStore(vals[i], key.C[0], v.C[i]))
		x.wrote(s, vs[i], m.C[0])
	}
}

func (x *Exec) newMap(s *State, t types.Type) *Val {
	mt := t.Underlying().(*types.Map)
	r := freshSym("alloc", "Int")
	x.bumpTop(s, r)
	d, ds, vs, vss := x.mapNames(t)
	x.defineAt(s, d, ds, r, tConstArr(ds, tFalse))
	for i, c := range layout(mt.Elem()) {
		x.defineAt(s, vs[i], vss[i], r, tConstArr(vss[i], zeroOfSort(c.Sort)))
	}
	return &Val{T: t, C: []*Term{r}}
}

// ---- operators ----

func (x *Exec) binop(fr *Frame, s *State, in *ssa.BinOp, k func(*State, Outcome), ret func(*State, *Val)) {
	a, b := fr.get(x, s, in.X), fr.get(x, s, in.Y)
	t := in.Type()
	one := func(c *Term) { ret(s, &Val{T: t, C: []*Term{c}}) }
	switch in.Op {
	case token.EQL, token.NEQ:
		e := x.eqVals(s, a, b)
		if in.Op == token.NEQ {
			e = tNot(e)
		}
		one(e)
		return
	}
	p, q := a.C[0], b.C[0]
	switch p.Sort {
	case "Int":
		switch in.Op {
		case token.ADD:
			one(tAdd(p, q))
		case token.SUB:
			one(tSub(p, q))
		case token.MUL:
			one(tMul(p, q))
		case token.LSS:
			one(tLt(p, q))
		case token.LEQ:
			one(tLe(p, q))
		case token.GTR:
			one(tGt(p, q))
		case token.GEQ:
			one(tGe(p, q))
		case token.QUO, token.REM:
			x.safety(fr, s, tNe(q, tInt(0)), "integer divide by zero", in.Pos(), k, func(s2 *State) {
				// truncated division
				dv := op("div", "Int", p, q)
				md := op("mod", "Int", p, q)
				var r *Term
				if in.Op == token.QUO {
					r = tIte(tOr(tLe(tInt(0), p), tEq(md, tInt(0))), dv, tIte(tLt(tInt(0), q), tAdd(dv, tInt(1)), tSub(dv, tInt(1))))
				} else {
					r = tIte(tOr(tLe(tInt(0), p), tEq(md, tInt(0))), md, tSub(md, op("abs", "Int", q)))
				}
				ret(s2, &Val{T: t, C: []*Term{r}})
			})
		case token.SHL:
			if isInt(q) && q.I.IsInt64() {
				one(tMul(p, tBig(new(big.Int).Lsh(big.NewInt(1), uint(q.I.Int64())))))
				return
			}
			one(app("shl", "Int", p, q))
		default:
			one(app("intop"+in.Op.String(), "Int", p, q))
		}
	case "String":
		switch in.Op {
		case token.ADD:
			one(tConcat(p, q))
		case token.LSS:
			one(op("str.<", "Bool", p, q))
		case token.GTR:
			one(op("str.<", "Bool", q, p))
		case token.LEQ:
			one(op("str.<=", "Bool", p, q))
		case token.GEQ:
			one(op("str.<=", "Bool", q, p))
		default:
			x.fail("string op %s", in)
		}
	case "Bool":
		x.fail("bool op %s", in)
	default:
		srt := layout(t)[0].Sort
		one(app("fop"+in.Op.String(), srt, p, q))
	}
}

func (x *Exec) eqVals(s *State, a, b *Val) *Term {
	at, bt := a.T, b.T
	ai, bi := types.IsInterface(at), types.IsInterface(bt)
	if ai && !bi {
		return tEq(a.C[0], boxVal(b, bt))
	}
	if bi && !ai {
		return tEq(b.C[0], boxVal(a, at))
	}
	if _, ok := at.Underlying().(*types.Slice); ok {
		return tEq(a.C[0], b.C[0]) // only nil comparison is legal
	}
	if _, ok := bt.Underlying().(*types.Slice); ok {
		return tEq(a.C[0], b.C[0])
	}
	var cs []*Term
	for i := range a.C {
		cs = append(cs, tEq(a.C[i], b.C[i]))
	}
	return tAnd(cs...)
}

func maxInt(bits int, uns bool) *Term {
	n := uint(bits)
	if !uns {
		n--
	}
	m := new(big.Int).Lsh(big.NewInt(1), n)
	return tBig(m.Sub(m, big.NewInt(1)))
}
func minInt(bits int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	return tBig(m.Neg(m))
}

func bytesOf(s *Term) *Term { // string -> (Seq Int)
	if isStr(s) && len(s.S) <= 64 {
		var ps []*Term
		for i := 0; i < len(s.S); i++ {
			ps = append(ps, tSeqUnit(tInt(int64(s.S[i]))))
		}
		if len(ps) == 0 {
			return tSeqEmpty(seqSort("Int"))
		}
		return app("bytesOf", seqSort("Int"), s)
	}
	if s.Op == "app" && s.Name == "strOf" {
		return s.Args[0]
	}
	return app("bytesOf", seqSort("Int"), s)
}

func strOf(q *Term) *Term {
	if q.Op == "app" && q.Name == "bytesOf" {
		return q.Args[0]
	}
	return app("strOf", "String", q)
}

func (x *Exec) convert(s *State, a *Val, t types.Type) *Val {
	from, to := a.T.Underlying(), t.Underlying()
	if sl, ok := to.(*types.Slice); ok {
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			q := bytesOf(a.C[0])
			_ = sl
			v := x.freshSlice(s, t, []*Term{q})
			v.C[2] = tStrLen(a.C[0])
			s.assume(tEq(tSeqLen(q), tStrLen(a.C[0])))
			return v
		}
	}
	if tb, ok := to.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			if _, ok := from.(*types.Slice); ok {
				q := x.lst(s, a, 0)
				r := strOf(q)
				s.assume(tEq(tStrLen(r), a.C[2]))
				return &Val{T: t, C: []*Term{r}}
			}
			if fb, ok := from.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
				return &Val{T: t, C: a.C}
			}
			return &Val{T: t, C: []*Term{app("runeStr", "String", a.C[0])}}
		}
		if fb, ok := from.(*types.Basic); ok {
			if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
				return &Val{T: t, C: []*Term{wrapInt(a.C[0], fb, tb)}}
			}
			return &Val{T: t, C: []*Term{app("conv!"+fb.Name()+"!"+tb.Name(), layout(t)[0].Sort, a.C[0])}}
		}
	}
	if len(layout(t)) == len(a.C) {
		v := *a
		v.T = t
		return &v
	}
	x.fail("convert %s to %s", a.T, t)
	return nil
}

func wrapInt(v *Term, from, to *types.Basic) *Term {
	fb, fu := intBits(from)
	tb, tu := intBits(to)
	if fu == tu && tb >= fb || fu && !tu && tb > fb {
		return v
	}
	m := tBig(new(big.Int).Lsh(big.NewInt(1), uint(tb)))
	if isInt(v) {
		r := new(big.Int).Mod(v.I, m.I)
		if !tu && r.Cmp(maxInt(tb, false).I) > 0 {
			r.Sub(r, m.I)
		}
		return tBig(r)
	}
	md := op("mod", "Int", v, m)
	if tu {
		return tIte(tAnd(tLe(tInt(0), v), tLe(v, maxInt(tb, true))), v, md)
	}
	return tIte(tAnd(tLe(minInt(tb), v), tLe(v, maxInt(tb, false))), v, tIte(tLe(md, maxInt(tb, false)), md, tSub(md, m)))
}

func (x *Exec) sliceOp(fr *Frame, s *State, in *ssa.Slice, k func(*State, Outcome), ret func(*State, *Val)) {
	a := fr.get(x, s, in.X)
	lo := tInt(0)
	if in.Low != nil {
		lo = fr.get(x, s, in.Low).C[0]
	}
	var hi *Term
	if in.High != nil {
		hi = fr.get(x, s, in.High).C[0]
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := tStrLen(a.C[0])
		if hi == nil {
			hi = n
		}
		x.safety(fr, s, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, n)), "slice bounds out of range", in.Pos(), k, func(s2 *State) {
			ret(s2, &Val{T: in.Type(), C: []*Term{tSubstr(a.C[0], lo, tSub(hi, lo))}})
		})
	case *types.Slice:
		if hi == nil {
			hi = a.C[2]
		}
		cp := a.C[3]
		if in.Max != nil {
			cp = fr.get(x, s, in.Max).C[0]
		}
		x.safety(fr, s, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, a.C[3])), "slice bounds out of range", in.Pos(), k, func(s2 *State) {
			r := &Val{T: in.Type(), C: []*Term{a.C[0], tAdd(a.C[1], lo), tSub(hi, lo), tSub(cp, lo)}}
			// decompose the sequence view
			for ci := range layout(t.Elem()) {
				q := x.lst(s2, a, ci)
				if q.Op == "app" && strings.HasPrefix(q.Name, "lst!") {
					arr := q.Args[0]
					s2.assume(tImp(tLe(hi, a.C[2]), tEq(q, tSeqCat(lstA(arr, a.C[1], lo), lstA(arr, tAdd(a.C[1], lo), tSub(hi, lo)), lstA(arr, tAdd(a.C[1], hi), tSub(a.C[2], hi))))))
				}
			}
			ret(s2, r)
		})
	case *types.Pointer:
		arr := t.Elem().Underlying().(*types.Array)
		n := tInt(arr.Len())
		if hi == nil {
			hi = n
		}
		x.deref(fr, s, a, in.Pos(), k, func(s1 *State) {
			x.safety(fr, s1, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, n)), "slice bounds out of range", in.Pos(), k, func(s2 *State) {
				ad := x.addrOf(s2, a)
				if !ad.Arr {
					x.fail("slicing an array inside an object: %s", in)
				}
				ret(s2, &Val{T: in.Type(), C: []*Term{ad.Ref, lo, tSub(hi, lo), tSub(n, lo)}})
			})
		})
	default:
		x.fail("slice %s", in)
	}
}

// implements reports whether dynamic type tag implements interface it (as a term).
func (x *Exec) implements(i *Term, it *types.Interface, name string) *Term {
	d := dynType(i)
	return implTerm(d, it, name)
}

func implTerm(d *Term, it *types.Interface, name string) *Term {
	if isInt(d) {
		if d.I.Sign() == 0 {
			return tFalse
		}
		return tBool(types.Implements(tagType[d.I.Int64()], it))
	}
	if d.Op == "ite" {
		return tIte(d.Args[0], implTerm(d.Args[1], it, name), implTerm(d.Args[2], it, name))
	}
	ifaceByName[name] = it
	return app("impl!"+name, "Bool", d)
}

var ifaceByName = map[string]*types.Interface{}

func (x *Exec) typeAssert(fr *Frame, s *State, in *ssa.TypeAssert, k func(*State, Outcome), ret func(*State, *Val)) {
	a := fr.get(x, s, in.X).C[0]
	var ok *Term
	var val *Val
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if it.Empty() {
			ok = tNe(a, zeroOfSort("Iface"))
		} else {
			ok = tAnd(tNe(a, zeroOfSort("Iface")), x.implements(a, it, types.TypeString(in.AssertedType, nil)))
		}
		val = &Val{T: in.AssertedType, C: []*Term{a}}
	} else {
		ok = tEq(dynType(a), typeTag(in.AssertedType))
		val = unboxVal(a, in.AssertedType)
		x.attachClosure(val)
	}
	if in.CommaOk {
		fin := func(s2 *State, okT *Term, v *Val) {
			ret(s2, &Val{T: in.Type(), Tup: []*Val{v, {T: types.Typ[types.Bool], C: []*Term{okT}}}})
		}
		if s.holds(ok) {
			x.valFacts(s, val)
			fin(s, tTrue, val)
			return
		}
		if ok.Op == "false" || s.holds(tNot(ok)) {
			fin(s, tFalse, zeroVal(in.AssertedType))
			return
		}
		t := s.clone()
		if t.assume(ok) {
			x.valFacts(t, val)
			fin(t, tTrue, val)
		}
		n := s.clone()
		if n.assume(tNot(ok)) {
			fin(n, tFalse, zeroVal(in.AssertedType))
		}
		return
	}
	x.safety(fr, s, ok, "interface conversion", in.Pos(), k, func(s2 *State) {
		x.valFacts(s2, val)
		ret(s2, val)
	})
}

func (x *Exec) attachClosure(v *Val) {
	if _, ok := v.T.Underlying().(*types.Signature); ok && len(v.C) == 1 {
		if c, ok := x.closures[v.C[0]]; ok {
			v.Clo = c
		}
	}
}

var debug = os.Getenv("GOVC_DEBUG") != ""
