package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// funcKey names a function in contracts: "water.node.Match", "net/http.Header.Get".
func funcKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + fn.Name()
	}
	var pkg *types.Package
	if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	}
	pp := "?"
	if pkg != nil {
		pp = pkg.Path()
		if inRepo(pkg) {
			pp = pkg.Name()
		}
	}
	if r := fn.Signature.Recv(); r != nil {
		return pp + "." + recvName(r.Type()) + "." + fn.Name()
	}
	return pp + "." + fn.Name()
}

func recvName(t types.Type) string {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		return n.Obj().Name()
	}
	return t.String()
}

func fullTypeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && inRepo(n.Obj().Pkg()) {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return typeStr(t)
}

func (x *Exec) call(fr, deferOf *Frame, s *State, c *ssa.CallCommon, f *Val, args []*Val, pos token.Pos, k func(*State, Outcome)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, s, b, c, args, pos, k)
		return
	}
	sig := c.Signature()
	if fn := c.StaticCallee(); fn != nil && fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Pkg != fr.fn.Pkg {
		// another package's initialization: outside this package's state
		k(s, Outcome{})
		return
	}
	if c.IsInvoke() {
		x.safety(fr, s, tNe(f.C[0], zeroOfSort("Iface")), "method call on nil interface", pos, k, func(s2 *State) {
			x.invoke(fr, deferOf, s2, c, f, args, pos, k)
		})
		return
	}
	if f.Clo != nil {
		if fn, ok := f.Clo.Fn.(*ssa.Function); ok {
			x.callFn(fr, deferOf, s, fn, f.Clo.Bind, args, pos, k)
			return
		}
	}
	if cl, ok := x.closures[f.C[0]]; ok {
		if fn, ok := cl.Fn.(*ssa.Function); ok {
			x.callFn(fr, deferOf, s, fn, cl.Bind, args, pos, k)
			return
		}
	}
	// a conditional choice between known functions
	if t := f.C[0]; t.Op == "ite" {
		x.fork(s, t.Args[0], func(a *State) {
			x.call(fr, deferOf, a, c, &Val{T: f.T, C: []*Term{t.Args[1]}}, args, pos, k)
		}, func(b *State) {
			x.call(fr, deferOf, b, c, &Val{T: f.T, C: []*Term{t.Args[2]}}, args, pos, k)
		})
		return
	}
	x.safety(fr, s, tNe(f.C[0], tInt(0)), "call of nil function", pos, k, func(s2 *State) {
		key := "dyn:" + typeStr(sig)
		if n, ok := types.Unalias(f.T).(*types.Named); ok {
			if _, ok := x.V.specs.Contracts["dyn:"+typeStr(n)]; ok {
				key = "dyn:" + typeStr(n)
			}
		}
		con := x.V.contract(key)
		x.count(s2, key)
		all := append([]*Val{f}, args...)
		if con == nil {
			x.unknownCall(fr, s2, key, sig, all, k)
			return
		}
		x.apply(fr, s2, con, sig, nil, all, pos, k)
	})
}

func (x *Exec) invoke(fr, deferOf *Frame, s *State, c *ssa.CallCommon, f *Val, args []*Val, pos token.Pos, k func(*State, Outcome)) {
	d := dynType(f.C[0])
	if !isInt(d) {
		// a recorded type-assertion fact may give the dynamic type
		for t := range s.pcset {
			if t.Op == "=" && t.Args[0] == d && isInt(t.Args[1]) {
				d = t.Args[1]
				break
			}
			if t.Op == "=" && t.Args[1] == d && isInt(t.Args[0]) {
				d = t.Args[0]
				break
			}
		}
	}
	if f.C[0].Op == "ite" {
		t := f.C[0]
		x.fork(s, t.Args[0], func(a *State) {
			x.invoke(fr, deferOf, a, c, &Val{T: f.T, C: []*Term{t.Args[1]}}, args, pos, k)
		}, func(b *State) {
			x.invoke(fr, deferOf, b, c, &Val{T: f.T, C: []*Term{t.Args[2]}}, args, pos, k)
		})
		return
	}
	ikey := fullTypeName(c.Value.Type()) + "." + c.Method.Name()
	if r := c.Method.Type().(*types.Signature).Recv(); r != nil { // the interface that declares the method
		if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
			ikey = fullTypeName(n) + "." + c.Method.Name()
		}
	}
	if isInt(d) && d.I.Sign() > 0 {
		t := tagType[d.I.Int64()]
		if m := x.V.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
			recv := unboxVal(f.C[0], t)
			x.attachClosure(recv)
			x.valFacts(s, recv)
			if cl, ok := x.closures[f.C[0]]; ok {
				if v, ok := cl.Fn.(*Val); ok {
					recv = v
				}
			}
			// prefer the interface contract for dependencies' concrete types
			if inRepoFn(m) || x.V.contract(funcKey(m)) != nil {
				x.callFn(fr, deferOf, s, m, nil, append([]*Val{recv}, args...), pos, k)
				return
			}
		}
	}
	con := x.V.contract(ikey)
	x.count(s, ikey)
	all := append([]*Val{f}, args...)
	sig := c.Method.Type().(*types.Signature)
	if con == nil {
		if x.V.isPure(ikey) {
			k(s, Outcome{vals: x.pureApp(s, ikey, all, sig, false)})
			return
		}
		x.unknownCall(fr, s, ikey, sig, all, k)
		return
	}
	x.apply(fr, s, con, sig, nil, all, pos, k)
}

func inRepoFn(f *ssa.Function) bool {
	if f.Pkg != nil {
		return inRepo(f.Pkg.Pkg)
	}
	if f.Object() != nil {
		return inRepo(f.Object().Pkg())
	}
	if f.Parent() != nil {
		return inRepoFn(f.Parent())
	}
	return f.Synthetic != ""
}

func (x *Exec) callFn(fr, deferOf *Frame, s *State, fn *ssa.Function, bind []*Val, args []*Val, pos token.Pos, k func(*State, Outcome)) {
	key := funcKey(fn)
	if len(x.regKeys) > 0 && x.regKeys[key] {
		x.registered = append(x.registered, regCall{key, args, s.clone()})
	}
	x.count(s, key)
	if con := x.V.contract(key); con != nil && !(con.Opts["inline"] != "") {
		x.apply(fr, s, con, fn.Signature, fn, args, pos, k)
		return
	}
	if r := x.model(s, key, args, fn.Signature); r != nil {
		x.usedModel[key] = true
		k(s, Outcome{vals: r})
		return
	}
	if x.V.isPure(key) {
		x.usedModel[key] = true
		k(s, Outcome{vals: x.pureApp(s, key, args, fn.Signature, false)})
		return
	}
	if fn.Blocks != nil && (inRepoFn(fn) || fn.Synthetic != "" || fn.Parent() != nil) {
		depth := 0
		for p := fr; p != nil; p = p.parent {
			if p.fn == fn {
				x.fail("recursive call of %s without contract", key)
			}
			depth++
		}
		if depth > 14 {
			x.fail("inlining too deep at %s", key)
		}
		nf := x.newFrame(fn, fr, bind)
		nf.deferOf = deferOf
		x.inlined[key] = true
		x.runFunc(nf, s, args, k)
		return
	}
	x.unknownCall(fr, s, key, fn.Signature, args, k)
}

// count advances the ghost call counter of a function some contract counts the calls of.
func (x *Exec) count(s *State, key string) {
	if !x.V.specs.Counted[strings.TrimPrefix(key, "panic:")] {
		return
	}
	n := "N:" + key
	h := x.heapGet(s, n, "Int")
	s.heaps[n] = tAdd(h, tInt(1))
	s.log = append(s.log, wlog{n, nil})
}

// unknownCall: a dependency without contract. Its results are arbitrary and it is assumed not to
// touch the state contracts talk about; the assumption is reported.
func (x *Exec) unknownCall(fr *Frame, s *State, key string, sig *types.Signature, args []*Val, k func(*State, Outcome)) {
	x.note("external %s: results arbitrary, no effect on specified state, no panic", key)
	x.unknown[key] = true
	var vals []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, x.freshVal(s, sig.Results().At(i).Type(), "ext"))
	}
	k(s, Outcome{vals: vals})
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, s *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Val, pos token.Pos, k func(*State, Outcome)) {
	one := func(st *State, t types.Type, ts ...*Term) { k(st, Outcome{vals: []*Val{{T: t, C: ts}}}) }
	switch b.Name() {
	case "len":
		a := args[0]
		switch t := a.T.Underlying().(type) {
		case *types.Slice:
			one(s, tyInt, a.C[2])
		case *types.Basic:
			one(s, tyInt, tStrLen(a.C[0]))
		case *types.Map:
			d, _ := x.mapComps(s, a)
			n := mapCard(d)
			s.assume(tLe(tInt(0), n))
			one(s, tyInt, n)
		case *types.Pointer:
			one(s, tyInt, tInt(t.Elem().Underlying().(*types.Array).Len()))
		case *types.Array:
			one(s, tyInt, tInt(t.Len()))
		default:
			x.fail("len of %s", a.T)
		}
	case "cap":
		one(s, tyInt, args[0].C[3])
	case "append":
		x.appendOp(fr, s, args[0], args[1], k)
	case "copy":
		x.copyOp(fr, s, args[0], args[1], k)
	case "delete":
		m := args[0]
		d, ds, _, _ := x.mapNames(m.T)
		h := x.heapGet(s, d, arrSort("Int", ds))
		dom, _ := x.mapComps(s, m)
		x.fork(s, tEq(m.C[0], tInt(0)), func(n *State) { k(n, Outcome{}) }, func(n *State) {
			n.heaps[d] = tStore(h, m.C[0], tStore(dom, args[1].C[0], tFalse))
			x.wrote(n, d, m.C[0])
			k(n, Outcome{})
		})
	case "recover":
		pv := zeroOfSort("Iface")
		if fr.deferOf != nil {
			fs := s.frames[fr.deferOf.id]
			if fs != nil && fs.panicking && !fs.recovered {
				pv = fs.pval
				fs.recovered = true
			}
		}
		one(s, tyIface, pv)
	case "print", "println":
		k(s, Outcome{})
	case "ssa:wrapnilchk":
		x.safety(fr, s, tNe(args[0].C[0], tInt(0)), "nil receiver", pos, k, func(s2 *State) {
			k(s2, Outcome{vals: []*Val{args[0]}})
		})
	case "min", "max":
		r := args[0].C[0]
		for _, a := range args[1:] {
			if r.Sort != "Int" {
				x.fail("min/max on %s", r.Sort)
			}
			if b.Name() == "min" {
				r = tIte(tLe(r, a.C[0]), r, a.C[0])
			} else {
				r = tIte(tLe(a.C[0], r), r, a.C[0])
			}
		}
		one(s, args[0].T, r)
	case "clear":
		m := args[0]
		if _, ok := m.T.Underlying().(*types.Map); !ok {
			x.fail("clear of slice")
		}
		d, ds, _, _ := x.mapNames(m.T)
		h := x.heapGet(s, d, arrSort("Int", ds))
		x.fork(s, tEq(m.C[0], tInt(0)), func(n *State) { k(n, Outcome{}) }, func(n *State) {
			n.heaps[d] = tStore(h, m.C[0], tConstArr(ds, tFalse))
			x.wrote(n, d, m.C[0])
			k(n, Outcome{})
		})
	default:
		x.fail("builtin %s", b.Name())
	}
}

func (x *Exec) seqsOf(s *State, v *Val) []*Term {
	if bt, ok := v.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		q := bytesOf(v.C[0])
		s.assume(tEq(tSeqLen(q), tStrLen(v.C[0])))
		return []*Term{q}
	}
	st := v.T.Underlying().(*types.Slice)
	var out []*Term
	for ci := range layout(st.Elem()) {
		out = append(out, x.lst(s, v, ci))
	}
	return out
}

func (x *Exec) appendOp(fr *Frame, s *State, a, b *Val, k func(*State, Outcome)) {
	st := a.T.Underlying().(*types.Slice)
	var lb *Term
	if len(b.C) == 4 {
		lb = b.C[2]
	} else {
		lb = tStrLen(b.C[0])
	}
	if isInt(lb) && lb.I.Sign() == 0 {
		k(s, Outcome{vals: []*Val{a}})
		return
	}
	sb := x.seqsOf(s, b)
	n := tAdd(a.C[2], lb)
	fresh := func(t *State) {
		sa := x.seqsOf(t, a)
		var qs []*Term
		for i := range sa {
			qs = append(qs, tSeqCat(sa[i], sb[i]))
		}
		v := x.freshSlice(t, a.T, qs)
		v.C[2] = n
		t.assume(tEq(tSeqLen(qs[0]), n), tLe(n, v.C[3]))
		for i := range qs {
			if l := x.lst(t, v, i); l != qs[i] {
				t.assume(tEq(l, qs[i]))
			}
		}
		k(t, Outcome{vals: []*Val{v}})
	}
	inplace := func(t *State) {
		for ci, c := range layout(st.Elem()) {
			name := elemHeap(st.Elem()) + c.Suffix
			h := x.heapGet(t, name, arrSort("Int", arrSort("Int", c.Sort)))
			arr := x.known(t, tSelect(h, a.C[0]))
			pos := tAdd(a.C[1], a.C[2])
			q := sb[ci]
			na := arr
			if isInt(lb) && lb.I.IsInt64() && lb.I.Int64() <= 8 {
				for j := int64(0); j < lb.I.Int64(); j++ {
					na = tStore(na, tAdd(pos, tInt(j)), tSeqNth(q, tInt(j)))
				}
			} else {
				na = arrupd(arr, pos, q)
			}
			old := lstA(arr, a.C[1], a.C[2])
			t.heaps[name] = tStore(h, a.C[0], na)
			x.wrote(t, name, a.C[0])
			if nl := lstA(na, a.C[1], n); nl.Op == "app" {
				t.assume(tEq(nl, tSeqCat(old, q)))
			}
		}
		k(t, Outcome{vals: []*Val{{T: a.T, C: []*Term{a.C[0], a.C[1], n, a.C[3]}}}})
	}
	rest := func(t *State) { x.fork(t, tLe(n, a.C[3]), inplace, fresh) }
	if isInt(lb) {
		if isInt(a.C[3]) && a.C[3].I.Sign() == 0 {
			fresh(s)
			return
		}
		rest(s)
		return
	}
	x.fork(s, tLe(lb, tInt(0)), func(t *State) {
		t.assume(tEq(lb, tInt(0)))
		k(t, Outcome{vals: []*Val{a}})
	}, rest)
}

func arrupd(arr, pos, q *Term) *Term {
	if q.Op == "seq.empty" {
		return arr
	}
	return app("arrupd!"+sanit.Replace(arrElem(arr.Sort)), arr.Sort, arr, pos, q)
}

func (x *Exec) copyOp(fr *Frame, s *State, dst, src *Val, k func(*State, Outcome)) {
	var ls *Term
	if len(src.C) == 4 {
		ls = src.C[2]
	} else {
		ls = tStrLen(src.C[0])
	}
	ld := dst.C[2]
	do := func(t *State, n *Term) {
		st := dst.T.Underlying().(*types.Slice)
		sb := x.seqsOf(t, src)
		if !(isInt(n) && n.I.Sign() == 0) {
			for ci, c := range layout(st.Elem()) {
				name := elemHeap(st.Elem()) + c.Suffix
				h := x.heapGet(t, name, arrSort("Int", arrSort("Int", c.Sort)))
				arr := x.known(t, tSelect(h, dst.C[0]))
				q := tSeqSub(sb[ci], tInt(0), n)
				if n == ls {
					q = sb[ci]
				}
				t.heaps[name] = tStore(h, dst.C[0], arrupd(arr, dst.C[1], q))
				x.wrote(t, name, dst.C[0])
			}
		}
		k(t, Outcome{vals: []*Val{{T: tyInt, C: []*Term{n}}}})
	}
	if ls == ld {
		do(s, ls)
		return
	}
	x.fork(s, tLe(ls, ld), func(t *State) { do(t, ls) }, func(t *State) { do(t, ld) })
}

// ---- contracts ----

func (x *Exec) conEnv(s, old *State, con *Contract, sig *types.Signature, fn *ssa.Function, args []*Val) *SEnv {
	e := &SEnv{x: x, s: s, old: old, vars: map[string]*Val{}, pkg: con.Pkg}
	names := con.Params
	if len(names) != len(args) {
		panic(specErr{fmt.Sprintf("contract %s names %d parameters, the function has %d", con.Key, len(names), len(args))})
	}
	for i, n := range names {
		e.vars[n] = args[i]
	}
	return e
}

func (x *Exec) tagged(c *Clause) bool {
	return len(c.Tags) == 0 || x.prop == "" || c.Tags[x.prop]
}

func (x *Exec) modTargets(e *SEnv, m *ModClause) []modTarget {
	var out []modTarget
	switch {
	case m.Heap == "map":
		v := e.eval(m.Arg)
		d, ds, vs, vss := x.mapNames(v.T)
		x.heapGet(e.s, d, arrSort("Int", ds))
		out = append(out, modTarget{d, v.C[0]})
		for i := range vs {
			x.heapGet(e.s, vs[i], arrSort("Int", vss[i]))
			out = append(out, modTarget{vs[i], v.C[0]})
		}
	case m.Heap == "elems":
		v := e.eval(m.Arg)
		st := v.T.Underlying().(*types.Slice)
		for _, c := range layout(st.Elem()) {
			n := elemHeap(st.Elem()) + c.Suffix
			x.heapGet(e.s, n, arrSort("Int", arrSort("Int", c.Sort)))
			out = append(out, modTarget{n, v.C[0]})
		}
	case m.Heap == "cell":
		v := e.eval(m.Arg)
		a := *x.addrOf(e.s, v)
		a.T = deref(v.T)
		for _, c := range layout(a.T) {
			n := compHeap(&a, c)
			x.heapGet(e.s, n, compSort(&a, c))
			out = append(out, modTarget{n, a.Ref})
		}
	case strings.HasPrefix(m.Heap, "G:"):
		t := x.V.parseSTy(x.V.specs.GVars[m.Heap[2:]], e.pkg)
		for i, srt := range t.sorts() {
			n := gvarHeap(m.Heap[2:], i)
			x.heapGet(e.s, n, srt)
			out = append(out, modTarget{n, nil})
		}
	case strings.HasPrefix(m.Heap, "V:"):
		nm := m.Heap[2:]
		i := strings.Index(nm, ".")
		pk := e.pkg
		if i >= 0 {
			pk, nm = nm[:i], nm[i+1:]
		}
		o := x.V.tpkg(pk).Scope().Lookup(nm)
		if o == nil {
			e.bad("mod: no global %s", nm)
		}
		a := &Addr{Heap: "V:" + pk + "." + nm, T: o.Type()}
		for _, c := range layout(a.T) {
			n := compHeap(a, c)
			x.heapGet(e.s, n, compSort(a, c))
			out = append(out, modTarget{n, nil})
		}
	case strings.HasPrefix(m.Heap, "field:$"):
		gn := m.Heap[6:]
		gs, ok := x.V.specs.GVars[gn]
		if !ok {
			e.bad("mod: no ghost %s", gn)
		}
		t := x.V.parseSTy(gs, e.pkg)
		var ref *Term
		if m.Arg != nil {
			ref = e.eval(m.Arg).C[0]
		}
		for i, srt := range t.sorts() {
			n := gvarHeap(gn, i)
			x.heapGet(e.s, n, srt)
			out = append(out, modTarget{n, ref})
		}
	case strings.HasPrefix(m.Heap, "field:"):
		nm := m.Heap[6:]
		i := strings.LastIndex(nm, ".")
		t := x.V.goType(nm[:i], e.pkg)
		fld := nm[i+1:]
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			e.bad("mod: %s is not a struct", nm)
		}
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == fld {
				fam := objHeap(t)
				if isOpaqueStruct(t) {
					fam = "F:" + typeStr(types.Unalias(t))
				}
				var ref *Term
				if m.Arg != nil {
					ref = e.eval(m.Arg).C[0]
				}
				for _, c := range layout(st.Field(j).Type()) {
					n := fam + "." + fld + c.Suffix
					x.heapGet(e.s, n, arrSort("Int", c.Sort))
					out = append(out, modTarget{n, ref})
				}
				return out
			}
		}
		e.bad("mod: no field %s", nm)
	default:
		if strings.HasPrefix(m.Heap, "heap:") {
			for _, n := range x.heapsMatching(e.s, m.Heap[5:]) {
				out = append(out, modTarget{n, nil})
			}
			return out
		}
		e.bad("mod clause %s", m.Src)
	}
	return out
}

// havocMods gives the modified locations arbitrary values.
func (x *Exec) havocMods(s *State, mods []modTarget) {
	for _, m := range mods {
		h := x.heapGet(s, m.heap, heapSorts[m.heap])
		if m.ref == nil {
			x.havocHeap(s, m.heap)
		} else {
			s.heaps[m.heap] = tStore(h, m.ref, freshSym("md:"+m.heap, arrElem(h.Sort)))
		}
		x.wrote(s, m.heap, m.ref)
	}
}

// apply replaces a call by the callee's contract.
func (x *Exec) apply(fr *Frame, s *State, con *Contract, sig *types.Signature, fn *ssa.Function, args []*Val, pos token.Pos, k func(*State, Outcome)) {
	x.usedCon[con.Key] = true
	x.quietFields++
	defer func() { x.quietFields-- }()
	where := x.V.pos(pos)
	e := x.conEnv(s, nil, con, sig, fn, args)
	preDone := false
	if cas := x.con.CallA[con.Key]; len(cas) > 0 {
		ce := x.conEnv(s, x.entry, con, sig, fn, args)
		cv := map[string]*Val{}
		for n, v := range s.callv {
			cv[n] = v
		}
		s.callv = cv
		for i, n := range con.Params {
			if i < len(args) {
				s.callv["call_"+n] = args[i]
			}
		}
		for n, v := range x.params {
			if _, ok := ce.vars[n]; !ok {
				ce.vars[n] = v
			}
			ce.vars["my_"+n] = v
		}
		var use []*Clause
		for _, cl := range cas {
			if x.tagged(cl) {
				use = append(use, cl)
			}
		}
		used, at := x.steps(s, ce, "callassert", " at call of "+con.Key+" ("+where+")", use)
		if used { // the preconditions follow from the steps
			for _, cl := range con.Req {
				if x.tagged(cl) {
					for _, g := range conjuncts(e.boolean(cl.E)) {
						x.oblige(at, "pre", fmt.Sprintf("precondition %s of %s", cl.Name, con.Key), cl.Tags, subst(g, s.known))
					}
				}
			}
			preDone = true
		}
	}
	for _, cl := range con.Req {
		if !x.tagged(cl) {
			continue
		}
		g := e.boolean(cl.E)
		if !preDone {
			x.oblige(s, "pre", fmt.Sprintf("precondition %s of %s", cl.Name, con.Key), cl.Tags, g)
		}
		if !s.assume(g) {
			return
		}
	}
	if con.Key == x.con.Key && con.Dec != nil {
		oe := x.conEnv(x.entry, nil, con, sig, fn, x.args0)
		m0 := oe.eval(con.Dec.E).C[0]
		m1 := e.eval(con.Dec.E).C[0]
		x.oblige(s, "dec", "termination measure of "+con.Key, nil, tAnd(tLt(m1, m0), tLe(tInt(0), m0)))
	}
	pre := s.clone()
	pe := x.conEnv(pre, pre, con, sig, fn, args)
	var mods []modTarget
	for _, m := range con.Mod {
		mods = append(mods, x.modTargets(pe, m)...)
	}
	for h, srt := range heapSorts { // heaps the targets needed exist in both states
		if t, ok := pre.heaps[h]; ok {
			if _, ok := s.heaps[h]; !ok {
				s.heaps[h] = t
			}
		}
		_ = srt
	}
	post := func(t *State, panicking bool) {
		// the callee may have allocated; what it stored lies below the new top
		nt := freshSym("top", "Int")
		t.assume(tLe(t.top, nt))
		oldTop := t.top
		t.top = nt
		x.havocMods(t, mods)
		for _, m := range mods {
			if x.isTracked(m.heap) {
				x.trackFacts(t, pre.heaps[m.heap], oldTop, t.heaps[m.heap])
			}
		}
		if panicking {
			x.count(t, "panic:"+con.Key)
			pv := freshSym("pv", "Iface")
			t.trail = append(t.trail, con.Key+" panics at "+where)
			pe2 := x.conEnv(t, pre, con, sig, fn, args)
			for _, cl := range con.OnPanic {
				if x.tagged(cl) && !t.assume(pe2.boolean(cl.E)) {
					return
				}
			}
			k(t, Outcome{pan: pv})
			return
		}
		var vals []*Val
		pe2 := x.conEnv(t, pre, con, sig, fn, args)
		for i := 0; i < sig.Results().Len(); i++ {
			v := x.freshVal(t, sig.Results().At(i).Type(), "res")
			vals = append(vals, v)
			if i < len(con.Results) {
				pe2.vars[con.Results[i]] = v
			}
		}
		for _, cl := range append(append([]*Clause(nil), con.Ens...), con.Trust...) {
			if !x.tagged(cl) || countedRE.MatchString(cl.Src) {
				continue
			}
			if !t.assume(pe2.boolean(cl.E)) {
				return
			}
		}
		// results defined by equality to a term are used directly
		for _, v := range vals {
			for i, c := range v.C {
				if d := definedAs(t, c); d != nil {
					v.C[i] = d
				}
			}
			x.attachClosure(v)
		}
		k(t, Outcome{vals: vals})
	}
	if con.MayPanic || con.Pan != nil && !x.tagged(con.Pan) {
		t := s.clone()
		post(t, true)
		post(s, false)
		return
	}
	if con.Pan != nil {
		c := e.boolean(con.Pan.E)
		x.fork(s, c, func(t *State) { post(t, true) }, func(t *State) { post(t, false) })
		return
	}
	post(s, false)
}

// definedAs finds a fact "sym = term" for a fresh result symbol.
func definedAs(s *State, c *Term) *Term {
	for i := len(s.pc) - 1; i >= 0 && i >= len(s.pc)-40; i-- {
		f := s.pc[i]
		if f.Op == "=" {
			if f.Args[0] == c && f.Args[1].maxLeaf < c.id {
				return f.Args[1]
			}
			if f.Args[1] == c && f.Args[0].maxLeaf < c.id {
				return f.Args[0]
			}
		}
	}
	return nil
}

var _ = strings.TrimSpace
