package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

var bodyMemo = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// loopBody is the natural loop of header b.
func loopBody(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if m, ok := bodyMemo[b]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{b: true}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if m[x] {
			return
		}
		m[x] = true
		for _, p := range x.Preds {
			walk(p)
		}
	}
	for _, p := range b.Preds {
		if b.Dominates(p) {
			walk(p)
		}
	}
	bodyMemo[b] = m
	return m
}

// discovery finds the heaps a loop body writes, before the real pass over it.
type discovery struct {
	fid   int
	hdr   *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	heap  map[string]map[*Term]bool // nil inner map: anywhere
	any   map[string]bool
	iters map[int]bool
}

type havocPlan struct {
	targets map[string][]*Term // heaps whose writes all go to loop-invariant references
	fresh   map[string][]*Term // heaps also written at new or unknown references; targets listed
	all     map[string]bool    // no frame at all
	iters   []int
}

func (x *Exec) loopEnter(fr *Frame, s *State, b, prev *ssa.BasicBlock, k func(*State, Outcome)) {
	ord := 0
	for _, o := range fr.fn.Blocks {
		if o == b {
			break
		}
		if isHeader(o) {
			ord++
		}
	}
	key := fmt.Sprintf("%s#%d", fr.key, ord)
	var phis []*ssa.Phi
	entryV := map[*ssa.Phi]*Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			break
		}
		phis = append(phis, p)
		v := *fr.get(x, s, p.Edges[predIndex(b, prev)])
		v.T = p.Type()
		entryV[p] = &v
	}
	L := &LoopCtx{key: key, fid: fr.id, hdr: b, entry: s.clone(), entryTop: s.top, logAt: len(s.log)}
	L.k = freshSym("k", "Int")

	// invariants hold on entry
	zero := tInt(0)
	for _, p := range phis {
		s.env[envKey{fr.id, p}] = entryV[p]
	}
	x.checkCands(fr, s, L, phis, zero, "inv-entry")

	// discover the writes of the body
	plan := &havocPlan{targets: map[string][]*Term{}, fresh: map[string][]*Term{}, all: map[string]bool{}}
	iters := map[int]bool{}
	for round := 0; ; round++ {
		d := &discovery{fid: fr.id, hdr: b, body: loopBody(b), heap: map[string]map[*Term]bool{}, any: map[string]bool{}, iters: iters}
		t := s.clone()
		x.havocLoop(fr, t, L, phis, entryV, plan)
		x.disc = append(x.disc, d)
		x.quiet++
		t.loops = append(t.loops, L)
		L.logAt = len(t.log)
		x.instrs(fr, t, b, firstNonPhi(b), func(*State, Outcome) {})
		x.quiet--
		x.disc = x.disc[:len(x.disc)-1]
		np := x.mkPlan(L, d)
		if samePlan(plan, np) {
			plan = np
			break
		}
		np = mergePlan(plan, np)
		plan = np
		if round > 12 {
			x.fail("loop writes do not stabilise in %s", key)
		}
	}

	x.havocLoop(fr, s, L, phis, entryV, plan)
	// writes of the loop as seen from enclosing loops
	L.logAt = len(s.log)
	for _, h := range sortedKeys(plan.targets) {
		for _, r := range plan.targets[h] {
			s.log = append(s.log, wlog{h, r})
		}
	}
	for _, h := range sortedKeys(plan.fresh) {
		for _, r := range plan.fresh[h] {
			s.log = append(s.log, wlog{h, r})
		}
		s.log = append(s.log, wlog{h, freshSym("alloc", "Int")}) // stands for new objects
	}
	for h := range plan.all {
		s.log = append(s.log, wlog{h, nil})
	}
	L.logAt = len(s.log)
	s.loops = append(s.loops, L)
	if !x.assumeCands(fr, s, L, phis) {
		return
	}
	x.instrs(fr, s, b, firstNonPhi(b), k)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) mkPlan(L *LoopCtx, d *discovery) *havocPlan {
	p := &havocPlan{targets: map[string][]*Term{}, fresh: map[string][]*Term{}, all: map[string]bool{}}
	for h := range d.any {
		p.all[h] = true
	}
	for h, refs := range d.heap {
		if p.all[h] {
			continue
		}
		fresh := false
		var ts []*Term
		for r := range refs {
			if refBefore(r, L.k.id) {
				ts = append(ts, r)
			} else {
				fresh = true
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		if fresh {
			if x.dropped[L.key+"/frame/"+h] {
				p.all[h] = true
			} else {
				p.fresh[h] = ts
			}
		} else {
			p.targets[h] = ts
		}
	}
	for id := range d.iters {
		p.iters = append(p.iters, id)
	}
	sort.Ints(p.iters)
	return p
}

func samePlan(a, b *havocPlan) bool {
	if len(a.targets) != len(b.targets) || len(a.fresh) != len(b.fresh) || len(a.all) != len(b.all) || len(a.iters) != len(b.iters) {
		return false
	}
	eq := func(m, n map[string][]*Term) bool {
		for h, ts := range m {
			us, ok := n[h]
			if !ok || len(us) != len(ts) {
				return false
			}
			for i := range ts {
				if ts[i] != us[i] {
					return false
				}
			}
		}
		return true
	}
	for h := range a.all {
		if !b.all[h] {
			return false
		}
	}
	return eq(a.targets, b.targets) && eq(a.fresh, b.fresh)
}

// mergePlan keeps earlier heaps havocked (the heap set only grows).
func mergePlan(a, b *havocPlan) *havocPlan {
	for h := range a.all {
		b.all[h] = true
		delete(b.fresh, h)
		delete(b.targets, h)
	}
	for h, ts := range a.fresh {
		if b.all[h] {
			continue
		}
		if us, ok := b.targets[h]; ok {
			delete(b.targets, h)
			b.fresh[h] = us
		} else if _, ok := b.fresh[h]; !ok {
			b.fresh[h] = ts
		}
	}
	for h, ts := range a.targets {
		if b.all[h] || b.fresh[h] != nil {
			continue
		}
		if _, ok := b.fresh[h]; ok {
			continue
		}
		if _, ok := b.targets[h]; !ok {
			b.targets[h] = ts
		}
	}
	return b
}

// havocLoop replaces everything the loop may change by arbitrary values.
func (x *Exec) havocLoop(fr *Frame, s *State, L *LoopCtx, phis []*ssa.Phi, entryV map[*ssa.Phi]*Val, plan *havocPlan) {
	s.assume(tLe(tInt(0), L.k))
	nt := freshSym("top", "Int")
	s.assume(tLe(s.top, nt))
	s.top = nt
	for _, h := range sortedKeys(plan.targets) {
		old := s.heaps[h]
		if old == nil {
			old = x.heapGet(s, h, heapSorts[h])
		}
		for _, r := range plan.targets[h] {
			es := arrElem(heapSorts[h])
			old = tStore(old, r, freshSym("lv:"+h, es))
		}
		s.heaps[h] = old
	}
	for _, h := range sortedKeys(plan.fresh) {
		old := x.heapGet(s, h, heapSorts[h])
		n := x.havocHeap(s, h)
		r := freshBV("r", "Int")
		conds := []*Term{tLt(r, L.entryTop)}
		for _, t := range plan.fresh[h] {
			conds = append(conds, tNe(r, t))
		}
		s.assume(tForall([]*Term{r}, [][]*Term{{tSelect(n, r)}}, tImp(tAnd(conds...), tEq(tSelect(n, r), tSelect(old, r)))))
	}
	for _, h := range sortedKeys(plan.all) {
		old := x.heapGet(s, h, heapSorts[h])
		n := x.havocHeap(s, h)
		if x.isTracked(h) {
			x.trackFacts(s, old, L.entryTop, n)
		}
	}
	for _, p := range phis {
		v0 := entryV[p]
		if step, ok := induction(p, L.hdr); ok && len(v0.C) == 1 && v0.C[0].Sort == "Int" {
			s.env[envKey{fr.id, p}] = &Val{T: p.Type(), C: []*Term{tAdd(v0.C[0], tMul(L.k, tInt(step)))}}
			continue
		}
		v := x.freshVal(s, p.Type(), "phi")
		s.env[envKey{fr.id, p}] = v
	}
	for _, id := range plan.iters {
		old := s.iters[id]
		if old.Sort == "Int" {
			n := freshSym("pos", "Int")
			it := x.iterVals[id]
			s.assume(tLe(tInt(0), n), tLe(n, tStrLen(it.Map.C[0])))
			s.iters[id] = n
		} else {
			n := freshSym("visited", old.Sort)
			it := x.iterVals[id]
			dom, _ := x.mapComps(s, it.Map)
			kb := freshBV("k", arrIdx(old.Sort))
			// only keys of the map as it was on entry or is now are visited; stated when the map is unchanged
			if edom, _ := x.mapComps(L.entry, it.Map); edom == dom {
				s.assume(tForall([]*Term{kb}, [][]*Term{{tSelect(n, kb)}}, tImp(tSelect(n, kb), tSelect(dom, kb))))
			}
			s.iters[id] = n
		}
	}
}

// freshVal makes an arbitrary value of a Go type.
func (x *Exec) freshVal(s *State, t types.Type, pre string) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := &Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, x.freshVal(s, tp.At(i).Type(), pre))
		}
		return v
	}
	v := &Val{T: t}
	for _, c := range layout(t) {
		v.C = append(v.C, freshSym(pre, c.Sort))
	}
	x.valFacts(s, v)
	return v
}

// induction: every back edge adds the same constant.
func induction(p *ssa.Phi, h *ssa.BasicBlock) (int64, bool) {
	var step int64
	found := false
	for i, pr := range h.Preds {
		if !h.Dominates(pr) {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || bo.X != ssa.Value(p) {
			return 0, false
		}
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return 0, false
		}
		n := c.Int64()
		if bo.Op == token.SUB {
			n = -n
		}
		if found && n != step {
			return 0, false
		}
		step, found = n, true
	}
	return step, found
}

type cand struct {
	key  string
	name string
	tags map[string]bool
	eval func(s *State, kt *Term) (*Term, bool)
}

// cands lists the candidate invariants of a loop: contract clauses and generic ones.
func (x *Exec) cands(fr *Frame, L *LoopCtx, phis []*ssa.Phi) []cand {
	var out []cand
	get := func(s *State, p *ssa.Phi) *Val { return s.env[envKey{fr.id, p}] }
	for i, p := range phis {
		p := p
		nm := fmt.Sprintf("%s/phi%d", L.key, i)
		_, ind := induction(p, L.hdr)
		switch u := p.Type().Underlying().(type) {
		case *types.Pointer, *types.Map:
			out = append(out, cand{nm + "/nonnil", "nonnil", nil, func(s *State, kt *Term) (*Term, bool) {
				return tNe(get(s, p).C[0], tInt(0)), true
			}})
			out = append(out, cand{nm + "/old", "old", nil, func(s *State, kt *Term) (*Term, bool) {
				return tLt(get(s, p).C[0], x.entryTop), true
			}})
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 && !ind {
				init := func(s *State) *Term { return nil }
				_ = init
				out = append(out, cand{nm + "/ge0", "ge0", nil, func(s *State, kt *Term) (*Term, bool) {
					return tLe(tInt(0), get(s, p).C[0]), true
				}})
				out = append(out, cand{nm + "/lek", "lek", nil, func(s *State, kt *Term) (*Term, bool) {
					return tLe(get(s, p).C[0], kt), true
				}})
			}
		case *types.Slice:
			out = append(out, cand{nm + "/freshslice", "freshslice", nil, func(s *State, kt *Term) (*Term, bool) {
				v := get(s, p)
				return tOr(tLe(L.entryTop, v.C[0]), tEq(v.C[3], tInt(0))), true
			}})
			out = append(out, cand{nm + "/newslice", "newslice", nil, func(s *State, kt *Term) (*Term, bool) {
				v := get(s, p)
				return tOr(tLe(x.entryTop, v.C[0]), tEq(v.C[3], tInt(0))), true
			}})
			out = append(out, cand{nm + "/len", "len<=k", nil, func(s *State, kt *Term) (*Term, bool) {
				return tLe(get(s, p).C[2], kt), true
			}})
		}
	}
	// bound of the header comparison
	if iff, ok := L.hdr.Instrs[len(L.hdr.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Block() == L.hdr {
			out = append(out, cand{L.key + "/bound", "bound", nil, func(s *State, kt *Term) (*Term, bool) {
				a, b, ok := x.headerCmp(fr, s, L.hdr, bo)
				if !ok || a.Sort != "Int" {
					return nil, false
				}
				switch bo.Op {
				case token.LSS:
					return tLe(a, b), true
				case token.LEQ:
					return tLe(a, tAdd(b, tInt(1))), true
				case token.GTR:
					return tLe(b, a), true
				case token.GEQ:
					return tLe(b, tAdd(a, tInt(1))), true
				case token.NEQ:
					return tLe(a, b), true
				}
				return nil, false
			}})
			out = append(out, cand{L.key + "/bound0", "bound0", nil, func(s *State, kt *Term) (*Term, bool) {
				a, b, ok := x.headerCmp(fr, s, L.hdr, bo)
				if !ok || a.Sort != "Int" {
					return nil, false
				}
				switch bo.Op {
				case token.LSS:
					return tOr(tEq(kt, tInt(0)), tLe(a, b)), true
				case token.LEQ:
					return tOr(tEq(kt, tInt(0)), tLe(a, tAdd(b, tInt(1)))), true
				}
				return nil, false
			}})
		}
	}
	// contract pool
	for ci, cl := range x.con.Inv {
		cl := cl
		if len(cl.Tags) > 0 && x.prop != "" && !cl.Tags[x.prop] {
			continue
		}
		var choose func(i int, vars map[string]localPick, desc string)
		choose = func(i int, vars map[string]localPick, desc string) {
			if i == len(cl.Any) {
				vs := map[string]localPick{}
				for k, v := range vars {
					vs[k] = v
				}
				out = append(out, cand{fmt.Sprintf("%s/inv%d%s", L.key, ci, desc), cl.Name, cl.Tags, func(s *State, kt *Term) (t *Term, ok bool) {
					defer func() {
						if r := recover(); r != nil {
							if se, isS := r.(specErr); isS {
								if debug {
									fmt.Println("inv skipped:", L.key, cl.Name, se.msg)
								}
								t, ok = nil, false
								return
							}
							panic(r)
						}
					}()
					e := x.loopEnv(fr, s, L, phis, kt)
					for n, v := range vs {
						e.vars[n] = x.localVal(fr, s, v.v, v.ptr)
					}
					return e.boolean(cl.E), true
				}})
				return
			}
			want := x.V.parseSTy(cl.Any[i].Type, x.con.Pkg)
			seen := map[string]bool{}
			for _, v := range x.loopLocals(fr, L, phis) {
				t := v.Type()
				ptr := false
				if _, isA := v.(*ssa.Alloc); isA {
					// the variable's content, or the address of a new struct
					_, st := deref(t).Underlying().(*types.Struct)
					ptr = st && want.Kind == "go" && types.Identical(types.Unalias(t), types.Unalias(want.Go))
					if !ptr {
						t = deref(t)
					}
				}
				if want.Kind == "go" && types.Identical(types.Unalias(t), types.Unalias(want.Go)) {
					if k := x.localKey(fr, L, v); k != "" {
						if seen[k] {
							continue
						}
						seen[k] = true
					}
					vars[cl.Any[i].Name] = localPick{v, ptr}
					choose(i+1, vars, desc+"/"+v.Name())
				}
			}
		}
		choose(0, map[string]localPick{}, "")
	}
	return out
}

// localKey identifies the value of a loop-invariant local, to skip copies of the same value.
func (x *Exec) localKey(fr *Frame, L *LoopCtx, v ssa.Value) string {
	s := L.entry
	switch v := v.(type) {
	case *ssa.Alloc:
		return ""
	case *ssa.Phi:
		if v.Block() == L.hdr {
			return ""
		}
	}
	val, ok := s.env[envKey{fr.id, v}]
	if !ok {
		return "none"
	}
	k := "v"
	for _, c := range val.C {
		k += fmt.Sprintf(" %p", c)
	}
	return k
}

type localPick struct {
	v   ssa.Value
	ptr bool
}

func (x *Exec) localVal(fr *Frame, s *State, v ssa.Value, ptr bool) *Val {
	val, ok := s.env[envKey{fr.id, v}]
	if !ok {
		panic(specErr{"local not yet defined"})
	}
	if _, isA := v.(*ssa.Alloc); isA && !ptr {
		a := *x.addrOf(s, val)
		a.T = deref(v.Type())
		return x.load(s, &a)
	}
	return val
}

// loopLocals: phis of the header, allocated variables and parameters visible there.
func (x *Exec) loopLocals(fr *Frame, L *LoopCtx, phis []*ssa.Phi) []ssa.Value {
	var out []ssa.Value
	for _, p := range phis {
		out = append(out, p)
	}
	for _, b := range fr.fn.Blocks {
		if b != L.hdr && b.Dominates(L.hdr) {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Alloc, *ssa.Phi, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.TypeAssert, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.BinOp, *ssa.Slice:
					out = append(out, in.(ssa.Value))
				case *ssa.UnOp:
					if v.Op == token.MUL {
						out = append(out, v)
					}
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		out = append(out, p)
	}
	return out
}

func (x *Exec) loopEnv(fr *Frame, s *State, L *LoopCtx, phis []*ssa.Phi, kt *Term) *SEnv {
	vars := map[string]*Val{}
	for k, v := range x.params {
		vars[k] = v
	}
	for i, p := range fr.fn.Params {
		if _, ok := vars[p.Name()]; !ok && i < len(fr.params) {
			vars[p.Name()] = fr.params[i]
		}
	}
	for _, p := range phis {
		if p.Comment != "" {
			if _, ok := vars[p.Comment]; !ok {
				vars[p.Comment] = s.env[envKey{fr.id, p}]
			}
		}
	}
	vars["$k"] = intV(kt)
	// range iteration state
	for _, in := range L.hdr.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if itv, ok := s.env[envKey{fr.id, n.Iter}]; ok && itv.Iter != nil {
				it := itv.Iter
				if it.Str {
					vars["$pos"] = intV(s.iters[it.ID])
					vars["$str"] = it.Map
				} else {
					mt := it.Map.T.Underlying().(*types.Map)
					vars["$visited"] = mkVal(&STy{Kind: "set", Key: goTy(mt.Key())}, []*Term{s.iters[it.ID]})
					vars["$map"] = it.Map
				}
			}
		}
	}
	return &SEnv{x: x, s: s, old: x.entry, vars: vars, pkg: x.con.Pkg, loop: L}
}

// headerCmp evaluates the operands of the header comparison without side effects.
func (x *Exec) headerCmp(fr *Frame, s *State, h *ssa.BasicBlock, bo *ssa.BinOp) (a, b *Term, ok bool) {
	t := s.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	for i := firstNonPhi(h); i < len(h.Instrs); i++ {
		in := h.Instrs[i]
		if in == ssa.Instruction(bo) {
			return fr.get(x, t, bo.X).C[0], fr.get(x, t, bo.Y).C[0], true
		}
		if _, isD := in.(*ssa.DebugRef); isD {
			continue
		}
		if c, isC := in.(*ssa.Call); isC {
			bi, isB := c.Call.Value.(*ssa.Builtin)
			if !isB || bi.Name() != "len" && bi.Name() != "cap" {
				return nil, nil, false
			}
			var res *Val
			_, args := x.callOperands(fr, t, &c.Call)
			x.call(fr, nil, t, &c.Call, nil, args, token.NoPos, func(_ *State, o Outcome) {
				if o.pan == nil {
					res = o.vals[0]
				}
			})
			if res == nil {
				return nil, nil, false
			}
			x.set(fr, t, c, res)
			continue
		}
		v, isV := in.(ssa.Value)
		if !isV {
			return nil, nil, false
		}
		switch v.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.Convert:
		default:
			return nil, nil, false
		}
		done := false
		x.value(fr, t, v, func(*State, Outcome) {}, func(t2 *State, val *Val) {
			if done {
				return
			}
			done = true
			x.set(fr, t2, v, val)
			t = t2
		})
		if !done {
			return nil, nil, false
		}
	}
	return nil, nil, false
}

func (x *Exec) checkCands(fr *Frame, s *State, L *LoopCtx, phis []*ssa.Phi, kt *Term, kind string) {
	if x.quiet > 0 {
		return
	}
	for _, c := range x.cands(fr, L, phis) {
		if x.dropped[c.key] {
			continue
		}
		t, ok := c.eval(s, kt)
		if !ok {
			x.dropped[c.key] = true
			continue
		}
		if t.Op == "true" || s.holds(t) {
			continue
		}
		x.obligeC(s, kind, "loop "+L.key+": "+c.name, nil, t, c.key)
	}
}

func (x *Exec) assumeCands(fr *Frame, s *State, L *LoopCtx, phis []*ssa.Phi) bool {
	for _, c := range x.cands(fr, L, phis) {
		if x.dropped[c.key] {
			continue
		}
		t, ok := c.eval(s, L.k)
		if ok {
			if !s.assume(t) {
				return false
			}
		}
	}
	return true
}

func (x *Exec) loopBack(fr *Frame, s *State, b, prev *ssa.BasicBlock) {
	var L *LoopCtx
	for i := len(s.loops) - 1; i >= 0; i-- {
		if s.loops[i].hdr == b && s.loops[i].fid == fr.id {
			L = s.loops[i]
			break
		}
	}
	if L == nil {
		x.fail("back edge without loop in %s", fr.fn)
	}
	if n := len(s.frames[fr.id].defers); n != len(L.entry.frames[fr.id].defers) {
		x.fail("defer inside a loop in %s", fr.fn)
	}
	if len(x.disc) > 0 {
		d := x.disc[len(x.disc)-1]
		if d.fid == fr.id && d.hdr == b {
			for _, w := range s.log[L.logAt:] {
				if w.ref == nil {
					d.any[w.heap] = true
					continue
				}
				if d.heap[w.heap] == nil {
					d.heap[w.heap] = map[*Term]bool{}
				}
				d.heap[w.heap][w.ref] = true
			}
			for id, t := range s.iters {
				if e, ok := L.entry.iters[id]; ok && e != t {
					d.iters[id] = true
				}
			}
			return
		}
		// a loop of the body: its own discovery has ended; nothing to record
		return
	}
	if x.quiet > 0 {
		return
	}
	// writes at references other than loop-invariant ones must hit new objects
	seen := map[string]bool{}
	for _, w := range s.log[L.logAt:] {
		if w.ref == nil || refBefore(w.ref, L.k.id) || strings.HasPrefix(w.ref.Name, "alloc!") && w.ref.Op == "app" {
			continue
		}
		ck := L.key + "/frame/" + w.heap
		if x.dropped[ck] || seen[fmt.Sprint(w.heap, w.ref.id)] {
			continue
		}
		seen[fmt.Sprint(w.heap, w.ref.id)] = true
		g := tFalse
		if w.ref.Sort == "Int" {
			g = tLe(L.entryTop, w.ref)
		}
		if !s.holds(g) {
			x.obligeC(s, "loop-frame", "loop "+L.key+" writes only new "+w.heap, nil, g, ck)
		}
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else if _, ok := in.(*ssa.DebugRef); !ok {
			break
		}
	}
	x.setPhis(fr, s, b, prev, nil)
	x.checkCands(fr, s, L, phis, tAdd(L.k, tInt(1)), "inv-step")
}
