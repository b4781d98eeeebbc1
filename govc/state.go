package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type envKey struct {
	fid int
	v   ssa.Value
}

type wlog struct {
	heap string
	ref  *Term // nil: anywhere
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Val
	args []*Val
	pos  string
}

type FrameSt struct {
	defers    []deferred
	panicking bool
	pval      *Term
	recovered bool
}

type LoopCtx struct {
	key      string
	fid      int
	hdr      *ssa.BasicBlock
	k        *Term
	logAt    int
	entry    *State
	entryTop *Term
	phis     map[string]*Val
	bounds   []*Term
	hdrSt    *State
	measure  *Term
}

type State struct {
	heaps  map[string]*Term
	epoch  int
	pc     []*Term
	pcset  map[*Term]bool
	top    *Term
	known  map[*Term]*Term
	env    map[envKey]*Val
	iters  map[int]*Term
	loops  []*LoopCtx
	frames map[int]*FrameSt
	log    []wlog
	ghost  map[string]*Val
	trail  []string
	cuts   map[string]*Term // steps proved at the last call that has some
	mark   int              // facts known then
	callv  map[string]*Val  // its arguments
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*Term, len(s.heaps)), epoch: s.epoch, top: s.top, cuts: s.cuts, mark: s.mark, callv: s.callv}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.known = make(map[*Term]*Term, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	n.env = make(map[envKey]*Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.iters = map[int]*Term{}
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.frames = map[int]*FrameSt{}
	for k, v := range s.frames {
		c := *v
		c.defers = append([]deferred(nil), v.defers...)
		n.frames[k] = &c
	}
	n.loops = s.loops[:len(s.loops):len(s.loops)]
	n.log = s.log[:len(s.log):len(s.log)]
	n.trail = s.trail[:len(s.trail):len(s.trail)]
	n.ghost = map[string]*Val{}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

// assume adds a fact; it reports false when the path is now infeasible.
func (s *State) assume(ts ...*Term) bool {
	for _, t := range ts {
		if t.Op == "and" {
			if !s.assume(t.Args...) {
				return false
			}
			continue
		}
		if t.Op == "true" || s.pcset[t] {
			continue
		}
		if t.Op == "false" || s.pcset[tNot(t)] {
			s.pc = append(s.pc, tFalse)
			return false
		}
		s.pc = append(s.pc, t)
		s.pcset[t] = true
	}
	return true
}

func (s *State) holds(t *Term) bool {
	if t.Op == "true" || s.pcset[t] {
		return true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !s.holds(a) {
				return false
			}
		}
		return true
	}
	if t.Op == "or" {
		for _, a := range t.Args {
			if s.holds(a) {
				return true
			}
		}
	}
	return false
}

// ---- heaps ----

var heapSorts = map[string]string{}
var heapTopOf = map[string]*Term{} // heap symbol name -> allocation top when it was created
var heapComp = map[string]comp{}   // heap name -> leaf description
var heapPats = map[string]bool{}   // memory named as a whole in mod clauses

func (x *Exec) heapGet(s *State, name, srt string) *Term {
	if h, ok := s.heaps[name]; ok {
		return h
	}
	if x.probe != nil {
		x.probe[name] = srt
	}
	if o, ok := heapSorts[name]; ok && o != srt {
		panic(fmt.Sprintf("heap %s sorts %s / %s", name, o, srt))
	}
	heapSorts[name] = srt
	n := fmt.Sprintf("%s@%d", name, s.epoch)
	if strings.HasPrefix(name, "N:") { // call counters belong to the function under verification
		n = name + "@0"
	}
	h := app(n, srt)
	if s.epoch == 0 {
		heapTopOf[n] = x.top0
	}
	s.heaps[name] = h
	return h
}

func (x *Exec) known(s *State, t *Term) *Term {
	if v, ok := s.known[t]; ok {
		return v
	}
	return t
}

func compHeap(a *Addr, c comp) string {
	suf := c.Suffix
	if a.Arr {
		suf = strings.TrimPrefix(suf, "[]")
	}
	return a.Heap + a.Path + suf
}

func compSort(a *Addr, c comp) string {
	srt := c.Sort
	for range a.Ixs {
		srt = arrSort("Int", srt)
	}
	if a.Ref != nil {
		srt = arrSort("Int", srt)
	}
	return srt
}

func (x *Exec) load(s *State, a *Addr) *Val {
	if a.T == nil {
		panic("load without type")
	}
	v := &Val{T: a.T}
	for _, c := range layout(a.T) {
		name := compHeap(a, c)
		h := x.heapGet(s, name, compSort(a, c))
		if _, ok := heapComp[name]; !ok {
			heapComp[name] = c
		}
		t := h
		if a.Ref != nil {
			t = x.known(s, tSelect(t, a.Ref))
		}
		for _, i := range a.Ixs {
			t = tSelect(t, i)
		}
		v.C = append(v.C, t)
	}
	if _, ok := a.T.Underlying().(*types.Signature); ok && len(v.C) == 1 {
		if c, ok := x.closures[v.C[0]]; ok {
			v.Clo = c
		}
	}
	return v
}

func (x *Exec) store(s *State, a *Addr, v *Val) {
	cs := layout(a.T)
	if len(cs) != len(v.C) {
		panic(fmt.Sprintf("store: %d comps into %s (%d)", len(v.C), a.T, len(cs)))
	}
	for i, c := range cs {
		name := compHeap(a, c)
		h := x.heapGet(s, name, compSort(a, c))
		nv := v.C[i]
		if a.Ref == nil {
			s.heaps[name] = storeIx(h, a.Ixs, nv)
		} else {
			cur := x.known(s, tSelect(h, a.Ref))
			s.heaps[name] = tStore(h, a.Ref, storeIx(cur, a.Ixs, nv))
		}
		x.wrote(s, name, a.Ref)
	}
}

func storeIx(arr *Term, ixs []*Term, v *Term) *Term {
	if len(ixs) == 0 {
		return v
	}
	return tStore(arr, ixs[0], storeIx(tSelect(arr, ixs[0]), ixs[1:], v))
}

// wrote logs a write and emits the frame obligation of the function under verification.
func (x *Exec) wrote(s *State, name string, ref *Term) {
	s.log = append(s.log, wlog{name, ref})
	if x.noFrame {
		return
	}
	if ref != nil && ref.Op == "app" && strings.HasPrefix(ref.Name, "alloc!") {
		return
	}
	var ok []*Term
	for _, m := range x.modSet {
		if !heapMatch(m.heap, name) {
			continue
		}
		if m.ref == nil {
			return
		}
		if ref != nil {
			ok = append(ok, tEq(m.ref, ref))
		}
	}
	if ref != nil && ref.Sort == "Int" {
		ok = append(ok, tLe(x.entryTop, ref))
	}
	g := tOr(ok...)
	if s.holds(g) {
		return
	}
	x.oblige(s, "frame", "frame:"+name, nil, g)
}

func heapMatch(p, name string) bool {
	if p == name {
		return true
	}
	if strings.HasPrefix(name, p) {
		switch name[len(p)] {
		case '#', '.', '[':
			return true
		}
	}
	return false
}

func (x *Exec) alloc(s *State, fam string, t types.Type, arr bool) *Term {
	r := freshSym("alloc", "Int")
	x.bumpTop(s, r)
	a := &Addr{Heap: fam, Ref: r, T: t, Arr: arr}
	for _, c := range layout(t) {
		name := compHeap(a, c)
		h := x.heapGet(s, name, compSort(a, c))
		z := zeroOfSort(c.Sort)
		sel := tSelect(h, r)
		if sel != z {
			s.known[sel] = z
			s.assume(tEq(sel, z))
		}
	}
	if tr := x.tracked(t); tr != nil {
		name := gvarHeap(tr.GVar, 0)
		h := x.heapGet(s, name, arrSort("Int", "Bool"))
		s.assume(tNot(tSelect(h, r)))
		s.heaps[name] = tStore(h, r, tTrue)
		x.wrote(s, name, nil)
	}
	return r
}

// tracked is the ghost set holding the allocated objects of a type, if there is one.
func (x *Exec) tracked(t types.Type) *Track {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	for _, tr := range x.V.specs.Track {
		if tr.Props[x.prop] && tr.Type == n.Obj().Pkg().Name()+"."+n.Obj().Name() {
			return tr
		}
	}
	return nil
}

func (x *Exec) isTracked(heap string) bool {
	for _, tr := range x.V.specs.Track {
		if tr.Props[x.prop] && heap == gvarHeap(tr.GVar, 0) {
			return true
		}
	}
	return false
}

// trackFacts: the set of allocated objects only grows, and by newly allocated ones.
func (x *Exec) trackFacts(s *State, old *Term, oldTop, n *Term) {
	r := freshBV("r", "Int")
	in := tSelect(n, r)
	fs := []*Term{tLt(tInt(0), r), tLt(r, s.top)}
	if old != nil {
		fs = append(fs, tOr(tSelect(old, r), tLe(oldTop, r)))
		r2 := freshBV("r", "Int")
		s.assume(tForall([]*Term{r2}, [][]*Term{{tSelect(old, r2)}}, tImp(tSelect(old, r2), tSelect(n, r2))))
	}
	s.assume(tForall([]*Term{r}, [][]*Term{{in}}, tImp(in, tAnd(fs...))))
}

func (x *Exec) bumpTop(s *State, r *Term) {
	nt := freshSym("top", "Int")
	s.assume(tLe(s.top, r), tLt(tInt(0), r), tLt(r, nt))
	s.top = nt
}

// define the content of a fresh location without changing the heap term
func (x *Exec) defineAt(s *State, name, srt string, r, val *Term) {
	h := x.heapGet(s, name, arrSort("Int", srt))
	sel := tSelect(h, r)
	if sel == val {
		return
	}
	s.known[sel] = val
	s.assume(tEq(sel, val))
}

// valFacts are the invariants every Go value of a type satisfies.
func (x *Exec) valFacts(s *State, v *Val) {
	if v.T == nil || v.Tup != nil {
		for _, t := range v.Tup {
			x.valFacts(s, t)
		}
		return
	}
	cs := layout(v.T)
	for i := 0; i < len(cs); i++ {
		c := cs[i]
		t := v.C[i]
		if t.hasBV {
			continue
		}
		switch u := c.T.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			if c.Sort != "Int" || isInt(t) || t.Op == "app" && strings.HasPrefix(t.Name, "alloc!") {
				continue
			}
			s.assume(tLe(tInt(0), t), tLt(t, s.top))
		case *types.Slice:
			if !strings.HasSuffix(c.Suffix, "#b") || c.Sort != "Int" {
				continue
			}
			b, o, l, cp := v.C[i], v.C[i+1], v.C[i+2], v.C[i+3]
			s.assume(tLe(tInt(0), b), tLt(b, s.top), tLe(tInt(0), o), tLe(tInt(0), l), tLe(l, cp))
			s.assume(tImp(tEq(b, tInt(0)), tAnd(tEq(cp, tInt(0)), tEq(o, tInt(0)))))
			i += 3
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 && c.Sort == "Int" && !isInt(t) {
				bits, uns := intBits(u)
				if uns {
					s.assume(tLe(tInt(0), t))
				}
				if bits < 64 || uns {
					s.assume(tLe(t, maxInt(bits, uns)))
				}
				if bits < 64 && !uns {
					s.assume(tLe(minInt(bits), t))
				}
			}
		}
	}
}

func (x *Exec) havocHeap(s *State, name string) *Term {
	srt, ok := heapSorts[name]
	if !ok {
		panic("havoc of unknown heap " + name)
	}
	h := freshSym("hv:"+name, srt)
	heapTopOf[h.Name] = s.top
	s.heaps[name] = h
	return h
}

func (x *Exec) heapsMatching(s *State, p string) []string {
	heapPats[p] = true
	var out []string
	for n := range heapSorts {
		if heapMatch(p, n) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// lst of a slice value's component ci as a sequence term in state s.
func (x *Exec) lst(s *State, v *Val, ci int) *Term {
	st, ok := v.T.Underlying().(*types.Slice)
	if !ok {
		panic("lst of " + v.T.String())
	}
	cs := layout(st.Elem())
	c := cs[ci]
	name := elemHeap(st.Elem()) + c.Suffix
	h := x.heapGet(s, name, arrSort("Int", arrSort("Int", c.Sort)))
	arr := x.known(s, tSelect(h, v.C[0]))
	return lstA(arr, v.C[1], v.C[2])
}

func lstA(arr, off, n *Term) *Term {
	e := arrElem(arr.Sort)
	if isInt(n) && n.I.Sign() <= 0 {
		return tSeqEmpty(seqSort(e))
	}
	if arr.Op == "app" && strings.HasPrefix(arr.Name, "arrlst!") {
		return tSeqSub(arr.Args[0], off, n)
	}
	if isInt(n) && n.I.IsInt64() && n.I.Int64() <= 8 {
		var parts []*Term
		for i := int64(0); i < n.I.Int64(); i++ {
			parts = append(parts, tSeqUnit(tSelect(arr, tAdd(off, tInt(i)))))
		}
		return tSeqCat(parts...)
	}
	return app("lst!"+sanit.Replace(e), seqSort(e), arr, off, n)
}

func arrlst(q *Term) *Term {
	e := seqElem(q.Sort)
	return app("arrlst!"+sanit.Replace(e), arrSort("Int", e), q)
}

// freshSlice makes a new slice whose component sequences are given.
func (x *Exec) freshSlice(s *State, t types.Type, seqs []*Term) *Val {
	st := t.Underlying().(*types.Slice)
	r := freshSym("alloc", "Int")
	x.bumpTop(s, r)
	for i, c := range layout(st.Elem()) {
		x.defineAt(s, elemHeap(st.Elem())+c.Suffix, arrSort("Int", c.Sort), r, arrlst(seqs[i]))
	}
	n := tSeqLen(seqs[0])
	cp := freshSym("cap", "Int")
	s.assume(tLe(n, cp))
	return &Val{T: t, C: []*Term{r, tInt(0), n, cp}}
}
