package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	specs              *Specs
	fset               *token.FileSet
	prog               *ssa.Program
	repo               map[string]*types.Package
	ssaPkg             map[string]*ssa.Package
	names              map[string]*types.Package
	funs               map[string]*ssa.Function
	funByName          map[string]*SpecFun
	footBusy, footDone bool
	axTerms            map[int]*Term
	axSyms             map[int][]string
	axUsed             map[int]bool
	repoDir            string
}

func sortStrings(s []string) { sort.Strings(s) }

func loadRepo(repo, modfile string, specs *Specs) (*Verifier, error) {
	env := os.Environ()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  env,
	}
	if modfile != "" {
		cfg.BuildFlags = []string{"-mod=mod", "-modfile=" + modfile}
	}
	ps, err := packages.Load(cfg, ".", "./binding")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	V := &Verifier{specs: specs, fset: ps[0].Fset, prog: prog, repo: map[string]*types.Package{}, ssaPkg: map[string]*ssa.Package{}, names: map[string]*types.Package{}, funs: map[string]*ssa.Function{}, funByName: map[string]*SpecFun{}, axTerms: map[int]*Term{}, axSyms: map[int][]string{}, axUsed: map[int]bool{}, repoDir: repo}
	for i, p := range ps {
		V.repo[p.Types.Name()] = p.Types
		V.ssaPkg[p.Types.Name()] = spkgs[i]
		spkgs[i].Build()
	}
	var walk func(p *packages.Package)
	seen := map[*packages.Package]bool{}
	walk = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if p.Types != nil {
			o := V.names[p.Types.Name()]
			if o == nil || len(p.PkgPath) < len(o.Path()) {
				V.names[p.Types.Name()] = p.Types
			}
		}
		for _, q := range p.Imports {
			walk(q)
		}
	}
	for _, p := range ps {
		walk(p)
	}
	// directly imported packages win name clashes
	for _, p := range ps {
		for _, q := range p.Imports {
			if q.Types != nil {
				V.names[q.Types.Name()] = q.Types
			}
		}
	}
	for n, p := range V.repo {
		V.names[n] = p
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				V.funs[funcKey(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							V.funs[funcKey(f)] = f
						}
					}
				}
			}
		}
	}
	return V, nil
}

func (V *Verifier) contract(key string) *Contract { return V.specs.Contracts[key] }

func (V *Verifier) tpkg(n string) *types.Package {
	if p, ok := V.repo[n]; ok {
		return p
	}
	panic("unknown package " + n)
}

func (V *Verifier) pkgByName(n string) *types.Package {
	if p, ok := V.names[n]; ok {
		return p
	}
	for _, p := range V.prog.AllPackages() {
		if p.Pkg.Path() == n {
			return p.Pkg
		}
	}
	return nil
}

func (V *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := V.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (V *Verifier) quickUnsat(pc []*Term) bool {
	sc := V.script(pc, tFalse, Fuel{n: 1})
	st, _ := runSolver(solvers[0], sc, 1000, nil)
	return st == "unsat"
}

func (V *Verifier) newExec(fn *ssa.Function, con *Contract, prop string) *Exec {
	return &Exec{V: V, fn: fn, con: con, prop: prop, loops: map[string]*loopInfo{}, dropped: map[string]bool{}, params: map[string]*Val{}, closures: map[*Term]*Closure{}, usedCon: map[string]bool{}, notes: map[string]bool{}, top0: app("top0", "Int"), iterVals: map[int]*Iter{}, usedModel: map[string]bool{}, inlined: map[string]bool{}, unknown: map[string]bool{}, entryTop: app("top0", "Int")}
}

type FnResult struct {
	Key     string
	Err     string
	Obls    []*Oblig
	Failed  []*Oblig
	Skipped int
	Used    map[string]bool
	Models  map[string]bool
	Inlined map[string]bool
	Unknown map[string]bool
	Notes   map[string]bool
	Asm     []string
	Rounds  int
	Returns int
	Vac     func() bool // decided in the background
	Time    float64
	Paths   int
}

// runTop symbolically executes the function under verification and collects its obligations.
func (x *Exec) runTop() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case execErr:
				err = fmt.Errorf("%s", r.msg)
			case specErr:
				err = fmt.Errorf("spec: %s", r.msg)
			default:
				if debug {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	con := x.con
	s := newState()
	s.top = x.top0
	s.assume(tLt(tInt(0), x.top0))
	if con.Opts["noframe"] != "" {
		x.noFrame = true
	}
	if r := con.Opts["clo"]; r != "" {
		x.regKeys = map[string]bool{}
		for _, k := range strings.Fields(r) {
			x.regKeys[k] = true
		}
	}
	if con.Lemma {
		e := &SEnv{x: x, s: s, vars: map[string]*Val{}, pkg: con.Pkg}
		for _, b := range con.Vars {
			t := x.V.parseSTy(b.Type, con.Pkg)
			var cs []*Term
			for _, srt := range t.sorts() {
				cs = append(cs, freshSym("lv!"+b.Name, srt))
			}
			v := mkVal(t, cs)
			if v.T != nil {
				x.valFacts(s, v)
			}
			e.vars[b.Name] = v
		}
		x.entry = s.clone()
		e.old = x.entry
		for _, cl := range con.Req {
			s.assume(e.boolean(cl.E))
		}
		for _, cl := range con.Ens {
			x.oblige(s, "lemma", cl.Name, cl.Tags, e.boolean(cl.E))
		}
		x.rets = 1
		return nil
	}
	fr := x.newFrame(x.fn, nil, nil)
	var args []*Val
	if len(con.Params) != len(x.fn.Params) {
		return fmt.Errorf("contract of %s names %d parameters, the function has %d", con.Key, len(con.Params), len(x.fn.Params))
	}
	for i, p := range x.fn.Params {
		v := &Val{T: p.Type()}
		for _, c := range layout(p.Type()) {
			v.C = append(v.C, freshSym("p!"+p.Name()+c.Suffix, c.Sort))
		}
		x.valFacts(s, v)
		args = append(args, v)
		x.params[con.Params[i]] = v
	}
	x.args0 = args
	for _, tr := range x.V.specs.Track {
		if tr.Props[x.prop] {
			x.trackFacts(s, nil, nil, x.heapGet(s, gvarHeap(tr.GVar, 0), arrSort("Int", "Bool")))
		}
	}
	if x.fn.Name() == "init" && x.fn.Synthetic != "" && x.fn.Pkg != nil {
		// package initialization runs once
		if g := x.fn.Pkg.Var("init$guard"); g != nil {
			s.assume(tNot(x.load(s, &Addr{Heap: "V:" + g.Pkg.Pkg.Name() + "." + g.Name(), T: deref(g.Type())}).C[0]))
		}
	}
	for k := range con.CallA {
		if x.V.specs.Contracts[k] == nil {
			return fmt.Errorf("contract of %s: callassert for %s, which has no contract", con.Key, k)
		}
	}
	e := x.conEnv(s, nil, con, nil, nil, args)
	for _, cl := range append(append([]*Clause(nil), con.Req...), con.Asm...) {
		if x.tagged(cl) {
			s.assume(e.boolean(cl.E))
		}
	}
	x.entry = s.clone()
	for _, m := range con.Mod {
		x.modSet = append(x.modSet, x.modTargets(e, m)...)
	}
	x.entry = s.clone()
	x.covers = append(x.covers, &Oblig{Fn: con.Key, Name: "precondition satisfiable", Facts: s.pc})
	x.runFunc(fr, s, args, func(t *State, o Outcome) {
		if x.quiet > 0 {
			return
		}
		x.outcome(t, o, args)
	})
	return nil
}

func (x *Exec) outcome(t *State, o Outcome, args []*Val) {
	con := x.con
	pe := x.conEnv(x.entry, x.entry, con, nil, nil, args)
	if o.pan != nil {
		pe2 := x.conEnv(t, x.entry, con, nil, nil, args)
		for n, v := range t.callv {
			pe2.vars[n] = v
		}
		for _, cl := range con.OnPanic {
			if x.tagged(cl) {
				at := ""
				if len(t.trail) > 0 {
					at = " (" + t.trail[len(t.trail)-1] + ")"
				}
				x.oblige(t, "post", "on panic: "+cl.Name+at, cl.Tags, pe2.boolean(cl.E))
			}
		}
		if con.MayPanic || con.Opts["nosafety"] != "" {
			return
		}
		goal := tFalse
		name := "no panic"
		tags := map[string]bool(nil)
		if con.Pan != nil {
			if !x.tagged(con.Pan) {
				return
			}
			goal = pe.boolean(con.Pan.E)
			name = "panics only if " + con.Pan.Src
			tags = con.Pan.Tags
		}
		last := ""
		if len(t.trail) > 0 {
			last = " (" + t.trail[len(t.trail)-1] + ")"
		}
		x.oblige(t, "panic", name+last, tags, goal)
		return
	}
	x.rets++
	e := x.conEnv(t, x.entry, con, nil, nil, args)
	for i, r := range con.Results {
		if i < len(o.vals) {
			e.vars[r] = o.vals[i]
		}
	}
	x.covers = append(x.covers, &Oblig{Fn: con.Key, Name: "return reachable", Facts: t.pc})
	if con.Pan != nil && x.tagged(con.Pan) && !con.MayPanic {
		x.oblige(t, "panic", "must panic if "+con.Pan.Src, con.Pan.Tags, tNot(pe.boolean(con.Pan.E)))
	}
	for n, v := range t.callv {
		if _, dup := e.vars[n]; !dup {
			e.vars[n] = v
		}
	}
	var post []*Clause
	for _, cl := range con.Post {
		if x.tagged(cl) {
			post = append(post, cl)
		}
	}
	x.steps(t, e, "post", "", post)
	if con.Closure != nil {
		x.runClosures(t, o, e)
	}
}

// steps states clauses one after the other; a clause "using" earlier ones is proved from these and
// the facts that do not speak about sequences.
func (x *Exec) steps(t *State, e *SEnv, kind, where string, cls []*Clause) (bool, *State) {
	steps, whole := map[string]*Term{}, map[string]*Term{}
	var noseq []*Term
	for _, cl := range cls {
		g := e.boolean(cl.E)
		at := t
		plain := false
		if cl.Using != nil {
			if noseq == nil {
				for _, f := range t.pc {
					if !hasSeq(f) {
						noseq = append(noseq, f)
					}
				}
			}
			at = t.clone()
			at.pc = append([]*Term(nil), noseq...)
			if cl.Using[0] == "all" {
				at.pc = append([]*Term(nil), t.pc...)
			}
			for _, u := range cl.Using {
				if u == "all" {
					continue
				}
				if u == "plain" {
					plain = true
					continue
				}
				if u == "after" {
					for _, f := range t.pc[t.mark:] {
						if hasSeq(f) {
							at.pc = append(at.pc, f)
						}
					}
					continue
				}
				if u[0] == '@' {
					if c := t.cuts[u[1:]]; c != nil {
						at.pc = append(at.pc, c)
					}
					continue
				}
				if steps[u] == nil {
					x.fail("using %s: no such step before", u)
				}
				at.pc = append(at.pc, subst(steps[u], t.known))
			}
			g = subst(g, t.known)
		}
		n0 := len(x.obls)
		var parts []*Term
		for _, c := range conjuncts(g) {
			if cl.Split != "" && c.Op == "forall" {
				v := e.vars[cl.Split]
				if v == nil {
					x.fail("split on unknown %s", cl.Split)
				}
				for _, cc := range splitOn(c, v.C[0]) {
					cc = subst(cc, t.known)
					x.oblige(at, kind, cl.Name+where, cl.Tags, cc)
					parts = append(parts, cc)
				}
				continue
			}
			c = subst(c, t.known)
			x.oblige(at, kind, cl.Name+where, cl.Tags, c)
			parts = append(parts, c)
		}
		for _, o := range x.obls[n0:] {
			o.Plain = plain
		}
		steps[cl.Name] = tAnd(parts...)
		whole[cl.Name] = g
		if kind == "callassert" && cl.Name != "" {
			t.assume(g)
		}
	}
	if kind == "callassert" {
		t.cuts, t.mark = whole, len(t.pc)
	}
	all := t
	if noseq != nil {
		all = t.clone()
		all.pc = append([]*Term(nil), noseq...)
		for _, cl := range cls {
			if kind == "callassert" && cl.Name != "" {
				all.pc = append(all.pc, subst(whole[cl.Name], t.known))
			}
		}
	}
	return noseq != nil, all
}

// splitOn: the statement at v, and the statement for everything else.
func splitOn(f, v *Term) []*Term {
	bv := f.BV[0]
	at := subst(f.Args[0], map[*Term]*Term{bv: v})
	if len(f.BV) > 1 {
		var tr [][]*Term
		for _, ts := range f.Trig {
			var n []*Term
			for _, t := range ts {
				n = append(n, subst(t, map[*Term]*Term{bv: v}))
			}
			tr = append(tr, n)
		}
		at = tForall(f.BV[1:], tr, at)
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch && t.Op != "forall" && t.Op != "exists" {
			r = rebuild(t, args)
		}
		for r.Op == "select" && r.Args[1] == bv && r.Args[0].Op == "store" && r.Args[0].Args[1] == v {
			r = tSelect(r.Args[0].Args[0], bv)
		}
		memo[t] = r
		return r
	}
	var tr [][]*Term
	for _, ts := range f.Trig {
		var n []*Term
		for _, t := range ts {
			n = append(n, rec(t))
		}
		tr = append(tr, n)
	}
	return []*Term{at, tForall(f.BV, tr, tImp(tNe(bv, v), rec(f.Args[0])))}
}

var seqMemo = map[*Term]bool{}

// hasSeq: the term speaks about sequences.
func hasSeq(t *Term) bool {
	if v, ok := seqMemo[t]; ok {
		return v
	}
	r := strings.HasPrefix(t.Sort, "(Seq")
	for _, a := range t.Args {
		r = r || hasSeq(a)
	}
	seqMemo[t] = r
	return r
}

func conjuncts(g *Term) []*Term {
	if g.Op == "and" {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	if g.Op == "=>" {
		var out []*Term
		for _, a := range conjuncts(g.Args[1]) {
			out = append(out, tImp(g.Args[0], a))
		}
		return out
	}
	if g.Op == "forall" && len(g.BV) == 1 && g.Args[0].Op == "=>" && g.Args[0].Args[0].Op == "=" {
		// one value only
		eq := g.Args[0].Args[0]
		for i := 0; i < 2; i++ {
			if eq.Args[i] == g.BV[0] && !freeBV(eq.Args[1-i])[g.BV[0]] {
				return conjuncts(subst(g.Args[0].Args[1], map[*Term]*Term{g.BV[0]: eq.Args[1-i]}))
			}
		}
	}
	return []*Term{g}
}

// findClosures collects the functions reachable from values (directly, boxed, or in short slices).
func (x *Exec) findClosures(s *State, vs []*Val) []*Closure {
	var out []*Closure
	seen := map[*Closure]bool{}
	add := func(t *Term) {
		if c, ok := x.closures[t]; ok && !seen[c] {
			if _, isF := c.Fn.(*ssa.Function); isF {
				seen[c] = true
				out = append(out, c)
			}
		}
	}
	var term func(t *Term)
	term = func(t *Term) {
		add(t)
		if isPrefixApp(t, "box!") {
			for _, a := range t.Args {
				term(a)
			}
		}
	}
	for _, v := range vs {
		if v.Clo != nil && !seen[v.Clo] {
			if _, isF := v.Clo.Fn.(*ssa.Function); isF {
				seen[v.Clo] = true
				out = append(out, v.Clo)
			}
		}
		for _, t := range v.C {
			term(t)
		}
		if v.T != nil {
			if st, ok := v.T.Underlying().(*types.Slice); ok && isInt(v.C[2]) {
				for i := int64(0); i < v.C[2].I.Int64() && i < 8; i++ {
					el := x.load(s, &Addr{Heap: elemHeap(st.Elem()), Ref: v.C[0], Ixs: []*Term{tAdd(v.C[1], tInt(i))}, T: st.Elem()})
					for _, t := range el.C {
						term(t)
					}
				}
			}
		}
	}
	return out
}

// runClosures verifies the closure contract for every function value returned or registered.
func (x *Exec) runClosures(t *State, o Outcome, e *SEnv) {
	cc := x.con.Closure
	var clos []*Closure
	if len(x.regKeys) > 0 {
		seen := map[*Closure]bool{}
		for _, r := range x.registered {
			for _, c := range x.findClosures(r.s, r.args) {
				if !seen[c] {
					seen[c] = true
					clos = append(clos, c)
				}
			}
		}
		x.registered = nil
	} else {
		clos = x.findClosures(t, o.vals)
	}
	if len(clos) == 0 {
		if x.con.Opts["closureopt"] == "" {
			x.oblige(t, "closure", "a known function is returned or registered", nil, tFalse)
		}
		return
	}
	for _, c := range clos {
		x.runClosure(t.clone(), c, cc, e)
	}
}

func (x *Exec) runClosure(s *State, c *Closure, cc *Contract, outer *SEnv) {
	fn := c.Fn.(*ssa.Function)
	// the closure runs later: everything but its captured variables may have changed
	caps := map[int]*Val{}
	for i, b := range c.Bind {
		if et := deref(b.T); et != nil && b.C[0].Op == "app" && strings.HasPrefix(b.C[0].Name, "alloc!") {
			if _, isArr := et.Underlying().(*types.Array); !isArr {
				a := *x.addrOf(s, b)
				a.T = et
				caps[i] = x.load(s, &a)
			}
		}
	}
	if x.con.Opts["closureground"] != "" { // the body needs no universal facts of the registration
		var pc []*Term
		set := map[*Term]bool{}
		for _, t := range s.pc {
			if !t.hasQ() {
				pc = append(pc, t)
				set[t] = true
			}
		}
		s.pc, s.pcset = pc, set
	}
	x.nEpoch++
	s.heaps = map[string]*Term{}
	s.epoch = 1000 + x.nEpoch
	s.known = map[*Term]*Term{}
	nt := freshSym("top", "Int")
	s.assume(tLe(s.top, nt))
	s.top = nt
	for i, v := range caps {
		a := *x.addrOf(s, c.Bind[i])
		a.T = deref(c.Bind[i].T)
		for j, cp := range layout(a.T) {
			x.defineAt(s, compHeap(&a, cp), cp.Sort, a.Ref, v.C[j])
		}
	}
	s.frames = map[int]*FrameSt{}
	s.loops = nil
	s.log = nil
	fr := x.newFrame(fn, nil, c.Bind)
	var args []*Val
	vars := map[string]*Val{}
	for k, v := range outer.vars {
		vars[k] = v
	}
	if len(cc.Params) != len(fn.Params) {
		x.fail("closure contract of %s names %d parameters, the function has %d", x.con.Key, len(cc.Params), len(fn.Params))
	}
	for i, p := range fn.Params {
		v := x.freshVal(s, p.Type(), "cp!"+p.Name())
		args = append(args, v)
		vars[cc.Params[i]] = v
	}
	// captured variables by name
	for i, f := range fn.FreeVars {
		if v, ok := caps[i]; ok {
			if _, dup := vars[f.Name()]; !dup {
				vars[f.Name()] = v
			}
		}
	}
	if x.outerSt == nil {
		x.outerSt = x.entry
		defer func() { x.outerSt = nil }()
	}
	e := &SEnv{x: x, s: s, old: nil, vars: vars, pkg: x.con.Pkg}
	for _, cl := range append(append([]*Clause(nil), cc.Req...), cc.Asm...) {
		if x.tagged(cl) {
			s.assume(e.boolean(cl.E))
		}
	}
	// switch the executor to the closure's contract
	so, sm, se, st, sp, sc, snf, sa := x.entry, x.modSet, x.entryTop, x.top0, x.params, x.con, x.noFrame, x.args0
	defer func() {
		x.entry, x.modSet, x.entryTop, x.top0, x.params, x.con, x.noFrame, x.args0 = so, sm, se, st, sp, sc, snf, sa
	}()
	x.entryTop = s.top
	x.params = vars
	x.args0 = args
	x.modSet = nil
	x.noFrame = cc.Opts["noframe"] != ""
	ncon := *cc
	if len(ncon.Inv) == 0 {
		ncon.Inv = sc.Inv
	}
	if len(ncon.CallA) == 0 {
		ncon.CallA = sc.CallA
	}
	x.con = &ncon
	x.entry = s.clone()
	for _, m := range cc.Mod {
		x.modSet = append(x.modSet, x.modTargets(e, m)...)
	}
	x.entry = s.clone()
	x.covers = append(x.covers, &Oblig{Fn: cc.Key, Name: "closure precondition satisfiable", Facts: s.pc})
	x.runFunc(fr, s, args, func(t *State, o Outcome) {
		if x.quiet > 0 {
			return
		}
		pe := &SEnv{x: x, s: x.entry, old: x.entry, vars: vars, pkg: cc.Pkg}
		if o.pan != nil {
			if cc.MayPanic {
				if len(cc.OnPanic) > 0 {
					e2 := &SEnv{x: x, s: t, old: x.entry, vars: vars, pkg: cc.Pkg}
					for _, cl := range cc.OnPanic {
						if x.tagged(cl) {
							for _, c := range conjuncts(e2.boolean(cl.E)) {
								x.oblige(t, "panicpost", cl.Name, cl.Tags, c)
							}
						}
					}
				}
				return
			}
			goal := tFalse
			if cc.Pan != nil {
				if !x.tagged(cc.Pan) {
					return
				}
				goal = pe.boolean(cc.Pan.E)
			}
			last := ""
			if len(t.trail) > 0 {
				last = " (" + t.trail[len(t.trail)-1] + ")"
			}
			x.oblige(t, "panic", "closure does not panic"+last, nil, goal)
			return
		}
		x.rets++
		v2 := map[string]*Val{}
		for k, v := range vars {
			v2[k] = v
		}
		for i, r := range cc.Results {
			if i < len(o.vals) {
				v2[r] = o.vals[i]
			}
		}
		x.covers = append(x.covers, &Oblig{Fn: cc.Key, Name: "closure return reachable", Facts: t.pc})
		e2 := &SEnv{x: x, s: t, old: x.entry, vars: v2, pkg: cc.Pkg}
		for _, cl := range cc.Ens {
			if !x.tagged(cl) {
				continue
			}
			for _, c := range conjuncts(e2.boolean(cl.E)) {
				x.oblige(t, "post", cl.Name, cl.Tags, c)
			}
		}
	})
}

var optFuel = 2

func (V *Verifier) fuel(con *Contract) int {
	f := 2
	if s := con.Opts["fuel"]; s != "" {
		fmt.Sscanf(s, "%d", &f)
	}
	return f
}

// solveAll decides obligations in parallel; scripts are built sequentially (terms are global).
func (V *Verifier) solveAll(obls []*Oblig, fuel Fuel, quickMs, fullMs int, stopAt int) {
	type job struct {
		o       *Oblig
		s, g, a string
	}
	ch := make(chan job, 4)
	var mu sync.Mutex
	failed := map[string]bool{}
	var nBad int64
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if stopAt > 0 && int(atomic.LoadInt64(&nBad)) >= stopAt || atomic.LoadInt32(&giveUp) != 0 {
					j.o.Res = &QRes{Status: "skipped"}
					continue
				}
				if j.o.Cand != "" {
					mu.Lock()
					d := failed[j.o.Cand]
					mu.Unlock()
					if d {
						j.o.Res = &QRes{Status: "skipped"}
						continue
					}
				}
				if j.a != "" {
					j.o.Res = solve(j.a, quickMs, 0)
					if debug {
						fmt.Fprintf(os.Stderr, "abstract %s: %s %.1f\n", j.o.Name, j.o.Res.Status, j.o.Res.Time)
					}
					if j.o.Res.Status == "unsat" {
						continue
					}
				}
				if j.g != "" {
					j.o.Res = solve(j.g, quickMs, 0)
					if debug {
						fmt.Fprintf(os.Stderr, "ground %s: %s %.1f\n", j.o.Name, j.o.Res.Status, j.o.Res.Time)
					}
				}
				if j.g == "" || j.o.Res.Status == "unknown" {
					q := quickMs
					if j.g != "" {
						q = 0
					}
					j.o.Res = solve(j.s, q, fullMs)
				} else if j.o.Res.Status == "sat" && (j.o.Cand == "" || strings.Contains(j.o.Cand, "/inv")) {
					// the ground query leaves quantifiers to the instances found: ask again with them
					f := 0
					if j.o.Cand == "" {
						f = fullMs
					}
					if r := solve(j.s, quickMs, f); r.Status == "unsat" {
						j.o.Res = r
					}
				}
				if j.o.Res.Status != "unsat" {
					atomic.AddInt64(&nBad, 1)
				}
				if j.o.Cand != "" && j.o.Res.Status != "unsat" {
					mu.Lock()
					failed[j.o.Cand] = true
					mu.Unlock()
				}
				if os.Getenv("GOVC_KEEP") != "" && (j.o.Res.Status != "unsat" || os.Getenv("GOVC_KEEPALL") != "") {
					os.WriteFile(filepath.Join(os.Getenv("GOVC_KEEP"), fmt.Sprintf("%s_%d.smt2", sanit.Replace(j.o.Fn), hashS(j.o.Name+j.s))), []byte("; "+j.o.Name+"\n"+j.s), 0o644)
				}
			}
		}()
	}
	for _, o := range obls {
		if o.Res != nil && o.Res.Status == "unsat" {
			continue
		}
		if stopAt > 0 && int(atomic.LoadInt64(&nBad)) >= stopAt {
			o.Res = &QRes{Status: "skipped"}
			continue
		}
		if o.Goal.Op == "true" {
			o.Res = &QRes{Status: "unsat", Solver: "simplifier"}
			continue
		}
		dead := false
		for _, f := range o.Facts {
			if f.Op == "false" {
				dead = true
			}
		}
		if dead {
			o.Res = &QRes{Status: "unsat", Solver: "simplifier"}
			continue
		}
		if o.Cand != "" {
			mu.Lock()
			d := failed[o.Cand]
			mu.Unlock()
			if d {
				o.Res = &QRes{Status: "skipped"}
				continue
			}
		}
		for _, f := range o.Facts {
			if f == o.Goal {
				dead = true
			}
		}
		if dead {
			o.Res = &QRes{Status: "unsat", Solver: "simplifier"}
			continue
		}
		j := job{o: o}
		fu := fuel
		fu.plain = fu.plain || o.Plain
		j.a, j.g, j.s = V.scripts(o.Facts, o.Goal, fu, o.Cand != "")
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func hashS(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

var nLean int64

// solveLean first tries what follows from the facts as they stand.
func (V *Verifier) solveLean(obls []*Oblig) {
	type job struct {
		o *Oblig
		s string
	}
	ch := make(chan job, 4)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if r := solve(j.s, 400, 0); r.Status == "unsat" {
					j.o.Res = r
					atomic.AddInt64(&nLean, 1)
				}
			}
		}()
	}
	for _, o := range obls {
		if o.Res != nil && o.Res.Status == "unsat" || len(o.Facts) < 40 {
			continue
		}
		ts := append([]*Term(nil), o.Facts...)
		ch <- job{o, renderAs(ground(append(ts, tNot(o.Goal))), "(set-logic ALL)\n", "(check-sat)\n", true)}
	}
	close(ch)
	wg.Wait()
	if debug {
		fmt.Fprintf(os.Stderr, "lean: %d of %d\n", nLean, len(obls))
	}
}

// giveUp: a failing input was found, nothing is left to prove.
var giveUp int32

// verifyFn verifies one function against its contract for a property. If something fails, the
// solvers are asked once more, with more time.
func (V *Verifier) verifyFn(con *Contract, prop string) *FnResult {
	t0 := time.Now()
	r, timedOut := V.verifyFn1(con, prop, slow)
	if len(r.Failed) > 0 && atomic.LoadInt32(&giveUp) == 0 && time.Since(t0) < 120*time.Second {
		if debug {
			fmt.Fprintln(os.Stderr, "again with more time:", con.Key, r.Failed[0])
		}
		m := 2
		if timedOut {
			m = 5
		}
		r2, _ := V.verifyFn1(con, prop, slow*m)
		if len(r2.Failed) == 0 {
			return r2
		}
	}
	return r
}

func (V *Verifier) verifyFn1(con *Contract, prop string, slow int) (res *FnResult, timedOut bool) {
	res = &FnResult{Key: con.Key, Used: map[string]bool{}}
	var fn *ssa.Function
	if !con.Lemma {
		fn = V.funs[con.Key]
		if fn == nil {
			res.Err = "function not found in the source"
			return res, timedOut
		}
	}
	dropped := map[string]bool{}
	fuel := Fuel{n: V.fuel(con), hide: map[string]bool{}, skip: map[string]bool{}}
	for _, h := range strings.Fields(con.Opts["without"]) {
		fuel.skip[h] = true
	}
	for _, h := range strings.Fields(con.Opts["hide"]) {
		fuel.hide[h] = true
	}
	again := 0
	for round := 0; round < 15; round++ {
		res.Rounds = round + 1
		known := len(heapSorts)
		names := map[string]bool{}
		for n := range heapSorts {
			names[n] = true
		}
		x := V.newExec(fn, con, prop)
		x.dropped = dropped
		err := x.runTop()
		if err == nil && len(heapSorts) > known { // a mod clause named memory not seen before it: once more
			late := false
			for n := range heapSorts {
				if !names[n] {
					for p := range heapPats {
						late = late || heapMatch(p, n)
					}
				}
			}
			if late && again < 8 {
				again++
				round--
				continue
			}
		}
		res.Used, res.Models, res.Inlined, res.Unknown, res.Notes, res.Paths = x.usedCon, x.usedModel, x.inlined, x.unknown, x.notes, x.paths
		res.Returns = x.rets
		if err != nil {
			res.Err = err.Error()
			return res, timedOut
		}
		obls := dedupe(x.obls)
		var cands, rest []*Oblig
		for _, o := range obls {
			if o.Cand != "" {
				cands = append(cands, o)
			} else {
				rest = append(rest, o)
			}
		}
		V.solveAll(cands, fuel, 1500*slow, 1500*slow, 0)
		bad := false
		for _, o := range cands {
			if o.Res.Status != "unsat" {
				if debug {
					fmt.Fprintf(os.Stderr, "drop %s (%s) %s: %s\n", o.Cand, o.Kind, o.Name, o.Res.Status)
					if os.Getenv("GOVC_DEBUG") == "2" {
						fmt.Fprintf(os.Stderr, "   goal %s\n", o.Goal.Short())
						for _, f := range o.Facts {
							fmt.Fprintf(os.Stderr, "   pc %s\n", f.Short())
						}
					}
				}
				dropped[o.Cand] = true
				bad = true
				if o.Res.Status == "unknown" && strings.Contains(o.Cand, "/inv") {
					timedOut = true
				}
			}
		}
		if bad {
			continue
		}
		var safe []*Oblig
		for _, o := range rest {
			if o.Kind == "panic" || o.Kind == "pre" || o.Kind == "frame" {
				safe = append(safe, o)
			}
		}
		V.solveAll(safe, Fuel{}, 1000, 0, 0)
		V.solveLean(rest)
		quick := 6000 * slow
		if con.Lemma { // small: all solvers soon
			quick = 500
		}
		V.solveAll(rest, fuel, quick, 25000*slow, 3)
		res.Obls = append(cands, rest...)
		for _, o := range rest {
			if o.Res.Status == "skipped" {
				res.Skipped++
			} else if o.Res.Status != "unsat" {
				res.Failed = append(res.Failed, o)
			}
		}
		// vacuity: the precondition is satisfiable and some return is reachable
		res.Vac = V.vacuous(x)
		for _, cl := range append(append([]*Clause(nil), con.Asm...), con.Trust...) {
			res.Asm = append(res.Asm, cl.Src)
		}
		return res, timedOut
	}
	res.Err = "loop invariants did not stabilise"
	return res, timedOut
}

func dedupe(obls []*Oblig) []*Oblig {
	type key struct {
		n    string
		g    *Term
		last *Term
		l    int
	}
	seen := map[string]bool{}
	var out []*Oblig
	for _, o := range obls {
		var b strings.Builder
		fmt.Fprintf(&b, "%s|%s|%d|", o.Cand, o.Name, o.Goal.id)
		for _, f := range o.Facts {
			fmt.Fprintf(&b, "%d,", f.id)
		}
		if seen[b.String()] {
			continue
		}
		seen[b.String()] = true
		out = append(out, o)
	}
	return out
}

func (V *Verifier) vacuous(x *Exec) func() bool {
	no := func() bool { return false }
	if x.con.Lemma {
		return no
	}
	// any normal return (or, for functions that only panic, the entry) that is not refuted will do
	var pre, rets []*Oblig
	for _, c := range x.covers {
		if strings.Contains(c.Name, "precondition") {
			pre = append(pre, c)
		} else {
			rets = append([]*Oblig{c}, rets...)
		}
	}
	start := func(o *Oblig) chan bool {
		ch := make(chan bool, 1)
		for _, f := range o.Facts {
			if f.Op == "false" {
				ch <- false
				return ch
			}
		}
		sc := V.script(o.Facts, tFalse, Fuel{n: 1})
		go func() {
			st, _ := runSolver(solvers[0], sc, 2000, nil)
			ch <- st != "unsat"
		}()
		return ch
	}
	if len(rets) > 40 {
		rets = rets[:40]
	}
	var pres, first []chan bool
	for _, p := range pre {
		pres = append(pres, start(p))
	}
	for len(rets) > 0 && len(first) < 2 {
		first = append(first, start(rets[0]))
		rets = rets[1:]
	}
	noret := x.con.Opts["noreturn"] != ""
	return func() bool {
		for _, c := range pres {
			if !<-c {
				return true
			}
		}
		if len(first) == 0 {
			return !noret
		}
		ok := false
		for _, c := range first {
			ok = <-c || ok
		}
		for _, o := range rets {
			if ok {
				break
			}
			ok = <-start(o)
		}
		return !ok
	}
}

// hasQ: the term contains a quantifier.
func (t *Term) hasQ() bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if a.hasQ() {
			return true
		}
	}
	return false
}
