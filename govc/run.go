package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

type fnReport struct {
	Function    string         `json:"function"`
	File        string         `json:"file,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Invariants  int            `json:"loop_invariant_obligations"`
	Backends    map[string]int `json:"backends"`
	SolverS     float64        `json:"solver_s"`
	Paths       int            `json:"paths"`
}

// onlyWriters checks that a field is written by the listed functions only.
func (V *Verifier) onlyWriters(fld string, allowed []string) (sites int, bad []string) {
	ok := map[string]bool{}
	pkg := fld[:strings.Index(fld, ".")]
	for _, a := range allowed {
		if !strings.HasPrefix(a, "water.") && !strings.HasPrefix(a, "binding.") {
			a = pkg + "." + a
		}
		ok[a] = true
	}
	parts := strings.Split(fld, ".")
	obj := V.repo[parts[0]].Scope().Lookup(parts[1])
	if len(parts) == 2 {
		return V.onlyWritersVar(fld, ok)
	}
	if obj == nil {
		return 0, []string{"type " + fld + " not found"}
	}
	st, isSt := obj.Type().Underlying().(*types.Struct)
	if !isSt {
		return 0, []string{fld + " is no struct"}
	}
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == parts[2] {
			idx = i
		}
	}
	if idx < 0 {
		return 0, nil
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		key := funcKey(root)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, isFA := in.(*ssa.FieldAddr)
				if !isFA || fa.Field != idx {
					continue
				}
				p, isP := fa.X.Type().Underlying().(*types.Pointer)
				if !isP || types.Unalias(p.Elem()) != obj.Type() {
					continue
				}
				if al, isAl := fa.X.(*ssa.Alloc); isAl && !al.Heap {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						_ = r
					}
					if _, isS := r.(*ssa.Store); isS && r.(*ssa.Store).Addr != fa {
						// address escapes
					}
					sites++
					if !ok[key] {
						bad = append(bad, fmt.Sprintf("%s uses the address of %s at %s", key, fld, V.pos(in.Pos())))
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range V.funs {
		visit(f)
	}
	return
}

// onlyWritersVar checks that a package variable is assigned (or has its
// address taken) by the listed functions only.
func (V *Verifier) onlyWritersVar(fld string, ok map[string]bool) (sites int, bad []string) {
	parts := strings.Split(fld, ".")
	obj := V.repo[parts[0]].Scope().Lookup(parts[1])
	if _, isV := obj.(*types.Var); !isV {
		return 0, []string{"variable " + fld + " not found"}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		key := funcKey(root)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, isU := in.(*ssa.UnOp); isU {
					if _, isG := u.X.(*ssa.Global); isG {
						continue
					}
				}
				if _, isD := in.(*ssa.DebugRef); isD {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, isG := (*op).(*ssa.Global); isG && g.Object() == obj {
						sites++
						if !ok[key] {
							bad = append(bad, fmt.Sprintf("%s changes %s at %s", key, fld, V.pos(in.Pos())))
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range V.funs {
		visit(f)
	}
	return
}

type vacJob struct {
	k string
	f func() bool
}

func (V *Verifier) runProperty(prop, out string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ps := V.specs.Props[prop]
	if ps == nil {
		fmt.Println("no such property:", prop)
		return 3
	}
	type repRes struct {
		confirmed bool
		out, note string
	}
	repCh := make(chan repRes, 1)
	go func() {
		if os.Getenv("VERIF_NOREPLAY") != "" {
			repCh <- repRes{note: "skipped"}
			return
		}
		c, o := replay(V.repoDir, prop, tier, seed)
		n := "no failing input found; bounded, not counted as proved"
		if !strings.Contains(o, "ok  ") {
			n = "not run: " + firstLines(o, 2)
		}
		if c {
			atomic.StoreInt32(&giveUp, 1)
		}
		repCh <- repRes{c, o, n}
	}()
	deadline := start.Add(640 * time.Second)
	if tier == "thorough" {
		deadline = start.Add(3 * time.Hour)
		slow = 4
	}
	if tier == "quick" { // an answer before the checker's own time runs out
		go func() {
			time.Sleep(780 * time.Second)
			rp := filepath.Join(verifDir, "evidence", "replay-"+prop+".txt")
			os.MkdirAll(filepath.Dir(rp), 0o755)
			os.WriteFile(rp, []byte("property "+prop+"\n\nthe obligations were not discharged within 780 s\n"), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
			os.Exit(1)
		}()
	}
	var reports []*fnReport
	trusted := map[string]bool{}
	notes := map[string]bool{}
	var failures []string
	var detail strings.Builder
	total, disch := 0, 0
	backends := map[string]int{}
	solverS := 0.0
	work := append([]string(nil), ps.Funs...)
	root := map[string]bool{}
	for _, f := range work {
		root[f] = true
	}
	for _, l := range V.specs.Order { // lemmas tagged for this property
		c := V.specs.Contracts[l]
		if c.Lemma && c.Opts["for"] != "" && contains(strings.Fields(c.Opts["for"]), prop) {
			work = append(work, l)
		}
	}
	done := map[string]bool{}
	inlined := map[string]bool{}
	vac := 0
	var vacs []vacJob
	var fnames []string
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		con := V.specs.Contracts[k]
		if con == nil {
			fmt.Println("no contract for", k)
			return 3
		}
		if by := ps.Elsewhere[k]; by != "" && !root[k] {
			for _, cl := range append(append(append([]*Clause(nil), con.Ens...), con.OnPanic...), con.Trust...) {
				if tagFor(cl, prop) && !tagFor(cl, by) {
					fmt.Printf("elsewhere %s %s: the clause %s is not discharged under %s\n", prop, k, cl.Src, by)
					return 3
				}
			}
			trusted["contract of "+k+": discharged by the check of "+by+", assumed here"] = true
			continue
		}
		if con.Ext {
			trusted["assumed contract: "+k] = true
			continue
		}
		if !con.Lemma && V.funs[k] == nil {
			if root[k] {
				failures = append(failures, k+": function not found in the source")
			}
			continue
		}
		select { // a confirmed failing input settles it
		case r := <-repCh:
			repCh <- r
			if r.confirmed {
				work = nil
				failures = append(failures, k+" and later functions: not verified, a failing input was found first")
				continue
			}
		default:
		}
		if time.Now().After(deadline) {
			failures = append(failures, k+": time budget exhausted before its obligations were discharged")
			break
		}
		fnT := time.Now()
		r := V.verifyFn(con, prop)
		if debug {
			fmt.Fprintf(os.Stderr, "FN %.1fs %s rounds=%d paths=%d obls=%d\n", time.Since(fnT).Seconds(), k, r.Rounds, r.Paths, len(r.Obls))
		}
		rep := &fnReport{Function: k, Backends: map[string]int{}, Paths: r.Paths}
		if !con.Lemma {
			rep.File = V.pos(V.funs[k].Pos())
		}
		for _, o := range r.Obls {
			total++
			rep.Obligations++
			if o.Cand != "" {
				rep.Invariants++
			}
			if o.Res != nil {
				rep.SolverS += o.Res.Time
				if o.Res.Status == "unsat" {
					disch++
					rep.Discharged++
					rep.Backends[o.Res.Solver]++
					backends[o.Res.Solver]++
				}
			}
		}
		rep.SolverS = float64(int(rep.SolverS*100)) / 100
		solverS += rep.SolverS
		reports = append(reports, rep)
		fnames = append(fnames, k)
		if r.Err != "" {
			failures = append(failures, k+": cannot be verified: "+r.Err)
		}
		if r.Vac != nil {
			vacs = append(vacs, vacJob{k, r.Vac})
		}
		for _, o := range r.Failed {
			f := fmt.Sprintf("%s: [%s] %s", k, o.Kind, o.Name)
			failures = append(failures, f)
			fmt.Fprintf(&detail, "obligation %s\n  status: %s\n  trail: %v\n  goal: %s\n", f, o.Res.Status, o.Trail, o.Goal.Short())
		}
		for _, a := range r.Asm {
			trusted["assumed in "+k+": "+a] = true
		}
		for m := range r.Models {
			trusted["modelled: "+m] = true
		}
		for u := range r.Unknown {
			notes["external "+u+": arbitrary results, assumed without effect on specified state and without panic"] = true
		}
		for n := range r.Notes {
			if !strings.HasPrefix(n, "external ") {
				notes[n] = true
			}
		}
		for i := range r.Inlined {
			inlined[i] = true
		}
		var us []string
		for u := range r.Used {
			us = append(us, u)
		}
		sort.Strings(us)
		work = append(work, us...)
		if len(failures) > 0 && time.Since(start) > 200*time.Second {
			break
		}
	}
	for _, v := range vacs {
		if v.f() {
			failures = append(failures, v.k+": contract is vacuous (precondition unsatisfiable or no return reachable)")
		} else {
			vac++
		}
	}
	var onlyRep []string
	for fld, allowed := range ps.Only {
		n, bad := V.onlyWriters(fld, allowed)
		total++
		if len(bad) == 0 {
			disch++
			backends["frame scan"]++
			onlyRep = append(onlyRep, fmt.Sprintf("%s: written only by %s (%d sites)", fld, strings.Join(allowed, ", "), n))
		} else {
			for _, b := range bad {
				failures = append(failures, "frame of "+fld+": "+b)
			}
		}
	}
	for _, a := range V.specs.Axioms {
		_ = a
	}
	for _, i := range V.usedAxioms() {
		trusted["axiom: "+i] = true
	}
	if total == 0 {
		failures = append(failures, "no obligations were generated")
	}
	viol := 0
	rc := 0
	bounded := ps.Opts["bounded"]
	kf := knownFindings(prop)
	cov := map[string]any{}
	{
		rr := <-repCh
		confirmed, o := rr.confirmed, rr.out
		if len(failures) > 0 || confirmed {
			viol = 1
			rc = 1
			dir := filepath.Join(verifDir, "evidence")
			os.MkdirAll(dir, 0o755)
			rp := filepath.Join(dir, "replay-"+prop+".txt")
			var b strings.Builder
			fmt.Fprintf(&b, "property %s\n\nfailed obligations:\n", prop)
			for _, f := range failures {
				fmt.Fprintln(&b, " -", f)
			}
			if len(failures) == 0 {
				fmt.Fprintln(&b, " (none: every obligation was discharged; the bounded run of the real code, which also reaches code without a contract, failed)")
			}
			fmt.Fprintf(&b, "\n%s\nreplay against the real code (%s):\n%s\n", detail.String(), replayCmd(prop), o)
			os.WriteFile(rp, []byte(b.String()), 0o644)
			for i, f := range failures {
				if i < 8 {
					fmt.Println("failed:", f)
				}
			}
			if confirmed {
				fmt.Println(firstLines(failLines(o), 6))
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			} else {
				fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
			}
		} else {
			cov["bounded_cross_check"] = replayCmd(prop) + " (real code, fixed seed): " + rr.note
		}
	}
	if bounded != "" {
		cov["bounded_standin"] = bounded
	}
	for _, k := range kf {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	cov["obligations"] = total
	cov["discharged"] = disch
	cov["checker_cmd"] = "bash /verif/check.sh " + prop
	cov["trusted_base"] = keysOf(trusted)
	cov["functions_under_contract"] = reports
	cov["functions_inlined_into_their_callers"] = keysOf(inlined)
	cov["backends"] = backends
	cov["solver_s"] = float64(int(solverS*100)) / 100
	cov["queries"] = nQueries
	cov["vacuity_checks_passed"] = vac
	if len(onlyRep) > 0 {
		cov["frame_scan"] = onlyRep
	}
	cov["failed"] = append([]string{}, failures...)
	as := []string{
		"machine integers are treated as mathematical integers",
		"strings and byte slices are sequences of bytes (code points below 256)",
		"partial correctness: loops are not shown to terminate (recursion measures are)",
		"sequential semantics: no other goroutine interferes during a call",
		"the govc verification condition generator, go/ssa, z3 and cvc5 are trusted",
	}
	as = append(as, keysOf(notes)...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": time.Since(start).Seconds(), "violations": viol}
	if out == "" {
		out = filepath.Join(verifDir, "evidence", prop+".json")
	}
	os.MkdirAll(filepath.Dir(out), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(out, append(j, '\n'), 0o644)
	fmt.Printf("%s: %d functions, %d/%d obligations discharged, %d failed, %.1fs\n", prop, len(reports), disch, total, len(failures), time.Since(start).Seconds())
	return rc
}

var slow = 1

func tagFor(cl *Clause, prop string) bool { return len(cl.Tags) == 0 || cl.Tags[prop] }

func contains(xs []string, y string) bool {
	for _, x := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (V *Verifier) usedAxioms() []string {
	var out []string
	for i := range V.axUsed {
		out = append(out, V.specs.Axioms[i].Name)
	}
	sort.Strings(out)
	return out
}

// knownFindings reads the committed list; fixed entries suppress nothing and print nothing.
func knownFindings(prop string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			out = append(out, l[len(p):])
		}
	}
	return out
}

func replayCmd(prop string) string { return "go test -overlay replay/" + prop }

func failLines(o string) string {
	var out []string
	for _, l := range strings.Split(o, "\n") {
		if strings.Contains(l, "FAILING") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "DATA RACE") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, "\n")
}

// replay runs the property's harness against the real code: Go tests laid into the package with
// an overlay (the repository's own tests are masked). A failing test is a concrete violation.
func replay(repo, prop, tier string, seed int) (bool, string) {
	files, _ := filepath.Glob(filepath.Join(verifDir, "replay", strings.ToLower(prop)+"*_test.go"))
	if len(files) == 0 {
		return false, "no replay harness"
	}
	td, err := os.MkdirTemp("", "replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(td)
	rep := map[string]string{}
	for _, d := range []string{repo, filepath.Join(repo, "binding")} {
		ts, _ := filepath.Glob(filepath.Join(d, "*_test.go"))
		for _, t := range ts {
			rep[t] = ""
		}
	}
	pk := map[string]bool{}
	for _, f := range files {
		d := repo
		p := "."
		if strings.Contains(filepath.Base(f), "_binding_") {
			d = filepath.Join(repo, "binding")
			p = "./binding"
		}
		pk[p] = true
		rep[filepath.Join(d, "zz_verif_"+filepath.Base(f))] = f
	}
	if pk["."] {
		rep[filepath.Join(repo, "zz_verif_util_test.go")] = filepath.Join(verifDir, "replay", "util_water.go")
	}
	if pk["./binding"] {
		rep[filepath.Join(repo, "binding", "zz_verif_util_test.go")] = filepath.Join(verifDir, "replay", "util_binding.go")
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(td, "overlay.json")
	os.WriteFile(ov, j, 0o644)
	args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "200s", "-run", "^TestVerif"}
	if mf := os.Getenv("GOVC_MODFILE"); mf != "" {
		args = append(args, "-mod=mod", "-modfile="+mf)
	}
	args = append(args, keysOf(pk)...)
	gobin := os.Getenv("GOVC_GO")
	if gobin == "" {
		gobin = "go1.27.3"
	}
	cmd := exec.Command(gobin, args...)
	cmd.Dir = repo
	scratch := filepath.Join(td, "scratch")
	os.Mkdir(scratch, 0o755)
	cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed))
	b, err := cmd.CombinedOutput()
	o := string(b)
	if len(o) > 20000 {
		o = o[:12000] + "\n...\n" + o[len(o)-8000:]
	}
	if err == nil {
		return false, o
	}
	if strings.Contains(o, "[build failed]") || strings.Contains(o, "[setup failed]") {
		return false, "the harness does not compile against this tree:\n" + o
	}
	if strings.Contains(o, "--- FAIL") || strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") {
		return true, o
	}
	return false, o
}
