package main

import (
	"flag"
	"fmt"
	"os"
	debug2 "runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	specDir := flag.String("specs", "/verif/contracts", "")
	modfile := flag.String("modfile", "", "")
	prop := flag.String("prop", "", "")
	fnsel := flag.String("fn", "", "verify only this contract (debugging)")
	list := flag.Bool("list", false, "list functions")
	out := flag.String("out", "", "result JSON")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	debug2.SetGCPercent(500)
	debug2.SetMemoryLimit(10 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		if n, _ := strconv.Atoi(os.Getenv("GOVC_PROF")); n > 0 {
			go func() { time.Sleep(time.Duration(n) * time.Second); pprof.StopCPUProfile(); f.Close() }()
		}
	}
	var err error
	workDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer os.RemoveAll(workDir)
	os.Setenv("GOVC_MODFILE", *modfile)
	specs, err := loadSpecs(*specDir)
	if err != nil {
		fmt.Println("spec error:", err)
		os.Exit(3)
	}
	t0 := time.Now()
	V, err := loadRepo(*repo, *modfile, specs)
	if err != nil {
		fmt.Println("load error:", err)
		os.Exit(4)
	}
	if debug {
		fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	}
	if *list {
		var ks []string
		for k := range V.funs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	if *fnsel != "" {
		for _, f := range strings.Split(*fnsel, ",") {
			con := specs.Contracts[f]
			if con == nil {
				fmt.Println("no contract", f)
				os.Exit(3)
			}
			r := V.verifyFn(con, *prop)
			printRes(r)
		}
		fmt.Printf("%.1fs\n", time.Since(t0).Seconds())
		return
	}
	rc := V.runProperty(*prop, *out)
	os.RemoveAll(workDir)
	os.Exit(rc)
}

func printRes(r *FnResult) {
	st := "ok"
	vacuous := r.Vac != nil && r.Vac()
	if r.Err != "" || len(r.Failed) > 0 || vacuous {
		st = "FAILED"
	}
	var tm float64
	for _, o := range r.Obls {
		if o.Res != nil {
			tm += o.Res.Time
		}
	}
	fmt.Printf("%-40s %s obligations=%d failed=%d rounds=%d paths=%d returns=%d solver=%.1fs %s\n", r.Key, st, len(r.Obls), len(r.Failed), r.Rounds, r.Paths, r.Returns, tm, r.Err)
	if vacuous {
		fmt.Println("   VACUOUS")
	}
	for i, o := range r.Failed {
		if i > 15 {
			break
		}
		fmt.Printf("   FAIL [%s] %s: %s (%s) trail=%v\n", o.Kind, o.Name, o.Res.Status, o.Goal.Short(), o.Trail)
	}
	if debug {
		fmt.Println("  used:", r.Used, "inlined:", r.Inlined, "unknown:", r.Unknown)
	}
}
