package water

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

// Random trees of groups; every route's chain is observed by serving it.
func TestVerifC05(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(1500); i++ {
		vC05(t, r)
	}
}

type vC05g struct {
	r      *Router
	parent *vC05g
	path   string
	used   []string
	before []string
}

func vC05(t *testing.T, r *rand.Rand) {
	var trace []string
	n := 0
	mk := func(kind string) (string, interface{}) {
		n++
		s := fmt.Sprint(kind, n)
		switch n % 4 {
		case 0:
			return s, HandlerFunc(func(*Context) { trace = append(trace, s) })
		case 1:
			return s, newHandler(func(*Context) { trace = append(trace, s) })
		}
		return s, func(*Context) { trace = append(trace, s) }
	}
	fn := func(kind string) (string, func(*Context)) {
		n++
		s := fmt.Sprint(kind, n)
		return s, func(*Context) { trace = append(trace, s) }
	}
	root := &vC05g{r: NewRouter()}
	groups := []*vC05g{root}
	type rec struct {
		g    *vC05g
		path string
		own  []string
	}
	var recs []rec
	var log []string
	steps := 4 + r.Intn(10)
	pad := func(s string) string {
		switch r.Intn(5) {
		case 0:
			return s + " "
		case 1:
			return " " + s
		}
		return s
	}
	for s := 0; s < steps; s++ {
		g := groups[r.Intn(len(groups))]
		switch r.Intn(6) {
		case 0:
			for k := 1 + r.Intn(2); k > 0; k-- {
				a, h := mk("before")
				root.r.Before(h)
				root.before = append(root.before, a)
			}
			log = append(log, "Before")
		case 1:
			var names []string
			var hs []interface{}
			for k := 1 + r.Intn(3); k > 0; k-- {
				a, h := mk("use")
				hs = append(hs, h)
				names = append(names, a)
			}
			g.r.Use(hs...)
			g.used = append(g.used, names...)
			log = append(log, "Use on "+g.path)
		case 2, 3:
			p := fmt.Sprintf("/g%d", s)
			if r.Intn(6) == 0 {
				p = ""
			}
			ng := &vC05g{parent: g, path: g.path + p}
			var args []interface{}
			for k := r.Intn(3); k > 0; k-- {
				if r.Intn(3) == 0 {
					args = append(args, func(rr *Router) {
						a, h := mk("inner")
						rr.Use(h)
						ng.used = append(ng.used, a)
					})
				} else {
					a, h := fn("gm")
					_ = a
					args = append(args, h)
					// order among arguments is the order of registration
					nm := a
					args[len(args)-1] = h
					_ = nm
				}
			}
			// names of plain middleware, in argument order, are collected by running them later
			ng.r = nil
			names := []string{}
			for _, x := range args {
				if f, ok := x.(func(*Context)); ok {
					trace = nil
					f(nil)
					names = append(names, trace[0])
				} else {
					names = append(names, "")
				}
			}
			wrapped := make([]interface{}, len(args))
			for k := range args {
				k := k
				switch f := args[k].(type) {
				case func(*Router):
					wrapped[k] = func(rr *Router) { f(rr) }
				default:
					wrapped[k] = f
				}
			}
			// expected: interleaved in order
			var exp []string
			hooked := make([]interface{}, len(wrapped))
			for k := range wrapped {
				k := k
				if f, ok := wrapped[k].(func(*Router)); ok {
					hooked[k] = func(rr *Router) {
						m := len(ng.used)
						f(rr)
						exp = append(exp, ng.used[m:]...)
						ng.used = ng.used[:m]
						// plain middleware following is appended below
						if k+1 < len(names) {
							for q := k + 1; q < len(names) && names[q] != ""; q++ {
								exp = append(exp, names[q])
							}
						}
					}
				} else {
					hooked[k] = wrapped[k]
				}
			}
			for q := 0; q < len(names) && names[q] != ""; q++ {
				exp = append(exp, names[q])
			}
			ng.r = g.r.Group(pad(p), hooked...)
			ng.used = exp
			groups = append(groups, ng)
			log = append(log, "Group "+ng.path)
		default:
			p := fmt.Sprintf("/r%d", s)
			var own []string
			var hs []interface{}
			for k := 1 + r.Intn(3); k > 0; k-- {
				a, h := mk("own")
				own = append(own, a)
				hs = append(hs, h)
			}
			g.r.GET(pad(p), hs...)
			recs = append(recs, rec{g, g.path + p, own})
			log = append(log, "GET "+g.path+p)
		}
	}
	var e *Engine
	if p := vTry(func() { e = root.r.Handler(); e = root.r.Handler() }); p != nil {
		vFail(t, "%v: building panics: %v", log, p)
		return
	}
	for _, x := range recs {
		var want []string
		for g := x.g; g != nil; g = g.parent {
			want = append(append([]string{}, g.used...), want...)
		}
		want = append(append(append([]string{}, root.before...), want...), x.own...)
		trace = nil
		var full string
		vServe(e, "GET", x.path)
		if fmt.Sprint(trace) != fmt.Sprint(want) {
			vFail(t, "%v: GET %s ran %v, want %v", log, x.path, trace, want)
		}
		for _, rt := range e.routeStore.routeSlice {
			if rt.uri == x.path {
				full = rt.uri
			}
		}
		if full == "" {
			vFail(t, "%v: route %s is not registered under its full path", log, x.path)
		}
	}
	_ = strings.TrimSpace
}
