package water

import (
	"fmt"
	"net/http"
	"testing"
)

func TestVerifC06Verbs(t *testing.T) {
	verbs := map[string]func(*Router, string, ...interface{}){"GET": (*Router).GET, "POST": (*Router).POST, "DELETE": (*Router).DELETE, "PUT": (*Router).PUT, "PATCH": (*Router).PATCH, "HEAD": (*Router).HEAD, "OPTIONS": (*Router).OPTIONS}
	h := func(c *Context) { c.WriteHeader(299) }
	answers := func(e *Engine, m string) bool { w := vServe(e, m, "/v"); return len(w.codes) == 1 && w.codes[0] == 299 }
	for v, f := range verbs {
		rt := NewRouter()
		f(rt, "/v", h)
		e := rt.Handler()
		for _, m := range vMethods {
			if answers(e, m) != (m == v) {
				vFail(t, "a route registered with %s answers %s: %v", v, m, m != v)
			}
		}
	}
	old := MethodAnyExclude
	defer func() { MethodAnyExclude = old }()
	for i := 0; i < 128; i++ {
		MethodAnyExclude = nil
		for k, m := range vMethods {
			if i>>uint(k)&1 == 1 {
				MethodAnyExclude = append(MethodAnyExclude, m)
			}
		}
		if i == 0 {
			MethodAnyExclude = old
		}
		rt := NewRouter()
		rt.ANY("/v", h)
		rt.GET("/w", h)
		e := rt.Handler()
		for _, m := range vMethods {
			if answers(e, m) == vIn(MethodAnyExclude, m) {
				vFail(t, "ANY with MethodAnyExclude %v answers %s: %v", MethodAnyExclude, m, !answers(e, m))
			}
		}
	}
}

func TestVerifC06(t *testing.T) {
	h := func(c *Context) {}
	type H struct{}
	bad := map[string]func(){
		"nil handler":                   func() { r := NewRouter(); r.GET("/a", nil); r.Handler() },
		"nil handler among others":      func() { r := NewRouter(); r.GET("/a", h, nil, h); r.Handler() },
		"last handler nil":              func() { r := NewRouter(); r.POST("/a", h, nil); r.Handler() },
		"nil middleware":                func() { r := NewRouter(); r.Use(nil); r.GET("/a", h); r.Handler() },
		"nil Before":                    func() { r := NewRouter(); r.Before(nil); r.GET("/a", h); r.Handler() },
		"nil not-found handler":         func() { r := NewRouter(); r.GET("/a", h); r.Handler(WithNoFoundHandlers(nil)) },
		"int handler":                   func() { r := NewRouter(); r.GET("/a", 5); r.Handler() },
		"unsupported func":              func() { r := NewRouter(); r.GET("/a", func() {}); r.Handler() },
		"unsupported struct":            func() { r := NewRouter(); r.GET("/a", H{}); r.Handler() },
		"unsupported middleware":        func() { r := NewRouter(); r.Use("x"); r.GET("/a", h); r.Handler() },
		"unsupported Before":            func() { r := NewRouter(); r.Before("x"); r.GET("/a", h); r.Handler() },
		"unsupported not-found handler": func() { r := NewRouter(); r.GET("/a", h); r.Handler(WithNoFoundHandlers("x")) },
		"no handlers":                   func() { r := NewRouter(); r.GET("/a"); r.Handler() },
		"no handlers, second route":     func() { r := NewRouter(); r.GET("/a", h); r.PUT("/b"); r.Handler() },
		"no handlers in group":          func() { r := NewRouter(); r.Group("/g").GET("/a"); r.Handler() },
		"double route":                  func() { r := NewRouter(); r.GET("/a", h); r.GET("/a", h); r.Handler() },
		"double route with spaces":      func() { r := NewRouter(); r.GET("/a", h); r.GET(" /a ", h); r.Handler() },
		"double route in groups":        func() { r := NewRouter(); r.Group("/g").GET("/a", h); r.Group("/g").GET("/a", h); r.Handler() },
		"double route group and root":   func() { r := NewRouter(); r.GET("/g/a", h); r.Group("/g").GET("/a", h); r.Handler() },
		"double via ANY":                func() { r := NewRouter(); r.ANY("/a", h); r.PATCH("/a", h); r.Handler() },
		"double holder spelling":        func() { r := NewRouter(); r.GET("/:a", h); r.GET("/<a>", h); r.Handler() },
		"no leading slash":              func() { r := NewRouter(); r.GET("a", h); r.Handler() },
		"empty path":                    func() { r := NewRouter(); r.GET("", h); r.Handler() },
		"only spaces":                   func() { r := NewRouter(); r.GET("  ", h); r.Handler() },
		"trailing slash":                func() { r := NewRouter(); r.GET("/a/", h); r.Handler() },
		"double slash":                  func() { r := NewRouter(); r.GET("//", h); r.Handler() },
		"trailing slash in group":       func() { r := NewRouter(); r.Group("/a").GET("/", h); r.Handler() },
		"group without leading slash":   func() { r := NewRouter(); r.Group("g").GET("/a", h); r.Handler() },
		"trailing slash, second method": func() { r := NewRouter(); r.GET("/a", h); r.OPTIONS("/b/", h); r.Handler() },
		"unsupported group argument":    func() { r := NewRouter(); r.Group("/g", 5).GET("/a", h); r.Handler() },
		"unbalanced holder":             func() { r := NewRouter(); r.GET("/<a", h); r.Handler() },
		"bad regexp":                    func() { r := NewRouter(); r.GET("/<a ~ (>", h); r.Handler() },
		"Handler of a group":            func() { r := NewRouter(); g := r.Group("/g"); g.GET("/a", h); g.Handler() },
		"Before of a group":             func() { r := NewRouter(); g := r.Group("/g"); g.Before(h) },
	}
	for n, f := range bad {
		if vTry(f) == nil {
			vFail(t, "%s: building the engine does not panic", n)
		}
	}
	good := map[string]func() *Engine{
		"root":                func() *Engine { r := NewRouter(); r.GET("/", h); return r.Handler() },
		"nothing":             func() *Engine { r := NewRouter(); return r.Handler() },
		"empty group":         func() *Engine { r := NewRouter(); r.Group("/g"); r.GET("/a", h); return r.Handler() },
		"nested empty groups": func() *Engine { r := NewRouter(); r.Group("/g").Group("/h"); return r.Handler() },
		"http.Handler":        func() *Engine { r := NewRouter(); r.GET("/a", http.NotFoundHandler(), h); return r.Handler() },
		"http func": func() *Engine {
			r := NewRouter()
			r.GET("/a", func(http.ResponseWriter, *http.Request) {})
			return r.Handler()
		},
		"same path two methods": func() *Engine { r := NewRouter(); r.GET("/a", h); r.POST("/a", h); return r.Handler() },
		"inner slash group":     func() *Engine { r := NewRouter(); r.Group("/").GET("a", h); return r.Handler() },
		"handler by ANY + HEAD": func() *Engine {
			r := NewRouter()
			r.ANY("/a", h)
			r.HEAD("/a", h)
			r.OPTIONS("/a", h)
			return r.Handler()
		},
	}
	for n, f := range good {
		var e *Engine
		if p := vTry(func() { e = f() }); p != nil || e == nil {
			vFail(t, "%s: building the engine panics: %v", n, p)
		}
	}
	// random valid sets: all served, none lost
	r := vRand()
	for i := 0; i < vN(1000); i++ {
		rt := NewRouter()
		got := ""
		type rr struct{ m, p string }
		seen := map[rr]bool{}
		var list []rr
		for k := 1 + r.Intn(10); k > 0; k-- {
			m := vMethods[r.Intn(7)]
			p := fmt.Sprintf("/s%d", r.Intn(3))
			if r.Intn(2) == 0 {
				p += fmt.Sprintf("/t%d", r.Intn(3))
			}
			x := rr{m, p}
			if seen[x] {
				continue
			}
			seen[x] = true
			list = append(list, x)
			rt.handle(m, p, []interface{}{func(c *Context) { got = fmt.Sprint(x) }})
		}
		var e *Engine
		if p := vTry(func() { e = rt.Handler(WithStaticRouter(i%2 == 0)) }); p != nil {
			vFail(t, "%v: building panics: %v", list, p)
			continue
		}
		for _, m := range vMethods {
			for _, p := range []string{"/s0", "/s1", "/s2", "/s0/t0", "/s1/t1", "/s2/t2", "/s0/t2"} {
				got = ""
				vServe(e, m, p)
				want := ""
				if seen[rr{m, p}] {
					want = fmt.Sprint(rr{m, p})
				}
				if got != want {
					vFail(t, "routes %v: %s %s ran %q, want %q", list, m, p, got, want)
				}
			}
		}
		if len(e.routeStore.routeSlice) != len(list) {
			vFail(t, "routes %v: the store lists %d", list, len(e.routeStore.routeSlice))
		}
	}
}
