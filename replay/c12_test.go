package water

import (
	"errors"
	"fmt"
	"runtime"
	"testing"
)

func TestVerifC12(t *testing.T) {
	r := vRand()
	defer func(s string) { Status = s }(Status)
	for i := 0; i < vN(3000); i++ {
		Status = []string{Stable, Dev}[i%2]
		rt := NewRouter()
		var trace []string
		first, panicked := 0, false
		ran := 0
		pre := 0
		if r.Intn(4) == 0 {
			pre = 201
			rt.Use(func(c *Context) { c.WriteHeader(201); c.Next() })
			first = 201
		}
		// deferred middleware outside Recovery must not see a panic
		escaped := false
		rt.Use(func(c *Context) {
			defer func() {
				if p := recover(); p != nil {
					escaped = true
				}
			}()
			c.Next()
		})
		rt.Use(Recovery())
		n := 1 + r.Intn(4)
		var hs []interface{}
		for k := 0; k < n; k++ {
			k := k
			kind := r.Intn(10)
			code := []int{200, 404, 503}[r.Intn(3)]
			hs = append(hs, func(c *Context) {
				if panicked {
					trace = append(trace, fmt.Sprint("handler ", k, " ran after the panic"))
					escaped = true
				}
				ran++
				trace = append(trace, fmt.Sprint("h", k, " kind ", kind, " code ", code))
				set := func() {
					if first == 0 {
						first = code
					}
				}
				switch kind {
				case 0:
					panicked = true
					panic("boom")
				case 1:
					panicked = true
					panic(errors.New("err"))
				case 2:
					set()
					c.WriteHeader(code)
					panicked = true
					panic(42)
				case 3:
					if first == 0 {
						first = 200
					}
					c.Write([]byte("part"))
					panicked = true
					var m map[string]int
					m["x"] = 1
				case 4:
					set()
					c.WriteHeader(code)
				case 5:
					c.Next()
				case 6:
					panicked = true
					var p *Context
					_ = p.Request.Method
				case 9:
					panicked = true
					panic(nil) // recover returns nil before go 1.21
				case 7:
					panicked = true
					panic(&runtime.TypeAssertionError{})
				}
			})
		}
		rt.GET("/a", hs...)
		e := rt.Handler()
		w := newRec()
		if p := vTry(func() { e.ServeHTTP(w, vReq("GET", "/a")) }); p != nil {
			vFail(t, "%v: a panic escaped to the server: %v", trace, p)
			continue
		}
		want := first
		if want == 0 {
			want = 200
			if panicked {
				want = 500
			}
		}
		if escaped {
			vFail(t, "%v: the panic passed the Recovery middleware or a handler ran after it", trace)
		}
		if len(w.codes) == 0 || w.codes[0] != want || len(w.codes) > 1 {
			vFail(t, "pre %d %v panicked %v: statuses %v, want %d", pre, trace, panicked, w.codes, want)
		}
	}
}
