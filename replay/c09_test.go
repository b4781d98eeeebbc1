package water

import (
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"testing"
)

// Dirty requests followed by requests that look at everything.
func TestVerifC09(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(300); i++ {
		vC09(t, r, i%2 == 0)
	}
}

func vC09(t *testing.T, r *rand.Rand, static bool) {
	rt := NewRouter()
	type view struct {
		params, env string
		written     bool
		status      int
		path        string
		full        string
		q           string
		order       string
	}
	var seen *view
	var cur *http.Request
	var curW *vRec
	var mess func(c *Context)
	first := func(c *Context) {
		v := &view{params: vMapStr(c.Params), env: fmt.Sprint(len(c.Environ)), written: c.Written(), status: c.Status(), full: c.FullPath()}
		if c.Environ == nil {
			v.env = "nil"
		}
		if c.Request != cur {
			v.path = "foreign request"
		} else if c.ResponseWriter != ResponseWriter(curW) {
			v.path = "foreign response writer"
		}
		v.q = c.Query("q") + "|" + strings.Join(c.QueryArray("m"), ",")
		seen = v
		if mess != nil {
			mess(c)
		}
	}
	tail := func(c *Context) { seen.order += "t" }
	routes := []string{"/s/a", "/s/b", "/p/<x>", "/p/<x>/<y>", "/g/*rest", "/g/<z>/k"}
	for _, p := range routes {
		rt.GET(p, first, tail)
		rt.POST(p, first, tail)
	}
	nf := r.Intn(2) == 0
	opts := []Option{WithStaticRouter(static)}
	if nf {
		opts = append(opts, WithNoFoundHandlers(first, tail))
	}
	e := rt.Handler(opts...)
	paths := []string{"/s/a", "/s/b", "/p/1", "/p/1/2", "/g/u/v", "/g/u/k", "/none", "/none/x"}
	want := map[string][2]string{"/s/a": {"", "/s/a"}, "/s/b": {"", "/s/b"}, "/p/1": {`"x"="1" `, "/p/<x>"}, "/p/1/2": {`"x"="1" "y"="2" `, "/p/<x>/<y>"},
		"/g/u/v": {`"rest"="u/v" `, "/g/*rest"}, "/g/u/k": {`"z"="u" `, "/g/<z>/k"}, "/none": {"", ""}, "/none/x": {"", ""}}
	for k := 0; k < 30; k++ {
		p := paths[r.Intn(len(paths))]
		method := []string{"GET", "POST"}[r.Intn(2)]
		kind := r.Intn(7)
		mess = func(c *Context) {
			switch kind {
			case 0:
				c.Set("k", 1)
				c.Params["evil"] = "1"
			case 1:
				c.WriteHeader(500)
				c.Write([]byte("zzz"))
			case 2:
				panic("boom")
			case 3:
				c.Next()
				c.Next()
			case 4:
				c.Environ["z"] = c
				c.Request = vReq("GET", "/other")
				c.Request.Form = map[string][]string{"q": {"leak"}}
			case 5:
				c.Request.Header.Set("X", "y")
				c.JSON(200, 1)
			}
		}
		if kind == 0 || r.Intn(3) == 0 {
			// c.Params may be nil on static routes
			m := mess
			mess = func(c *Context) { vTry(func() { m(c) }); c.Set("q"+fmt.Sprint(k), k) }
		}
		cur = vReq(method, p)
		qv := fmt.Sprint("v", k)
		cur.URL.RawQuery = "q=" + qv + "&m=" + qv
		curW = newRec()
		seen = nil
		vTry(func() { e.ServeHTTP(curW, cur) })
		if seen == nil {
			if p == "/none" || p == "/none/x" {
				if !nf {
					continue
				}
			}
			vFail(t, "%s %s: no handler ran", method, p)
			continue
		}
		w := want[p]
		if seen.params != w[0] || seen.full != w[1] || seen.env != "0" || seen.written || seen.status != 0 || seen.path != "" || seen.q != qv+"|"+qv {
			vFail(t, "request %d %s %s starts with params %s full path %q env entries %s written %v status %d form %q %s; want params %s full path %q form %q", k, method, p,
				seen.params, seen.full, seen.env, seen.written, seen.status, seen.q, seen.path, w[0], w[1], qv+"|"+qv)
		}
	}
}

// Concurrent requests keep their own parameters and writers.
func TestVerifC09Parallel(t *testing.T) {
	rt := NewRouter()
	rt.GET("/p/<x>", func(c *Context) {
		c.Set("x", c.Param("x"))
		c.Next()
		c.String(200, c.Param("x")+"|"+c.Get("x").(string))
	}, func(c *Context) {})
	rt.GET("/s", func(c *Context) { c.String(200, fmt.Sprintf("static%d%d", len(c.Params), len(c.Environ))) })
	e := rt.Handler(WithStaticRouter(true))
	var wg sync.WaitGroup
	var mu sync.Mutex
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < vN(400); i++ {
				x := fmt.Sprint(g, "-", i)
				p, want := "/p/"+x, x+"|"+x
				if i%3 == 0 {
					p, want = "/s", "static00"
				}
				w := newRec()
				e.ServeHTTP(w, vReq("GET", p))
				if w.body.String() != want {
					mu.Lock()
					t.Errorf("FAILING concurrent GET %s answered %q, want %q", p, w.body.String(), want)
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
}
