package water

import (
	"fmt"
	"math/rand"
	"net/http"
	"testing"
)

func TestVerifC08(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(1500); i++ {
		vC08(t, r)
	}
}

func vC08(t *testing.T, r *rand.Rand) {
	rt := NewRouter()
	var got []string
	refs := map[string]*vNode{}
	var befores []string
	nb := r.Intn(3)
	for k := 0; k < nb; k++ {
		s := fmt.Sprint("before", k)
		befores = append(befores, s)
		rt.Before(func(c *Context) { got = append(got, s) })
	}
	all := map[string][]string{}
	for _, m := range vMethods {
		if r.Intn(3) == 0 {
			continue
		}
		m := m
		ref, rts := vTable(r, 1+r.Intn(4), 3, func(route string, id int) {
			h := func(c *Context) { got = append(got, fmt.Sprint(m, id)); c.WriteHeader(200) }
			switch m {
			case "GET":
				rt.GET(route, h)
			case "POST":
				rt.POST(route, h)
			case "DELETE":
				rt.DELETE(route, h)
			case "PUT":
				rt.PUT(route, h)
			case "PATCH":
				rt.PATCH(route, h)
			case "HEAD":
				rt.HEAD(route, h)
			case "OPTIONS":
				rt.OPTIONS(route, h)
			}
		})
		refs[m] = ref
		all[m] = rts
	}
	nf := r.Intn(2) == 0
	var opts []Option
	if nf {
		opts = append(opts, WithNoFoundHandlers(func(c *Context) { got = append(got, "nf0") }, func(c *Context) { got = append(got, "nf1"); c.WriteHeader(410) }))
	}
	build := func(o ...Option) (e *Engine) {
		if p := vTry(func() { e = rt.Handler(o...) }); p != nil {
			vFail(t, "routes %v: building the engine panics: %v", all, p)
			return nil
		}
		return
	}
	es := []*Engine{build(opts...), build(append(opts, WithStaticRouter(true))...)}
	for j := 0; j < 25; j++ {
		m := append([]string{"CONNECT", "TRACE", "get", "", "PROPFIND"}, vMethods...)[r.Intn(12)]
		p := vPath(r, 3)
		if r.Intn(8) == 0 {
			p = "/"
		}
		req := vReq(m, p)
		switch r.Intn(10) {
		case 0:
			req.Proto, req.ProtoMinor = "HTTP/1.0", 0
		case 1:
			req.RequestURI = "*"
		case 2:
			req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
		}
		var want []string
		code := 0
		switch {
		case req.ProtoMajor < 1 || req.ProtoMajor == 1 && req.ProtoMinor < 1 || req.RequestURI == "*" || m == "CONNECT":
			code = 406
		case !vIn(vMethods, m):
			code = 405
		default:
			id := -1
			if refs[m] != nil {
				id, _ = refs[m].vMatch(p)
			}
			want = append(want, befores...)
			switch {
			case id >= 0:
				want = append(want, fmt.Sprint(m, id))
				code = 200
			case nf:
				want = append(want, "nf0", "nf1")
				code = 410
			default:
				want = nil
				code = 404
			}
		}
		for s, e := range es {
			if e == nil {
				continue
			}
			got = nil
			w := newRec()
			rq := req.Clone(req.Context())
			if pn := vTry(func() { e.ServeHTTP(w, rq) }); pn != nil {
				vFail(t, "routes %v: %s %s panics: %v", all, m, p, pn)
				continue
			}
			if fmt.Sprint(got) != fmt.Sprint(want) || len(w.codes) != 1 || w.codes[0] != code {
				vFail(t, "routes %v static table %v: %s %q %s uri %q ran %v status %v, want %v status %d", all, s == 1, m, p, req.Proto, req.RequestURI, got, w.codes, want, code)
			}
		}
	}
	_ = http.MethodGet
}
