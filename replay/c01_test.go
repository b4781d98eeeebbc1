package water

import "testing"

// Random routing tables against the reference resolution.
func TestVerifC01(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(8000); i++ {
		rt := NewRouter()
		got := -2
		ref, routes := vTable(r, 1+r.Intn(7), 4, func(route string, id int) {
			rt.GET(route, func(c *Context) { got = id; c.WriteHeader(200) })
		})
		var e *Engine
		if p := vTry(func() { e = rt.Handler() }); p != nil {
			vFail(t, "routes %q: Handler panics: %v", routes, p)
			continue
		}
		for j := 0; j < 40; j++ {
			p := vPath(r, 4)
			want, _ := ref.vMatch(p)
			got = -1
			var w *vRec
			if pv := vTry(func() { w = vServe(e, "GET", p) }); pv != nil {
				vFail(t, "routes %q path %q: panics: %v", routes, p, pv)
				continue
			}
			if got != want {
				vFail(t, "routes %q path %q: route %d was chosen, not %d", routes, p, got, want)
			}
			if want < 0 && (len(w.codes) != 1 || w.codes[0] != 404) {
				vFail(t, "routes %q path %q: no route matches but codes are %v", routes, p, w.codes)
			}
			if w2 := vServe(e, "POST", p); len(w2.codes) != 1 || w2.codes[0] != 404 {
				vFail(t, "routes %q path %q: a GET route answers POST", routes, p)
			}
		}
	}
}
