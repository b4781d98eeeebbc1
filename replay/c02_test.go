package water

import (
	"math/rand"
	"testing"
)

// Parameters of random routing tables against the reference captures.
func TestVerifC02(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(8000); i++ {
		vC02(t, r, i%3 == 0)
	}
}

func vC02(t *testing.T, r *rand.Rand, statics bool) {
	rt := NewRouter()
	got := -1
	var params Params
	ref, routes := vTable(r, 1+r.Intn(7), 4, func(route string, id int) {
		rt.GET(route, func(c *Context) { got = id; params = c.Params; c.WriteHeader(200) })
	})
	e := rt.Handler(WithStaticRouter(statics))
	for j := 0; j < 40; j++ {
		p := vPath(r, 4)
		want, wp := ref.vMatch(p)
		got = -1
		params = nil
		vServe(e, "GET", p)
		if got != want || want < 0 {
			continue // C01
		}
		if !vSame(params, wp) {
			vFail(t, "routes %q path %q (route %q): parameters %s, want %s", routes, p, routes[want], vMapStr(params), vMapStr(wp))
		}
	}
}
