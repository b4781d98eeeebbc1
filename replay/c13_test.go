package water

import (
	"fmt"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

func TestVerifC13(t *testing.T) {
	r := vRand()
	list := func(pool []string, max int) (out []string) {
		n := r.Intn(max + 1)
		for i := 0; i < n; i++ {
			out = append(out, pool[r.Intn(len(pool))])
		}
		return
	}
	for i := 0; i < vN(6000); i++ {
		cfg := CORSConfig{AllowOrigins: list([]string{"*", "http://a", "http://b", "", "http://a/", "null"}, 3), AllowMethods: list([]string{"GET", "PUT", "X"}, 3),
			AllowHeaders: list([]string{"X-A", "X-B"}, 2), ExposeHeaders: list([]string{"X-E", "X-F"}, 2), AllowCredentials: r.Intn(2) == 0, MaxAge: []int{0, -1, 1, 600}[r.Intn(4)]}
		rt := NewRouter()
		var atNext http.Header
		later := 0
		rt.Use(func(c *Context) { c.Header().Add("Vary", "Accept") })
		rt.Use(CORS(cfg))
		rt.Use(func(c *Context) { later++; atNext = c.Header().Clone() })
		h := func(c *Context) { c.WriteHeader(200) }
		rt.ANY("/a", h)
		rt.OPTIONS("/a", h)
		rt.HEAD("/a", h)
		e := rt.Handler()
		for j := 0; j < 4; j++ {
			m := []string{"GET", "POST", "OPTIONS", "HEAD", "DELETE"}[r.Intn(5)]
			req := vReq(m, "/a")
			origin := []string{"", "http://a", "http://b", "http://c", "*", "null"}[r.Intn(6)]
			if origin != "" {
				req.Header.Set("Origin", origin)
			}
			asked := []string{"", "", "X-Q, X-R"}[r.Intn(3)]
			if asked != "" {
				req.Header.Set("Access-Control-Request-Headers", asked)
			}
			later, atNext = 0, nil
			w := newRec()
			e.ServeHTTP(w, req)
			origins, methods := cfg.AllowOrigins, cfg.AllowMethods
			if len(origins) == 0 {
				origins = []string{"*"}
			}
			if len(methods) == 0 {
				methods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}
			}
			want := http.Header{}
			want.Add("Vary", "Accept")
			want.Add("Vary", "Origin")
			allow := ""
			for _, o := range origins {
				if o == "*" || o == origin {
					allow = o
					break
				}
			}
			want.Set("Access-Control-Allow-Origin", allow)
			if cfg.AllowCredentials {
				want.Set("Access-Control-Allow-Credentials", "true")
			}
			if m != "OPTIONS" {
				if x := strings.Join(cfg.ExposeHeaders, ","); x != "" {
					want.Set("Access-Control-Expose-Headers", x)
				}
			} else {
				want.Add("Vary", "Access-Control-Request-Method")
				want.Add("Vary", "Access-Control-Request-Headers")
				want.Set("Access-Control-Allow-Methods", strings.Join(methods, ","))
				if x := strings.Join(cfg.AllowHeaders, ","); x != "" {
					want.Set("Access-Control-Allow-Headers", x)
				} else if asked != "" {
					want.Set("Access-Control-Allow-Headers", asked)
				}
				if cfg.MaxAge > 0 {
					want.Set("Access-Control-Max-Age", strconv.Itoa(cfg.MaxAge))
				}
			}
			desc := fmt.Sprintf("config %+v %s Origin %q requested headers %q", cfg, m, origin, asked)
			got := w.commit
			if m != "OPTIONS" {
				got = atNext
				if later != 1 || len(w.codes) != 1 || w.codes[0] != 200 {
					vFail(t, "%s: later handlers ran %d times, statuses %v", desc, later, w.codes)
				}
			} else if later != 0 || len(w.codes) != 1 || w.codes[0] != 204 {
				vFail(t, "%s: preflight statuses %v, later handlers ran %d times", desc, w.codes, later)
			}
			if !reflect.DeepEqual(got, want) {
				vFail(t, "%s: headers %v, want %v", desc, got, want)
			}
		}
	}
}
