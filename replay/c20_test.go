package water

import (
	"net/http"
	"reflect"
	"testing"
)

func TestVerifC20(t *testing.T) {
	r := vRand()
	pools := [][]interface{}{
		{0, 5, -1, 86400, int32(7), int32(86400), int32(-70000), int32(1<<31 - 1), int64(9), int64(-3), int64(31536000), int64(1<<31 + 5), int64(1 << 40), 1 << 33, "5", nil, uint(4), 2.5, true},
		{"", "/p", "/a/b", nil, 4, true},
		{"", "example.com", "a.b.c", nil, 4, true},
		{true, false, nil, 1, "yes", 0, struct{}{}},
		{true, false, nil, 1, "yes"},
		{http.SameSiteLaxMode, http.SameSiteStrictMode, http.SameSiteNoneMode, http.SameSiteDefaultMode, 2, "lax", nil, true},
		{1, "x"},
	}
	for i := 0; i < vN(20000); i++ {
		n := r.Intn(8)
		var args []interface{}
		for k := 0; k < n; k++ {
			args = append(args, pools[k][r.Intn(len(pools[k]))])
		}
		name, value := []string{"n", "sess"}[r.Intn(2)], []string{"", "v", "a b", "x=y"}[r.Intn(4)]
		want := http.Cookie{Name: name, Value: value, Path: "/"}
		if n > 0 {
			switch v := args[0].(type) {
			case int:
				want.MaxAge = v
			case int32:
				want.MaxAge = int(v)
			case int64:
				want.MaxAge = int(v)
			}
		}
		if n > 1 {
			if v, ok := args[1].(string); ok && v != "" {
				want.Path = v
			}
		}
		if n > 2 {
			if v, ok := args[2].(string); ok {
				want.Domain = v
			}
		}
		if n > 3 {
			if v, ok := args[3].(bool); ok {
				want.Secure = v
			} else {
				want.Secure = args[3] != nil
			}
		}
		if n > 4 {
			if v, ok := args[4].(bool); ok {
				want.HttpOnly = v
			}
		}
		if n > 5 {
			if v, ok := args[5].(http.SameSite); ok {
				want.SameSite = v
			}
		}
		w := newRec()
		var exp []string
		for k := r.Intn(3); k > 0; k-- {
			w.hdr.Add("Set-Cookie", "old=1")
			exp = append(exp, "old=1")
		}
		w.hdr.Set("X", "y")
		exp = append(exp, want.String())
		c := &Context{ResponseWriter: w}
		if p := vTry(func() { c.SetCookie(name, value, args...) }); p != nil {
			vFail(t, "SetCookie(%q, %q, %#v) panics: %v", name, value, args, p)
			continue
		}
		if !reflect.DeepEqual([]string(w.hdr["Set-Cookie"]), exp) || len(w.hdr) != 2 || len(w.codes) != 0 || w.body.Len() != 0 {
			vFail(t, "SetCookie(%q, %q, %#v) gives %q, want %q", name, value, args, w.hdr, exp)
		}
	}
}
