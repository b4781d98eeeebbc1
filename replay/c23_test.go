package water

import (
	"fmt"
	"reflect"
	"testing"
)

func TestVerifC23(t *testing.T) {
	r := vRand()
	keys := []string{"", "a", "b", "A", "a ", "ключ"}
	vals := []interface{}{nil, 1, int64(2), uint(3), uint64(4), 5.5, "s", "", true, false, []int{1}, struct{ X int }{3}}
	for i := 0; i < vN(1200); i++ {
		c := &Context{Environ: Environ{}}
		m := map[string]interface{}{}
		var tr []string
		for j := 0; j < 12; j++ {
			k := keys[r.Intn(len(keys))]
			v := vals[r.Intn(len(vals))]
			_, there := m[k]
			var p interface{}
			switch r.Intn(2) {
			case 0:
				tr = append(tr, fmt.Sprintf("Context.Set(%q,%v)", k, v))
				p = vTry(func() { c.Set(k, v) })
			case 1:
				tr = append(tr, fmt.Sprintf("Environ.Set(%q,%v)", k, v))
				p = vTry(func() { c.Environ.Set(k, v) })
			}
			if there != (p != nil) {
				vFail(t, "%v: name present %v, panic %v", tr, there, p)
			}
			if !there {
				m[k] = v
			}
			if !reflect.DeepEqual(map[string]interface{}(c.Environ), m) {
				vFail(t, "%v: environment %v, want %v", tr, c.Environ, m)
				break
			}
			for _, k := range keys {
				want, has := m[k]
				for n, get := range map[string]func(string) interface{}{"Context.Get": c.Get, "Environ.Get": c.Environ.Get} {
					var got interface{}
					p := vTry(func() { got = get(k) })
					if has != (p == nil) || has && !reflect.DeepEqual(got, want) {
						vFail(t, "%v: %s(%q) = %v (panic %v), want %v (present %v)", tr, n, k, got, p, want, has)
					}
				}
				if g, ok := c.GetMaybe(k); ok != has || !reflect.DeepEqual(g, want) {
					vFail(t, "%v: GetMaybe(%q) = %v, %v; want %v, %v", tr, k, g, ok, want, has)
				}
				if c.Environ.Has(k) != has {
					vFail(t, "%v: Has(%q) = %v", tr, k, !has)
				}
				for n, get := range map[string]func() interface{}{
					"GetBool": func() interface{} { return c.Environ.GetBool(k) }, "GetInt": func() interface{} { return c.Environ.GetInt(k) },
					"GetInt64": func() interface{} { return c.Environ.GetInt64(k) }, "GetUint": func() interface{} { return c.Environ.GetUint(k) },
					"GetUint64": func() interface{} { return c.Environ.GetUint64(k) }, "GetFloat64": func() interface{} { return c.Environ.GetFloat64(k) },
					"GetString": func() interface{} { return c.Environ.GetString(k) }} {
					var got interface{}
					p := vTry(func() { got = get() })
					ty := map[string]string{"GetBool": "bool", "GetInt": "int", "GetInt64": "int64", "GetUint": "uint", "GetUint64": "uint64", "GetFloat64": "float64", "GetString": "string"}[n]
					fits := has && want != nil && reflect.TypeOf(want).String() == ty
					if fits != (p == nil) || fits && got != want {
						vFail(t, "%v: %s(%q) = %v (panic %v), stored %v", tr, n, k, got, p, want)
					}
				}
			}
		}
	}
}
