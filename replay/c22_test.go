package water

import (
	"fmt"
	"reflect"
	"sync"
	"testing"
)

// a structural picture of everything routing reads
func vDump(v reflect.Value, seen map[uintptr]bool, b *[]string, p string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			*b = append(*b, p+"=nil")
			return
		}
		*b = append(*b, fmt.Sprintf("%s=%x", p, v.Pointer()))
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		if v.Type().Elem().Kind() == reflect.Struct && v.Type().Elem().PkgPath() == reflect.TypeOf(Engine{}).PkgPath() {
			vDump(v.Elem(), seen, b, p)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if n == "ctxPool" || n == "lock" {
				continue
			}
			vDump(v.Field(i), seen, b, p+"."+n)
		}
	case reflect.Slice:
		*b = append(*b, fmt.Sprintf("%s=slice %x len %d", p, v.Pointer(), v.Len()))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vDump(v.Index(i), seen, b, fmt.Sprintf("%s[%d]", p, i))
		}
	case reflect.Map:
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			m[fmt.Sprint(k)] = v.MapIndex(k)
		}
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		vSort(ks)
		*b = append(*b, fmt.Sprintf("%s=map %d", p, len(ks)))
		for _, k := range ks {
			vDump(m[k], seen, b, p+"["+k+"]")
		}
	case reflect.Interface:
		*b = append(*b, fmt.Sprintf("%s nil %v", p, v.IsNil()))
		if !v.IsNil() {
			vDump(v.Elem(), seen, b, p+".(i)")
		}
	case reflect.Func:
		*b = append(*b, fmt.Sprintf("%s=func %x", p, v.Pointer()))
	default:
		*b = append(*b, fmt.Sprintf("%s=%v", p, v))
	}
}

func vSort(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func vPicture(e *Engine) []string {
	var b []string
	vDump(reflect.ValueOf(e).Elem(), map[uintptr]bool{}, &b, "engine")
	return b
}

func TestVerifC22(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(400); i++ {
		rt := NewRouter()
		h := func(c *Context) {
			switch r.Intn(5) {
			case 0:
				c.Next()
				c.Next()
			case 1:
				c.WriteHeader(200)
			case 2:
				panic("x")
			case 3:
				c.Set("a", 1)
			}
		}
		rt.Before(h)
		rt.Use(Recovery())
		var routes []string
		_, routes = vTable(r, 1+r.Intn(6), 4, func(route string, id int) {
			rt.GET(route, h, h)
			if id%2 == 0 {
				rt.POST(route, h)
			}
		})
		opts := []Option{WithStaticRouter(i%2 == 0)}
		if r.Intn(2) == 0 {
			opts = append(opts, WithNoFoundHandlers(h, h))
		}
		e := rt.Handler(opts...)
		before := vPicture(e)
		for k := 0; k < 15; k++ {
			p := vPath(r, 4)
			m := []string{"GET", "POST", "PUT", "TRACE", "HEAD"}[r.Intn(5)]
			vTry(func() { vServe(e, m, p) })
			after := vPicture(e)
			if !reflect.DeepEqual(before, after) {
				d := ""
				for x := range before {
					if x >= len(after) || before[x] != after[x] {
						d = before[x]
						if x < len(after) {
							d += " became " + after[x]
						}
						break
					}
				}
				vFail(t, "routes %q: serving %s %s changed the routing state: %s", routes, m, p, d)
				before = after
			}
		}
	}
}

// The same requests at the same time give each its own outcome (a data race is reported by -race in the thorough run).
func TestVerifC22Parallel(t *testing.T) {
	rt := NewRouter()
	for _, p := range []string{"/a", "/a/<x>", "/b/*all", "/c/<n ~ [0-9]+>/k", "/c/<s>/k", "/"} {
		p := p
		rt.GET(p, func(c *Context) { c.Next() }, func(c *Context) { c.String(200, c.FullPath()+vMapStr(c.Params)) })
	}
	e := rt.Handler(WithStaticRouter(true), WithNoFoundHandlers(func(c *Context) { c.String(404, "nf"+c.FullPath()+vMapStr(c.Params)) }))
	want := map[string]string{"/a": "/a", "/a/1": `/a/<x>"x"="1" `, "/b/x/y": `/b/*all"all"="x/y" `, "/c/12/k": `/c/<n ~ [0-9]+>/k"n"="12" `, "/c/q/k": `/c/<s>/k"s"="q" `, "/": "/", "/zz/1": "nf"}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < vN(100); i++ {
				for p, w := range want {
					if got := vServe(e, "GET", p).body.String(); got != w {
						t.Errorf("FAILING concurrent GET %s answered %q, want %q", p, got, w)
						return
					}
				}
			}
		}(g)
	}
	wg.Wait()
}
