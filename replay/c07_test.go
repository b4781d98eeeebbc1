package water

import (
	"fmt"
	"math/rand"
	"testing"
)

// Random chains of handlers with random behaviour; the trace of starts is judged against C07.
type vC07act struct{ nexts, respond, after int }

func TestVerifC07(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(6000); i++ {
		vC07(t, r)
	}
}

func vC07(t *testing.T, r *rand.Rand) {
	var started, finished []int
	var badNext []string
	total := 0
	var acts []vC07act
	var resp []bool // written when handler i returned
	depth := 0      // explicit Next calls under way
	mk := func() interface{} {
		id := total
		total++
		a := vC07act{nexts: []int{0, 0, 0, 1, 1, 2, 3}[r.Intn(7)], respond: []int{0, 0, 0, 1, 2, 3, 4}[r.Intn(7)]}
		acts = append(acts, a)
		return func(c *Context) {
			if depth == 0 && len(resp) > 0 && resp[len(resp)-1] && len(finished) > 0 {
				badNext = append(badNext, fmt.Sprintf("handler %d started by the engine after a handler had returned with the response written", id))
			}
			if !c.Written() && id != len(started) {
				badNext = append(badNext, fmt.Sprintf("handler %d started after %v though nothing was written", id, started))
			}
			started = append(started, id)
			d := depth
			switch a.respond {
			case 1:
				c.WriteHeader(204)
			case 2:
				c.Write([]byte("x"))
			}
			for k := 0; k < a.nexts; k++ {
				depth = 1
				w := c.Written()
				n := len(started)
				c.Next()
				if !c.Written() && len(started) < total {
					badNext = append(badNext, fmt.Sprintf("Next of handler %d returned without a response before every later handler ran (%d of %d)", id, len(started), total))
				}
				if k == 0 && len(started) == n && n < total && id == n-1 {
					badNext = append(badNext, fmt.Sprintf("Next of handler %d started nothing (written %v)", id, w))
				}
			}
			depth = d
			switch a.respond {
			case 3:
				c.WriteHeader(200)
			case 4:
				c.String(201, "y")
			}
			finished = append(finished, id)
			resp = append(resp, c.Written())
		}
	}
	rt := NewRouter()
	var order []interface{}
	n := r.Intn(3)
	for k := 0; k < n; k++ {
		h := mk()
		rt.Before(h)
	}
	n = r.Intn(3)
	for k := 0; k < n; k++ {
		rt.Use(mk())
	}
	n = 1 + r.Intn(4)
	for k := 0; k < n; k++ {
		order = append(order, mk())
	}
	target := "/a"
	notFound := r.Intn(4) == 0
	var e *Engine
	if notFound {
		// Before handlers, then the not-found handlers
		rt = NewRouter()
		acts, total = nil, 0
		n = r.Intn(3)
		for k := 0; k < n; k++ {
			rt.Before(mk())
		}
		order = nil
		n = 1 + r.Intn(3)
		for k := 0; k < n; k++ {
			order = append(order, mk())
		}
		target = "/zz"
		e = rt.Handler(WithNoFoundHandlers(order...))
	} else {
		rt.GET("/a", order...)
		e = rt.Handler()
	}
	for pass := 0; pass < 2; pass++ {
		started, finished, badNext, resp, depth = nil, nil, nil, nil, 0
		w := vServe(e, "GET", target)
		desc := fmt.Sprintf("chain %+v", acts)
		for k, id := range started {
			if k > 0 && id <= started[k-1] || k == 0 && id != 0 {
				vFail(t, "%s: handlers started in order %v", desc, started)
				break
			}
		}
		for _, b := range badNext {
			vFail(t, "%s: %s", desc, b)
		}
		if len(w.codes) == 0 && len(started) != total {
			vFail(t, "%s: nobody responded but only %v of %d handlers ran", desc, started, total)
		}
		if len(w.codes) > 1 {
			vFail(t, "%s: statuses %v", desc, w.codes)
		}
	}
}
