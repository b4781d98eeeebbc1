package water

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"os"
	"reflect"
	"testing"

	"github.com/meilihao/water/binding"
)

// onDisk reports whether an upload of n bytes ends in a temporary file.
func vC25disk(n int, parse func(c *Context) error, opts ...Option) (disk bool, err error) {
	var b bytes.Buffer
	mw := multipart.NewWriter(&b)
	pw, _ := mw.CreateFormFile("f", "up.bin")
	pw.Write(make([]byte, n))
	mw.Close()
	req := vReq("POST", "/a")
	req.Header.Set("Content-Type", mw.FormDataContentType())
	req.Body = io.NopCloser(&b)
	rt := NewRouter()
	rt.POST("/a", func(c *Context) {
		if err = parse(c); err != nil {
			return
		}
		f, e := c.Request.MultipartForm.File["f"][0].Open()
		if e != nil {
			err = e
			return
		}
		_, disk = f.(*os.File)
		f.Close()
		c.Request.MultipartForm.RemoveAll()
	})
	e := rt.Handler(opts...)
	e.ServeHTTP(newRec(), req)
	return
}

func TestVerifC25(t *testing.T) {
	form := func(c *Context) error { c.ParseFormOrMultipartForm(); return nil }
	bind := func(c *Context) error {
		var o struct {
			F *multipart.FileHeader `form:"f"`
		}
		return binding.FormMultipart.Bind(c.Request, &o)
	}
	type lim struct {
		limit int64
		set   bool
	}
	for _, l := range []lim{{0, false}, {1 << 10, true}, {64 << 10, true}, {40 << 20, true}, {33 << 20, true}, {0, true}, {1, true}} {
		for pn, parse := range map[string]func(c *Context) error{"form": form, "binding": bind} {
			eff := l.limit
			if !l.set {
				eff = 32 << 20
			}
			for _, n := range []int64{eff - 700, eff - 1, eff + 11<<20} { // net/http allows itself 10 MB on top for non-file parts only
				if n < 1 || n > 60<<20 {
					continue
				}
				var opts []Option
				if l.set {
					opts = append(opts, WithMaxMultipartMemory(l.limit))
				}
				// the reference: what net/http itself does with that limit
				ref := vC25ref(int(n), eff)
				disk, err := vC25disk(int(n), parse, opts...)
				if err != nil || disk != ref {
					vFail(t, "limit %d (configured %v), %s of an upload of %d bytes: on disk %v (error %v), want %v", l.limit, l.set, pn, n, disk, err, ref)
				}
			}
		}
	}
}

func vC25ref(n int, limit int64) bool {
	var b bytes.Buffer
	mw := multipart.NewWriter(&b)
	pw, _ := mw.CreateFormFile("f", "up.bin")
	pw.Write(make([]byte, n))
	mw.Close()
	req := vReq("POST", "/a")
	req.Header.Set("Content-Type", mw.FormDataContentType())
	req.Body = io.NopCloser(&b)
	if req.ParseMultipartForm(limit) != nil {
		return false
	}
	f, err := req.MultipartForm.File["f"][0].Open()
	if err != nil {
		return false
	}
	defer req.MultipartForm.RemoveAll()
	defer f.Close()
	_, disk := f.(*os.File)
	return disk
}

func TestVerifC25Options(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(3000); i++ {
		ran := ""
		mk := func(s string) interface{} { return func(c *Context) { ran += s } }
		type st struct {
			static bool
			nf     string
			mem    int64
		}
		want := st{mem: 32 << 20}
		var opts []Option
		var tr []string
		n := r.Intn(5)
		for k := 0; k < n; k++ {
			switch r.Intn(3) {
			case 0:
				want.static = r.Intn(2) == 0
				opts = append(opts, WithStaticRouter(want.static))
				tr = append(tr, fmt.Sprint("static ", want.static))
			case 1:
				a, b := fmt.Sprint("a", k), fmt.Sprint("b", k)
				want.nf = a + b
				opts = append(opts, WithNoFoundHandlers(mk(a), mk(b)))
				tr = append(tr, "nf "+want.nf)
			case 2:
				want.mem = int64(r.Intn(4)) << 20
				opts = append(opts, WithMaxMultipartMemory(want.mem))
				tr = append(tr, fmt.Sprint("mem ", want.mem))
			}
		}
		rt := NewRouter()
		before := ""
		if r.Intn(2) == 0 {
			rt.Before(mk("B"))
			before = "B"
		}
		rt.GET("/a", mk("g"))
		e := rt.Handler(opts...)
		got := st{static: e.options.EnableStaticRouter, mem: e.options.MaxMultipartMemory}
		ran = ""
		w := vServe(e, "GET", "/none")
		exp := ""
		code := 404
		if want.nf != "" {
			exp = before + want.nf
			code = 0
		}
		gc := 0
		if len(w.codes) > 0 {
			gc = w.codes[0]
		}
		if ran != exp || gc != code {
			vFail(t, "options %v: unmatched request ran %q status %d, want %q %d", tr, ran, gc, exp, code)
		}
		if got.static != want.static || got.mem != want.mem || defaultMultipartMemory != want.mem {
			vFail(t, "options %v: got static %v memory %d (form parsing %d), want %v %d", tr, got.static, got.mem, defaultMultipartMemory, want.static, want.mem)
		}
		if (e.routersStatic[0] != nil) != want.static {
			vFail(t, "options %v: static table present %v", tr, !want.static)
		}
		// each option changes exactly its own setting
		h0 := newHandler(mk("x"))
		o := options{EnableStaticRouter: r.Intn(2) == 0, NoFoundHandlers: []Handler{h0}, MaxMultipartMemory: 77}
		p := o
		WithStaticRouter(!o.EnableStaticRouter)(&p)
		if p.EnableStaticRouter == o.EnableStaticRouter || len(p.NoFoundHandlers) != 1 || p.MaxMultipartMemory != 77 {
			vFail(t, "WithStaticRouter changes %+v to %+v", o, p)
		}
		p = o
		WithMaxMultipartMemory(5)(&p)
		if p.EnableStaticRouter != o.EnableStaticRouter || len(p.NoFoundHandlers) != 1 || p.MaxMultipartMemory != 5 {
			vFail(t, "WithMaxMultipartMemory changes %+v to %+v", o, p)
		}
		p = o
		WithNoFoundHandlers(mk("1"), mk("2"), mk("3"))(&p)
		if p.EnableStaticRouter != o.EnableStaticRouter || len(p.NoFoundHandlers) != 3 || p.MaxMultipartMemory != 77 {
			vFail(t, "WithNoFoundHandlers changes %+v to %+v", o, p)
		}
	}
	if vTry(func() { WithNoFoundHandlers() }) == nil {
		vFail(t, "WithNoFoundHandlers() without handlers does not panic")
	}
	_ = reflect.DeepEqual
}
