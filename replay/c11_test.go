package water

import (
	"bytes"
	stdjson "encoding/json"
	"encoding/xml"
	"fmt"
	"net/http"
	"strings"
	"testing"
)

type vC11x struct {
	XMLName xml.Name `xml:"r" json:"-"`
	A       int      `xml:"a" json:"a"`
	B       string   `xml:"b" json:"b"`
}

func TestVerifC11(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(4000); i++ {
		code := []int{200, 201, 202, 301, 400, 404, 418, 500, 503}[r.Intn(9)]
		body := []string{"", "x", "héllo", "<p>&</p>", strings.Repeat("ab\x00", 700)}[r.Intn(5)]
		ct := []string{"image/png", "application/octet-stream", "text/x; charset=utf-8"}[r.Intn(3)]
		v := vC11x{A: r.Intn(100), B: body}
		kind := r.Intn(16)
		var desc, wantCT, wantBody string
		var h func(c *Context)
		anyBody, anyCT := false, false
		var err error
		wantErr := false
		switch kind {
		case 0:
			desc, wantCT, wantBody = "String", "text/plain; charset=utf-8", body
			h = func(c *Context) { c.String(code, body) }
		case 1:
			desc, wantCT, wantBody = "Data", ct, body
			h = func(c *Context) { c.Data(code, ct, []byte(body)) }
		case 2:
			desc, wantCT, wantBody = "HTMLRaw", "text/html; charset=utf-8", body
			h = func(c *Context) { c.HTMLRaw(code, body) }
		case 3:
			desc, wantCT = "JSON", "application/json; charset=utf-8"
			b, _ := stdjson.Marshal(v)
			wantBody = string(b) + "\n"
			h = func(c *Context) { err = c.JSON(code, v) }
		case 4:
			desc, wantCT = "XML", "application/xml; charset=utf-8"
			v.B = strings.ReplaceAll(v.B, "\x00", "")
			b, _ := xml.Marshal(v)
			wantBody = string(b)
			h = func(c *Context) { err = c.XML(code, v) }
		case 5:
			desc, wantCT = "HTML", "text/html; charset=utf-8"
			h = func(c *Context) { c.HTML(code, "t", v) }
		case 6:
			desc, wantCT = "HTMLSet", "text/html; charset=utf-8"
			h = func(c *Context) { c.HTMLSet(code, "s", "t", v) }
		case 7:
			desc, wantCT, anyBody, wantErr = "JSON of a channel", "application/json; charset=utf-8", true, true
			h = func(c *Context) { err = c.JSON(code, make(chan int)) }
		case 8:
			desc, wantCT, anyBody, wantErr = "XML of a channel", "application/xml; charset=utf-8", true, true
			h = func(c *Context) { err = c.XML(code, make(chan int)) }
		case 9:
			desc, anyBody, anyCT = "MovedPermanently", true, true
			code = 301
			h = func(c *Context) { c.MovedPermanently("/to") }
		case 10:
			desc, anyBody, anyCT = "Found", true, true
			code = 302
			h = func(c *Context) { c.Found("/to") }
		default:
			anyCT = true
			fs := []struct {
				n string
				c int
				f func(c *Context)
			}{{"NotModified", 304, (*Context).NotModified}, {"BadRequest", 400, (*Context).BadRequest}, {"Unauthorized", 401, (*Context).Unauthorized}, {"Forbidden", 403, (*Context).Forbidden},
				{"NotFound", 404, (*Context).NotFound}, {"InternalServerError", 500, (*Context).InternalServerError}, {"Abort", 451, func(c *Context) { c.Abort(451) }}}
			f := fs[r.Intn(len(fs))]
			desc, code, h = f.n, f.c, f.f
		}
		rt := NewRouter()
		again := 0
		stale := r.Intn(2) == 0
		rt.GET("/a", func(c *Context) {
			if stale && !anyCT {
				c.SetHeader("Content-Type", "stale/type")
			}
			h(c)
		}, func(c *Context) { again++ })
		w := vServe(rt.Handler(), "GET", "/a")
		desc = fmt.Sprintf("%s code %d body %.20q type %q", desc, code, body, ct)
		if len(w.codes) != 1 || w.codes[0] != code {
			vFail(t, "%s: statuses %v", desc, w.codes)
			continue
		}
		if !anyCT && (len(w.commit["Content-Type"]) != 1 || w.commit.Get("Content-Type") != wantCT || w.hdr.Get("Content-Type") != wantCT) {
			vFail(t, "%s: content type %q when the status was sent, want %q", desc, w.commit["Content-Type"], wantCT)
		}
		if !anyBody && w.body.String() != wantBody {
			vFail(t, "%s: body %.60q, want %.60q", desc, w.body.String(), wantBody)
		}
		if (err != nil) != wantErr {
			vFail(t, "%s: error %v", desc, err)
		}
		if (code == 301 || code == 302) && kind >= 9 && w.commit.Get("Location") != "/to" {
			vFail(t, "%s: Location %q", desc, w.commit.Get("Location"))
		}
		if again != 0 {
			vFail(t, "%s: not reported as written", desc)
		}
	}
	_ = http.StatusOK
	_ = bytes.MinRead
}

// A writer that fails makes JSON and XML return the error.
func TestVerifC11Err(t *testing.T) {
	for n, f := range map[string]func(c *Context) error{"JSON": func(c *Context) error { return c.JSON(200, 1) }, "XML": func(c *Context) error { return c.XML(200, 1) }} {
		w := newRec()
		w.werr = http.ErrHandlerTimeout
		rt := NewRouter()
		var err error
		rt.GET("/a", func(c *Context) { err = f(c) })
		rt.Handler().ServeHTTP(w, vReq("GET", "/a"))
		if err == nil {
			vFail(t, "%s to a failing writer returns no error", n)
		}
	}
}

type vC11render struct{ got string }

func (v *vC11render) HTMLSet(c *Context, code int, set, tpl string, data interface{}) {
	v.got = fmt.Sprint(code, "|", set, "|", tpl, "|", data)
	c.WriteHeader(code)
}

func TestVerifC11Render(t *testing.T) {
	old := _render
	defer func() { _render = old }()
	v := &vC11render{}
	SetRender(v)
	rt := NewRouter()
	rt.GET("/a", func(c *Context) { c.HTML(207, "tpl", 5) })
	rt.GET("/b", func(c *Context) { c.HTMLSet(208, "set", "tpl2", 6) })
	e := rt.Handler()
	vServe(e, "GET", "/a")
	if v.got != "207||tpl|5" {
		vFail(t, "HTML(207, tpl, 5) renders %s", v.got)
	}
	vServe(e, "GET", "/b")
	if v.got != "208|set|tpl2|6" {
		vFail(t, "HTMLSet(208, set, tpl2, 6) renders %s", v.got)
	}
}
