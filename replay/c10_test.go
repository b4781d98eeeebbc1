package water

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestVerifC10(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(8000); i++ {
		rt := NewRouter()
		var trace []string
		var want bytes.Buffer
		first := 0
		var bad string
		h := func(c *Context) {
			n := r.Intn(6)
			for k := 0; k < n; k++ {
				before := c.Written()
				st := c.Status()
				if before != (first != 0) || st != first {
					bad = fmt.Sprintf("Written()=%v Status()=%d but %d was sent", before, st, first)
				}
				code := []int{200, 201, 204, 301, 404, 500, 999}[r.Intn(7)]
				switch r.Intn(7) {
				case 0:
					trace = append(trace, fmt.Sprint("WriteHeader ", code))
					c.WriteHeader(code)
				case 1:
					trace = append(trace, fmt.Sprint("Abort ", code))
					c.Abort(code)
				case 2:
					b := []byte(strings.Repeat("<b>", r.Intn(4)))
					trace = append(trace, fmt.Sprintf("Write %q", b))
					n, err := c.Write(b)
					if n != len(b) || err != nil {
						bad = fmt.Sprintf("Write of %d bytes returned %d, %v", len(b), n, err)
					}
					want.Write(b)
					code = 200
				case 3:
					trace = append(trace, fmt.Sprint("String ", code))
					c.String(code, "str")
					want.WriteString("str")
				case 4:
					trace = append(trace, "Stream")
					c.Stream("text/x", strings.NewReader("stream"))
					want.WriteString("stream")
					code = 200
				case 5:
					c.NotModified()
					trace = append(trace, "NotModified")
					code = 304
				case 6:
					trace = append(trace, fmt.Sprint("Data ", code))
					c.Data(code, "x/y", []byte{0, 255, 7})
					want.Write([]byte{0, 255, 7})
				}
				if first == 0 {
					first = code
				}
				if !c.Written() || c.Status() != first {
					bad = fmt.Sprintf("after %s: Written()=%v Status()=%d but %d was sent", trace[len(trace)-1], c.Written(), c.Status(), first)
				}
			}
		}
		rt.GET("/a", h, h)
		w := vServe(rt.Handler(), "GET", "/a")
		got := 0
		if len(w.codes) > 0 {
			got = w.codes[0]
		}
		if bad != "" {
			vFail(t, "%v: %s", trace, bad)
		}
		if len(w.codes) > 1 || got != first || w.early {
			vFail(t, "%v: statuses sent %v (body before status: %v), want %d", trace, w.codes, w.early, first)
		}
		if !bytes.Equal(w.body.Bytes(), want.Bytes()) {
			vFail(t, "%v: body %q, want %q", trace, w.body.String(), want.String())
		}
	}
}

// writer errors are passed on
func TestVerifC10Err(t *testing.T) {
	rt := NewRouter()
	var err error
	var n int
	rt.GET("/a", func(c *Context) { n, err = c.Write([]byte("abc")) })
	w := newRec()
	w.werr = errors.New("gone")
	rt.Handler().ServeHTTP(w, vReq("GET", "/a"))
	if err == nil || err.Error() != "gone" || n != 0 {
		vFail(t, "a failing body write returned %d, %v", n, err)
	}
}

// http.Handlers and file helpers served through the context
func TestVerifC10Through(t *testing.T) {
	d, _ := os.MkdirTemp("", "c10")
	defer os.RemoveAll(d)
	f := filepath.Join(d, "f.txt")
	os.WriteFile(f, []byte("content"), 0o644)
	type tc struct {
		name string
		h    interface{}
		code int
		body string
	}
	cases := []tc{
		{"ServeFile", func(c *Context) { c.ServeFile(f) }, 200, "content"},
		{"File", func(c *Context) { c.File(f) }, 200, "content"},
		{"ServeFile missing", func(c *Context) { c.ServeFile(f + "x") }, 404, "404 page not found\n"},
		{"File missing", func(c *Context) { c.File(f + "x") }, 404, "404 page not found\n"},
		{"Found", func(c *Context) { c.Found("/x") }, 302, "<a href=\"/x\">Found</a>.\n\n"},
		{"MovedPermanently", func(c *Context) { c.MovedPermanently("/x") }, 301, "<a href=\"/x\">Moved Permanently</a>.\n\n"},
		{"Download", func(c *Context) { c.Download(f) }, 200, "content"},
		{"Attachment", func(c *Context) {
			b, _ := os.Open(f)
			defer b.Close()
			st, _ := b.Stat()
			c.Attachment("n", st.ModTime(), b)
		}, 200, "content"},
		{"http.Handler", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(202); w.Write([]byte("h")) }), 202, "h"},
		{"http func", func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("h")) }, 200, "h"},
		{"http.NotFoundHandler", http.NotFoundHandler(), 404, "404 page not found\n"},
		{"HandlerFunc", HandlerFunc(func(c *Context) { c.String(203, "q") }), 203, "q"},
		{"Wrap", WrapHandler(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(209) }), 209, ""},
	}
	for _, c := range cases {
		rt := NewRouter()
		var written bool
		var status int
		later := 0
		rt.Use(func(c *Context) { c.Next(); written, status = c.Written(), c.Status(); c.WriteHeader(599) })
		rt.GET("/x", c.h, func(*Context) { later++ })
		w := vServe(rt.Handler(), "GET", "/x")
		if len(w.codes) != 1 || w.codes[0] != c.code || w.body.String() != c.body {
			vFail(t, "%s: statuses %v body %q, want %d %q", c.name, w.codes, w.body.String(), c.code, c.body)
		}
		if !written || status != c.code {
			vFail(t, "%s: Written()=%v Status()=%d after %v was sent", c.name, written, status, w.codes)
		}
		if later != 0 {
			vFail(t, "%s: a later handler ran although the response was written", c.name)
		}
	}
	// static files
	rt := NewRouter()
	var written bool
	var status int
	rt.Use(func(c *Context) { c.Next(); written, status = c.Written(), c.Status(); c.WriteHeader(599) })
	rt.Static("/s", d)
	e := rt.Handler()
	for p, code := range map[string]int{"/s/f.txt": 200, "/s/none": 404} {
		w := vServe(e, "GET", p)
		if len(w.codes) != 1 || w.codes[0] != code || !written || status != code {
			vFail(t, "static %s: statuses %v, Written()=%v Status()=%d, want %d", p, w.codes, written, status, code)
		}
	}
}
