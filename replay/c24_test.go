package water

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

func vDisp(kind, name string) string {
	if name == "" {
		return kind
	}
	return fmt.Sprintf(`%s; filename="%s"; filename*=UTF-8''%s`, kind, url.PathEscape(name), url.PathEscape(name))
}

func TestVerifC24(t *testing.T) {
	d, _ := os.MkdirTemp("", "c24")
	defer os.RemoveAll(d)
	r := vRand()
	names := []string{"a.txt", "a b.txt", `q"uote.bin`, "ключ.pdf", "x;y", "a%20b", "new\nline"}
	for i := 0; i < vN(800); i++ {
		n := names[r.Intn(len(names))]
		data := make([]byte, []int{0, 1, 5000}[r.Intn(3)])
		r.Read(data)
		p := filepath.Join(d, n)
		os.WriteFile(p, data, 0o644)
		var inl []bool
		kind := "attachment"
		switch r.Intn(4) {
		case 0:
			inl, kind = []bool{true}, "inline"
		case 1:
			inl = []bool{false}
		case 2:
			inl = []bool{false, true}
		}
		rt := NewRouter()
		var err error
		attach := r.Intn(2) == 0
		missing := !attach && r.Intn(4) == 0
		target := p
		if missing {
			target = []string{d, filepath.Join(d, "none"), ""}[r.Intn(3)]
		}
		rt.GET("/a", func(c *Context) {
			if attach {
				c.Attachment(n, time.Unix(1e9, 0), bytes.NewReader(data), inl...)
			} else {
				err = c.Download(target, inl...)
			}
		})
		w := vServe(rt.Handler(), "GET", "/a")
		desc := fmt.Sprintf("attachment %v file %q inline %v", attach, target, inl)
		if attach {
			desc += fmt.Sprintf(" name %q", n)
		}
		if missing {
			if err == nil || len(w.codes) != 0 || w.body.Len() != 0 || len(w.hdr) != 0 {
				vFail(t, "%s: error %v, statuses %v, headers %v", desc, err, w.codes, w.hdr)
			}
			continue
		}
		if err != nil || len(w.codes) != 1 || w.codes[0] != 200 || !bytes.Equal(w.body.Bytes(), data) {
			vFail(t, "%s: error %v statuses %v, %d body bytes of %d", desc, err, w.codes, w.body.Len(), len(data))
			continue
		}
		if g := w.commit["Content-Disposition"]; len(g) != 1 || g[0] != vDisp(kind, n) {
			vFail(t, "%s: Content-Disposition %q, want %q", desc, g, vDisp(kind, n))
		}
		if !attach && w.commit.Get("Content-Type") != "application/octet-stream" {
			vFail(t, "%s: Content-Type %q", desc, w.commit.Get("Content-Type"))
		}
	}
	for _, x := range [][2]string{{"", ""}, {"", "inline"}, {"a b", ""}, {"ж", "inline"}} {
		k := x[1]
		if k == "" {
			k = "attachment"
		}
		if g := contentDisposition(x[0], x[1]); g != vDisp(k, x[0]) {
			vFail(t, "contentDisposition(%q, %q) = %q", x[0], x[1], g)
		}
	}
}

func TestVerifC24Save(t *testing.T) {
	d, _ := os.MkdirTemp("", "c24")
	defer os.RemoveAll(d)
	r := vRand()
	for i := 0; i < vN(60); i++ {
		data := make([]byte, []int{0, 1, 1000, 40000, 300000}[r.Intn(5)])
		r.Read(data)
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		pw, _ := mw.CreateFormFile("f", "up.bin")
		pw.Write(data)
		mw.Close()
		req := vReq("POST", "/a")
		req.Header.Set("Content-Type", mw.FormDataContentType())
		req.Body = io.NopCloser(&b)
		mem := []int64{16, 32 << 20}[r.Intn(2)]
		dst := filepath.Join(d, "dst")
		old := make([]byte, []int{0, 50, 500000}[r.Intn(3)])
		os.WriteFile(dst, old, 0o600)
		bad := r.Intn(5)
		target := dst
		if bad == 0 {
			target = filepath.Join(d, "no", "such")
		}
		var err error
		rt := NewRouter()
		rt.POST("/a", func(c *Context) {
			c.ParseFormOrMultipartForm()
			f, fh, e := c.FormFile("f")
			if e != nil {
				err = e
				return
			}
			f.Close()
			if bad == 1 {
				fh = &multipart.FileHeader{Filename: "x"}
				c.Request.MultipartForm.RemoveAll()
			}
			err = c.SaveUploadedFile(fh, target)
		})
		e := rt.Handler(WithMaxMultipartMemory(mem))
		e.ServeHTTP(newRec(), req)
		desc := fmt.Sprintf("upload of %d bytes (memory limit %d) over a file of %d bytes", len(data), mem, len(old))
		if bad == 0 {
			if err == nil {
				vFail(t, "%s: no error for a destination that cannot be opened", desc)
			}
			continue
		}
		if bad == 1 {
			continue
		}
		got, _ := os.ReadFile(dst)
		if err != nil || !bytes.Equal(got, data) {
			vFail(t, "%s: error %v, destination has %d bytes", desc, err, len(got))
		}
	}
	// an upload whose temporary file is gone cannot be opened
	var b bytes.Buffer
	mw := multipart.NewWriter(&b)
	pw, _ := mw.CreateFormFile("f", "up.bin")
	pw.Write(bytes.Repeat([]byte("z"), 60000))
	mw.Close()
	req := vReq("POST", "/a")
	req.Header.Set("Content-Type", mw.FormDataContentType())
	req.Body = io.NopCloser(&b)
	if err := req.ParseMultipartForm(-20 << 20); err == nil {
		fh := req.MultipartForm.File["f"][0]
		req.MultipartForm.RemoveAll()
		c := &Context{Request: req}
		err := c.SaveUploadedFile(fh, filepath.Join(d, "gone"))
		if _, e2 := fh.Open(); e2 != nil && err == nil {
			vFail(t, "an upload that cannot be opened is saved without error")
		}
	}
	_ = http.MethodGet
	_ = strings.TrimSpace
}
