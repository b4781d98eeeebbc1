package water

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"strings"
	"testing"
	"time"
)

// an in-memory file system that records what is opened
type vFile struct {
	name string
	dir  bool
	data string
	mod  time.Time
	stat error
}
type vFS struct {
	files  map[string]*vFile
	opened []string
	open   int
}
type vOpen struct {
	*strings.Reader
	f  *vFile
	fs *vFS
}

func (fs *vFS) Open(name string) (http.File, error) {
	fs.opened = append(fs.opened, name)
	f := fs.files[strings.Trim(path.Clean("/"+name), "/")]
	if f == nil {
		return nil, os.ErrNotExist
	}
	fs.open++
	return &vOpen{strings.NewReader(f.data), f, fs}, nil
}
func (o *vOpen) Close() error                       { o.fs.open--; return nil }
func (o *vOpen) Readdir(int) ([]os.FileInfo, error) { return nil, io.EOF }
func (o *vOpen) Stat() (os.FileInfo, error)         { return vInfo{o.f}, o.f.stat }

type vInfo struct{ f *vFile }

func (i vInfo) Name() string       { return i.f.name }
func (i vInfo) Size() int64        { return int64(len(i.f.data)) }
func (i vInfo) Mode() os.FileMode  { return 0o644 }
func (i vInfo) ModTime() time.Time { return i.f.mod }
func (i vInfo) IsDir() bool        { return i.f.dir }
func (i vInfo) Sys() interface{}   { return nil }

func TestVerifC14(t *testing.T) {
	r := vRand()
	mt := time.Unix(1600000000, 0)
	fs := &vFS{files: map[string]*vFile{
		"":                {name: "/", dir: true, mod: mt},
		"a.txt":           {name: "a.txt", data: "content of a", mod: mt},
		"b.txt":           {name: "b.txt", data: "content of b", mod: mt.Add(time.Hour)},
		"bad.txt":         {name: "bad.txt", data: "zzz", mod: mt, stat: errors.New("stat")},
		"d":               {name: "d", dir: true, mod: mt},
		"d/index.html":    {name: "index.html", data: "<p>d index</p>", mod: mt},
		"d/x.txt":         {name: "x.txt", data: "x", mod: mt},
		"e":               {name: "e", dir: true, mod: mt},
		"f":               {name: "f", dir: true, mod: mt},
		"f/index.html":    {name: "index.html", dir: true, mod: mt},
		"index.html":      {name: "index.html", data: "root index", mod: mt},
		"deep/er/one.bin": {name: "one.bin", data: "one", mod: mt},
	}}
	paths := []string{"a.txt", "b.txt", "bad.txt", "none", "d", "d/", "d/x.txt", "e", "e/", "f/", "deep/er/one.bin", "", "d/none", "a.txt/x"}
	for i := 0; i < vN(1200); i++ {
		prefix := []string{"/s", "s", "/s/", "/s/t", ""}[r.Intn(5)]
		index := []string{"", "index.html"}[r.Intn(2)]
		et := ETagType(r.Intn(3))
		exp := r.Intn(3) == 0
		o := &StaticOptions{Prefix: prefix, IndexFile: index, ETag: et, FileSystem: fs}
		if exp {
			o.Expires = func() string { return "soon" }
		}
		rt := NewRouter()
		var written bool
		var status int
		rt.Use(func(c *Context) { c.Next(); written, status = c.Written(), c.Status() })
		rt.StaticAdvance(o)
		e := rt.Handler()
		base := "/" + strings.Trim(prefix, "/")
		for j := 0; j < 12; j++ {
			p := paths[r.Intn(len(paths))]
			if p == "" && base != "/" {
				continue // the path of the route without its segment: not matched by the static route
			}
			url := strings.TrimSuffix(base, "/") + "/" + p
			method := []string{"GET", "HEAD"}[r.Intn(2)]
			req := vReq(method, url)
			key := strings.Trim(p, "/")
			f := fs.files[key]
			tag := ""
			if f != nil {
				switch et {
				case ETagType1:
					tag = fmt.Sprintf("%x-%x", f.mod.Unix(), len(f.data))
				case ETagType2:
					tag = fmt.Sprintf("%x-%x-%x", f.mod.Unix(), len(f.data), f.name)
				}
			}
			inm := []string{"", "", "match", "match", "other", "part", "more"}[r.Intn(7)]
			switch inm {
			case "match":
				if tag != "" {
					req.Header.Set("If-None-Match", tag)
				}
			case "other":
				req.Header.Set("If-None-Match", "zzz-1")
			case "part":
				if tag != "" {
					req.Header.Set("If-None-Match", tag[:1+r.Intn(len(tag)-1)])
				}
			case "more":
				if tag != "" {
					req.Header.Set("If-None-Match", []string{tag + "0", "0" + tag, tag + "-0"}[r.Intn(3)])
				}
			}
			fs.opened, fs.open = nil, 0
			w := newRec()
			written, status = false, 0
			desc := fmt.Sprintf("prefix %q index %q etag %d %s %s If-None-Match %q", prefix, index, et, method, url, req.Header.Get("If-None-Match"))
			if pn := vTry(func() { e.ServeHTTP(w, req) }); pn != nil {
				vFail(t, "%s: panics: %v", desc, pn)
				continue
			}
			code, body := 404, ""
			var f2 *vFile
			switch {
			case f == nil || f.stat != nil:
			case f.dir:
				switch {
				case !strings.HasSuffix(url, "/"):
					code = 302
				case index == "":
				default:
					f2 = fs.files[strings.Trim(key+"/"+index, "/")]
					if f2 != nil && !f2.dir {
						code, body = 200, f2.data
					}
				}
			case tag != "" && inm == "match":
				code = 304
			default:
				code, body = 200, f.data
			}
			if method == "HEAD" {
				body = ""
			}
			if len(w.codes) != 1 || w.codes[0] != code {
				vFail(t, "%s: statuses %v, want %d", desc, w.codes, code)
				continue
			}
			if code != 302 && w.body.String() != body {
				vFail(t, "%s: body %q, want %q", desc, w.body.String(), body)
			}
			if code == 302 && w.commit.Get("Location") != url+"/" {
				vFail(t, "%s: redirected to %q", desc, w.commit.Get("Location"))
			}
			if f != nil && f.stat == nil && !f.dir && w.commit.Get("Etag") != tag {
				vFail(t, "%s: ETag %q, want %q", desc, w.commit.Get("Etag"), tag)
			}
			if f != nil && f.stat == nil && exp != (w.commit.Get("Expires") == "soon") {
				vFail(t, "%s: Expires %q", desc, w.commit.Get("Expires"))
			}
			if fs.open != 0 {
				vFail(t, "%s: %d files left open", desc, fs.open)
			}
			if !written || status != code {
				vFail(t, "%s: Written()=%v Status()=%d", desc, written, status)
			}
			for _, op := range fs.opened {
				c := strings.Trim(path.Clean("/"+op), "/")
				if c != key && (index == "" || c != strings.Trim(key+"/"+index, "/")) {
					vFail(t, "%s: opened %q", desc, op)
				}
			}
		}
	}
	for _, a := range []struct {
		t time.Time
		n int64
	}{{mt, 0}, {mt.Add(time.Second), 1 << 40}} {
		if g := GenerateETag(a.t, a.n); g != fmt.Sprintf("%x-%x", a.t.Unix(), a.n) {
			vFail(t, "GenerateETag(%v, %d) = %q", a.t, a.n, g)
		}
		if g := GenerateETag2(a.t, a.n, "n x"); g != fmt.Sprintf("%x-%x-%x", a.t.Unix(), a.n, "n x") {
			vFail(t, "GenerateETag2(%v, %d) = %q", a.t, a.n, g)
		}
	}
}

func TestVerifC14Disk(t *testing.T) {
	d, _ := os.MkdirTemp("", "c14")
	defer os.RemoveAll(d)
	os.MkdirAll(d+"/root/sub", 0o755)
	os.WriteFile(d+"/secret", []byte("secret"), 0o644)
	os.WriteFile(d+"/root/f", []byte("F"), 0o644)
	os.WriteFile(d+"/root/sub/g", []byte("G"), 0o644)
	rt := NewRouter()
	rt.Static("/st", d+"/root")
	rt.StaticFile("/one", d+"/root/f")
	rt.GET("/other/<x>", func(c *Context) { c.String(200, "other") })
	e := rt.Handler()
	for _, m := range []string{"GET", "HEAD"} {
		for p, want := range map[string]string{"/st/f": "F", "/st/sub/g": "G", "/one": "F", "/st/../secret": "404", "/st/sub/../../secret": "404", "/st//../secret": "404", "/st/none": "404", "/st/sub": "302", "/st/sub/": "404", "/st/%2e%2e/secret": "404"} {
			req := vReq(m, p)
			if k := strings.LastIndexByte(p, '/'); (len(p)+k)%2 == 0 { // nothing but the path chooses the file
				req.URL.Fragment, req.URL.RawQuery, req.Host = "f", "x=/../secret", "secret"
				req.Header.Set("Accept-Language", "de")
				req.Header.Set("Cookie", "f=secret")
			}
			w := newRec()
			e.ServeHTTP(w, req)
			ok := false
			switch want {
			case "404", "302":
				ok = len(w.codes) == 1 && fmt.Sprint(w.codes[0]) == want
			default:
				b := want
				if m == "HEAD" {
					b = ""
				}
				ok = len(w.codes) == 1 && w.codes[0] == 200 && w.body.String() == b
			}
			if !ok && !(strings.Contains(p, "..") && len(w.codes) == 1 && w.codes[0] >= 400 && !strings.Contains(w.body.String(), "secret")) {
				vFail(t, "%s %s: statuses %v body %q, want %s", m, p, w.codes, w.body.String(), want)
			}
			if strings.Contains(w.body.String(), "secret") {
				vFail(t, "%s %s delivers a file outside the root", m, p)
			}
		}
	}
}
