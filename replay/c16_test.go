package water

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"github.com/meilihao/water/binding"
)

type vC16obj struct {
	A string `form:"a" json:"ja" xml:"xa" header:"Ha" uri:"a" binding:"required"`
	N int    `form:"n" json:"jn" xml:"xn"`
}

type vC16val struct {
	calls int
	got   []string
	err   error
}

func (v *vC16val) ValidateStruct(o interface{}) error {
	v.calls++
	v.got = append(v.got, fmt.Sprintf("%+v", *(o.(*vC16obj))))
	return v.err
}
func (v *vC16val) Engine() interface{} { return nil }
func (v *vC16val) Name() string        { return "v" }

func TestVerifC16(t *testing.T) {
	for m, cs := range map[string]map[string]string{
		"GET":    {"": "form", "application/json": "form", "multipart/form-data": "form", "text/xml": "form"},
		"POST":   {"": "form", "application/json": "json", "application/xml": "xml", "text/xml": "xml", "multipart/form-data": "multipart/form-data", "application/x-www-form-urlencoded": "form", "text/plain": "form", "x": "form"},
		"PUT":    {"multipart/form-data": "multipart/form-data", "application/json": "json", "": "form"},
		"PATCH":  {"multipart/form-data": "multipart/form-data", "application/xml": "xml"},
		"DELETE": {"multipart/form-data": "form", "application/json": "json", "text/xml": "xml", "": "form"},
		"HEAD":   {"application/json": "json", "": "form"},
	} {
		for ct, want := range cs {
			if g := binding.NewBindinger(m, ct).Name(); g != want {
				vFail(t, "NewBindinger(%q, %q) is %s, want %s", m, ct, g, want)
			}
		}
	}
	r := vRand()
	oldV := binding.Validator
	defer func() { binding.Validator = oldV }()
	for i := 0; i < vN(3000); i++ {
		m := []string{"GET", "POST", "PUT", "PATCH", "DELETE"}[r.Intn(5)]
		ct := []string{"application/json", "application/json; charset=utf-8", "application/xml", "text/xml;v=1", "application/x-www-form-urlencoded", "multipart/form-data", "", "text/plain"}[r.Intn(8)]
		a := []string{"", "x", "q y", "é"}[r.Intn(4)]
		n := []string{"", "5", "bad"}[r.Intn(3)]
		req := vReq(m, "/a")
		q := url.Values{"a": {a}, "n": {n}}
		jn := n
		if n == "" {
			jn = "0"
		}
		if n == "bad" {
			jn = `"bad"`
		}
		base := ct
		if k := strings.IndexAny(ct, " ;"); k >= 0 {
			base = ct[:k]
		}
		form := "query"
		switch {
		case m == "GET":
			req.URL.RawQuery = q.Encode()
		case base == "multipart/form-data" && m != "DELETE":
			var b bytes.Buffer
			w := multipart.NewWriter(&b)
			w.WriteField("a", a)
			w.WriteField("n", n)
			w.Close()
			req.Body = io.NopCloser(&b)
			ct = w.FormDataContentType()
			form = "multipart"
		case base == "application/json":
			req.Body = io.NopCloser(strings.NewReader(fmt.Sprintf(`{"ja":%q,"jn":%s}`, a, jn)))
			form = "json"
		case base == "application/xml" || base == "text/xml":
			x := n
			if n == "" {
				x = "0"
			}
			req.Body = io.NopCloser(strings.NewReader(fmt.Sprintf(`<r><xa>%s</xa><xn>%s</xn></r>`, a, x)))
			form = "xml"
		case m == "DELETE" || base != "application/x-www-form-urlencoded":
			req.URL.RawQuery = q.Encode()
		default:
			req.Body = io.NopCloser(strings.NewReader(q.Encode()))
			form = "body"
		}
		if ct != "" {
			req.Header.Set("Content-Type", ct)
		}
		v := &vC16val{}
		if r.Intn(3) == 0 {
			v.err = errors.New("invalid!")
		}
		real := r.Intn(3) == 0
		none := !real && r.Intn(4) == 0
		binding.Validator = v
		if real {
			binding.Validator = oldV
		}
		if none {
			binding.Validator = nil
		}
		var o vC16obj
		var err error
		rt := NewRouter()
		rt.ANY("/a", func(c *Context) { err = c.Bind(&o) })
		e := rt.Handler()
		desc := fmt.Sprintf("%s %q (%s) a=%q n=%q validator error %v (real %v, none %v)", m, ct, form, a, n, v.err, real, none)
		if p := vTry(func() { e.ServeHTTP(newRec(), req) }); p != nil {
			vFail(t, "%s: panics: %v", desc, p)
			continue
		}
		switch {
		case n == "bad":
			if err == nil {
				vFail(t, "%s: no decoding error, object %+v", desc, o)
			}
		case real:
			if (err != nil) != (a == "") {
				vFail(t, "%s: error %v, object %+v", desc, err, o)
			}
		case none:
			if err != nil {
				vFail(t, "%s: error %v without a validator", desc, err)
			}
		default:
			if (err == nil) != (v.err == nil) || v.err != nil && err.Error() != "invalid!" {
				vFail(t, "%s: error %v", desc, err)
			}
			if v.calls != 1 || v.got[0] != fmt.Sprintf("%+v", o) {
				vFail(t, "%s: validated %d times as %v, bound %+v", desc, v.calls, v.got, o)
			}
		}
		want := 0
		if n == "5" {
			want = 5
		}
		if n != "bad" && (o.A != a || o.N != want) {
			vFail(t, "%s: bound %+v", desc, o)
		}
	}
	// every binding validates and reports both kinds of errors
	for _, ve := range []error{nil, errors.New("invalid!")} {
		for _, none := range []bool{false, true} {
			calls := &vC16val{err: ve}
			for name, f := range map[string]func(o *vC16obj, bad bool) error{
				"json": func(o *vC16obj, bad bool) error {
					return binding.JSON.Bind(vC16body(map[bool]string{false: `{"ja":"v"}`, true: `{"ja":5}`}[bad], ""), o)
				},
				"xml": func(o *vC16obj, bad bool) error {
					return binding.XML.Bind(vC16body(map[bool]string{false: `<r><xa>v</xa></r>`, true: `<r><xa>v`}[bad], ""), o)
				},
				"form": func(o *vC16obj, bad bool) error {
					return binding.Form.Bind(vC16body(map[bool]string{false: `a=v`, true: `a=v&n=zz`}[bad], "application/x-www-form-urlencoded"), o)
				},
				"query": func(o *vC16obj, bad bool) error {
					rq := vReq("GET", "/")
					rq.URL.RawQuery = map[bool]string{false: `a=v`, true: `a=v&n=zz`}[bad]
					return binding.Query.Bind(rq, o)
				},
				"header": func(o *vC16obj, bad bool) error {
					rq := vReq("GET", "/")
					rq.Header.Set("Ha", "v")
					if bad {
						return binding.Header.Bind(rq, *o)
					}
					return binding.Header.Bind(rq, o)
				},
				"uri": func(o *vC16obj, bad bool) error {
					if bad {
						return binding.Uri.Bind(map[string][]string{"a": {"v"}}, *o)
					}
					return binding.Uri.Bind(map[string][]string{"a": {"v"}}, o)
				},
			} {
				for _, bad := range []bool{false, true} {
					binding.Validator = calls
					if none {
						binding.Validator = nil
					}
					calls.calls, calls.got = 0, nil
					var o vC16obj
					err := f(&o, bad)
					wantErr := bad || ve != nil && !none
					if (err != nil) != wantErr {
						vFail(t, "%s binding, bad input %v, validator error %v (none %v): error %v", name, bad, ve, none, err)
					}
					if !bad && (o.A != "v" || !none && calls.calls != 1) {
						vFail(t, "%s binding: bound %+v, validated %d times", name, o, calls.calls)
					}
				}
			}
		}
	}
	binding.Validator = oldV
	type in struct {
		B string `binding:"required"`
	}
	type outer struct {
		A string `binding:"required"`
		I in
	}
	for i, c := range []struct {
		o  interface{}
		ok bool
	}{{outer{"a", in{"b"}}, true}, {&outer{"a", in{""}}, false}, {outer{}, false}, {[]outer{{"a", in{"b"}}}, true}, {[]outer{{"a", in{"b"}}, {}}, false}, {&[]*outer{{"a", in{"b"}}}, true}, {&[]*outer{{"a", in{"b"}}, {"", in{"b"}}}, false},
		{[2]in{{"x"}, {"y"}}, true}, {[2]in{{"x"}, {}}, false}, {5, true}, {"s", true}, {map[string]int{}, true}, {nil, false}, {(*outer)(nil), false}, {[]*outer{nil}, false}, {[]interface{}{nil}, false}, {[]in{}, true}, {[][]in{{{"x"}}, {{}}}, false}} {
		var err error
		if p := vTry(func() { err = binding.Validator.ValidateStruct(c.o) }); p != nil || (err == nil) != c.ok {
			vFail(t, "validating %#v (case %d): error %v panic %v, want valid %v", c.o, i, err, p, c.ok)
		}
	}
}

func vC16body(s, ct string) *http.Request {
	r := vReq("POST", "/")
	r.Body = io.NopCloser(strings.NewReader(s))
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	return r
}
