package water

import (
	"bytes"
	"fmt"
	"html/template"
	"io"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

var vTexts = []string{"", "1", "0", "-1", "t", "true", "FALSE", "yes", " 7 ", "\t8\n", "1.5", "1e3", "NaN", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "0x10", "010", "+5", "1_000", "abc", "<b>", "inf", " ", "４"}

func TestVerifC15Params(t *testing.T) {
	for _, s := range vTexts {
		p := Params{"a": s, "b": "other"}
		bv, be := strconv.ParseBool(s)
		iv, ie := strconv.Atoi(s)
		lv, le := strconv.ParseInt(s, 10, 64)
		uv, ue := strconv.ParseUint(s, 10, 64)
		fv, fe := strconv.ParseFloat(s, 64)
		eq := func(name string, got, gotErr, want, wantErr interface{}) {
			if fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprint(gotErr) != fmt.Sprint(wantErr) || reflect.TypeOf(got) != reflect.TypeOf(want) {
				vFail(t, "Params.%s of %q = %v, %v; want %v, %v", name, s, got, gotErr, want, wantErr)
			}
		}
		a, b := p.Bool("a")
		eq("Bool", a, b, bv, be)
		a2, b := p.Int("a")
		eq("Int", a2, b, iv, ie)
		a3, b := p.Int64("a")
		eq("Int64", a3, b, lv, le)
		a4, b := p.Uint("a")
		eq("Uint", a4, b, uint(uv), ue)
		a5, b := p.Uint64("a")
		eq("Uint64", a5, b, uv, ue)
		a6, b := p.Float64("a")
		eq("Float64", a6, b, fv, fe)
		eq("MustBool", p.MustBool("a"), nil, bv, nil)
		eq("MustInt", p.MustInt("a"), nil, iv, nil)
		eq("MustInt64", p.MustInt64("a"), nil, lv, nil)
		eq("MustUint", p.MustUint("a"), nil, uint(uv), nil)
		eq("MustUint64", p.MustUint64("a"), nil, uv, nil)
		eq("MustFloat64", p.MustFloat64("a"), nil, fv, nil)
		eq("String", p.String("a"), nil, s, nil)
		c := &Context{Params: p}
		eq("Param", c.Param("a"), nil, s, nil)
	}
	p := Params{"b": "1"}
	for n, f := range map[string]func(){"String": func() { p.String("a") }, "Bool": func() { p.Bool("a") }, "Int": func() { p.Int("") }, "MustInt": func() { p.MustInt("a") }, "MustFloat64": func() { p.MustFloat64("B") },
		"MustUint": func() { p.MustUint("a") }, "MustBool": func() { p.MustBool("a") }, "Uint64": func() { p.Uint64("a") }, "Param": func() { (&Context{}).Param("b") }} {
		if vTry(f) == nil {
			vFail(t, "Params.%s of an absent name does not panic", n)
		}
	}
}

func vC15req(r *rand.Rand, q, body url.Values) *http.Request {
	m := []string{"GET", "POST", "PUT", "PATCH", "DELETE"}[r.Intn(5)]
	req := vReq(m, "/x")
	req.URL.RawQuery = q.Encode()
	if m == "GET" || m == "DELETE" {
		return req
	}
	if r.Intn(2) == 0 {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		req.Body = io.NopCloser(strings.NewReader(body.Encode()))
	} else {
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		for k, vs := range body {
			for _, v := range vs {
				w.WriteField(k, v)
			}
		}
		w.Close()
		req.Header.Set("Content-Type", w.FormDataContentType())
		req.Body = io.NopCloser(&b)
	}
	return req
}

func TestVerifC15Query(t *testing.T) {
	r := vRand()
	names := []string{"a", "b", "c", "m[x]", "m[y]", "m[]", "m[z", "m]", "[x]", "m[x][y]", "mm[x]", "m[x]z"}
	fill := func() url.Values {
		v := url.Values{}
		for i := r.Intn(6); i > 0; i-- {
			n := names[r.Intn(len(names))]
			for k := r.Intn(3); k >= 0; k-- {
				v.Add(n, vTexts[r.Intn(len(vTexts))])
			}
		}
		return v
	}
	for i := 0; i < vN(3000); i++ {
		q, body := fill(), fill()
		req := vC15req(r, q, body)
		ref := req.Clone(req.Context())
		if req.Body != nil && req.Body != http.NoBody {
			b, _ := io.ReadAll(req.Body)
			req.Body = io.NopCloser(bytes.NewReader(b))
			ref.Body = io.NopCloser(bytes.NewReader(b))
		}
		if strings.Contains(req.Header.Get("Content-Type"), "multipart") {
			ref.ParseMultipartForm(32 << 20)
		} else {
			ref.ParseForm()
		}
		c := &Context{Request: req}
		desc := fmt.Sprintf("%s form %v", req.Method, ref.Form)
		n := names[r.Intn(3)]
		vs, has := ref.Form[n]
		raw := ""
		if has {
			raw = strings.TrimSpace(vs[0])
		}
		def := vTexts[r.Intn(len(vTexts))]
		draw := raw
		if !has {
			draw = def
		}
		eq := func(name string, got, want interface{}) {
			if !reflect.DeepEqual(got, want) && fmt.Sprint(got) != "NaN" {
				vFail(t, "%s: %s(%q, default %q) = %#v, want %#v", desc, name, n, def, got, want)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				vFail(t, "%s: %s(%q, default %q) = %#v, want %#v", desc, name, n, def, got, want)
			}
		}
		pb := func(s string) bool { v, _ := strconv.ParseBool(s); return v }
		pi := func(s string) int { v, _ := strconv.Atoi(s); return v }
		pl := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
		pu := func(s string) uint64 { v, _ := strconv.ParseUint(s, 10, 64); return v }
		pf := func(s string) float64 { v, _ := strconv.ParseFloat(s, 64); return v }
		eq("Query", c.Query(n), raw)
		eq("QueryBool", c.QueryBool(n), pb(raw))
		eq("QueryInt", c.QueryInt(n), pi(raw))
		eq("QueryInt64", c.QueryInt64(n), pl(raw))
		eq("QueryUint", c.QueryUint(n), uint(pu(raw)))
		eq("QueryUint64", c.QueryUint64(n), pu(raw))
		eq("QueryFloat64", c.QueryFloat64(n), pf(raw))
		eq("DefaultQuery", c.DefaultQuery(n, def), draw)
		eq("DefaultQueryBool", c.DefaultQueryBool(n, def), pb(draw))
		eq("DefaultQueryInt", c.DefaultQueryInt(n, def), pi(draw))
		eq("DefaultQueryInt64", c.DefaultQueryInt64(n, def), pl(draw))
		eq("DefaultQueryUint", c.DefaultQueryUint(n, def), uint(pu(draw)))
		eq("DefaultQueryUint64", c.DefaultQueryUint64(n, def), pu(draw))
		eq("DefaultQueryFloat64", c.DefaultQueryFloat64(n, def), pf(draw))
		var arr []string
		for _, v := range vs {
			arr = append(arr, strings.TrimSpace(v))
		}
		eq("QueryArray", c.QueryArray(n), arr)
		darr := []string{"d1", " d2"}
		if has {
			darr = arr
		}
		eq("DefaultQueryArray", c.DefaultQueryArray(n, []string{"d1", " d2"}), darr)
		// keys with several bracket groups ending on the same sub-key are ambiguous: any of them will do
		want := map[string][]string{}
		for k, v := range ref.Form {
			if strings.HasPrefix(k, "m[") {
				if j := strings.IndexByte(k[2:], ']'); j >= 1 {
					sub := k[2:][:j]
					want[sub] = append(want[sub], strings.TrimSpace(v[0]))
				}
			}
		}
		chk := func(name string, got map[string]string) {
			ok := len(got) == len(want)
			for k, v := range got {
				ok = ok && vIn(want[k], v)
			}
			if !ok {
				vFail(t, "%s: %s(\"m\") = %v, want %v", desc, name, got, want)
			}
		}
		chk("QueryMap", c.QueryMap("m"))
		dm := map[string]string{"dd": "1"}
		g := c.DefaultQueryMap("m", dm)
		if len(want) == 0 {
			if !reflect.DeepEqual(g, dm) {
				vFail(t, "%s: DefaultQueryMap(\"m\") = %v, want the default", desc, g)
			}
		} else {
			chk("DefaultQueryMap", g)
		}
	}
}

func TestVerifC15Cookie(t *testing.T) {
	for _, s := range []string{"1", "0", "-1", "true", "F", "abc", "1.5", "9223372036854775808", "18446744073709551616", "<b>&", "x=y", "0x1f"} {
		req := vReq("GET", "/")
		req.Header.Add("Cookie", "other=9; a="+s+"; a=7")
		ck, err := req.Cookie("a")
		if err != nil {
			continue
		}
		v := ck.Value
		c := &Context{Request: req}
		bv, _ := strconv.ParseBool(v)
		iv, _ := strconv.Atoi(v)
		lv, _ := strconv.ParseInt(v, 10, 64)
		uv, _ := strconv.ParseUint(v, 10, 64)
		fv, _ := strconv.ParseFloat(v, 64)
		for n, p := range map[string][2]interface{}{"Cookie": {c.Cookie("a"), v}, "CookieEscape": {c.CookieEscape("a"), template.HTMLEscapeString(v)}, "CookieBool": {c.CookieBool("a"), bv}, "CookieInt": {c.CookieInt("a"), iv},
			"CookieInt64": {c.CookieInt64("a"), lv}, "CookieUint": {c.CookieUint("a"), uint(uv)}, "CookieUint64": {c.CookieUint64("a"), uv}, "CookieFloat64": {c.CookieFloat64("a"), fv},
			"absent Cookie": {c.Cookie("zz"), ""}, "absent CookieInt": {c.CookieInt("zz"), 0}, "absent CookieBool": {c.CookieBool("zz"), false}, "absent CookieUint64": {c.CookieUint64("zz"), uint64(0)}, "absent CookieFloat64": {c.CookieFloat64("zz"), float64(0)}} {
			if !reflect.DeepEqual(p[0], p[1]) {
				vFail(t, "%s of %q = %#v, want %#v", n, s, p[0], p[1])
			}
		}
	}
}
