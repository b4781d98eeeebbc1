package binding

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"testing"
	"time"
)

type vbAll struct {
	I   int      `form:"i" header:"i" uri:"i"`
	I8  int8     `form:"i8" header:"i8" uri:"i8"`
	I16 int16    `form:"i16" header:"i16" uri:"i16"`
	I32 int32    `form:"i32" header:"i32" uri:"i32"`
	I64 int64    `form:"i64" header:"i64" uri:"i64"`
	U   uint     `form:"u" header:"u" uri:"u"`
	U8  uint8    `form:"u8" header:"u8" uri:"u8"`
	U16 uint16   `form:"u16" header:"u16" uri:"u16"`
	U32 uint32   `form:"u32" header:"u32" uri:"u32"`
	U64 uint64   `form:"u64" header:"u64" uri:"u64"`
	B   bool     `form:"b" header:"b" uri:"b"`
	F32 float32  `form:"f32" header:"f32" uri:"f32"`
	F64 float64  `form:"f64" header:"f64" uri:"f64"`
	S   string   `form:"s" header:"s" uri:"s"`
	PI  *int     `form:"pi" header:"pi" uri:"pi"`
	PI8 *int8    `form:"pi8" header:"pi8" uri:"pi8"`
	PS  *string  `form:"ps" header:"ps" uri:"ps"`
	PB  *bool    `form:"pb" header:"pb" uri:"pb"`
	LI  []int16  `form:"li" header:"li" uri:"li"`
	LS  []string `form:"ls" header:"ls" uri:"ls"`
	LB  []bool   `form:"lb" header:"lb" uri:"lb"`
	D   int8     `form:"d,default=5" header:"d,default=5" uri:"d,default=5"`
	DS  string   `form:"ds,default=dd" header:"ds,default=dd" uri:"ds,default=dd"`
	DL  []uint8  `form:"dl,default=9" header:"dl,default=9" uri:"dl,default=9"`
}

var vbTexts = []string{"", "0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
	"true", "false", "T", "f", "TRUE", "yes", "1.5", "-2.5e3", "1e39", "1e400", "NaN", "abc", " 1", "1 ", "+7", "0x1f", "007", "1_0", "é", "300"}

// vbWant: the value the text denotes for a kind, or an error.
func vbWant(ty reflect.Type, s string) (v reflect.Value, ok bool) {
	v = reflect.New(ty).Elem()
	if ty == reflect.TypeOf(time.Duration(0)) {
		d, err := time.ParseDuration(s)
		v.SetInt(int64(d))
		return v, err == nil
	}
	switch ty.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if s == "" {
			s = "0"
		}
		n, err := strconv.ParseInt(s, 10, ty.Bits())
		v.SetInt(n)
		return v, err == nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if s == "" {
			s = "0"
		}
		n, err := strconv.ParseUint(s, 10, ty.Bits())
		v.SetUint(n)
		return v, err == nil
	case reflect.Bool:
		if s == "" {
			s = "false"
		}
		n, err := strconv.ParseBool(s)
		v.SetBool(n)
		return v, err == nil
	case reflect.Float32, reflect.Float64:
		if s == "" {
			s = "0"
		}
		n, err := strconv.ParseFloat(s, ty.Bits())
		v.SetFloat(n)
		return v, err == nil
	}
	v.SetString(s)
	return v, true
}

func vbBind(kind int, m map[string][]string, o interface{}) error {
	switch kind {
	case 0:
		return Form.Bind(&http.Request{Form: m}, o)
	case 1:
		return Query.Bind(&http.Request{URL: &url.URL{RawQuery: url.Values(m).Encode()}}, o)
	case 2:
		h := http.Header{}
		for k, vs := range m {
			for _, v := range vs {
				h.Add(k, v)
			}
		}
		return Header.Bind(&http.Request{Header: h}, o)
	}
	return Uri.Bind(m, o)
}

func vbFill(r *rand.Rand, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.SetInt(int64(r.Intn(100) + 1))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.SetUint(uint64(r.Intn(100) + 1))
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Float32, reflect.Float64:
			f.SetFloat(3.25)
		case reflect.String:
			f.SetString("old")
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 2, 2))
		case reflect.Ptr:
			if r.Intn(2) == 0 {
				f.Set(reflect.New(f.Type().Elem()))
			}
		}
	}
}

func vbShow(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + vbShow(v.Elem())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func TestVerifC17(t *testing.T) {
	r := vbRand()
	old := Validator
	Validator = nil
	defer func() { Validator = old }()
	ty := reflect.TypeOf(vbAll{})
	for i := 0; i < vbN(20000); i++ {
		var o, before vbAll
		if r.Intn(2) == 0 {
			vbFill(r, reflect.ValueOf(&o).Elem())
		}
		before = o
		pold := map[int]string{}
		for k := 0; k < ty.NumField(); k++ {
			pold[k] = vbShow(reflect.ValueOf(before).Field(k))
		}
		m := map[string][]string{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			f := ty.Field(r.Intn(ty.NumField()))
			n, _ := head(f.Tag.Get("uri"), ",")
			var vs []string
			for q := 1 + r.Intn(3); q > 0; q-- {
				vs = append(vs, vbTexts[r.Intn(len(vbTexts))])
			}
			m[n] = vs
		}
		kind := r.Intn(4)
		var err error
		desc := fmt.Sprintf("%s binding of %q over %v", []string{"form", "query", "header", "uri"}[kind], m, pold)
		if p := vbTry(func() { err = vbBind(kind, m, &o) }); p != nil {
			vbFail(t, "%s: panics: %v", desc, p)
			continue
		}
		wantErr := false
		type exp struct {
			k int
			s string
		}
		var exps []exp
		for k := 0; k < ty.NumField(); k++ {
			f := ty.Field(k)
			n, opt := head(f.Tag.Get("uri"), ",")
			vs, has := m[n]
			if !has {
				if opt == "" {
					exps = append(exps, exp{k, pold[k]})
					continue
				}
				vs = []string{map[string]string{"d": "5", "ds": "dd", "dl": "9"}[n]}
			}
			et := f.Type
			if et.Kind() == reflect.Slice {
				sl := reflect.MakeSlice(et, 0, 0)
				ok := true
				for _, s := range vs {
					w, good := vbWant(et.Elem(), s)
					ok = ok && good
					sl = reflect.Append(sl, w)
				}
				if !ok {
					wantErr = true
				}
				exps = append(exps, exp{k, vbShow(sl)})
				continue
			}
			pre := ""
			if et.Kind() == reflect.Ptr {
				et = et.Elem()
				pre = "&"
			}
			w, good := vbWant(et, vs[0])
			if !good {
				wantErr = true
			}
			exps = append(exps, exp{k, pre + vbShow(w)})
		}
		if wantErr != (err != nil) {
			vbFail(t, "%s: error %v, want an error: %v", desc, err, wantErr)
			continue
		}
		if err != nil {
			continue
		}
		for _, e := range exps {
			if g := vbShow(reflect.ValueOf(o).Field(e.k)); g != e.s {
				vbFail(t, "%s: field %s is %s, want %s", desc, ty.Field(e.k).Name, g, e.s)
			}
		}
	}
}

// times, durations of text and map targets
func TestVerifC17Time(t *testing.T) {
	old := Validator
	Validator = nil
	defer func() { Validator = old }()
	type T struct {
		A time.Time `form:"a"`
		B time.Time `form:"b" time_format:"2006-01-02" time_utc:"1"`
		C time.Time `form:"c" time_format:"unix"`
		D time.Time `form:"d" time_format:"unixNano"`
		E time.Time `form:"e" time_format:"2006-01-02" time_location:"UTC"`
	}
	for _, c := range []struct {
		n, v string
		ok   bool
		want time.Time
	}{{"a", "2020-01-02T03:04:05Z", true, time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)}, {"a", "x", false, time.Time{}}, {"a", "", true, time.Time{}}, {"b", "2020-01-02", true, time.Date(2020, 1, 2, 0, 0, 0, 0, time.UTC)}, {"b", "2020-13-02", false, time.Time{}},
		{"c", "1600000000", true, time.Unix(1600000000, 0)}, {"c", "zz", false, time.Time{}}, {"d", "1600000000000000001", true, time.Unix(1600000000, 1)}, {"e", "2020-01-02", true, time.Date(2020, 1, 2, 0, 0, 0, 0, time.UTC)}} {
		o := T{}
		err := vbBind(0, map[string][]string{c.n: {c.v}}, &o)
		got := map[string]time.Time{"a": o.A, "b": o.B, "c": o.C, "d": o.D, "e": o.E}[c.n]
		if (err == nil) != c.ok || c.ok && !got.Equal(c.want) {
			vbFail(t, "time field %s from %q: %v, error %v; want %v", c.n, c.v, got, err, c.want)
		}
	}
	var m map[string]string
	if err := vbBind(0, map[string][]string{"a": {"1", "2"}, "b": {"3"}, "c": {}}, &m); err != nil || !reflect.DeepEqual(m, map[string]string{"a": "2", "b": "3"}) {
		vbFail(t, "map[string]string gets %v, error %v", m, err)
	}
	var l map[string][]string
	if err := vbBind(0, map[string][]string{"a": {"1", "2"}, "b": {"3"}}, &l); err != nil || !reflect.DeepEqual(l, map[string][]string{"a": {"1", "2"}, "b": {"3"}}) {
		vbFail(t, "map[string][]string gets %v, error %v", l, err)
	}
}

// Bind2: the reflection-driven mapper with the same guarantees
func TestVerifC17Bind2(t *testing.T) {
	r := vbRand()
	old := Validator
	Validator = nil
	defer func() { Validator = old }()
	ty := reflect.TypeOf(vbAll{})
	for i := 0; i < vbN(8000); i++ {
		var o vbAll
		if r.Intn(2) == 0 {
			vbFill(r, reflect.ValueOf(&o).Elem())
		}
		k := r.Intn(ty.NumField())
		f := ty.Field(k)
		n, _ := head(f.Tag.Get("form"), ",")
		vs := []string{vbTexts[r.Intn(len(vbTexts))]}
		if r.Intn(3) == 0 {
			vs = append(vs, vbTexts[r.Intn(len(vbTexts))])
		}
		err := formBinding{}.Bind2(&http.Request{Form: url.Values{n: vs}}, &o)
		et := f.Type
		want, ok := "", true
		switch et.Kind() {
		case reflect.Slice:
			sl := reflect.MakeSlice(et, 0, 0)
			for _, s := range vs {
				w, good := vbWant(et.Elem(), s)
				ok = ok && good
				sl = reflect.Append(sl, w)
			}
			want = vbShow(sl)
		case reflect.Ptr:
			var w reflect.Value
			w, ok = vbWant(et.Elem(), vs[0])
			want = "&" + vbShow(w)
		default:
			var w reflect.Value
			w, ok = vbWant(et, vs[0])
			want = vbShow(w)
		}
		got := vbShow(reflect.ValueOf(o).Field(k))
		if (err == nil) != ok || ok && got != want {
			vbFail(t, "Bind2 of %s=%q: %s, error %v; want %s (valid %v)", n, vs, got, err, want, ok)
		}
	}
}

// arrays and durations, which only Bind2 knows
func TestVerifC17Bind2More(t *testing.T) {
	r := vbRand()
	old := Validator
	Validator = nil
	defer func() { Validator = old }()
	type T struct {
		AR [2]int16         `form:"ar"`
		AS [1]string        `form:"as"`
		AB [3]bool          `form:"ab"`
		DU time.Duration    `form:"du"`
		LD []time.Duration  `form:"ld"`
		AD [2]time.Duration `form:"ad"`
	}
	ty := reflect.TypeOf(T{})
	texts := append([]string{"1h", "-2m3s", "1.5ms", "3 s", "9999999h", "2", "3", "T", "1us"}, vbTexts...)
	for i := 0; i < vbN(8000); i++ {
		var o T
		k := r.Intn(ty.NumField())
		f := ty.Field(k)
		var vs []string
		for q := 1 + r.Intn(3); q > 0; q-- {
			if r.Intn(2) == 0 { // mostly valid ones
				vs = append(vs, texts[r.Intn(10)])
			} else {
				vs = append(vs, texts[r.Intn(len(texts))])
			}
		}
		err := formBinding{}.Bind2(&http.Request{Form: url.Values{f.Tag.Get("form"): vs}}, &o)
		et := f.Type
		want, ok := reflect.New(et).Elem(), true
		switch et.Kind() {
		case reflect.Array:
			if ok = len(vs) == et.Len(); !ok {
				break
			}
			for q, s := range vs {
				w, good := vbWant(et.Elem(), s)
				ok = ok && good
				want.Index(q).Set(w)
			}
		case reflect.Slice:
			for _, s := range vs {
				w, good := vbWant(et.Elem(), s)
				ok = ok && good
				want = reflect.Append(want, w)
			}
		default:
			want, ok = vbWant(et, vs[0])
		}
		got := vbShow(reflect.ValueOf(o).Field(k))
		if (err == nil) != ok || ok && got != vbShow(want) {
			vbFail(t, "Bind2 of %s=%q: %s, error %v; want %s (valid %v)", f.Tag.Get("form"), vs, got, err, vbShow(want), ok)
		}
	}
}
