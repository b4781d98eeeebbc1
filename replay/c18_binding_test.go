package binding

import (
	"fmt"
	"mime/multipart"
	"reflect"
	"testing"
	"time"
)

type vbIn struct {
	X string `form:"x"`
	y string `form:"y"`
	Z string `form:"-"`
}
type vbEmb struct {
	E string `form:"e"`
	h string `form:"h"`
}
type VbPub struct {
	P string `form:"p"`
}
type vbStr string

type vb18 struct {
	A     string `form:"a"`
	B     string `form:"b,default=bb"`
	priv  string `form:"priv"`
	No    string `form:"-"`
	NoC   string `form:"-,default=zz"`
	None  string
	In    vbIn
	Skip  vbIn  `form:"-"`
	SkipC vbIn  `form:"-,x"`
	SkipP *vbIn `form:"-"`
	InP   *vbIn
	vbEmb
	*VbPub
	vbStr
	Opt   string                  `form:"opt,required,default=q=r"`
	Sl    []string                `form:"sl"`
	T     time.Time               `form:"t"`
	File  *multipart.FileHeader   `form:"file"`
	Files []*multipart.FileHeader `form:"files"`
	Empty string                  `form:",default=never"`
	pin   vbIn
}

func TestVerifC18(t *testing.T) {
	r := vbRand()
	old := Validator
	Validator = nil
	defer func() { Validator = old }()
	keys := []string{"a", "b", "priv", "No", "NoC", "None", "none", "-", "x", "y", "Z", "z", "e", "h", "p", "opt", "sl", "a,default", "", "vbStr", "X", "Skip", "Empty"}
	for i := 0; i < vbN(10000); i++ {
		m := map[string][]string{}
		for k := r.Intn(6); k > 0; k-- {
			n := keys[r.Intn(len(keys))]
			m[n] = [][]string{{"v1"}, {"v1", "v2"}, {""}, {}, nil}[r.Intn(5)]
		}
		files := map[string][]*multipart.FileHeader{}
		f1, f2 := &multipart.FileHeader{Filename: "1"}, &multipart.FileHeader{Filename: "2"}
		if r.Intn(3) == 0 {
			files["file"] = []*multipart.FileHeader{f1}
		}
		if r.Intn(3) == 0 {
			files["files"] = []*multipart.FileHeader{f1, f2}
		}
		pre := "o"
		sp := &vbIn{X: pre, y: pre, Z: pre}
		o := vb18{A: pre, B: pre, priv: pre, No: pre, NoC: pre, None: pre, In: vbIn{pre, pre, pre}, Skip: vbIn{pre, pre, pre}, SkipC: vbIn{pre, pre, pre}, SkipP: sp, vbEmb: vbEmb{pre, pre}, vbStr: "o", Opt: pre, Sl: []string{pre}, Empty: pre, pin: vbIn{pre, pre, pre}}
		if r.Intn(2) == 0 {
			o.SkipP = nil
		}
		skip := o.SkipP
		desc := fmt.Sprintf("form %q files %d", m, len(files))
		var err error
		if p := vbTry(func() { err = MapForm(&o, m, files, "form") }); p != nil {
			vbFail(t, "%s: panics: %v", desc, p)
			continue
		}
		if err != nil {
			vbFail(t, "%s: error %v", desc, err)
			continue
		}
		want := func(n, def string) string {
			vs, ok := m[n]
			if !ok && def != "" {
				return def
			}
			if len(vs) == 0 {
				return pre
			}
			return vs[0]
		}
		chk := func(f, got, w string) {
			if got != w {
				vbFail(t, "%s: field %s is %q, want %q", desc, f, got, w)
			}
		}
		chk("A", o.A, want("a", ""))
		chk("B", o.B, want("b", "bb"))
		chk("priv", o.priv, pre)
		chk("No", o.No, pre)
		chk("NoC", o.NoC, pre)
		chk("None", o.None, pre)
		chk("In.X", o.In.X, want("x", ""))
		chk("In.y", o.In.y, pre)
		chk("In.Z", o.In.Z, pre)
		chk("Skip", fmt.Sprint(o.Skip), "{o o o}")
		chk("SkipC", fmt.Sprint(o.SkipC), "{o o o}")
		if o.SkipP != skip || skip != nil && *skip != (vbIn{pre, pre, pre}) {
			vbFail(t, "%s: the excluded pointer is changed", desc)
		}
		chk("E", o.E, want("e", ""))
		chk("h", o.h, pre)
		chk("vbStr", string(o.vbStr), "o")
		chk("Opt", o.Opt, want("opt", "q=r"))
		chk("Empty", o.Empty, pre)
		chk("pin", fmt.Sprint(o.pin), "{o o o}")
		if o.InP != nil {
			w := want("x", "")
			if len(m["x"]) == 0 {
				w = ""
			}
			chk("InP.X", o.InP.X, w)
			chk("InP.y", o.InP.y, "")
		}
		if vs := m["p"]; len(vs) > 0 && (o.VbPub == nil || o.P != vs[0]) {
			vbFail(t, "%s: the embedded pointer's field is not bound", desc)
		}
		sl := []string{pre}
		if vs, ok := m["sl"]; ok && len(vs) > 0 {
			sl = vs
		}
		chk("Sl", fmt.Sprint(o.Sl), fmt.Sprint(sl))
		if (o.File == f1) != (len(files["file"]) == 1) || len(o.Files) != len(files["files"]) || len(o.Files) == 2 && (o.Files[0] != f1 || o.Files[1] != f2) {
			vbFail(t, "%s: files %v %v", desc, o.File, o.Files)
		}
	}
}

func TestVerifC18Targets(t *testing.T) {
	type S struct {
		A string `form:"a"`
	}
	var np *S
	var nm *map[string]string
	var pp **S
	q := &S{}
	n := 5
	form := map[string][]string{"a": {"1"}}
	for name, c := range map[string]struct {
		o   interface{}
		err bool
	}{"nil": {nil, true}, "nil pointer": {np, true}, "struct by value": {S{}, true}, "nil map pointer": {nm, true}, "map by value": {map[string]string{}, true}, "int": {5, true}, "int pointer": {&n, true}, "string": {"x", true}, "pointer to pointer": {&q, true}, "nil pointer to pointer": {pp, true},
		"pointer": {&S{}, false}, "map pointer": {&map[string]string{}, false}, "lists": {&map[string][]string{}, false}, "map of ints": {&map[string]int{}, true}, "map of int keys": {&map[int]string{}, true}, "func": {func() {}, true}, "slice pointer": {&[]S{}, true}} {
		for _, f := range []map[string][]string{form, nil, {}, {"a": {}}, {"a": nil}} {
			var err error
			if p := vbTry(func() { err = MapForm(c.o, f, nil, "form") }); p != nil {
				vbFail(t, "MapForm of %s with %v panics: %v", name, f, p)
			} else if (err != nil) != c.err {
				vbFail(t, "MapForm of %s with %v: error %v", name, f, err)
			}
		}
	}
	// nil things inside validated objects
	type in struct {
		B string `binding:"required"`
	}
	type out struct {
		P *in
		L []*in
		I interface{}
	}
	for i, o := range []interface{}{nil, np, []*in{nil}, []interface{}{nil, 5}, out{}, &out{L: []*in{nil}}, [1]*in{nil}, []error{nil}, [][]*in{nil, {nil}}, &[]*in{nil}, (*[]in)(nil), []map[string]int{nil}, []func(){nil}, []chan int{nil}} {
		var err error
		if p := vbTry(func() { err = NewvVlidatorV10().ValidateStruct(o) }); p != nil {
			vbFail(t, "validating %#v (%d) panics: %v", o, i, p)
		}
		_ = err
	}
	// slice fields of every element kind, empty lists and wrong kinds never panic
	type K struct {
		A []int                   `form:"a"`
		B []struct{ X int }       `form:"b"`
		C chan int                `form:"c"`
		D map[string]int          `form:"d"`
		E struct{ X int }         `form:"e"`
		F func()                  `form:"f"`
		G [2]string               `form:"g"`
		H []*int                  `form:"h"`
		I interface{}             `form:"i"`
		J *[]int                  `form:"j"`
		K **int                   `form:"k"`
		L []*multipart.FileHeader `form:"l"`
		M *multipart.FileHeader   `form:"m"`
		N *time.Time              `form:"n"`
		O []time.Time             `form:"o"`
	}
	for _, k := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o"} {
		for _, vs := range [][]string{nil, {}, {""}, {"x"}, {"1", "2"}, {`{"X":1}`}} {
			for _, fs := range []map[string][]*multipart.FileHeader{nil, {k: nil}, {k: {}}, {k: {&multipart.FileHeader{}}}} {
				m := map[string][]string{k: vs}
				if fs != nil {
					m = map[string][]string{}
				}
				o := K{}
				if p := vbTry(func() { MapForm(&o, m, fs, "form") }); p != nil {
					vbFail(t, "field %s with values %q files %v panics: %v", k, vs, fs, p)
				}
			}
		}
	}
	_ = reflect.ValueOf
}

type vb2 struct {
	A    string `form:"a"`
	B    string `form:"b,default=bb"`
	priv string `form:"priv"`
	No   string `form:"-"`
	NoC  string `form:"-,default=zz"`
	Name string
	In   vbIn
	Skip vbIn  `form:"-"`
	SkpP *vbIn `form:"-"`
	InP  *vbIn
	vbEmb
	*VbPub
	vbStr
	Sl  []string `form:"sl"`
	pin vbIn
	Arr [2]int `form:"arr"`
}
type vbUnexpP struct {
	*vbEmb
	A string `form:"a"`
}

// the other way of binding, by Bind2
func TestVerifC18Bind2(t *testing.T) {
	r := vbRand()
	old := Validator
	Validator = nil
	defer func() { Validator = old }()
	keys := []string{"a", "b", "priv", "No", "NoC", "Name", "-", "x", "y", "Z", "e", "h", "p", "sl", "", "vbStr", "Skip", "pin"}
	for i := 0; i < vbN(5000); i++ {
		m := map[string][]string{}
		for k := r.Intn(6); k > 0; k-- {
			m[keys[r.Intn(len(keys))]] = [][]string{{"v1"}, {"v1", "v2"}, {""}, {}, nil}[r.Intn(5)]
		}
		pre := "o"
		o := vb2{A: pre, B: pre, priv: pre, No: pre, NoC: pre, Name: pre, Skip: vbIn{pre, pre, pre}, vbEmb: vbEmb{pre, pre}, vbStr: "o", Sl: []string{pre}, pin: vbIn{pre, pre, pre}}
		// a nested struct is named as well as what is in it
		delete(m, "In")
		delete(m, "InP")
		desc := fmt.Sprintf("Bind2, form %q", m)
		var err error
		if p := vbTry(func() {
			switch i % 2 {
			case 0:
				err = mapFormByTag(&o, m, "form")
			case 1:
				_, err = mapping(reflect.ValueOf(&o), emptyField, (*multipartForm)(&multipart.Form{Value: m}), "form")
			}
		}); p != nil {
			vbFail(t, "%s: panics: %v", desc, p)
			continue
		}
		if err != nil {
			vbFail(t, "%s: error %v", desc, err)
			continue
		}
		chk := func(f, got, n, def string) {
			w := pre
			if vs, ok := m[n]; n != "" && (ok || def != "") {
				w = def
				if ok {
					w = ""
				}
				if len(vs) > 0 {
					w = vs[0]
				}
			}
			if got != w {
				vbFail(t, "%s: field %s is %q, want %q", desc, f, got, w)
			}
		}
		chk("A", o.A, "a", "")
		chk("B", o.B, "b", "bb")
		chk("priv", o.priv, "", "")
		chk("No", o.No, "", "")
		chk("NoC", o.NoC, "", "")
		chk("Name", o.Name, "Name", "")
		chk("E", o.E, "e", "")
		chk("h", o.h, "", "")
		chk("vbStr", string(o.vbStr), "", "")
		if fmt.Sprint(o.Skip, o.pin) != "{o o o} {o o o}" || o.SkpP != nil || o.In.y != "" || o.In.Z != "" || o.InP != nil && (o.InP.y != "" || o.InP.Z != "") {
			vbFail(t, "%s: what is excluded is changed: %+v", desc, o)
		}
	}
	type S struct {
		A string `form:"a" uri:"a" header:"A"`
	}
	var np *S
	var nm map[string]string
	var nl map[string][]string
	form := map[string][]string{"a": {"1"}, "A": {"1"}, "e": {"1"}}
	n := 5
	for name, o := range map[string]interface{}{"nil": nil, "nil pointer": np, "struct by value": S{}, "nil map": nm, "nil map of lists": nl, "pointer to nil map": &nm, "pointer to nil map of lists": &nl, "map": map[string]string{}, "int": 5, "int pointer": &n,
		"pointer to pointer": &np, "unexported embedded pointer": &vbUnexpP{}, "the same by value": vbUnexpP{}, "func": func() {}, "map of ints": &map[string]int{}, "int keys": map[int]string{}} {
		for _, f := range []map[string][]string{form, nil, {}, {"a": {}}, {"a": nil}} {
			for k, b := range []func(){
				func() { mapFormByTag(o, f, "form") },
				func() { mapping(reflect.ValueOf(o), emptyField, headerSource(f), "header") },
				func() {
					mapping(reflect.ValueOf(o), emptyField, (*multipartForm)(&multipart.Form{Value: f}), "form")
				},
			} {
				if p := vbTry(b); p != nil {
					vbFail(t, "Bind2 (%d) of %s with %v panics: %v", k, name, f, p)
				}
			}
		}
	}
}
