package water

import (
	"fmt"
	"reflect"
	"regexp"
	"testing"
)

func TestVerifC04(t *testing.T) {
	type want struct {
		pat   string
		typ   byte
		names []string
		re    string
		text  string
	}
	cases := []want{
		{"", 0, nil, "", ""}, {"abc", 0, nil, "", "abc"}, {"a~b", 0, nil, "", "a~b"}, {"a:b", 0, nil, "", "a:b"}, {"a b", 0, nil, "", "a b"}, {"a*", 0, nil, "", "a*"}, {"a,b", 0, nil, "", "a,b"},
		{"<x>", 2, []string{"x"}, "", "x"}, {"<x:int>", 2, []string{"x"}, "", "x"}, {"< x >", 2, []string{"x"}, "", "x"}, {"< x : int >", 2, []string{"x"}, "", "x"}, {"<_>", 2, []string{"_"}, "", "_"}, {"<>", 2, []string{""}, "", ""}, {"<名>", 2, []string{"名"}, "", "名"},
		{"<x ~ [0-9]+>", 1, []string{"x"}, "([0-9]+)", "x"}, {"<x~[0-9]+>", 1, []string{"x"}, "([0-9]+)", "x"}, {"<x:int ~ [0-9]+>", 1, []string{"x"}, "([0-9]+)", "x"}, {"<x ~ 70|80>", 1, []string{"x"}, "(70|80)", "x"}, {"<x ~ ^a(b*)c$>", 1, []string{"x"}, "^a(b*)c$", "x"},
		{"<x,y ~ (a)(b)>", 1, []string{"x", "y"}, "(a)(b)", "x,y"}, {"< x , y ~ (a)-(b) >", 1, []string{"x", "y"}, "(a)-(b)", "x , y"}, {"<x ~ ^(?:a|b)$>", 1, []string{"x"}, "(^(?:a|b)$)", "x"}, {"<x ~ (?P<n>a)>", 1, []string{"x"}, "(?P<n>a)", "x"},
		{"<x ~ a>b>", 1, []string{"x"}, "(a>b)", "x"}, {"<x ~ a~b>", 1, []string{"x"}, "(a~b)", "x"}, {"<_,y ~ (.)(.)>", 1, []string{"_", "y"}, "(.)(.)", "_,y"}, {"<x ~ a:b>", 1, []string{"x"}, "(a:b)", "x"},
		{"*", 3, nil, "", ""}, {"*x", 3, nil, "", "x"}, {"*_", 3, nil, "", "_"}, {"*a b", 3, nil, "", "a b"},
	}
	for _, c := range cases {
		var typ byte
		var text string
		var names []string
		var re *regexp.Regexp
		if p := vTry(func() { typ, text, names, re = analyzePattern(c.pat) }); p != nil {
			vFail(t, "segment %q is rejected: %v", c.pat, p)
			continue
		}
		rs := ""
		if re != nil {
			rs = re.String()
		}
		if typ != c.typ || typ == 3 && text != c.text || (typ == 1 || typ == 2) && !reflect.DeepEqual(names, c.names) || rs != c.re {
			vFail(t, "segment %q: kind %d text %q names %q expression %q, want kind %d text %q names %q expression %q", c.pat, typ, text, names, rs, c.typ, c.text, c.names, c.re)
		}
		n := newNode(nil, c.pat)
		if n.typ != typ || n.pattern != c.pat || n.parsedPattern != text || !reflect.DeepEqual(n.wildcards, names) || (n.reg == nil) != (re == nil) || n.subNodes != nil || n.endNodes != nil || n.handlers != nil {
			vFail(t, "segment %q: node %+v", c.pat, n)
		}
	}
	for _, bad := range []string{" a", "a ", "<a", "a>", "a<b>", "<a>b", "<a><", "<", ">", "><", "x<a>y", "<a>\t", " <a>", "<a ~ (>", "<a ~ [>", "<a,b ~ (a)>", "<a ~ (a)(b)>", "<a,b ~ ab>", "<a,b,c ~ (a)(b)>", "b<a ~ c>"} {
		if vTry(func() { analyzePattern(bad) }) == nil {
			vFail(t, "malformed segment %q is accepted", bad)
		}
		rt := NewRouter()
		rt.GET("/z/"+bad+"/k", func(*Context) {})
		if vTry(func() { rt.Handler() }) == nil {
			vFail(t, "a route with the malformed segment %q is accepted", bad)
		}
	}
	for in, out := range map[string]string{"/": "/", "/a": "/a", "/:a": "/<a>", "/: a ": "/<a>", "/a/:b/c": "/a/<b>/c", "/*": "/*", "/* ": "/*", "/a/*x": "/a/*x", "/a:b": "/a:b", "/<a:int>": "/<a:int>", "/a*b/:c": "/a*b/<c>", "/:a/*b": "/<a>/*b", "/<x ~ a:b>/:y": "/<x ~ a:b>/<y>"} {
		if g := _VariantUri(in); g != out {
			vFail(t, "route %q is read as %q, want %q", in, g, out)
		}
	}
	// observable: registered and served
	for i, c := range []struct{ pat, path, params string }{{"/:id", "/7", `"id"="7" `}, {"/<id:int>", "/7", `"id"="7" `}, {"/<id:int ~ [0-9]+>", "/7", `"id"="7" `}, {"/<a , b ~ (x*)(y*)>", "/xxy", `"a"="xx" "b"="y" `}, {"/*rest", "/a/b", `"rest"="a/b" `}, {"/*", "/a/b", `"*0"="a/b" `}, {"/q/: id ", "/q/z", `"id"="z" `}, {"/<_ ~ [0-9]+>", "/4", ""}} {
		rt := NewRouter()
		got := "not found"
		rt.GET(c.pat, func(x *Context) { got = vMapStr(x.Params) })
		e := rt.Handler()
		vServe(e, "GET", c.path)
		if got != c.params {
			vFail(t, "route %q (%d) path %q: parameters %s, want %s", c.pat, i, c.path, got, c.params)
		}
	}
	_ = fmt.Sprint
}
