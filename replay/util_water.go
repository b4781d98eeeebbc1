package water

// Shared helpers of the replay harness. Laid into the package by an overlay; never committed to
// the repository.

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/meilihao/logx"
)

func init() { LogClose = true; logx.SetLevel(logx.LevelFatal) }

// vRec records everything a handler does to the response writer.
type vRec struct {
	hdr    http.Header
	codes  []int
	commit http.Header // header at the first WriteHeader
	body   bytes.Buffer
	early  bool // body bytes arrived before a status
	werr   error
}

func newRec() *vRec { return &vRec{hdr: http.Header{}} }

func (r *vRec) Header() http.Header { return r.hdr }
func (r *vRec) WriteHeader(code int) {
	if len(r.codes) == 0 {
		r.commit = r.hdr.Clone()
	}
	r.codes = append(r.codes, code)
}
func (r *vRec) Write(p []byte) (int, error) {
	if len(r.codes) == 0 {
		r.early = true
	}
	if r.werr != nil {
		return 0, r.werr
	}
	return r.body.Write(p)
}
func (r *vRec) Flush()                   {}
func (r *vRec) CloseNotify() <-chan bool { return nil }

func vTier() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vRand() *rand.Rand {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s + 42))
}

func vN(quick int) int {
	if vTier() {
		return quick * 10
	}
	return quick
}

func vReq(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, RequestURI: path, Host: "example.com", RemoteAddr: "10.1.2.3:4567", Body: http.NoBody}
}

func vServe(e *Engine, method, path string) *vRec {
	w := newRec()
	e.ServeHTTP(w, vReq(method, path))
	return w
}

// vTry runs f and returns what it panicked with (nil if it did not).
func vTry(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			if re, ok := r.(runtime.Error); ok {
				p = "runtime error: " + re.Error()
			}
		}
	}()
	f()
	return nil
}

func vFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	t.Errorf("FAILING "+f, a...)
	if vFailures++; vFailures > 12 {
		t.FailNow()
	}
}

var vFailures int

func vMapStr(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q ", k, m[k])
	}
	return b.String()
}

func vSame(a, b map[string]string) bool { return vMapStr(a) == vMapStr(b) }

// ---- reference routing: written from the documentation, over patterns only ----

type vSeg struct {
	text  string
	kind  int // 0 static 1 regexp 2 holder 3 match-all
	names []string
	re    *regexp.Regexp
}

func vParseSeg(s string) vSeg {
	if strings.HasPrefix(s, ":") {
		s = "<" + strings.TrimSpace(s[1:]) + ">"
	}
	g := vSeg{text: s}
	switch {
	case strings.HasPrefix(s, "*"):
		g.kind = 3
		g.names = []string{s[1:]}
	case strings.HasPrefix(s, "<"):
		in := s[1 : len(s)-1]
		nm := in
		if i := strings.IndexAny(in, ":~"); i >= 0 {
			nm = in[:i]
		}
		for _, n := range strings.Split(nm, ",") {
			g.names = append(g.names, strings.TrimSpace(n))
		}
		if i := strings.Index(in, "~"); i >= 0 {
			g.kind = 1
			ex := strings.TrimSpace(in[i+1:])
			g.re = regexp.MustCompile(ex)
			if g.re.NumSubexp() == 0 {
				g.re = regexp.MustCompile("(" + ex + ")")
			}
		} else {
			g.kind = 2
		}
	}
	return g
}

type vNode struct {
	seg  vSeg
	subs []*vNode
	ends []*vNode
	id   int
}

func vInsert(l []*vNode, n *vNode) []*vNode {
	i := 0
	for i < len(l) && l[i].seg.kind <= n.seg.kind {
		i++
	}
	l = append(l, nil)
	copy(l[i+1:], l[i:])
	l[i] = n
	return l
}

func vFind(l []*vNode, text string) *vNode {
	for _, n := range l {
		if n.seg.text == text {
			return n
		}
	}
	return nil
}

// add reports false when the route is there already.
func (n *vNode) add(route string, id int) bool {
	segs := strings.Split(strings.TrimPrefix(route, "/"), "/")
	for _, s := range segs[:len(segs)-1] {
		g := vParseSeg(s)
		c := vFind(n.subs, g.text)
		if c == nil {
			c = &vNode{seg: g, id: -1}
			n.subs = vInsert(n.subs, c)
		}
		n = c
	}
	g := vParseSeg(segs[len(segs)-1])
	if vFind(n.ends, g.text) != nil {
		return false
	}
	n.ends = vInsert(n.ends, &vNode{seg: g, id: id})
	return true
}

type vCap struct{ k, v string }

func (n *vNode) takes(s string, globs int) (bool, []vCap) {
	var c []vCap
	put := func(k, v string) {
		if k != "_" {
			c = append(c, vCap{k, v})
		}
	}
	switch n.seg.kind {
	case 0:
		return n.seg.text == s, nil
	case 1:
		m := n.seg.re.FindStringSubmatch(s)
		if m == nil || len(m)-1 != len(n.seg.names) {
			return false, nil
		}
		for i, nm := range n.seg.names {
			put(nm, m[i+1])
		}
	case 2:
		put(strings.Join(n.seg.names, ","), s)
	case 3:
		if n.seg.names[0] == "" {
			put("*"+strconv.Itoa(globs), s)
		} else {
			put(n.seg.names[0], s)
		}
	}
	return true, c
}

func (n *vNode) match(segs []string, globs int) (int, []vCap) {
	if len(segs) == 1 {
		for _, e := range n.ends {
			if ok, c := e.takes(segs[0], globs); ok {
				return e.id, c
			}
		}
		return -1, nil
	}
	for _, sub := range n.subs {
		ok, c := sub.takes(segs[0], globs)
		if !ok {
			continue
		}
		g := globs
		if sub.seg.kind == 3 {
			g++
		}
		if id, c2 := sub.match(segs[1:], g); id >= 0 {
			return id, append(append([]vCap{}, c...), c2...)
		}
	}
	for _, e := range n.ends {
		if e.seg.kind == 3 {
			_, c := e.takes(strings.Join(segs, "/"), globs)
			return e.id, c
		}
	}
	return -1, nil
}

// vMatch: the route number a path resolves to (-1 none) and its parameters.
func (n *vNode) vMatch(path string) (int, map[string]string) {
	p := strings.TrimPrefix(path, "/")
	p = strings.TrimSuffix(p, "/")
	id, caps := n.match(strings.Split(p, "/"), 0)
	m := map[string]string{}
	for i := len(caps) - 1; i >= 0; i-- {
		m[caps[i].k] = caps[i].v
	}
	return id, m
}

var vSegPool = []string{"a", "b", "ab", "1", "x~y", "a:b", "<x>", "<y>", "<k:int>", "<_>", ":z", "*", "*t", "*_",
	"<n ~ [0-9]+>", "<n:int ~ ^[0-9]+$>", "<m ~ a.*>", "<p,q ~ ([a-z])([0-9])>", "<_,r ~ (.)(.)>", "<o ~ ^(?:a|b)$>", "<u ~ x(y*)z>", "<v ~ z?>"}
var vPathPool = []string{"a", "b", "ab", "1", "12", "a1", "b2", "xz", "xyyz", "x~y", "a:b", "", "<x>", "*", ":z", "A", "a b", "é"}

func vRoute(r *rand.Rand, max int) string {
	n := 1 + r.Intn(max)
	s := ""
	for i := 0; i < n; i++ {
		if i < n-1 && r.Intn(40) == 0 {
			s += "/" // empty segment
			continue
		}
		s += "/" + vSegPool[r.Intn(len(vSegPool))]
	}
	return s
}

func vPath(r *rand.Rand, max int) string {
	n := 1 + r.Intn(max)
	s := ""
	for i := 0; i < n; i++ {
		s += "/" + vPathPool[r.Intn(len(vPathPool))]
	}
	if r.Intn(5) == 0 {
		s += "/"
	}
	return s
}

// vTable registers random distinct routes for one method on a router and in the reference.
func vTable(r *rand.Rand, n, depth int, reg func(route string, id int)) (*vNode, []string) {
	ref := &vNode{}
	var routes []string
	for i := 0; i < n; i++ {
		rt := vRoute(r, depth)
		if r.Intn(12) == 0 {
			rt = "/"
		}
		if !ref.add(rt, len(routes)) {
			continue
		}
		reg(rt, len(routes))
		routes = append(routes, rt)
	}
	return ref, routes
}

var _ io.Reader

func vIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var vMethods = []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}
