package water

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
)

// Routes are added one by one; after each the whole tree is compared with the reference.
func TestVerifC03(t *testing.T) {
	r := vRand()
	for i := 0; i < vN(4000); i++ {
		vC03(t, r)
	}
}

func vC03pic(n *node, p string, b *[]string) {
	for _, s := range n.subNodes {
		*b = append(*b, fmt.Sprintf("%s|sub %s", p, s.pattern))
		vC03pic(s, p+"/"+s.pattern, b)
	}
	for _, e := range n.endNodes {
		*b = append(*b, fmt.Sprintf("%s|end %s", p, e.pattern))
	}
}

func vC03ref(n *vNode, p string, b *[]string) {
	for _, s := range n.subs {
		*b = append(*b, fmt.Sprintf("%s|sub %s", p, s.seg.text))
		vC03ref(s, p+"/"+s.seg.text, b)
	}
	for _, e := range n.ends {
		*b = append(*b, fmt.Sprintf("%s|end %s", p, e.seg.text))
	}
}

func vC03(t *testing.T, r *rand.Rand) {
	tree := newTree()
	ref := &vNode{}
	hs := map[*node][]Handler{}
	var ends []*node
	var routes []string
	for k := 1 + r.Intn(9); k > 0; k-- {
		rt := vRoute(r, 4)
		if strings.Contains(rt, ":z") {
			rt = strings.ReplaceAll(rt, ":z", "<z>")
		}
		h := []Handler{HandlerFunc(func(*Context) {})}
		isNew := ref.add(rt, len(ends))
		routes = append(routes, rt)
		var n *node
		if p := vTry(func() { n = tree.add(rt, h) }); p != nil {
			vFail(t, "adding %q: panics: %v", routes, p)
			return
		}
		_, known := hs[n]
		if known == isNew || n == nil {
			vFail(t, "adding %q: the last route is new %v, its end point is new %v", routes, isNew, !known)
			return
		}
		if isNew {
			if len(n.handlers) != 1 || reflect.ValueOf(n.handlers).Pointer() != reflect.ValueOf(h).Pointer() {
				vFail(t, "adding %q: the new end point has other handlers", routes)
			}
			hs[n] = h
			ends = append(ends, n)
		}
		for i, e := range ends {
			if len(e.handlers) != 1 || reflect.ValueOf(e.handlers).Pointer() != reflect.ValueOf(hs[e]).Pointer() {
				vFail(t, "adding %q: end point %d lost its handlers", routes, i)
			}
		}
		var got, want []string
		vC03pic(tree, "", &got)
		vC03ref(ref, "", &want)
		if !reflect.DeepEqual(got, want) {
			vFail(t, "adding %q: tree %q, want %q", routes, got, want)
			return
		}
		var par func(n *node) bool
		par = func(n *node) bool {
			for _, c := range append(append([]*node{}, n.subNodes...), n.endNodes...) {
				if c.parent != n || !par(c) {
					return false
				}
			}
			return true
		}
		if !par(tree) {
			vFail(t, "adding %q: wrong parent links", routes)
		}
	}
}
