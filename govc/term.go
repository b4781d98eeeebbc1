package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT-LIB terms. Op is an interpreted SMT symbol, or one of
// "int" "str" "true" "false" (literals), "app" (uninterpreted symbol Name), "bv" (bound
// variable), "forall"/"exists".
type Term struct {
	id      int
	Op      string
	Name    string
	Args    []*Term
	Sort    string
	I       *big.Int
	S       string
	BV      []*Term   // bound variables of a quantifier
	Trig    [][]*Term // triggers of a quantifier
	hasBV   bool
	maxLeaf int
}

type funDecl struct {
	name string
	args []string
	ret  string
}

type Ctx struct {
	tab   map[string]*Term
	n     int
	decls map[string]*funDecl
	fresh map[string]int
}

var C = newCtx()

func newCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, decls: map[string]*funDecl{}, fresh: map[string]int{}}
}

func mk(op, name, srt string, args []*Term, i *big.Int, s string, bv []*Term, trig [][]*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	if i != nil {
		b.WriteString("#" + i.String())
	}
	if op == "str" {
		b.WriteString("$" + s)
	}
	for _, v := range bv {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, ts := range trig {
		b.WriteString("T")
		for _, t := range ts {
			fmt.Fprintf(&b, ",%d", t.id)
		}
	}
	k := b.String()
	if t, ok := C.tab[k]; ok {
		return t
	}
	t := &Term{id: C.n, Op: op, Name: name, Args: args, Sort: srt, I: i, S: s, BV: bv, Trig: trig}
	t.hasBV = op == "bv"
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	if op == "forall" || op == "exists" {
		// closed if no free bound variable remains
		t.hasBV = len(freeBV(t)) > 0
	}
	t.maxLeaf = calcLeaf(t)
	C.n++
	C.tab[k] = t
	return t
}

func freeBV(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if t.Op == "bv" {
			if !bound[t] {
				out[t] = true
			}
			return
		}
		if !t.hasBV && t.Op != "forall" && t.Op != "exists" {
			return
		}
		b := bound
		if len(t.BV) > 0 {
			b = map[*Term]bool{}
			for k := range bound {
				b[k] = true
			}
			for _, v := range t.BV {
				b[v] = true
			}
		}
		for _, a := range t.Args {
			walk(a, b)
		}
	}
	walk(t, map[*Term]bool{})
	return out
}

func op(o, srt string, args ...*Term) *Term { return mk(o, "", srt, args, nil, "", nil, nil) }

var tTrue = op("true", "Bool")
var tFalse = op("false", "Bool")

func tInt(i int64) *Term    { return mk("int", "", "Int", nil, big.NewInt(i), "", nil, nil) }
func tBig(i *big.Int) *Term { return mk("int", "", "Int", nil, i, "", nil, nil) }
func tStr(s string) *Term   { return mk("str", "", "String", nil, nil, s, nil, nil) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func tBV(name, srt string) *Term { return mk("bv", name, srt, nil, nil, "", nil, nil) }

var bvCount int

func freshBV(name, srt string) *Term {
	bvCount++
	return tBV(fmt.Sprintf("%s!b%d", name, bvCount), srt)
}

func declare(name string, args []string, ret string) *funDecl {
	if d, ok := C.decls[name]; ok {
		if d.ret != ret || strings.Join(d.args, ";") != strings.Join(args, ";") {
			panic(fmt.Sprintf("redeclared %s: %v->%s vs %v->%s", name, d.args, d.ret, args, ret))
		}
		return d
	}
	d := &funDecl{name, args, ret}
	C.decls[name] = d
	return d
}

func app(name, ret string, args ...*Term) *Term {
	ss := make([]string, len(args))
	for i, a := range args {
		ss[i] = a.Sort
	}
	declare(name, ss, ret)
	return mk("app", name, ret, args, nil, "", nil, nil)
}

func freshSym(prefix, srt string) *Term {
	C.fresh[prefix]++
	return app(fmt.Sprintf("%s!%d", prefix, C.fresh[prefix]), srt)
}

func isInt(t *Term) bool { return t.Op == "int" }
func isStr(t *Term) bool { return t.Op == "str" }
func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false"
}

func tNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return op("not", "Bool", a)
}

func tAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "true" || seen[a] {
			continue
		}
		if a.Op == "false" {
			return tFalse
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[tNot(a)] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return op("and", "Bool", out...)
}

func tOr(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "false" || seen[a] {
			continue
		}
		if a.Op == "true" {
			return tTrue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[tNot(a)] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return op("or", "Bool", out...)
}

func tImp(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return tTrue
	}
	if b.Op == "false" {
		return tNot(a)
	}
	return op("=>", "Bool", a, b)
}

func tIte(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == "Bool" {
		if a.Op == "true" {
			return tOr(c, b)
		}
		if a.Op == "false" {
			return tAnd(tNot(c), b)
		}
		if b.Op == "true" {
			return tOr(tNot(c), a)
		}
		if b.Op == "false" {
			return tAnd(c, a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort))
	}
	return op("ite", a.Sort, c, a, b)
}

// distinctSyn: syntactically certain to differ.
func distinctSyn(a, b *Term) bool {
	if isLit(a) && isLit(b) {
		return a != b
	}
	al := func(x *Term) bool { return x.Op == "app" && len(x.Args) == 0 && strings.HasPrefix(x.Name, "alloc!") }
	if al(a) && al(b) {
		return a != b
	}
	if al(a) && refBefore(b, a.id) || al(b) && refBefore(a, b.id) {
		return true
	}
	if (al(a) && isInt(b) && b.I.Sign() == 0) || (al(b) && isInt(a) && a.I.Sign() == 0) {
		return true
	}
	// x + c vs x + d
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if a.Sort == "Int" && ba == bb && ca.Cmp(cb) != 0 {
		return true
	}
	if a.Op == "app" && b.Op == "app" && strings.HasPrefix(a.Name, "box!") && strings.HasPrefix(b.Name, "box!") {
		return a.Name != b.Name
	}
	inil := func(x *Term) bool { return x.Op == "app" && x.Name == "inil" }
	bx := func(x *Term) bool { return x.Op == "app" && strings.HasPrefix(x.Name, "box!") }
	if inil(a) && bx(b) || inil(b) && bx(a) {
		return true
	}
	return false
}

// refBefore: t is a reference built only from symbols older than the allocation with term id n.
// (All references that exist when an object is allocated differ from it.)
func refBefore(t *Term, n int) bool { return t.maxLeaf < n }

const noLeaf = 1 << 60

func calcLeaf(t *Term) int {
	switch t.Op {
	case "int", "str", "true", "false", "seq.empty":
		return -1
	case "app":
		if len(t.Args) == 0 {
			if strings.HasPrefix(t.Name, "sk!") {
				return noLeaf
			}
			return t.id
		}
		if !(strings.HasPrefix(t.Name, "unbox!") || strings.HasPrefix(t.Name, "arrlst!") || strings.HasPrefix(t.Name, "lst!") || strings.HasPrefix(t.Name, "box!")) {
			return noLeaf
		}
	case "select", "store", "ite", "const-array", "+", "-", "*", "=", "<", "not", "and", "or", "str.len", "seq.len", "seq.++", "seq.unit", "seq.nth", "str.++", "str.substr":
	default:
		return noLeaf
	}
	m := -1
	for _, a := range t.Args {
		if a.maxLeaf > m {
			m = a.maxLeaf
		}
	}
	return m
}

func splitAdd(a *Term) (*Term, *big.Int) {
	if a.Op == "+" && len(a.Args) == 2 && isInt(a.Args[1]) {
		return a.Args[0], a.Args[1].I
	}
	if isInt(a) {
		return nil, a.I
	}
	return a, big.NewInt(0)
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.Sort, b.Sort, a.Short(), b.Short()))
	}
	if distinctSyn(a, b) {
		return tFalse
	}
	if a.Sort == "Bool" {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return tNot(b)
		}
		if b.Op == "false" {
			return tNot(a)
		}
	}
	if isLit(a) || a.id > b.id && !isLit(b) {
		a, b = b, a
	}
	return op("=", "Bool", a, b)
}

func tNe(a, b *Term) *Term { return tNot(tEq(a, b)) }

func tAdd(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return tBig(new(big.Int).Add(a.I, b.I))
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) {
		base, c := splitAdd(a)
		s := new(big.Int).Add(c, b.I)
		if s.Sign() == 0 {
			return base
		}
		return op("+", "Int", base, tBig(s))
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ca.Sign() != 0 || cb.Sign() != 0 {
		return tAdd(tAdd(ba, bb), tBig(new(big.Int).Add(ca, cb)))
	}
	// x + (y - x) = y
	if b.Op == "-" && len(b.Args) == 2 && b.Args[1] == a {
		return b.Args[0]
	}
	if a.Op == "-" && len(a.Args) == 2 && a.Args[1] == b {
		return a.Args[0]
	}
	if ba.id > bb.id {
		ba, bb = bb, ba
	}
	return op("+", "Int", ba, bb)
}

func tSub(a, b *Term) *Term {
	if a == b {
		return tInt(0)
	}
	if isInt(b) {
		return tAdd(a, tBig(new(big.Int).Neg(b.I)))
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return tBig(new(big.Int).Sub(ca, cb))
	}
	if a.Op == "+" && len(a.Args) == 2 {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return op("-", "Int", a, b)
}

func tMul(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return tBig(new(big.Int).Mul(a.I, b.I))
	}
	if isInt(b) && b.I.IsInt64() && b.I.Int64() == 1 {
		return a
	}
	if isInt(a) && a.I.IsInt64() && a.I.Int64() == 1 {
		return b
	}
	return op("*", "Int", a, b)
}

func tLt(a, b *Term) *Term {
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return tBool(ca.Cmp(cb) < 0)
	}
	if isInt(b) && b.I.Sign() <= 0 && a.Op == "str.len" {
		return tFalse
	}
	return op("<", "Bool", a, b)
}
func tLe(a, b *Term) *Term { return tNot(tLt(b, a)) }
func tGt(a, b *Term) *Term { return tLt(b, a) }
func tGe(a, b *Term) *Term { return tLe(b, a) }

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrElem returns the range sort of an array sort (parsing balanced parentheses).
func sortParts(s string) []string {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "(") {
		return []string{s}
	}
	s = s[1 : len(s)-1]
	var out []string
	depth := 0
	start := -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
			continue
		case '|':
			if start < 0 {
				start = i
			}
			j := strings.IndexByte(s[i+1:], '|')
			i = i + 1 + j
			continue
		}
		if start < 0 {
			start = i
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func arrElem(s string) string {
	p := sortParts(s)
	if len(p) != 3 || p[0] != "Array" {
		panic("not an array sort: " + s)
	}
	return p[2]
}
func arrIdx(s string) string {
	p := sortParts(s)
	if len(p) != 3 || p[0] != "Array" {
		panic("not an array sort: " + s)
	}
	return p[1]
}

func tSelect(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctSyn(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "const-array" {
			return a.Args[0]
		}
		break
	}
	if a.Op == "app" && strings.HasPrefix(a.Name, "arrlst!") {
		return tSeqNth(a.Args[0], i)
	}
	if a.Op == "app" && strings.HasPrefix(a.Name, "arrupd!") { // arr, pos, seq
		p, n := a.Args[1], tSeqLen(a.Args[2])
		return tIte(tAnd(tLe(p, i), tLt(i, tAdd(p, n))), tSeqNth(a.Args[2], tSub(i, p)), tSelect(a.Args[0], i))
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "const-array" || a.Args[2].Op == "const-array") {
		return tIte(a.Args[0], tSelect(a.Args[1], i), tSelect(a.Args[2], i))
	}
	return op("select", arrElem(a.Sort), a, i)
}

func tStore(a, i, v *Term) *Term {
	if arrElem(a.Sort) != v.Sort {
		panic(fmt.Sprintf("store sorts %s <- %s", a.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return op("store", a.Sort, a, i, v)
}

func tConstArr(srt string, v *Term) *Term { return op("const-array", srt, v) }

// strings
func tStrLen(a *Term) *Term {
	if isStr(a) {
		return tInt(int64(len(a.S)))
	}
	if a.Op == "str.++" {
		s := tInt(0)
		for _, x := range a.Args {
			s = tAdd(s, tStrLen(x))
		}
		return s
	}
	return op("str.len", "Int", a)
}

func tConcat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		var xs []*Term
		if a.Op == "str.++" {
			xs = a.Args
		} else {
			xs = []*Term{a}
		}
		for _, x := range xs {
			if isStr(x) && x.S == "" {
				continue
			}
			if isStr(x) && len(out) > 0 && isStr(out[len(out)-1]) {
				out[len(out)-1] = tStr(out[len(out)-1].S + x.S)
				continue
			}
			out = append(out, x)
		}
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return op("str.++", "String", out...)
}

func tSubstr(s, off, n *Term) *Term {
	if isStr(s) && isInt(off) && isInt(n) && off.I.IsInt64() && n.I.IsInt64() {
		o, l := off.I.Int64(), n.I.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.S)) {
			return tStr(s.S[o : o+l])
		}
	}
	if isInt(off) && off.I.Sign() == 0 && n == tStrLen(s) {
		return s
	}
	return op("str.substr", "String", s, off, n)
}

func tIndexOf(s, sub, from *Term) *Term {
	if isStr(s) && isStr(sub) && isInt(from) && from.I.Sign() == 0 {
		return tInt(int64(strings.Index(s.S, sub.S)))
	}
	return op("str.indexof", "Int", s, sub, from)
}
func tPrefixOf(p, s *Term) *Term {
	if isStr(p) && p.S == "" || p == s {
		return tTrue
	}
	if isStr(s) && isStr(p) {
		return tBool(strings.HasPrefix(s.S, p.S))
	}
	return op("str.prefixof", "Bool", p, s)
}
func tSuffixOf(p, s *Term) *Term {
	if isStr(p) && p.S == "" || p == s {
		return tTrue
	}
	if isStr(s) && isStr(p) {
		return tBool(strings.HasSuffix(s.S, p.S))
	}
	return op("str.suffixof", "Bool", p, s)
}
func tContains(s, sub *Term) *Term {
	if isStr(sub) && sub.S == "" || s == sub {
		return tTrue
	}
	if isStr(s) && isStr(sub) {
		return tBool(strings.Contains(s.S, sub.S))
	}
	return op("str.contains", "Bool", s, sub)
}

func tForall(bv []*Term, trig [][]*Term, body *Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	if len(bv) == 0 {
		return body
	}
	return mk("forall", "", "Bool", []*Term{body}, nil, "", bv, trig)
}
func tExists(bv []*Term, body *Term) *Term {
	if body.Op == "true" || body.Op == "false" || len(bv) == 0 {
		return body
	}
	return mk("exists", "", "Bool", []*Term{body}, nil, "", bv, nil)
}

// seq
func seqSort(e string) string { return "(Seq " + e + ")" }
func tSeqEmpty(srt string) *Term {
	return op("seq.empty", srt)
}
func tSeqUnit(v *Term) *Term { return op("seq.unit", seqSort(v.Sort), v) }
func tSeqCat(as ...*Term) *Term {
	var out []*Term
	srt := as[0].Sort
	for _, a := range as {
		if a.Op == "seq.empty" {
			continue
		}
		if a.Op == "seq.++" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tSeqEmpty(srt)
	case 1:
		return out[0]
	}
	return op("seq.++", srt, out...)
}
func seqElem(srt string) string { return sortParts(srt)[1] }

func tSeqNth(a, i *Term) *Term {
	if isInt(i) && i.I.IsInt64() {
		k := i.I.Int64()
		parts := []*Term{a}
		if a.Op == "seq.++" {
			parts = a.Args
		}
		for _, p := range parts {
			if p.Op != "seq.unit" {
				break
			}
			if k == 0 {
				return p.Args[0]
			}
			k--
		}
	}
	return op("seq.nth", seqElem(a.Sort), a, i)
}

// tSeqSub is the subsequence of length n from off (in range by the caller).
func tSeqSub(a, off, n *Term) *Term {
	if isInt(off) && off.I.Sign() == 0 && n == tSeqLen(a) {
		return a
	}
	if isInt(n) && n.I.Sign() <= 0 {
		return tSeqEmpty(a.Sort)
	}
	return op("seq.extract", a.Sort, a, off, n)
}
func tSeqLen(a *Term) *Term {
	switch a.Op {
	case "seq.empty":
		return tInt(0)
	case "seq.unit":
		return tInt(1)
	case "seq.++":
		s := tInt(0)
		for _, x := range a.Args {
			s = tAdd(s, tSeqLen(x))
		}
		return s
	}
	return op("seq.len", "Int", a)
}

// rebuild a term with new args, using smart constructors.
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return tNot(args[0])
	case "and":
		return tAnd(args...)
	case "or":
		return tOr(args...)
	case "=>":
		return tImp(args[0], args[1])
	case "ite":
		return tIte(args[0], args[1], args[2])
	case "=":
		return tEq(args[0], args[1])
	case "+":
		if len(args) == 2 {
			return tAdd(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return tSub(args[0], args[1])
		}
	case "*":
		return tMul(args[0], args[1])
	case "<":
		return tLt(args[0], args[1])
	case "app":
		if strings.HasPrefix(t.Name, "lst!") && args[0].Op == "app" && strings.HasPrefix(args[0].Name, "arrlst!") {
			return lstA(args[0], args[1], args[2])
		}
	case "select":
		return tSelect(args[0], args[1])
	case "store":
		return tStore(args[0], args[1], args[2])
	case "str.len":
		return tStrLen(args[0])
	case "str.++":
		return tConcat(args...)
	case "str.substr":
		return tSubstr(args[0], args[1], args[2])
	case "str.indexof":
		return tIndexOf(args[0], args[1], args[2])
	case "str.prefixof":
		return tPrefixOf(args[0], args[1])
	case "str.suffixof":
		return tSuffixOf(args[0], args[1])
	case "str.contains":
		return tContains(args[0], args[1])
	case "seq.++":
		return tSeqCat(args...)
	case "seq.len":
		return tSeqLen(args[0])
	case "seq.nth":
		return tSeqNth(args[0], args[1])
	case "seq.extract":
		return tSeqSub(args[0], args[1], args[2])
	}
	return mk(t.Op, t.Name, t.Sort, args, t.I, t.S, t.BV, t.Trig)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if len(t.Trig) > 0 {
				nt := make([][]*Term, len(t.Trig))
				for i, ts := range t.Trig {
					for _, x := range ts {
						nt[i] = append(nt[i], rec(x))
					}
				}
				r = mk(t.Op, t.Name, t.Sort, args, t.I, t.S, t.BV, nt)
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---- printing ----

func smtName(n string) string {
	ok := n != ""
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' && i > 0 || strings.IndexByte("!._$-", c) >= 0) {
			ok = false
			break
		}
	}
	if ok {
		return n
	}
	n = strings.NewReplacer("|", "/", "\\", "/").Replace(n)
	return "|" + n + "|"
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c == '\\' || c < 32 || c >= 127 {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

type printer struct {
	b     *strings.Builder
	names map[*Term]string
	cnt   map[*Term]int
	abs   bool // strings as an uninterpreted sort
}

func (p *printer) srt(s string) string {
	if p.abs {
		return strings.ReplaceAll(s, "String", "Str$")
	}
	return s
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.raw(t)
}

func (p *printer) raw(t *Term) string {
	switch t.Op {
	case "int":
		if t.I.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.I).String() + ")"
		}
		return t.I.String()
	case "str":
		if p.abs {
			return smtName("lit$" + t.S)
		}
		return smtString(t.S)
	case "true", "false":
		return t.Op
	case "bv":
		return smtName(t.Name)
	case "app":
		if len(t.Args) == 0 {
			return smtName(t.Name)
		}
	case "seq.empty":
		return "(as seq.empty " + p.srt(t.Sort) + ")"
	case "const-array":
		return "((as const " + p.srt(t.Sort) + ") " + p.expr(t.Args[0]) + ")"
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.BV {
			b.WriteString("(" + smtName(v.Name) + " " + p.srt(v.Sort) + ")")
		}
		b.WriteString(") ")
		if len(t.Trig) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(p.expr(t.Args[0]))
		if len(t.Trig) > 0 {
			for _, ts := range t.Trig {
				b.WriteString(" :pattern (")
				for i, x := range ts {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.expr(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return b.String()
	}
	var b strings.Builder
	b.WriteByte('(')
	if t.Op == "app" {
		b.WriteString(smtName(t.Name))
	} else if p.abs && strings.HasPrefix(t.Op, "str.") {
		b.WriteString(fmt.Sprintf("|%s$%d|", t.Op, len(t.Args)))
	} else {
		b.WriteString(t.Op)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(p.expr(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (t *Term) Short() string {
	p := &printer{names: map[*Term]string{}}
	s := p.raw(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func collect(ts []*Term) (all []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		for _, ts := range t.Trig {
			for _, x := range ts {
				walk(x)
			}
		}
		all = append(all, t)
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

// render prints an SMT-LIB script asserting all of ts. Shared closed subterms are named.
func render(ts []*Term, header, footer string) string { return renderAs(ts, header, footer, false) }

// hasStrOps tells whether string operations other than equality occur.
func hasStrOps(ts []*Term) bool {
	for _, t := range collect(ts) {
		if strings.HasPrefix(t.Op, "str.") {
			return true
		}
	}
	return false
}

// renderAs with abs weakens the script: strings become an uninterpreted sort and the string
// operations uninterpreted functions, so unsat carries over and sat says nothing.
func renderAs(ts []*Term, header, footer string, abs bool) string {
	p := &printer{names: map[*Term]string{}, abs: abs}
	var b strings.Builder
	b.WriteString(header)
	all := collect(ts)
	sorts := map[string]bool{}
	var addSort func(s string)
	addSort = func(s string) {
		ps := sortParts(s)
		if len(ps) > 1 {
			for _, x := range ps[1:] {
				addSort(x)
			}
			return
		}
		sorts[s] = true
	}
	var declNames []string
	declSeen := map[string]bool{}
	cnt := map[*Term]int{}
	for _, t := range all {
		addSort(t.Sort)
		if t.Op == "app" && !declSeen[t.Name] {
			declSeen[t.Name] = true
			declNames = append(declNames, t.Name)
		}
		for _, a := range t.Args {
			cnt[a]++
		}
		for _, v := range t.BV {
			addSort(v.Sort)
		}
	}
	var ss []string
	for s := range sorts {
		switch s {
		case "Int", "Bool", "Real":
		case "String":
			if abs {
				ss = append(ss, "Str$")
			}
		default:
			ss = append(ss, s)
		}
	}
	sort.Strings(ss)
	for _, s := range ss {
		b.WriteString("(declare-sort " + s + " 0)\n")
	}
	sort.Strings(declNames)
	for _, n := range declNames {
		d := C.decls[n]
		b.WriteString("(declare-fun " + smtName(n) + " (" + p.srt(strings.Join(d.args, " ")) + ") " + p.srt(d.ret) + ")\n")
	}
	p.b = &b
	if abs {
		var lits []string
		opSeen := map[string]bool{}
		for _, t := range all {
			if t.Op == "str" {
				n := p.raw(t)
				lits = append(lits, n)
				b.WriteString("(declare-fun " + n + " () Str$)\n")
			}
			if strings.HasPrefix(t.Op, "str.") {
				n := fmt.Sprintf("|%s$%d|", t.Op, len(t.Args))
				if opSeen[n] {
					continue
				}
				opSeen[n] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, p.srt(a.Sort))
				}
				b.WriteString("(declare-fun " + n + " (" + strings.Join(as, " ") + ") " + p.srt(t.Sort) + ")\n")
			}
		}
		if len(lits) > 1 {
			b.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
		}
		for _, t := range all {
			if t.Op == "str.len" && !t.hasBV {
				b.WriteString("(assert (>= " + p.raw(t) + " 0))\n")
			}
			if t.Op == "str" && opSeen["|str.len$1|"] {
				b.WriteString(fmt.Sprintf("(assert (= (|str.len$1| %s) %d))\n", p.raw(t), len(t.S)))
			}
		}
	}
	for _, t := range all {
		if cnt[t] > 1 && !t.hasBV && len(t.Args) > 0 && t.Op != "bv" {
			n := fmt.Sprintf("x!%d", t.id)
			b.WriteString("(define-fun " + n + " () " + p.srt(t.Sort) + " " + p.raw(t) + ")\n")
			p.names[t] = n
		}
	}
	for _, t := range ts {
		b.WriteString("(assert " + p.expr(t) + ")\n")
	}
	b.WriteString(footer)
	return b.String()
}
