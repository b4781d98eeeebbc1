package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type QRes struct {
	Status string // unsat (proved), sat, unknown
	Solver string
	Time   float64
	Model  string
	Cached bool
}

// ---- instantiation of the sequence views and other definitional facts ----

type inst struct {
	V        *Verifier
	out      []*Term
	seen     map[*Term]bool
	all      map[*Term]bool
	list     []*Term
	fuel     int
	done     map[string]bool
	unfolded map[*Term]int
	quants   []*Term
	nInst    int
	eqs      map[*Term][]*Term // sequences stated to be equal
}

// normalize exposes the quantifiers of a fact: existentials get witnesses, universals are lifted
// out of implications and disjunctions. nil: nothing to do.
func normalize(t *Term) []*Term {
	skolem := func(f *Term) *Term {
		b := map[*Term]*Term{}
		for i, v := range f.BV {
			b[v] = app(fmt.Sprintf("sk!%d!%d", f.id, i), v.Sort)
		}
		return subst(f.Args[0], b)
	}
	switch t.Op {
	case "exists":
		return []*Term{skolem(t)}
	case "not":
		a := t.Args[0]
		if !hasQuant(a) {
			return nil
		}
		switch a.Op {
		case "forall":
			return []*Term{tNot(skolem(a))}
		case "exists":
			tr := autoTrig(a)
			if tr == nil {
				return nil
			}
			return []*Term{tForall(a.BV, tr, tNot(a.Args[0]))}
		case "=":
			if a.Args[0].Sort == "Bool" {
				x, y := a.Args[0], a.Args[1]
				return []*Term{tOr(x, y), tOr(tNot(x), tNot(y))}
			}
		case "=>":
			return []*Term{a.Args[0], tNot(a.Args[1])}
		case "or":
			var r []*Term
			for _, d := range a.Args {
				r = append(r, tNot(d))
			}
			return r
		case "and":
			var r []*Term
			for _, d := range a.Args {
				r = append(r, tNot(d))
			}
			o := tOr(r...)
			if o == t {
				return nil
			}
			return []*Term{o}
		}
	case "=":
		if t.Args[0].Sort == "Bool" && hasQuant(t) {
			x, y := t.Args[0], t.Args[1]
			return []*Term{tOr(tNot(x), y), tOr(x, tNot(y))}
		}
	case "=>":
		a, b := t.Args[0], t.Args[1]
		if hasQuant(b) && b.Op == "and" {
			var r []*Term
			for _, d := range b.Args {
				r = append(r, tImp(a, d))
			}
			return r
		}
		if b.Op == "forall" {
			return []*Term{tForall(b.BV, b.Trig, tImp(a, b.Args[0]))}
		}
		if hasQuant(a) || hasQuant(b) {
			return []*Term{tOr(tNot(a), b)}
		}
	case "or":
		for i, d := range t.Args {
			rest := func(x *Term) *Term {
				r := append([]*Term(nil), t.Args[:i]...)
				r = append(r, x)
				return tOr(append(r, t.Args[i+1:]...)...)
			}
			switch {
			case d.Op == "or" && hasQuant(d):
				r := append([]*Term(nil), t.Args[:i]...)
				r = append(r, d.Args...)
				return []*Term{tOr(append(r, t.Args[i+1:]...)...)}
			case d.Op == "forall":
				return []*Term{tForall(d.BV, d.Trig, rest(d.Args[0]))}
			case d.Op == "exists":
				return []*Term{rest(skolem(d))}
			case d.Op == "not" && d.Args[0].Op == "forall":
				return []*Term{rest(tNot(skolem(d.Args[0])))}
			case d.Op == "and" && hasQuant(d):
				var r []*Term
				for _, a := range d.Args {
					r = append(r, rest(a))
				}
				return r
			case d.Op == "=>" && hasQuant(d):
				return []*Term{rest(tOr(tNot(d.Args[0]), d.Args[1]))}
			case d.Op == "=" && d.Args[0].Sort == "Bool" && hasQuant(d):
				return []*Term{rest(tAnd(tOr(tNot(d.Args[0]), d.Args[1]), tOr(d.Args[0], tNot(d.Args[1]))))}
			case d.Op == "not" && hasQuant(d):
				if n := normalize(d); n != nil {
					return []*Term{rest(tAnd(n...))}
				}
			}
		}
	}
	return nil
}

// autoTrig picks reads at a bound variable as the pattern of an existential.
func autoTrig(f *Term) [][]*Term {
	var out []*Term
	for _, v := range f.BV {
		var best *Term
		for _, t := range collect([]*Term{f.Args[0]}) {
			if t.Op == "select" && t.Args[1] == v && !t.Args[0].hasBV {
				best = t
				break
			}
		}
		if best == nil {
			for _, t := range collect([]*Term{f.Args[0]}) {
				if (t.Op == "select" || t.Op == "app" && len(t.Args) > 0 || t.Op == "seq.nth") && freeBV(t)[v] && t.Sort != "Bool" {
					best = t
					break
				}
			}
		}
		if best == nil {
			return nil
		}
		out = append(out, best)
	}
	return [][]*Term{out}
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		r = r || hasQuant(a)
	}
	quantMemo[t] = r
	return r
}

func (q *inst) add(t *Term) {
	if t.Op == "true" || q.seen[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			q.add(a)
		}
		return
	}
	q.seen[t] = true
	if r := normalize(t); r != nil {
		for _, a := range r {
			q.add(a)
		}
		return
	}
	q.out = append(q.out, t)
	if t.Op == "=" && strings.HasPrefix(t.Args[0].Sort, "(Seq") && !t.hasBV {
		if q.eqs == nil {
			q.eqs = map[*Term][]*Term{}
		}
		q.eqs[t.Args[0]] = append(q.eqs[t.Args[0]], t.Args[1])
		q.eqs[t.Args[1]] = append(q.eqs[t.Args[1]], t.Args[0])
	}
	if t.Op == "forall" && len(t.Trig) > 0 {
		q.quants = append(q.quants, t)
	}
	q.scan(t, 0)
}

// instantiate adds ground instances of the asserted quantified facts: their triggers are matched
// against the ground terms, solving for variables that occur under an addition.
func (q *inst) instantiate(cur []*Term) {
	byOp := map[string][]*Term{}
	for _, t := range cur {
		if !t.hasBV {
			byOp[t.Op+t.Name] = append(byOp[t.Op+t.Name], t)
		}
	}
	for _, f := range append([]*Term(nil), q.quants...) {
		for _, trig := range f.Trig {
			q.matchTrig(f, trig, byOp, map[*Term]*Term{})
		}
	}
}

func (q *inst) matchTrig(f *Term, trig []*Term, byOp map[string][]*Term, b map[*Term]*Term) {
	if q.nInst > 3000 {
		return
	}
	if len(trig) == 0 {
		for _, v := range f.BV {
			if b[v] == nil {
				return
			}
		}
		k := fmt.Sprintf("q%d", f.id)
		for _, v := range f.BV {
			k += fmt.Sprintf(",%d", b[v].id)
		}
		if !q.once(k) {
			return
		}
		q.nInst++
		q.add(subst(f.Args[0], b))
		return
	}
	p := trig[0]
	cands := byOp[p.Op+p.Name]
	if p.Op == "select" && p.Args[0].Op == "store" && !p.Args[0].hasBV { // reads of the older array, and the stored index
		a := p.Args[0]
		var idx []*Term
		for a.Op == "store" {
			idx = append(idx, a.Args[1])
			a = a.Args[0]
		}
		for _, i := range idx {
			nb := map[*Term]*Term{}
			for k, v := range b {
				nb[k] = v
			}
			var sums [][2]*Term
			if match(p.Args[1], i, nb, f, &sums) && len(sums) == 0 {
				q.matchTrig(f, trig[1:], byOp, nb)
			}
		}
		p = op("select", p.Sort, a, p.Args[1])
	}
	for _, t := range cands {
		nb := map[*Term]*Term{}
		for k, v := range b {
			nb[k] = v
		}
		var sums [][2]*Term
		if !match(p, t, nb, f, &sums) {
			continue
		}
		ok := true
		for n := 0; n < 3 && len(sums) > 0; n++ {
			todo := sums
			sums = nil
			for _, s := range todo {
				if !matchSum(s[0], s[1], nb, f, &sums) {
					ok = false
				}
			}
		}
		if !ok || len(sums) > 0 {
			continue
		}
		q.matchTrig(f, trig[1:], byOp, nb)
	}
}

func isBound(f, v *Term) bool {
	for _, x := range f.BV {
		if x == v {
			return true
		}
	}
	return false
}

func match(p, t *Term, b map[*Term]*Term, f *Term, sums *[][2]*Term) bool {
	if p.Op == "bv" && isBound(f, p) {
		if p.Sort != t.Sort {
			return false
		}
		if o := b[p]; o != nil {
			return o == t
		}
		b[p] = t
		return true
	}
	if p == t {
		return true
	}
	if !p.hasBV {
		return false
	}
	if p.Sort == "Int" && (p.Op == "+" || p.Op == "-") {
		*sums = append(*sums, [2]*Term{p, t})
		return true
	}
	if p.Op != t.Op || p.Name != t.Name || len(p.Args) != len(t.Args) || p.Sort != t.Sort {
		return false
	}
	for i := range p.Args {
		if !match(p.Args[i], t.Args[i], b, f, sums) {
			return false
		}
	}
	return true
}

// matchSum solves p = t for the one unbound variable of the sum p.
func matchSum(p, t *Term, b map[*Term]*Term, f *Term, sums *[][2]*Term) bool {
	var un []*Term
	for v := range freeBV(p) {
		if isBound(f, v) && b[v] == nil {
			un = append(un, v)
		}
	}
	if len(un) == 0 {
		return subst(p, b) == t
	}
	if len(un) > 1 {
		*sums = append(*sums, [2]*Term{p, t})
		return true
	}
	v := un[0]
	l, r := p.Args[0], p.Args[1]
	switch {
	case p.Op == "+" && l == v:
		b[v] = tSub(t, subst(r, b))
		return true
	case p.Op == "+" && r == v:
		b[v] = tSub(t, subst(l, b))
		return true
	case p.Op == "+" && freeBV(l)[v] && !freeBV(r)[v]:
		return match(l, tSub(t, subst(r, b)), b, f, sums)
	case p.Op == "+" && freeBV(r)[v] && !freeBV(l)[v]:
		return match(r, tSub(t, subst(l, b)), b, f, sums)
	case p.Op == "-" && l == v && !freeBV(r)[v]:
		b[v] = tAdd(t, subst(r, b))
		return true
	}
	return false
}

func (q *inst) scan(t *Term, d int) {
	if q.all[t] {
		return
	}
	q.all[t] = true
	for _, a := range t.Args {
		q.scan(a, d)
	}
	q.list = append(q.list, t)
	if t.Op == "select" && !t.hasBV && t.Args[0].Op == "store" { // the read may also hit the older array
		q.scan(tSelect(t.Args[0].Args[0], t.Args[1]), d)
	}
}

func (q *inst) once(k string) bool {
	if q.done[k] {
		return false
	}
	q.done[k] = true
	return true
}

func isLst(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "lst!") }

func isPrefixApp(t *Term, p string) bool { return t.Op == "app" && strings.HasPrefix(t.Name, p) }

// Fuel bounds the unfolding of specification functions: n levels, and none of the hidden ones.
type Fuel struct {
	n     int
	hide  map[string]bool
	plain bool            // no rules about slices as sequences
	skip  map[string]bool // axioms left out (those a lemma proves)
}

func funName(t *Term) string {
	if i := strings.LastIndex(t.Name, "#"); i > 4 {
		return t.Name[4:i]
	}
	return ""
}

// expand adds ground instances of the theory of slices, boxes and recursive functions.
func (V *Verifier) expand(ts []*Term, fuel Fuel) []*Term {
	q := &inst{V: V, seen: map[*Term]bool{}, all: map[*Term]bool{}, done: map[string]bool{}, unfolded: map[*Term]int{}}
	for _, t := range ts {
		q.add(t)
	}
	depth := map[*Term]int{}
	for round := 0; round < 5; round++ {
		n := len(q.out)
		cur := append([]*Term(nil), q.list...)
		sels := map[*Term][]*Term{} // array -> indices read
		lsts := map[*Term][]*Term{} // array -> lst terms
		for _, t := range cur {
			if t.hasBV {
				continue
			}
			if t.Op == "select" {
				sels[t.Args[0]] = append(sels[t.Args[0]], t)
			}
			if isLst(t) {
				lsts[t.Args[0]] = append(lsts[t.Args[0]], t)
			}
		}
		for _, t := range cur {
			if t.hasBV {
				continue
			}
			if isPrefixApp(t, "fun!") {
				if depth[t] < fuel.n && !fuel.hide[funName(t)] && q.once(fmt.Sprintf("unf%d", t.id)) {
					before := len(q.list)
					for _, e := range V.unfold(t) {
						q.add(e)
					}
					for _, nt := range q.list[before:] {
						if isPrefixApp(nt, "fun!") {
							depth[nt] = depth[t] + 1
						}
					}
				}
			}
			switch {
			case fuel.plain && (isLst(t) || t.Op == "seq.nth" || isPrefixApp(t, "arrlst!")):
			case isLst(t):
				q.lstRules(t, lsts, sels, round)
			case t.Op == "seq.nth":
				i := t.Args[1]
				for _, a := range append([]*Term{t.Args[0]}, q.eqs[t.Args[0]]...) {
					if a != t.Args[0] && !(a.Op == "seq.++" || a.Op == "seq.extract") {
						continue
					}
					if isLst(a) {
						q.add(tImp(tAnd(tLe(tInt(0), i), tLt(i, a.Args[2])), tEq(t, tSelect(a.Args[0], tAdd(a.Args[1], i)))))
					}
					if a.Op == "seq.extract" {
						o, n := a.Args[1], a.Args[2]
						q.add(tImp(tAnd(tLe(tInt(0), i), tLt(i, n), tLe(tInt(0), o), tLe(tAdd(o, n), tSeqLen(a.Args[0]))), tEq(t, op("seq.nth", t.Sort, a.Args[0], tAdd(o, i)))))
					}
					if a.Op == "seq.++" && len(a.Args) <= 6 {
						var at *Term = tInt(0)
						for _, p := range a.Args {
							n := tSeqLen(p)
							var el *Term
							if p.Op == "seq.unit" {
								el = p.Args[0]
							} else {
								el = op("seq.nth", t.Sort, p, tSub(i, at))
							}
							q.add(tImp(tAnd(tLe(at, i), tLt(i, tAdd(at, n))), tEq(t, el)))
							at = tAdd(at, n)
						}
					}
				}
			case isPrefixApp(t, "arrlst!"):
				if a := t.Args[0]; a.Op == "seq.++" && len(a.Args) <= 4 && q.once(fmt.Sprintf("arrlst%d", t.id)) {
					bv := freshBV("i", "Int")
					var at *Term = tInt(0)
					var out []*Term
					for _, p := range a.Args {
						n := tSeqLen(p)
						var el *Term
						switch {
						case p.Op == "seq.unit":
							el = p.Args[0]
						case isLst(p):
							el = tSelect(p.Args[0], tAdd(p.Args[1], tSub(bv, at)))
							n = p.Args[2]
						default:
							el = op("seq.nth", seqElem(a.Sort), p, tSub(bv, at))
						}
						out = append(out, tImp(tAnd(tLe(at, bv), tLt(bv, tAdd(at, n))), tEq(op("select", arrElem(t.Sort), t, bv), el)))
						at = tAdd(at, n)
					}
					q.add(tForall([]*Term{bv}, [][]*Term{{op("select", arrElem(t.Sort), t, bv)}}, tAnd(out...)))
				}
			case isPrefixApp(t, "box!"):
				ty := tagType[dynType(t).I.Int64()]
				for j, c := range layout(ty) {
					q.add(tEq(app(fmt.Sprintf("un%s_%d", t.Name, j), c.Sort, t), t.Args[j]))
				}
				q.add(tEq(app("dyntype", "Int", t), dynType(t)))
				q.add(tNe(app("dyntype", "Int", t), tInt(0)))
			case t.Op == "app" && t.Sort == "Iface":
				q.add(tEq(tEq(app("dyntype", "Int", t), tInt(0)), tEq(t, zeroOfSort("Iface"))))
			case t.Op == "select" && t.Sort == "Iface":
				q.add(tEq(tEq(app("dyntype", "Int", t), tInt(0)), tEq(t, zeroOfSort("Iface"))))
			case isPrefixApp(t, "unbox!"):
				bn := t.Name[2:strings.LastIndex(t.Name, "_")]
				var tag int64
				fmt.Sscanf(bn[4:], "%d", &tag)
				ty := tagType[tag]
				if !isPrefixApp(t.Args[0], "box!") {
					v := unboxVal(t.Args[0], ty)
					q.add(tImp(tEq(app("dyntype", "Int", t.Args[0]), tInt(tag)), tEq(t.Args[0], boxVal(v, ty))))
				}
			case isPrefixApp(t, "impl!"):
				it := ifaceByName[t.Name[5:]]
				if it != nil {
					for tag, ty := range tagType {
						q.add(tImp(tEq(t.Args[0], tInt(tag)), tEq(t, tBool(types.Implements(ty, it)))))
					}
				}
			case t.Op == "app" && t.Name == "strOf":
				q.add(tEq(app("bytesOf", seqSort("Int"), t), t.Args[0]))
				q.add(tEq(tStrLen(t), tSeqLen(t.Args[0])))
			case t.Op == "app" && t.Name == "bytesOf":
				q.add(tEq(app("strOf", "String", t), t.Args[0]))
				q.add(tEq(tSeqLen(t), tStrLen(t.Args[0])))
			case isPrefixApp(t, "card!"):
				q.add(tLe(tInt(0), t))
				if t.Args[0].Op == "store" && t.Args[0].Args[2].Op == "true" {
					d := t.Args[0].Args[0]
					q.add(tEq(t, tAdd(mapCard(d), tIte(tSelect(d, t.Args[0].Args[1]), tInt(0), tInt(1)))))
				}
			case isPrefixApp(t, "joinStrings"):
				q.joinRules(t)
			}
		}
		q.instantiate(cur)
		if len(q.out) == n {
			break
		}
		if len(q.out) > 4000 {
			break
		}
	}
	q.rootFacts()
	return q.out
}

// joinStrings over sequences proved equal to others is handled by congruence; here the
// homomorphism for views that split.
func (q *inst) joinRules(t *Term) {
	if t.Args[0].Op == "seq.++" {
		j := joinTerm(t.Args[0], t.Args[1])
		if j != t {
			q.add(tEq(t, j))
		}
	}
	q.add(tImp(tEq(t.Args[0], tSeqEmpty(t.Args[0].Sort)), tEq(t, tStr(""))))
}

func (q *inst) lstRules(t *Term, lsts, sels map[*Term][]*Term, round int) {
	arr, off, n := t.Args[0], t.Args[1], t.Args[2]
	q.add(tImp(tLe(tInt(0), n), tEq(op("seq.len", "Int", t), n)))
	q.add(tImp(tLe(n, tInt(0)), tEq(t, tSeqEmpty(t.Sort))))
	// element reads of the same array
	for _, s := range sels[arr] {
		i := s.Args[1]
		q.add(tImp(tAnd(tLe(off, i), tLt(i, tAdd(off, n))), tEq(op("seq.nth", s.Sort, t, tSub(i, off)), s)))
	}
	// other views of the same array
	if round < 3 {
		for _, u := range lsts[arr] {
			if u == t || u.Args[1] != off {
				// view starting where another starts at a later offset: suffix relation
				continue
			}
			m := u.Args[2]
			d := tSub(m, n)
			if isInt(d) && d.I.Sign() > 0 && d.I.IsInt64() && d.I.Int64() <= 4 {
				parts := []*Term{t}
				for j := int64(0); j < d.I.Int64(); j++ {
					parts = append(parts, tSeqUnit(tSelect(arr, tAdd(off, tAdd(n, tInt(j))))))
				}
				q.add(tImp(tLe(tInt(0), n), tEq(u, tSeqCat(parts...))))
			} else if !isInt(d) && round < 2 && q.once(fmt.Sprintf("pre%d,%d", t.id, u.id)) {
				q.add(tImp(tAnd(tLe(tInt(0), n), tLe(n, m)), tEq(u, tSeqCat(t, lstA(arr, tAdd(off, n), tSub(m, n))))))
			}
		}
	}
	if !q.once(fmt.Sprintf("lst%d", t.id)) {
		return
	}
	switch {
	case arr.Op == "store":
		base, i, v := arr.Args[0], arr.Args[1], arr.Args[2]
		out := tOr(tLt(i, off), tLe(tAdd(off, n), i))
		q.add(tImp(out, tEq(t, lstA(base, off, n))))
		q.add(tImp(tAnd(tLe(off, i), tLt(i, tAdd(off, n))), tEq(t, tSeqCat(lstA(base, off, tSub(i, off)), tSeqUnit(v), lstA(base, tAdd(i, tInt(1)), tSub(tSub(tAdd(off, n), i), tInt(1)))))))
	case isPrefixApp(arr, "arrupd!"):
		base, p, s := arr.Args[0], arr.Args[1], arr.Args[2]
		l := tSeqLen(s)
		q.add(tImp(tOr(tLe(tAdd(p, l), off), tLe(tAdd(off, n), p)), tEq(t, lstA(base, off, n))))
		q.add(tImp(tAnd(tLe(off, p), tLe(tAdd(p, l), tAdd(off, n))), tEq(t, tSeqCat(lstA(base, off, tSub(p, off)), s, lstA(base, tAdd(p, l), tSub(tSub(tAdd(off, n), p), l))))))
	case arr.Op == "ite":
		q.add(tImp(arr.Args[0], tEq(t, lstA(arr.Args[1], off, n))))
		q.add(tImp(tNot(arr.Args[0]), tEq(t, lstA(arr.Args[2], off, n))))
	}
}

// rootFacts: values read from heaps as they were when those heap symbols were created are
// well-formed and older than that moment.
func (q *inst) rootFacts() {
	for _, t := range append([]*Term(nil), q.list...) {
		if t.hasBV || t.Op != "select" || t.Sort != "Int" {
			continue
		}
		// find heap root
		r := t
		depth := 0
		var ref *Term
		for r.Op == "select" {
			ref = r.Args[1]
			r = r.Args[0]
			depth++
		}
		if r.Op != "app" || len(r.Args) != 0 {
			continue
		}
		name := heapNameOf(r.Name)
		c, ok := heapComp[name]
		if !ok {
			continue
		}
		top := heapTopOf[r.Name]
		isRef := false
		switch c.T.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			isRef = true
		case *types.Slice:
			isRef = strings.HasSuffix(c.Suffix, "#b")
			if strings.HasSuffix(c.Suffix, "#l") || strings.HasSuffix(c.Suffix, "#o") || strings.HasSuffix(c.Suffix, "#c") {
				q.add(tLe(tInt(0), t))
			}
		}
		if isRef {
			q.add(tLe(tInt(0), t))
			if top != nil {
				q.add(tImp(tLt(ref, top), tLt(t, top)))
			}
		}
	}
}

func heapNameOf(n string) string {
	if strings.HasPrefix(n, "hv:") {
		n = n[3:]
		if i := strings.LastIndex(n, "!"); i >= 0 {
			return n[:i]
		}
	}
	if i := strings.LastIndex(n, "@"); i >= 0 {
		return n[:i]
	}
	return n
}

// axiomsFor returns the axioms whose function symbols occur in the query.
func (V *Verifier) axiomsFor(ts []*Term, fuel Fuel) []*Term {
	names := map[string]bool{}
	for _, t := range collect(ts) {
		if t.Op == "app" {
			names[t.Name] = true
		}
	}
	var out []*Term
	used := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for i, ax := range V.specs.Axioms {
			t := V.axiomTerm(i)
			if used[ax.Name] || fuel.skip[ax.Name] {
				continue
			}
			rel := false
			for _, s := range V.axSyms[i] {
				if names[s] {
					rel = true
				}
			}
			if !rel {
				continue
			}
			used[ax.Name] = true
			V.axUsed[i] = true
			changed = true
			out = append(out, t)
			for _, u := range collect([]*Term{t}) {
				if u.Op == "app" {
					names[u.Name] = true
				}
			}
		}
	}
	return out
}

func (V *Verifier) axiomTerm(i int) *Term {
	if t, ok := V.axTerms[i]; ok {
		return t
	}
	ax := V.specs.Axioms[i]
	px := V.newExec(nil, &Contract{Key: "axiom", Pkg: "water"}, "")
	s := newState()
	s.top = px.top0
	px.entry = s
	e := &SEnv{x: px, s: s, vars: map[string]*Val{}, pkg: "water", inBV: 1}
	t := e.boolean(ax.E)
	V.axTerms[i] = t
	for _, u := range collect([]*Term{t}) {
		if u.Op == "app" && len(u.Args) > 0 {
			V.axSyms[i] = append(V.axSyms[i], u.Name)
		}
	}
	return t
}

// ground drops the quantified facts (their ground instances stay).
func ground(ts []*Term) []*Term {
	var out []*Term
	memo := map[*Term]bool{}
	var hasQ func(t *Term) bool
	hasQ = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t.Op == "forall" || t.Op == "exists"
		for _, a := range t.Args {
			r = r || hasQ(a)
		}
		memo[t] = r
		return r
	}
	for _, t := range ts {
		if !hasQ(t) {
			out = append(out, t)
		}
	}
	return out
}

// scripts of one obligation: the ground one over uninterpreted strings ("" when there is nothing to
// abstract), the ground one, and the full one.
func (V *Verifier) scripts(facts []*Term, goal *Term, fuel Fuel, wantGround bool) (abs, grd, full string) {
	ts := append([]*Term(nil), facts...)
	ts = append(ts, tNot(goal))
	str := hasStrOps(ts)
	ts = V.expand(ts, fuel)
	ts = append(ts, V.axiomsFor(ts, fuel)...)
	var g []*Term
	if str || wantGround {
		g = ground(ts)
	}
	if str {
		abs = renderAs(g, "(set-logic ALL)\n", "(check-sat)\n", true)
	}
	if wantGround {
		grd = render(g, "(set-logic ALL)\n", "(check-sat)\n")
	}
	full = render(ts, "(set-logic ALL)\n", "(check-sat)\n")
	return
}

func (V *Verifier) script(facts []*Term, goal *Term, fuel Fuel) string {
	_, _, s := V.scripts(facts, goal, fuel, false)
	return s
}

// ---- solvers ----

type solverCmd struct {
	name string
	args func(file string, ms int) []string
}

var solvers = []solverCmd{
	{"z3-new", func(f string, ms int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", (ms+999)/1000), f} }},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
	{"z3", func(f string, ms int) []string { return []string{"z3", fmt.Sprintf("-T:%d", (ms+999)/1000), f} }},
}

var solverSem = make(chan bool, 10)
var nQueries, nCached int64
var workDir string

func runSolver(sc solverCmd, script string, ms int, kill <-chan bool) (string, string) {
	solverSem <- true
	defer func() { <-solverSem }()
	f, err := os.CreateTemp(workDir, "q*.smt2")
	if err != nil {
		return "unknown", err.Error()
	}
	name := f.Name()
	defer os.Remove(name)
	f.WriteString(script)
	f.Close()
	a := sc.args(name, ms)
	cmd := exec.Command(a[0], a[1:]...)
	var ob, eb strings.Builder
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		return "unknown", err.Error()
	}
	done := make(chan bool)
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-kill:
		cmd.Process.Kill()
		<-done
		return "killed", ""
	case <-time.After(time.Duration(ms)*time.Millisecond + 100*time.Millisecond):
		cmd.Process.Kill()
		<-done
	}
	out := ob.String()
	first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	switch first {
	case "sat", "unsat":
		return first, out
	case "unknown", "timeout":
		return "unknown", out
	}
	return "unknown", "ERR " + out + eb.String()
}

var cacheMu sync.Mutex
var memCache = map[string]*QRes{}

// solve decides a script: the first solver alone for a while, then all of them.
func solve(script string, quickMs, fullMs int) *QRes {
	atomic.AddInt64(&nQueries, 1)
	h := sha256.Sum256([]byte(script))
	key := hex.EncodeToString(h[:12])
	cacheMu.Lock()
	if r, ok := memCache[key]; ok && (r.Status != "unknown") {
		cacheMu.Unlock()
		atomic.AddInt64(&nCached, 1)
		c := *r
		c.Cached = true
		return &c
	}
	cacheMu.Unlock()
	t0 := time.Now()
	r := &QRes{Status: "unknown"}
	st, out := "unknown", ""
	if quickMs > 0 {
		st, out = runSolver(solvers[0], script, quickMs, nil)
	}
	if strings.HasPrefix(out, "ERR") && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", firstLines(out, 5))
		os.WriteFile(filepath.Join(os.TempDir(), "govc_err.smt2"), []byte(script), 0o644)
	}
	if st == "sat" || st == "unsat" {
		r.Status, r.Solver = st, solvers[0].name
	} else if fullMs > 0 {
		type ans struct{ st, nm string }
		ch := make(chan ans, len(solvers))
		kill := make(chan bool)
		for _, sc := range solvers {
			sc := sc
			go func() {
				s, _ := runSolver(sc, script, fullMs, kill)
				ch <- ans{s, sc.name}
			}()
		}
		for range solvers {
			a := <-ch
			if r.Status == "unknown" && (a.st == "sat" || a.st == "unsat") {
				r.Status, r.Solver = a.st, a.nm
				close(kill)
				break
			}
		}
	}
	r.Time = time.Since(t0).Seconds()
	cacheMu.Lock()
	memCache[key] = r
	cacheMu.Unlock()
	return r
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// modelOf asks for values of the given terms in a model of the failed query.
func (V *Verifier) modelOf(script string, terms []*Term) map[string]string {
	out := map[string]string{}
	if len(terms) == 0 {
		return out
	}
	p := &printer{names: map[*Term]string{}}
	var names []string
	for _, t := range terms {
		if strings.Contains(script, p.raw(t)) {
			names = append(names, p.raw(t))
		}
	}
	if len(names) == 0 {
		return out
	}
	sc := strings.Replace(script, "(set-logic ALL)", "(set-option :produce-models true)\n(set-logic ALL)", 1)
	for _, n := range names {
		s2 := sc + "(get-value (" + n + "))\n"
		_ = s2
	}
	st, o := runSolver(solvers[0], sc+"(get-value ("+strings.Join(names, " ")+"))\n", 5000, nil)
	if st != "sat" {
		return out
	}
	out["raw"] = o
	return out
}

var _ = sort.Strings
