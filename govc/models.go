package main

import (
	"go/types"
	"math/big"
	"net/textproto"
	"strings"
)

// Go-coded models of dependency functions: exact definitions in the theory of strings, or
// uninterpreted functions with the stated facts. Each is part of the trusted base and is listed in
// the evidence when used.
type modelFn func(x *Exec, s *State, args []*Val) []*Val

func tAt(s, i *Term) *Term { return op("str.at", "String", s, i) }

func byteStr(c *Term) *Term {
	if isInt(c) && c.I.IsInt64() {
		return tStr(string([]byte{byte(c.I.Int64())}))
	}
	return op("str.from_code", "String", c)
}

var models map[string]modelFn

func init() {
	str := func(t *Term) []*Val { return []*Val{strV(t)} }
	bl := func(t *Term) []*Val { return []*Val{boolV(t)} }
	in := func(t *Term) []*Val { return []*Val{intV(t)} }
	models = map[string]modelFn{
		"strings.HasPrefix": func(x *Exec, s *State, a []*Val) []*Val { return bl(tPrefixOf(a[1].C[0], a[0].C[0])) },
		"strings.HasSuffix": func(x *Exec, s *State, a []*Val) []*Val { return bl(tSuffixOf(a[1].C[0], a[0].C[0])) },
		"strings.Contains":  func(x *Exec, s *State, a []*Val) []*Val { return bl(tContains(a[0].C[0], a[1].C[0])) },
		"strings.Index":     func(x *Exec, s *State, a []*Val) []*Val { return in(tIndexOf(a[0].C[0], a[1].C[0], tInt(0))) },
		"strings.IndexByte": func(x *Exec, s *State, a []*Val) []*Val {
			return in(tIndexOf(a[0].C[0], byteStr(a[1].C[0]), tInt(0)))
		},
		"strings.IndexRune": func(x *Exec, s *State, a []*Val) []*Val {
			if isInt(a[1].C[0]) && a[1].C[0].I.Int64() < 128 {
				return in(tIndexOf(a[0].C[0], byteStr(a[1].C[0]), tInt(0)))
			}
			return nil
		},
		"strings.LastIndex": func(x *Exec, s *State, a []*Val) []*Val {
			r := app("lastIndex", "Int", a[0].C[0], a[1].C[0])
			lastIndexFacts(s, a[0].C[0], a[1].C[0], r)
			return in(r)
		},
		"strings.LastIndexByte": func(x *Exec, s *State, a []*Val) []*Val {
			q := byteStr(a[1].C[0])
			r := app("lastIndex", "Int", a[0].C[0], q)
			lastIndexFacts(s, a[0].C[0], q, r)
			return in(r)
		},
		"strings.TrimPrefix": func(x *Exec, s *State, a []*Val) []*Val {
			t, p := a[0].C[0], a[1].C[0]
			return str(tIte(tPrefixOf(p, t), tSubstr(t, tStrLen(p), tSub(tStrLen(t), tStrLen(p))), t))
		},
		"strings.TrimSuffix": func(x *Exec, s *State, a []*Val) []*Val {
			t, p := a[0].C[0], a[1].C[0]
			return str(tIte(tSuffixOf(p, t), tSubstr(t, tInt(0), tSub(tStrLen(t), tStrLen(p))), t))
		},
		"strings.CutPrefix": func(x *Exec, s *State, a []*Val) []*Val {
			t, p := a[0].C[0], a[1].C[0]
			c := tPrefixOf(p, t)
			return []*Val{strV(tIte(c, tSubstr(t, tStrLen(p), tSub(tStrLen(t), tStrLen(p))), t)), boolV(c)}
		},
		"strings.CutSuffix": func(x *Exec, s *State, a []*Val) []*Val {
			t, p := a[0].C[0], a[1].C[0]
			c := tSuffixOf(p, t)
			return []*Val{strV(tIte(c, tSubstr(t, tInt(0), tSub(tStrLen(t), tStrLen(p))), t)), boolV(c)}
		},
		"strings.Cut": func(x *Exec, s *State, a []*Val) []*Val {
			t, p := a[0].C[0], a[1].C[0]
			i := tIndexOf(t, p, tInt(0))
			c := tLe(tInt(0), i)
			return []*Val{strV(tIte(c, tSubstr(t, tInt(0), i), t)), strV(tIte(c, tSubstr(t, tAdd(i, tStrLen(p)), tSub(tStrLen(t), tAdd(i, tStrLen(p)))), tStr(""))), boolV(c)}
		},
		"strings.ContainsAny": func(x *Exec, s *State, a []*Val) []*Val {
			if !isStr(a[1].C[0]) {
				return nil
			}
			var ors []*Term
			for i := 0; i < len(a[1].C[0].S); i++ {
				ors = append(ors, tContains(a[0].C[0], tStr(string(a[1].C[0].S[i]))))
			}
			return bl(tOr(ors...))
		},
		"strings.IndexAny": func(x *Exec, s *State, a []*Val) []*Val {
			if !isStr(a[1].C[0]) {
				return nil
			}
			r := tInt(-1)
			for i := 0; i < len(a[1].C[0].S); i++ {
				if a[1].C[0].S[i] >= 128 {
					return nil
				}
				j := tIndexOf(a[0].C[0], tStr(string(a[1].C[0].S[i])), tInt(0))
				r = tIte(tLt(r, tInt(0)), j, tIte(tOr(tLt(j, tInt(0)), tLe(r, j)), r, j))
			}
			if s != nil { // the same facts character by character
				v := freshSym("idx", "Int")
				c := a[0].C[0]
				anyOf := func(t *Term) *Term {
					var ors []*Term
					for i := 0; i < len(a[1].C[0].S); i++ {
						ors = append(ors, tEq(t, tInt(int64(a[1].C[0].S[i]))))
					}
					return tOr(ors...)
				}
				bv := freshBV("j", "Int")
				at := charAt(c, bv)
				s.assume(tEq(v, r), tLe(tInt(-1), v), tLt(v, tStrLen(c)), tImp(tLe(tInt(0), v), anyOf(charAt(c, v))),
					tForall([]*Term{bv}, [][]*Term{{at}}, tImp(tAnd(tLe(tInt(0), bv), tLt(bv, tIte(tLt(v, tInt(0)), tStrLen(c), v))), tNot(anyOf(at)))))
				return in(v)
			}
			return in(r)
		},
		"strings.ContainsRune": func(x *Exec, s *State, a []*Val) []*Val {
			if isInt(a[1].C[0]) && a[1].C[0].I.Int64() < 128 {
				return bl(tContains(a[0].C[0], byteStr(a[1].C[0])))
			}
			return nil
		},
		"strings.Join": func(x *Exec, s *State, a []*Val) []*Val {
			var q *Term
			if a[0].Sp != nil {
				q = a[0].C[0]
			} else {
				q = x.lst(s, a[0], 0)
			}
			return str(joinTerm(q, a[1].C[0]))
		},
		"net/textproto.CanonicalMIMEHeaderKey": func(x *Exec, s *State, a []*Val) []*Val {
			if isStr(a[0].C[0]) {
				return str(tStr(textproto.CanonicalMIMEHeaderKey(a[0].C[0].S)))
			}
			return nil
		},
		"strconv.Itoa": func(x *Exec, s *State, a []*Val) []*Val { return str(itoa(s, a[0].C[0])) },
		"errors.New": func(x *Exec, s *State, a []*Val) []*Val {
			r := freshSym("err", "Iface")
			s.assume(tNe(r, zeroOfSort("Iface")))
			return []*Val{{T: types.Universe.Lookup("error").Type(), C: []*Term{r}}}
		},
		"fmt.Errorf": func(x *Exec, s *State, a []*Val) []*Val {
			r := freshSym("err", "Iface")
			s.assume(tNe(r, zeroOfSort("Iface")))
			return []*Val{{T: types.Universe.Lookup("error").Type(), C: []*Term{r}}}
		},
		"fmt.Sprintf": sprintf,
	}
}

func (x *Exec) model(s *State, key string, args []*Val, sig *types.Signature) []*Val {
	m := models[key]
	if m == nil {
		return nil
	}
	r := m(x, s, args)
	for i := range r {
		if r[i].T != nil && sig != nil && i < sig.Results().Len() {
			v := *r[i]
			v.T = sig.Results().At(i).Type()
			r[i] = &v
		}
	}
	return r
}

func lastIndexFacts(s *State, t, p, r *Term) {
	if t.hasBV || p.hasBV {
		return
	}
	i := tIndexOf(t, p, tInt(0))
	n := tStrLen(p)
	s.assume(tEq(tLt(r, tInt(0)), tLt(i, tInt(0))), tLe(tInt(-1), r), tLe(i, r))
	s.assume(tImp(tLe(tInt(0), r), tAnd(tLe(tAdd(r, n), tStrLen(t)), tEq(tSubstr(t, r, n), p))))
	if isStr(p) && len(p.S) == 1 {
		s.assume(tImp(tLe(tInt(0), r), tNot(tContains(tSubstr(t, tAdd(r, tInt(1)), tSub(tStrLen(t), tAdd(r, tInt(1)))), p))))
	}
}

// joinTerm: strings.Join with the empty separator is a homomorphism; other separators distribute
// over explicit concatenations of units.
func joinTerm(q, sep *Term) *Term {
	if isStr(sep) && sep.S == "" {
		switch q.Op {
		case "seq.empty":
			return tStr("")
		case "seq.unit":
			return q.Args[0]
		case "seq.++":
			var ps []*Term
			for _, a := range q.Args {
				ps = append(ps, joinTerm(a, sep))
			}
			return tConcat(ps...)
		}
	} else {
		switch q.Op {
		case "seq.empty":
			return tStr("")
		case "seq.unit":
			return q.Args[0]
		case "seq.++":
			all := true
			for _, a := range q.Args {
				if a.Op != "seq.unit" {
					all = false
				}
			}
			if all {
				var ps []*Term
				for i, a := range q.Args {
					if i > 0 {
						ps = append(ps, sep)
					}
					ps = append(ps, a.Args[0])
				}
				return tConcat(ps...)
			}
		}
	}
	return app("joinStrings", "String", q, sep)
}

func itoa(s *State, n *Term) *Term {
	if isInt(n) {
		return tStr(n.I.String())
	}
	return app("pure!strconv.Itoa#0.0", "String", n)
}

// sprintf expands constant formats made of %s, %d, %v of strings and integers; otherwise the
// result is an uninterpreted function of the arguments when all are known, else arbitrary.
func sprintf(x *Exec, s *State, a []*Val) []*Val {
	arb := func() []*Val {
		return []*Val{strV(freshSym("sprintf", "String"))}
	}
	f := a[0].C[0]
	if !isStr(f) || a[1].Sp != nil || !isInt(a[1].C[2]) {
		return arb()
	}
	n := int(a[1].C[2].I.Int64())
	q := x.lst(s, a[1], 0)
	var items []*Term
	for i := 0; i < n; i++ {
		items = append(items, tSeqNth(q, tInt(int64(i))))
	}
	var out []*Term
	lit := ""
	ai := 0
	fs := f.S
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		i++
		if i >= len(fs) {
			return arb()
		}
		if fs[i] == '%' {
			lit += "%"
			continue
		}
		j := i
		for j < len(fs) && !(fs[j] >= 'a' && fs[j] <= 'z' || fs[j] >= 'A' && fs[j] <= 'Z') {
			j++
		}
		if j >= len(fs) || ai >= len(items) {
			return arb()
		}
		verb := fs[i : j+1]
		it := items[ai]
		ai++
		i = j
		out = append(out, tStr(lit))
		lit = ""
		t := (*Term)(nil)
		if it.Op == "app" && strings.HasPrefix(it.Name, "box!") && len(it.Args) == 1 {
			ty := tagType[dynType(it).I.Int64()]
			if b, ok := ty.(*types.Basic); ok {
				switch {
				case b.Info()&types.IsString != 0 && verb == "x":
					t = app("fun!hexS#0", "String", it.Args[0])
				case b.Info()&types.IsInteger != 0 && verb == "x":
					t = app("fun!hexI#0", "String", it.Args[0])
				case b.Info()&types.IsString != 0 && (verb == "s" || verb == "v"):
					t = it.Args[0]
				case b.Info()&types.IsInteger != 0 && (verb == "d" || verb == "v"):
					if isInt(it.Args[0]) {
						t = tStr(it.Args[0].I.String())
					} else {
						t = app("pure!strconv.Itoa#0.0", "String", it.Args[0])
					}
				}
			}
		}
		if t == nil {
			t = app("fmtverb!"+verb, "String", it)
		}
		out = append(out, t)
	}
	out = append(out, tStr(lit))
	if ai != len(items) {
		return arb()
	}
	return []*Val{strV(tConcat(out...))}
}

var _ = big.NewInt
