package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- expression syntax ----

type Expr struct {
	Op   string // "id","int","str","call","field","index","slice","bin","un","if","let","forall","exists","old"
	Name string
	Args []*Expr
	I    string
	Bind []binder
	Src  string
	Trig [][]*Expr
}

type binder struct{ Name, Type string }

type tok struct {
	k string // id int str op eof
	s string
	p int
}

func lex(src string) []tok {
	var out []tok
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++", "->"}
	for i < len(src) {
		c := src[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
			continue
		}
		if c == '#' {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", src[i:j], i})
			i = j
			continue
		}
		if isId(c) {
			j := i
			for j < len(src) && (isId(src[j]) || src[j] == '/' && j+1 < len(src) && isId(src[j+1])) { // import paths: net/http.F
				j++
			}
			out = append(out, tok{"id", src[i:j], i})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic("bad string in spec: " + src[i:j+1])
			}
			out = append(out, tok{"str", s, i})
			i = j + 1
			continue
		}
		matched := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, i})
				i += len(o)
				matched = true
				break
			}
		}
		if matched {
			continue
		}
		out = append(out, tok{"op", string(c), i})
		i++
	}
	return append(out, tok{"eof", "", len(src)})
}

type parser struct {
	noIn int
	src  string
	t    []tok
	i    int
}

func parseExpr(src string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in spec expression %q", r, src)
		}
	}()
	p := &parser{src: src, t: lex(src)}
	e = p.expr()
	if p.peek().k != "eof" {
		panic("trailing input at " + src[p.peek().p:])
	}
	e.Src = strings.TrimSpace(src)
	return e, nil
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { p.i++; return p.t[p.i-1] }
func (p *parser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *parser) isId(s string) bool {
	t := p.peek()
	return t.k == "id" && t.s == s
}
func (p *parser) want(s string) {
	t := p.next()
	if t.s != s || t.k == "str" {
		panic(fmt.Sprintf("want %q got %q", s, t.s))
	}
}

func (p *parser) binders() []binder {
	var bs []binder
	for {
		n := p.next()
		if n.k != "id" {
			panic("binder name expected")
		}
		p.want(":")
		start := p.peek().p
		depth := 0
		for {
			t := p.peek()
			if t.k == "eof" {
				panic("binder type")
			}
			if depth == 0 && t.k == "op" && (t.s == "," || t.s == "::" || t.s == ")" || t.s == "{") {
				break
			}
			if t.k == "op" && (t.s == "(" || t.s == "[") {
				depth++
			}
			if t.k == "op" && (t.s == ")" || t.s == "]") {
				depth--
			}
			p.next()
		}
		bs = append(bs, binder{n.s, strings.TrimSpace(p.src[start:p.peek().p])})
		if p.isOp(",") {
			p.next()
			continue
		}
		return bs
	}
}

func (p *parser) expr() *Expr {
	if p.isId("forall") || p.isId("exists") {
		q := p.next().s
		bs := p.binders()
		e := &Expr{Op: q, Bind: bs}
		for p.isOp("{") {
			p.next()
			var ts []*Expr
			for {
				ts = append(ts, p.expr())
				if p.isOp(",") {
					p.next()
					continue
				}
				break
			}
			p.want("}")
			e.Trig = append(e.Trig, ts)
		}
		p.want("::")
		e.Args = []*Expr{p.expr()}
		return e
	}
	if p.isId("if") {
		p.next()
		c := p.expr()
		p.want("then")
		a := p.expr()
		p.want("else")
		b := p.expr()
		return &Expr{Op: "if", Args: []*Expr{c, a, b}}
	}
	if p.isId("let") {
		p.next()
		n := p.next().s
		p.want("=")
		p.noIn++
		a := p.expr()
		p.noIn--
		p.want("in")
		b := p.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{a, b}}
	}
	return p.bin(0)
}

var prec = []map[string]bool{
	{"<==>": true}, {"==>": true}, {"||": true}, {"&&": true},
	{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true, "in": true},
	{"+": true, "-": true, "++": true}, {"*": true, "/": true, "%": true},
}

func (p *parser) bin(l int) *Expr {
	if l == len(prec) {
		return p.unary()
	}
	a := p.bin(l + 1)
	for {
		t := p.peek()
		if !(t.k == "op" || t.k == "id" && t.s == "in" && p.i+1 < len(p.t)) || !prec[l][t.s] {
			return a
		}
		if t.s == "in" && p.noIn > 0 {
			return a
		}
		p.next()
		var b *Expr
		if t.s == "==>" { // right assoc; may be followed by quantifier/if
			if p.isId("forall") || p.isId("exists") || p.isId("if") || p.isId("let") {
				b = p.expr()
			} else {
				b = p.bin(l)
			}
		} else if p.isId("forall") || p.isId("exists") || p.isId("if") || p.isId("let") {
			b = p.expr()
		} else {
			b = p.bin(l + 1)
		}
		a = &Expr{Op: "bin", Name: t.s, Args: []*Expr{a, b}}
	}
}

func (p *parser) unary() *Expr {
	if p.isOp("!") || p.isOp("-") || p.isOp("*") {
		o := p.next().s
		return &Expr{Op: "un", Name: o, Args: []*Expr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch {
	case t.k == "int":
		return &Expr{Op: "int", I: t.s}
	case t.k == "str":
		return &Expr{Op: "str", Name: t.s}
	case t.k == "id" && (t.s == "forall" || t.s == "exists" || t.s == "if" || t.s == "let"):
		p.i--
		return p.expr()
	case t.k == "id":
		return &Expr{Op: "id", Name: t.s}
	case t.k == "op" && t.s == "(":
		e := p.expr()
		p.want(")")
		return e
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.isOp("."):
			p.next()
			n := p.next()
			e = &Expr{Op: "field", Name: n.s, Args: []*Expr{e}}
		case p.isOp("("):
			p.next()
			c := &Expr{Op: "call", Args: []*Expr{e}}
			for !p.isOp(")") {
				c.Args = append(c.Args, p.expr())
				if p.isOp(",") {
					p.next()
				}
			}
			p.next()
			e = c
		case p.isOp("["):
			p.next()
			var lo *Expr
			if !p.isOp(":") {
				lo = p.expr()
			}
			if p.isOp(":") {
				p.next()
				var hi *Expr
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.want("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}}
			} else {
				p.want("]")
				e = &Expr{Op: "index", Args: []*Expr{e, lo}}
			}
		default:
			return e
		}
	}
}

// ---- contract files ----

type Clause struct {
	Kind  string
	Tags  map[string]bool
	Name  string
	E     *Expr
	Src   string
	Using []string // proved from these clauses and the facts without sequences
	Key   string   // callassert: the callee
	Split string   // prove the universal statement for this value of its first variable separately
	Any   []binder // for "inv any x: T :: e"
	Pos   string
}

type ModClause struct {
	Src  string
	Heap string // T.field, "map", "elems", "gvar", "global"
	Arg  *Expr  // nil: all
}

type Contract struct {
	Key      string
	Pkg      string
	Ext      bool
	Params   []string
	Results  []string
	Req      []*Clause
	Ens      []*Clause
	Post     []*Clause // Ens and intermediate steps, in order
	Asm      []*Clause
	Trust    []*Clause // assumed by callers, not proved
	Mod      []*ModClause
	Pan      *Clause
	OnPanic  []*Clause
	PanTags  map[string]bool
	MayPanic bool
	Dec      *Clause
	Inv      []*Clause
	CallA    map[string][]*Clause
	Closure  *Contract // contract of the closure(s) this function returns or registers
	CloSel   string
	Opts     map[string]string
	Pure     bool
	Lemma    bool
	Vars     []binder
	File     string
	Line     int
}

type SpecFun struct {
	Name   string
	Params []binder
	Ret    string
	Body   *Expr
	Rec    bool
	Def    bool // macro
	Pkg    string
	foot   []string
	broken string
}

type Axiom struct {
	Name string
	E    *Expr
}

type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Funs      map[string]*SpecFun
	Axioms    []*Axiom
	Ghost     map[string]string // "water.Context.$ran" -> sort
	GVars     map[string]string
	Props     map[string]*PropSpec
	Pure      map[string]bool
	Sorts     []string
	Counted   map[string]bool // functions whose calls some clause counts
	Track     []*Track
}

// Track makes a ghost set hold exactly the allocated structs of one type (for the listed properties).
type Track struct {
	Type, GVar string
	Props      map[string]bool
}

type PropSpec struct {
	ID        string
	Funs      []string
	Opts      map[string]string
	Only      map[string][]string // field -> allowed writers
	Elsewhere map[string]string   // callee -> the property whose check discharges its contract
}

var clauseKW = map[string]bool{"req": true, "ens": true, "mod": true, "pan": true, "maypanic": true, "dec": true, "inv": true, "callassert": true, "closure": true, "opt": true, "pure": true, "asm": true, "var": true, "onpanic": true, "trust": true, "cut": true}

var countedRE = regexp.MustCompile(`n(?:calls|panics)\("([^"]+)"\)`)

func loadSpecs(dir string) (*Specs, error) {
	s := &Specs{Contracts: map[string]*Contract{}, Funs: map[string]*SpecFun{}, Ghost: map[string]string{}, GVars: map[string]string{}, Props: map[string]*PropSpec{}, Pure: map[string]bool{}, Counted: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, m := range countedRE.FindAllStringSubmatch(string(b), -1) {
			s.Counted[m[1]] = true
		}
		if err := s.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return s, nil
}

func stripComment(l string) string {
	inS := false
	for i := 0; i < len(l); i++ {
		if l[i] == '\\' && inS {
			i++
			continue
		}
		if l[i] == '"' {
			inS = !inS
		}
		if l[i] == '#' && !inS && (i == 0 || l[i-1] == ' ' || l[i-1] == '\t') && (i+1 >= len(l) || l[i+1] == ' ' || l[i+1] == '#') {
			return l[:i]
		}
	}
	return l
}

// parseUsing reads "a,b split n".
func parseUsing(ut string) (using []string, split string) {
	if k := strings.Index(ut, " split "); k >= 0 {
		split = strings.TrimSpace(ut[k+7:])
		ut = ut[:k]
	}
	return strings.FieldsFunc(ut, func(r rune) bool { return r == ',' || r == ' ' }), split
}

func (s *Specs) parseFile(fname, src string) error {
	lines := strings.Split(src, "\n")
	pkg := "water"
	var cur *Contract // current (possibly closure) contract
	var top *Contract
	i := 0
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", fname, i+1, fmt.Sprintf(f, a...))
	}
	gather := func(first string) string {
		// continuation lines: following lines until one starting with a keyword or blank-level directive
		out := first
		for i+1 < len(lines) {
			l := stripComment(lines[i+1])
			tl := strings.TrimSpace(l)
			if tl == "" {
				i++
				continue
			}
			w := strings.FieldsFunc(tl, func(r rune) bool { return r == ' ' || r == '[' || r == '\t' })[0]
			indent := len(l) - len(strings.TrimLeft(l, " \t"))
			if indent == 0 || (clauseKW[w] || tl == "end") && indent <= 4 {
				break
			}
			out += "\n" + l
			i++
		}
		return out
	}
	for ; i < len(lines); i++ {
		l := strings.TrimSpace(stripComment(lines[i]))
		if l == "" {
			continue
		}
		startLine := i + 1
		word := strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == '[' || r == '\t' })[0]
		rest := strings.TrimSpace(strings.TrimPrefix(l, word))
		if cur != nil && clauseKW[word] {
			tags := map[string]bool{}
			if strings.HasPrefix(rest, "[") && word != "mod" {
				j := strings.Index(rest, "]")
				for _, t := range strings.Split(rest[1:j], ",") {
					tags[strings.TrimSpace(t)] = true
				}
				rest = strings.TrimSpace(rest[j+1:])
			}
			switch word {
			case "maypanic":
				cur.MayPanic = true
			case "pure":
				cur.Pure = true
			case "opt":
				kv := strings.SplitN(rest, " ", 2)
				v := "true"
				if len(kv) > 1 {
					v = strings.TrimSpace(kv[1])
				}
				cur.Opts[kv[0]] = v
			case "closure":
				c := &Contract{Key: cur.Key + "#closure", Pkg: pkg, Opts: map[string]string{}, CallA: map[string][]*Clause{}, File: fname, Line: startLine}
				ps := rest
				if j := strings.Index(ps, "->"); j >= 0 {
					for _, r := range strings.Split(ps[j+2:], ",") {
						c.Results = append(c.Results, strings.TrimSpace(r))
					}
					ps = ps[:j]
				}
				ps = strings.Trim(strings.TrimSpace(ps), "()")
				for _, q := range strings.Split(ps, ",") {
					if strings.TrimSpace(q) != "" {
						c.Params = append(c.Params, strings.TrimSpace(q))
					}
				}
				top.Closure = c
				cur = c
			case "mod":
				txt := gather(rest)
				for _, part := range splitTop(txt, ',') {
					m, err := parseMod(strings.TrimSpace(part))
					if err != nil {
						return fail("%v", err)
					}
					cur.Mod = append(cur.Mod, m)
				}
			case "var":
				txt := gather(rest)
				p := &parser{src: txt + " ::", t: lex(txt + " ::")}
				cur.Vars = append(cur.Vars, p.binders()...)
			default:
				txt := gather(rest)
				name := ""
				var using []string
				split, caKey := "", ""
				if word == "callassert" {
					j := strings.Index(txt, " :: ")
					if j < 0 {
						return fail("callassert needs ::")
					}
					caKey = strings.TrimSpace(txt[:j])
					txt = txt[j+4:]
					if c := strings.Index(caKey, " cut "); c >= 0 {
						name = strings.TrimSpace(caKey[c+5:])
						caKey = strings.TrimSpace(caKey[:c])
						if u := strings.Index(name, " using "); u >= 0 {
							using, split = parseUsing(name[u+7:])
							name = name[:u]
						}
					}
				} else if j := strings.Index(txt, ": "); j > 0 && isIdent(txt[:j]) {
					name = txt[:j]
					txt = txt[j+2:]
				} else if u := strings.Index(txt, " using "); j > 0 && u > 0 && u < j && isIdent(txt[:u]) {
					name = txt[:u]
					using, split = parseUsing(txt[u+7 : j])
					txt = txt[j+2:]
				}
				cl := &Clause{Kind: word, Tags: tags, Name: name, Using: using, Split: split, Key: caKey, Pos: fmt.Sprintf("%s:%d", fname, startLine)}
				if word == "inv" && strings.HasPrefix(strings.TrimSpace(txt), "any ") {
					t := strings.TrimSpace(txt)[4:]
					p := &parser{src: t, t: lex(t)}
					cl.Any = p.binders()
					at := p.peek().p
					txt = t[at+2:]
				}
				e, err := parseExpr(txt)
				if err != nil {
					return fail("%v", err)
				}
				cl.E = e
				cl.Src = strings.Join(strings.Fields(txt), " ")
				if cl.Name == "" {
					cl.Name = fmt.Sprintf("%s@%d", word, startLine)
				}
				switch word {
				case "req":
					cur.Req = append(cur.Req, cl)
				case "ens":
					cur.Ens = append(cur.Ens, cl)
					cur.Post = append(cur.Post, cl)
				case "cut": // an intermediate step at returns: proved, not told to callers
					cur.Post = append(cur.Post, cl)
				case "asm":
					cur.Asm = append(cur.Asm, cl)
				case "trust":
					cur.Trust = append(cur.Trust, cl)
				case "onpanic":
					cur.OnPanic = append(cur.OnPanic, cl)
				case "pan":
					cur.Pan = cl
				case "dec":
					cur.Dec = cl
				case "inv":
					cur.Inv = append(cur.Inv, cl)
				case "callassert":
					cur.CallA[caKey] = append(cur.CallA[caKey], cl)
				}
			}
			continue
		}
		switch word {
		case "package":
			pkg = rest
		case "spec", "ext", "lemma":
			// spec Key(params) -> results
			txt := rest
			c := &Contract{Pkg: pkg, Ext: word == "ext", Lemma: word == "lemma", Opts: map[string]string{}, CallA: map[string][]*Clause{}, File: fname, Line: startLine}
			if j := strings.LastIndex(txt, "->"); j >= 0 {
				for _, r := range strings.Split(txt[j+2:], ",") {
					c.Results = append(c.Results, strings.TrimSpace(r))
				}
				txt = strings.TrimSpace(txt[:j])
			}
			if !strings.HasSuffix(txt, ")") {
				return fail("spec header needs parameter list: %s", txt)
			}
			j := strings.LastIndex(txt, "(")
			for _, q := range strings.Split(txt[j+1:len(txt)-1], ",") {
				if strings.TrimSpace(q) != "" {
					c.Params = append(c.Params, strings.TrimSpace(q))
				}
			}
			c.Key = strings.TrimSpace(txt[:j])
			if !c.Ext {
				c.Key = pkg + "." + c.Key
			}
			if _, dup := s.Contracts[c.Key]; dup {
				return fail("duplicate contract %s", c.Key)
			}
			s.Contracts[c.Key] = c
			s.Order = append(s.Order, c.Key)
			cur, top = c, c
		case "end":
			cur, top = nil, nil
		case "pures":
			cur, top = nil, nil
			txt := gather(rest)
			for _, f := range strings.Fields(txt) {
				s.Pure[f] = true
			}
		case "fun", "def", "decl":
			cur, top = nil, nil
			txt := gather(rest)
			f, err := parseFun(txt, word)
			if err != nil {
				return fail("%v", err)
			}
			f.Pkg = pkg
			if s.Funs[f.Name] != nil {
				return fail("%s is defined twice", f.Name)
			}
			s.Funs[f.Name] = f
		case "axiom":
			cur, top = nil, nil
			txt := gather(rest)
			j := strings.Index(txt, ":")
			e, err := parseExpr(txt[j+1:])
			if err != nil {
				return fail("%v", err)
			}
			s.Axioms = append(s.Axioms, &Axiom{strings.TrimSpace(txt[:j]), e})
		case "ghost":
			kv := strings.SplitN(rest, " ", 2)
			s.Ghost[kv[0]] = strings.TrimSpace(kv[1])
		case "track": // track C05,C06 Router $routers
			kv := strings.Fields(rest)
			tr := &Track{Type: pkg + "." + kv[1], GVar: kv[2], Props: map[string]bool{}}
			for _, q := range strings.Split(kv[0], ",") {
				tr.Props[q] = true
			}
			s.Track = append(s.Track, tr)
		case "gvar":
			kv := strings.SplitN(rest, " ", 2)
			s.GVars[kv[0]] = strings.TrimSpace(kv[1])
		case "property":
			txt := gather(rest)
			f := strings.Fields(txt)
			p := s.Props[f[0]]
			if p == nil {
				p = &PropSpec{ID: f[0], Opts: map[string]string{}, Only: map[string][]string{}}
				s.Props[f[0]] = p
			}
			for _, x := range f[1:] {
				if !strings.HasPrefix(x, "water.") && !strings.HasPrefix(x, "binding.") {
					x = pkg + "." + x
				}
				p.Funs = append(p.Funs, x)
			}
			cur, top = nil, nil
		case "elsewhere": // elsewhere C05 Engine.buildTree: C06 (assumed under C05, discharged by the check of C06)
			txt := gather(rest)
			j := strings.Index(txt, ":")
			hd := strings.Fields(txt[:j])
			for _, id := range strings.Split(hd[0], ",") {
				p := s.Props[id]
				if p == nil {
					p = &PropSpec{ID: id, Opts: map[string]string{}, Only: map[string][]string{}}
					s.Props[id] = p
				}
				if p.Elsewhere == nil {
					p.Elsewhere = map[string]string{}
				}
				for _, x := range hd[1:] {
					if !strings.HasPrefix(x, "water.") && !strings.HasPrefix(x, "binding.") {
						x = pkg + "." + x
					}
					p.Elsewhere[x] = strings.TrimSpace(txt[j+1:])
				}
			}
			cur, top = nil, nil
		case "bounded": // bounded C18 what the bounded harness stands in for
			txt := strings.Join(strings.Fields(gather(rest)), " ")
			j := strings.Index(txt, " ")
			p := s.Props[txt[:j]]
			if p == nil {
				p = &PropSpec{ID: txt[:j], Opts: map[string]string{}, Only: map[string][]string{}}
				s.Props[p.ID] = p
			}
			p.Opts["bounded"] = txt[j+1:]
			cur, top = nil, nil
		case "onlywriters": // onlywriters C07 Context.index: f g h
			txt := gather(rest)
			j := strings.Index(txt, ":")
			hd := strings.Fields(txt[:j])
			p := s.Props[hd[0]]
			if p == nil {
				p = &PropSpec{ID: hd[0], Opts: map[string]string{}, Only: map[string][]string{}}
				s.Props[hd[0]] = p
			}
			for _, fld := range hd[1:] {
				p.Only[pkg+"."+fld] = strings.Fields(txt[j+1:])
			}
			cur, top = nil, nil
		default:
			return fail("unknown directive %q", word)
		}
	}
	return nil
}

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
			return false
		}
	}
	return true
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func parseMod(s string) (*ModClause, error) {
	m := &ModClause{Src: s}
	switch {
	case strings.HasPrefix(s, "map("):
		e, err := parseExpr(s[4 : len(s)-1])
		m.Heap, m.Arg = "map", e
		return m, err
	case strings.HasPrefix(s, "elems("):
		e, err := parseExpr(s[6 : len(s)-1])
		m.Heap, m.Arg = "elems", e
		return m, err
	case strings.HasPrefix(s, "cell("):
		e, err := parseExpr(s[5 : len(s)-1])
		m.Heap, m.Arg = "cell", e
		return m, err
	case strings.HasPrefix(s, "G "):
		m.Heap = "G:" + strings.TrimSpace(s[2:])
		return m, nil
	case strings.HasPrefix(s, "V "):
		m.Heap = "V:" + strings.TrimSpace(s[2:])
		return m, nil
	case strings.HasPrefix(s, "$") && !strings.Contains(s, "["):
		m.Heap = "G:" + s
		return m, nil
	case strings.HasPrefix(s, "heap "):
		m.Heap = "heap:" + strings.TrimSpace(s[5:])
		return m, nil
	}
	j := strings.Index(s, "[")
	if j < 0 || !strings.HasSuffix(s, "]") {
		return nil, fmt.Errorf("bad mod %q", s)
	}
	m.Heap = "field:" + s[:j]
	a := s[j+1 : len(s)-1]
	if a != "*" {
		e, err := parseExpr(a)
		if err != nil {
			return nil, err
		}
		m.Arg = e
	}
	return m, nil
}

func parseFun(txt, kind string) (f *SpecFun, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, txt)
		}
	}()
	p := &parser{src: txt, t: lex(txt)}
	f = &SpecFun{Name: p.next().s, Def: kind == "def"}
	p.want("(")
	if !p.isOp(")") {
		f.Params = p.binders()
	}
	p.want(")")
	p.want(":")
	start := p.peek().p
	depth := 0
	for {
		t := p.peek()
		if t.k == "eof" || depth == 0 && t.k == "op" && t.s == "=" {
			break
		}
		if t.k == "op" && (t.s == "(" || t.s == "[") {
			depth++
		}
		if t.k == "op" && (t.s == ")" || t.s == "]") {
			depth--
		}
		p.next()
	}
	f.Ret = strings.TrimSpace(txt[start:p.peek().p])
	if kind == "decl" {
		return f, nil
	}
	p.want("=")
	f.Body = p.expr()
	if p.peek().k != "eof" {
		panic("trailing input at " + txt[p.peek().p:])
	}
	f.Rec = kind == "fun"
	return f, nil
}
