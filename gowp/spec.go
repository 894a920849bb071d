package main

// Contract language: lexer, parser and AST.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- AST ----------

type Expr interface{}

type (
	EIdent struct{ Name string }
	ENum   struct{ Lit string } // int or float literal text
	EStr   struct{ Val string }
	EBool  struct{ V bool }
	ENil   struct{}
	EUn    struct {
		Op string
		X  Expr
	}
	EBin struct {
		Op   string
		X, Y Expr
	}
	ECond struct{ C, A, B Expr }
	ESel  struct {
		X    Expr
		Name string
	}
	EIdx  struct{ X, I Expr }
	ECall struct {
		Fn   string
		Args []Expr
		Ty   *TypeX // for is(), as(), zero()
	}
	EQuant struct {
		All  bool
		Vars []Param
		Trig [][]Expr
		Body Expr
	}
	ELet struct {
		Name string
		V    Expr
		Body Expr
	}
)

type TypeX struct {
	Kind string // name, ptr, slice, array(spec), iface, map
	Pkg  string
	Name string
	Elem *TypeX
	Key  *TypeX
}

func (t *TypeX) String() string {
	switch t.Kind {
	case "ptr":
		return "*" + t.Elem.String()
	case "slice":
		return "[]" + t.Elem.String()
	case "array":
		return "array[" + t.Elem.String() + "]"
	case "map":
		return "map[" + t.Key.String() + "]" + t.Elem.String()
	}
	if t.Pkg != "" {
		return t.Pkg + "." + t.Name
	}
	return t.Name
}

type Param struct {
	Name string
	Ty   *TypeX
}

type Clause struct {
	Label string
	Tags  []string
	Modes []string // empty: default (ieee)
	Expr  Expr
	Src   string
	Line  int
	File  string
	Each  bool // ensures of a functional contract: also stated for its results at all arguments
	Nest  int  // invariants: only for loops inside exactly Nest-1 others (0: any loop)
}

type Contract struct {
	Pkg       string
	Key       string // e.g. geo.(*Box).Union
	Params    []string
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Modifies  []*Clause
	Invs      []*Clause
	Asserts   []*Clause // hints at function exit
	Decreases []*Clause
	Locals    []Param
	Uses      []string
	Insts     []*Clause // instances of lemmas, assumed at exit
	Opts      map[string]string
	Extern    bool
	File      string
	Line      int
	Bad       string // resolution failure: contract cannot be applied
}

type SpecFunc struct {
	Pkg    string
	Name   string
	Kind   string // pure (macro), rec, ufun
	Params []Param
	Ret    *TypeX
	Body   Expr
	Modes  []string
	File   string
	Line   int
}

type Axiom struct {
	Pkg     string
	Name    string
	Modes   []string
	Tags    []string
	Expr    Expr
	Kind    string // axiom (assumed), theorem (proved in mode bits), lemma(induction)
	Ind     string // induction variable
	Limited bool   // stated about the terms an unfolding leaves behind (which also exist for every other term)
	Ind2    string // second variable of a lexicographic induction
	General bool   // the induction hypothesis holds for all values of the other variables (and all smaller values of Ind)
	Uses    []string
	Insts   []*Clause
	Vars    []Param
	Req     []Expr
	Trig    [][]Expr
	Src     string
	File    string
	Line    int
	Auto    bool
}

type Property struct {
	ID    string
	Funcs []string // roots
	Lemma []string // lemmas over the specification alone (real arithmetic)
	Bound []string // functions covered by bounded stand-ins only (documentation)
	Harn  string
	Level string
	Stop  []string // callee contracts assumed here and proved under another property
}

type SpecFile struct {
	Contracts map[string]*Contract
	Order     []string
	Funcs     map[string]*SpecFunc
	Axioms    []*Axiom
	Props     map[string]*Property
}

// ---------- lexer ----------

type tok struct {
	k    string // id, num, str, op, eof
	s    string
	line int
}

func lexSpec(src string, line int) ([]tok, error) {
	var out []tok
	i := 0
	ops3 := []string{"<==>", "==>", "===", "!==", "::", "==", "!=", "<=", ">=", "&&", "||", "->"}
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			line++
			i++
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' {
			i++
			continue
		}
		if c == '/' && i+1 < len(src) && src[i+1] == '/' {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if c == '"' {
			j := i + 1
			var sb strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' && j+1 < len(src) {
					j++
				}
				sb.WriteByte(src[j])
				j++
			}
			out = append(out, tok{"str", sb.String(), line})
			i = j + 1
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '?' && i+1 < len(src) && unicode.IsLetter(rune(src[i+1])) && false {
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '.' || src[j] == 'e' || src[j] == 'E' || ((src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E'))) {
				j++
			}
			out = append(out, tok{"num", src[i:j], line})
			i = j
			continue
		}
		done := false
		for _, o := range ops3 {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, line})
				i += len(o)
				done = true
				break
			}
		}
		if done {
			continue
		}
		out = append(out, tok{"op", string(c), line})
		i++
	}
	out = append(out, tok{"eof", "", line})
	return out, nil
}

// ---------- parser ----------

type sparser struct {
	t    []tok
	p    int
	file string
}

type specErr struct{ msg string }

func (p *sparser) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s:%d: ", p.file, p.t[p.p].line) + fmt.Sprintf(f, a...)})
}
func (p *sparser) peek() tok { return p.t[p.p] }
func (p *sparser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *sparser) is(s string) bool {
	t := p.t[p.p]
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, got %q", s, p.peek().s)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("expected identifier, got %q", t.s)
	}
	return t.s
}

func (p *sparser) typ() *TypeX {
	if p.accept("*") {
		return &TypeX{Kind: "ptr", Elem: p.typ()}
	}
	if p.accept("[") {
		p.expect("]")
		return &TypeX{Kind: "slice", Elem: p.typ()}
	}
	n := p.ident()
	if n == "array" && p.is("[") {
		p.expect("[")
		e := p.typ()
		p.expect("]")
		return &TypeX{Kind: "array", Elem: e}
	}
	if n == "map" && p.is("[") {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeX{Kind: "map", Key: k, Elem: p.typ()}
	}
	if n == "interface" {
		p.expect("{")
		p.expect("}")
		return &TypeX{Kind: "iface", Name: "interface{}"}
	}
	if p.accept(".") {
		m := p.ident()
		return &TypeX{Kind: "name", Pkg: n, Name: m}
	}
	return &TypeX{Kind: "name", Name: n}
}

func (p *sparser) params() []Param {
	// name[, name] type, ...
	var out []Param
	var pend []string
	for !p.is("::") && !p.is(")") && !p.is("{") {
		n := p.ident()
		pend = append(pend, n)
		if p.accept(",") {
			continue
		}
		ty := p.typ()
		for _, q := range pend {
			out = append(out, Param{q, ty})
		}
		pend = nil
		if !p.accept(",") {
			break
		}
	}
	if len(pend) > 0 {
		p.fail("parameters without type")
	}
	return out
}

func (p *sparser) expr() Expr { return p.iff() }

func (p *sparser) iff() Expr {
	x := p.impl()
	for p.accept("<==>") {
		y := p.impl()
		x = &EBin{"<==>", x, y}
	}
	return x
}
func (p *sparser) impl() Expr {
	x := p.condx()
	if p.accept("==>") {
		y := p.impl()
		return &EBin{"==>", x, y}
	}
	return x
}
func (p *sparser) condx() Expr {
	c := p.or()
	if p.accept("?") {
		a := p.condx()
		p.expect(":")
		b := p.condx()
		return &ECond{c, a, b}
	}
	return c
}
func (p *sparser) or() Expr {
	x := p.and()
	for p.accept("||") {
		x = &EBin{"||", x, p.and()}
	}
	return x
}
func (p *sparser) and() Expr {
	x := p.cmp()
	for p.accept("&&") {
		x = &EBin{"&&", x, p.cmp()}
	}
	return x
}
func (p *sparser) cmp() Expr {
	x := p.add()
	var res Expr
	for {
		op := p.peek().s
		if p.peek().k == "op" && (op == "==" || op == "!=" || op == "<" || op == "<=" || op == ">" || op == ">=" || op == "===" || op == "!==") {
			p.next()
			y := p.add()
			var c Expr = &EBin{op, x, y}
			if res == nil {
				res = c
			} else {
				res = &EBin{"&&", res, c}
			}
			x = y
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return x
}
func (p *sparser) add() Expr {
	x := p.mul()
	for {
		if p.accept("+") {
			x = &EBin{"+", x, p.mul()}
		} else if p.accept("-") {
			x = &EBin{"-", x, p.mul()}
		} else {
			return x
		}
	}
}
func (p *sparser) mul() Expr {
	x := p.unary()
	for {
		if p.accept("*") {
			x = &EBin{"*", x, p.unary()}
		} else if p.accept("/") {
			x = &EBin{"/", x, p.unary()}
		} else if p.accept("%") {
			x = &EBin{"%", x, p.unary()}
		} else {
			return x
		}
	}
}
func (p *sparser) unary() Expr {
	if p.accept("!") {
		return &EUn{"!", p.unary()}
	}
	if p.accept("-") {
		return &EUn{"-", p.unary()}
	}
	if p.accept("*") {
		return &EUn{"*", p.unary()}
	}
	return p.postfix()
}
func (p *sparser) postfix() Expr {
	x := p.prim()
	for {
		if p.accept(".") {
			x = &ESel{x, p.ident()}
		} else if p.accept("[") {
			i := p.expr()
			p.expect("]")
			x = &EIdx{x, i}
		} else {
			return x
		}
	}
}

func (p *sparser) trigs() [][]Expr {
	var out [][]Expr
	for p.is("{") {
		p.next()
		var g []Expr
		for !p.is("}") {
			g = append(g, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		out = append(out, g)
	}
	return out
}

func (p *sparser) prim() Expr {
	t := p.next()
	switch t.k {
	case "num":
		return &ENum{t.s}
	case "str":
		return &EStr{t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	case "id":
		switch t.s {
		case "true":
			return &EBool{true}
		case "false":
			return &EBool{false}
		case "nil":
			return &ENil{}
		case "forall", "exists":
			vs := p.params()
			p.expect("::")
			tr := p.trigs()
			b := p.expr()
			return &EQuant{t.s == "forall", vs, tr, b}
		case "let":
			n := p.ident()
			p.expect("=")
			if p.accept("=") {
				p.fail("let uses =")
			}
			v := p.condx()
			if !p.accept("in") {
				p.fail("expected in")
			}
			return &ELet{n, v, p.expr()}
		}
		if p.is("(") {
			p.next()
			c := &ECall{Fn: t.s}
			switch t.s {
			case "is", "as", "jsontag":
				c.Args = append(c.Args, p.expr())
				p.expect(",")
				c.Ty = p.typ()
				p.expect(")")
				return c
			case "zero", "mem":
				c.Ty = p.typ()
				p.expect(")")
				return c
			case "mk":
				c.Ty = p.typ()
				for p.accept(",") {
					c.Args = append(c.Args, p.expr())
				}
				p.expect(")")
				return c
			}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return c
		}
		return &EIdent{t.s}
	}
	p.p--
	p.fail("unexpected %q", t.s)
	return nil
}

// ---------- files ----------

var specKeywords = map[string]bool{"package": true, "func": true, "extern": true, "requires": true, "ensures": true, "modifies": true,
	"invariant": true, "local": true, "assert": true, "use": true, "inst": true, "opt": true, "pure": true, "rec": true, "ufun": true, "opaque": true,
	"axiom": true, "lemma": true, "theorem": true, "property": true, "decreases": true}

type lline struct {
	text string
	line int
}

func logicalLines(src string) []lline {
	var out []lline
	for i, l := range strings.Split(src, "\n") {
		tr := strings.TrimSpace(l)
		if strings.HasPrefix(tr, "//@") {
			tr = strings.TrimSpace(tr[3:])
			l = tr
		} else if strings.HasPrefix(tr, "//") || tr == "" {
			if len(out) > 0 {
				out[len(out)-1].text += "\n"
			}
			continue
		}
		w := tr
		for j, c := range tr {
			if !(unicode.IsLetter(c)) {
				w = tr[:j]
				break
			}
		}
		if specKeywords[w] {
			out = append(out, lline{l, i + 1})
		} else if len(out) > 0 {
			out[len(out)-1].text += "\n" + l
		} else {
			out = append(out, lline{l, i + 1})
		}
	}
	return out
}

func (p *sparser) clauseHead() (tags, modes []string, label string) {
	for {
		if p.accept("[") {
			for !p.is("]") {
				tags = append(tags, p.next().s)
				p.accept(",")
			}
			p.expect("]")
			continue
		}
		if p.accept("@") {
			modes = append(modes, p.ident())
			continue
		}
		if p.peek().k == "str" && p.t[p.p+1].s == ":" {
			label = p.next().s
			p.next()
			continue
		}
		return
	}
}

func (p *sparser) qualName() string {
	// pkg.Func | pkg.(T).M | pkg.(*T).M | pkg/sub.Func
	s := p.ident()
	for p.accept("/") {
		s += "/" + p.ident()
	}
	for {
		if p.accept(".") {
			if p.accept("(") {
				star := ""
				if p.accept("*") {
					star = "*"
				}
				n := p.ident()
				p.expect(")")
				s += ".(" + star + n + ")"
			} else {
				s += "." + p.ident()
			}
			continue
		}
		break
	}
	for p.accept("$") {
		s += "$" + p.next().s
	}
	return s
}

func (p *sparser) nameList() []string {
	var out []string
	p.expect("(")
	for !p.is(")") {
		out = append(out, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

func parseSpecs(dir string) (sf *SpecFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	sf = &SpecFile{Contracts: map[string]*Contract{}, Funcs: map[string]*SpecFunc{}, Props: map[string]*Property{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		parseSpecFile(sf, filepath.Base(f), string(b))
	}
	return sf, nil
}

func parseSpecFile(sf *SpecFile, file, src string) {
	pkg := ""
	var cur *Contract
	var curAx *Axiom
	for _, ll := range logicalLines(src) {
		toks, _ := lexSpec(ll.text, ll.line)
		p := &sparser{t: toks, file: file}
		kw := p.ident()
		switch kw {
		case "package":
			pkg = p.ident()
		case "property":
			id := p.ident()
			pr := &Property{ID: id}
			for p.peek().k != "eof" {
				k := p.ident()
				p.expect("=")
				for {
					switch k {
					case "roots":
						pr.Funcs = append(pr.Funcs, p.qualName())
					case "lemmas":
						pr.Lemma = append(pr.Lemma, "lemma:"+p.qualName()+"@real")
					case "bounded":
						pr.Bound = append(pr.Bound, p.qualName())
					case "assume":
						pr.Stop = append(pr.Stop, p.qualName())
					case "harness":
						pr.Harn = p.ident()
					case "level":
						pr.Level = p.ident()
					default:
						p.fail("property: unknown %q", k)
					}
					if !p.accept(",") {
						break
					}
				}
			}
			sf.Props[id] = pr
		case "func", "extern":
			c := &Contract{Pkg: pkg, Extern: kw == "extern", File: file, Line: ll.line, Opts: map[string]string{}}
			c.Key = p.qualName()
			c.Params = p.nameList()
			if p.is("(") {
				c.Results = p.nameList()
			}
			if sf.Contracts[c.Key] != nil {
				p.fail("duplicate contract %s", c.Key)
			}
			sf.Contracts[c.Key] = c
			sf.Order = append(sf.Order, c.Key)
			cur = c
			curAx = nil
		case "requires", "ensures", "modifies", "invariant", "assert", "decreases":
			cl := &Clause{File: file, Line: ll.line, Src: strings.TrimSpace(ll.text)}
			cl.Tags, cl.Modes, cl.Label = p.clauseHead()
			for i, m := range cl.Modes {
				if m == "each" {
					cl.Each = true
					cl.Modes = append(cl.Modes[:i:i], cl.Modes[i+1:]...)
					break
				}
			}
			for i, m := range cl.Modes {
				if strings.HasPrefix(m, "nest") {
					cl.Nest = int(m[4] - '0')
					cl.Modes = append(cl.Modes[:i:i], cl.Modes[i+1:]...)
					break
				}
			}
			if curAx != nil && kw == "requires" {
				curAx.Req = append(curAx.Req, p.expr())
				continue
			}
			if curAx != nil && kw == "ensures" {
				tr := p.trigs()
				curAx.Trig = append(curAx.Trig, tr...)
				e := p.expr()
				if curAx.Expr == nil {
					curAx.Expr = e
				} else {
					curAx.Expr = &EBin{"&&", curAx.Expr, e}
				}
				if len(cl.Tags) > 0 {
					curAx.Tags = cl.Tags
				}
				continue
			}
			if cur == nil {
				p.fail("%s outside a contract", kw)
			}
			if kw == "modifies" {
				for {
					cl2 := *cl
					cl2.Expr = p.expr()
					cur.Modifies = append(cur.Modifies, &cl2)
					if !p.accept(",") {
						break
					}
				}
				if p.peek().k != "eof" {
					p.fail("trailing %q", p.peek().s)
				}
				continue
			}
			cl.Expr = p.expr()
			if p.peek().k != "eof" {
				p.fail("trailing %q", p.peek().s)
			}
			if cl.Label == "" {
				s := strings.Join(strings.Fields(cl.Src), " ")
				if len(s) > 60 {
					s = s[:60]
				}
				cl.Label = s
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "invariant":
				cur.Invs = append(cur.Invs, cl)
			case "assert":
				cur.Asserts = append(cur.Asserts, cl)
			case "decreases":
				cur.Decreases = append(cur.Decreases, cl)
			}
		case "local":
			p.t = append(p.t[:len(p.t)-1], tok{"op", ")", ll.line}, tok{"eof", "", ll.line})
			cur.Locals = append(cur.Locals, p.params()...)
		case "use":
			for {
				n := p.ident()
				if curAx != nil {
					curAx.Uses = append(curAx.Uses, n)
				} else {
					cur.Uses = append(cur.Uses, n)
				}
				if !p.accept(",") {
					break
				}
			}
		case "inst":
			cl := &Clause{File: file, Line: ll.line, Src: strings.TrimSpace(ll.text)}
			cl.Tags, cl.Modes, cl.Label = p.clauseHead()
			cl.Expr = p.expr()
			b := cl.Expr
			if q, ok := b.(*EQuant); ok && q.All {
				b = q.Body
			}
			if _, ok := b.(*ECall); !ok {
				p.fail("inst takes a lemma applied to arguments")
			}
			if curAx != nil {
				curAx.Insts = append(curAx.Insts, cl)
			} else {
				cur.Insts = append(cur.Insts, cl)
			}
		case "opt":
			k := p.ident()
			v := "true"
			if p.accept("=") {
				v = p.next().s
			}
			cur.Opts[k] = v
		case "pure", "rec", "ufun", "opaque":
			s := &SpecFunc{Pkg: pkg, Kind: kw, File: file, Line: ll.line}
			for p.accept("@") {
				s.Modes = append(s.Modes, p.ident())
			}
			s.Name = p.ident()
			p.expect("(")
			s.Params = p.params()
			p.expect(")")
			s.Ret = p.typ()
			if p.accept("=") {
				s.Body = p.expr()
			}
			if p.peek().k != "eof" {
				p.fail("trailing %q", p.peek().s)
			}
			name := s.Name
			if d := sf.Funcs[name]; d != nil && len(s.Modes) == 0 {
				p.fail("%s is defined twice", name)
			}
			if len(s.Modes) > 0 {
				for _, m := range s.Modes {
					sf.Funcs[name+"@"+m] = s
				}
			} else {
				sf.Funcs[name] = s
			}
			if kw == "opaque" {
				// an uninterpreted function, with its definition as a fact NAME_def to be asked for
				if s.Body == nil || mentions(s.Body, name) {
					p.fail("bad opaque function")
				}
				for n, f := range sf.Funcs {
					if f.Kind == "ufun" && f.Body != nil && f != s && n != name && mentions(f.Body, name) {
						p.fail("%s is used before its definition", name)
					}
				}
				s.Kind = "ufun"
				app := &ECall{Fn: s.Name}
				for _, q := range s.Params {
					app.Args = append(app.Args, &EIdent{Name: q.Name})
				}
				sf.Axioms = append(sf.Axioms, &Axiom{Pkg: pkg, Kind: "def", Name: s.Name + "_def", Modes: s.Modes, Vars: s.Params,
					Expr: &EBin{Op: "===", X: app, Y: s.Body}, Trig: [][]Expr{{app}}, Src: strings.TrimSpace(ll.text), File: file, Line: ll.line})
			}
			cur, curAx = nil, nil
		case "axiom", "theorem", "lemma":
			a := &Axiom{Pkg: pkg, Kind: kw, File: file, Line: ll.line, Src: strings.Join(strings.Fields(ll.text), " ")}
			for {
				if p.accept("@") {
					a.Modes = append(a.Modes, p.ident())
					continue
				}
				if p.accept("!") {
					a.Auto = true
					continue
				}
				break
			}
			a.Name = p.ident()
			if p.accept("(") {
				a.Vars = p.params()
				p.expect(")")
			}
			if p.accept("induction") {
				a.Ind = p.ident()
				if a.Ind == "all" {
					a.Ind, a.General = p.ident(), true
					if p.accept("then") {
						a.Ind2 = p.ident()
					}
				}
			}
			if p.accept("limited") {
				a.Limited = true
			}
			if p.accept(":") {
				a.Expr = p.expr()
			}
			if p.peek().k != "eof" {
				p.fail("trailing %q", p.peek().s)
			}
			sf.Axioms = append(sf.Axioms, a)
			curAx = a
			cur = nil
		default:
			p.fail("unknown keyword %q", kw)
		}
	}
}

func (sf *SpecFile) axiom(n string) *Axiom {
	for _, a := range sf.Axioms {
		if a.Name == n {
			return a
		}
	}
	return nil
}
