package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- lexer ----
type tok struct {
	k string // id, int, str, op, eof
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("bad string %s", s[i:j+1])
			}
			out = append(out, tok{"str", v})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '_' || c == '$' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= '0' && s[j] <= '9' || unicode.IsLetter(rune(s[j]))) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":=", "&^"}
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m})
			i += len(m)
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

// ---- AST ----
type Expr struct {
	Op   string // lit-int lit-str id call field index un bin ite quant let type
	S    string
	A    []*Expr
	Vars []VarDecl2
	Pats [][]*Expr
}
type VarDecl2 struct{ Name, Type string }

type parser2 struct {
	t []tok
	p int
}

func (p *parser2) peek() tok { return p.t[p.p] }
func (p *parser2) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser2) isOp(s string) bool {
	return p.t[p.p].k == "op" && p.t[p.p].s == s
}
func (p *parser2) accept(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser2) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Errorf("expected %q, found %q near %s", s, p.peek().s, p.near()))
	}
}
func (p *parser2) near() string {
	var sb strings.Builder
	for i := max(0, p.p-6); i < len(p.t) && i < p.p+6; i++ {
		if i == p.p {
			sb.WriteString(" >>> ")
		}
		sb.WriteString(p.t[i].s + " ")
	}
	return sb.String()
}

func parseExpr(s string) (e *Expr, err error) {
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser2{t: ts}
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = fmt.Errorf("%v in %q", er, s)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing input near %s", p.near())
	}
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7}

func (p *parser2) expr(min int) *Expr {
	if p.peek().k == "id" {
		switch p.peek().s {
		case "forall", "exists":
			q := p.next().s
			e := &Expr{Op: "quant", S: q}
			for {
				n := p.next().s
				names := []string{n}
				ty := ""
				for p.accept(",") { // a, b T
					names = append(names, p.next().s)
				}
				ty = p.typ()
				for _, x := range names {
					e.Vars = append(e.Vars, VarDecl2{x, ty})
				}
				if p.accept(";") {
					continue
				}
				break
			}
			for p.accept("{") {
				var pat []*Expr
				for {
					pat = append(pat, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				e.Pats = append(e.Pats, pat)
			}
			p.expect("::")
			e.A = []*Expr{p.expr(0)}
			return e
		case "if":
			p.next()
			c := p.expr(0)
			if p.next().s != "then" {
				panic(fmt.Errorf("expected then near %s", p.near()))
			}
			a := p.expr(0)
			if p.next().s != "else" {
				panic(fmt.Errorf("expected else near %s", p.near()))
			}
			b := p.expr(0)
			return &Expr{Op: "ite", A: []*Expr{c, a, b}}
		case "let":
			p.next()
			n := p.next().s
			p.expect(":=")
			v := p.expr(0)
			p.expect(";")
			b := p.expr(0)
			return &Expr{Op: "let", S: n, A: []*Expr{v, b}}
		}
	}
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < min || pr == 0 {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{Op: "bin", S: t.s, A: []*Expr{l, r}}
	}
}

func (p *parser2) unary() *Expr {
	if p.accept("!") {
		return &Expr{Op: "un", S: "!", A: []*Expr{p.unary()}}
	}
	if p.accept("-") {
		return &Expr{Op: "un", S: "-", A: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *parser2) postfix() *Expr {
	t := p.next()
	var e *Expr
	switch {
	case t.k == "int":
		e = &Expr{Op: "lit-int", S: t.s}
	case t.k == "str":
		e = &Expr{Op: "lit-str", S: t.s}
	case t.k == "id":
		if t.s == "forall" || t.s == "exists" || t.s == "if" || t.s == "let" {
			p.p--
			return p.expr(0)
		}
		e = &Expr{Op: "id", S: t.s}
		if (t.s == "is" || t.s == "as" || t.s == "box" || t.s == "rec" || t.s == "kindof" || t.s == "zero" || t.s == "ptr") && p.isOp("(") {
			// forms with a type argument
			p.next()
			c := &Expr{Op: "call", S: t.s}
			if t.s == "is" || t.s == "as" || t.s == "ptr" {
				c.A = append(c.A, p.expr(0))
				p.expect(",")
				c.A = append(c.A, &Expr{Op: "type", S: p.typ()})
			} else {
				c.A = append(c.A, &Expr{Op: "type", S: p.typ()})
				for p.accept(",") {
					c.A = append(c.A, p.expr(0))
				}
			}
			p.expect(")")
			e = c
		}
	case t.s == "(":
		e = p.expr(0)
		p.expect(")")
	default:
		panic(fmt.Errorf("unexpected %q near %s", t.s, p.near()))
	}
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "field", S: p.next().s, A: []*Expr{e}}
		case p.accept("["):
			i := p.expr(0)
			p.expect("]")
			e = &Expr{Op: "index", A: []*Expr{e, i}}
		case p.isOp("(") && (e.Op == "id" || e.Op == "field" && e.A[0].Op == "id"):
			p.next()
			c := &Expr{Op: "call", S: e.S}
			if e.Op == "field" {
				c.S = e.A[0].S + "." + e.S
			}
			for !p.isOp(")") {
				c.A = append(c.A, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

// typ reads a type: * [] id . id
func (p *parser2) typ() string {
	s := ""
	for {
		if p.accept("*") {
			s += "*"
		} else if p.isOp("[") {
			p.next()
			p.expect("]")
			s += "[]"
		} else {
			break
		}
	}
	t := p.next()
	if t.k != "id" {
		panic(fmt.Errorf("type expected near %s", p.near()))
	}
	s += t.s
	if p.isOp(".") && p.t[p.p+1].k == "id" {
		p.next()
		s += "." + p.next().s
	}
	return s
}

// ---- spec files ----
type Clause struct {
	Label string
	Props []string // nil: every property
	E     *Expr
	Src   string
	On    string
}

type Contract struct {
	Key       string // function key or Iface.Method
	Kind      string // func, iface, ext
	Params    []string
	Props     []string
	Requires  []*Clause
	Ensures   []*Clause
	PanicIf   []*Clause // disjunction
	MayPanic  bool
	Modifies  []*Clause
	Decreases *Clause
	Invs      []*Inv
	Facts     []*Clause // asserted (proved) at returns before the ensures
	Trusted   bool
	Inline    bool
	InlineClo bool // taken in with its body where it is handed a known closure
	Effects   bool // frame only, by the effect analysis of writes.go
	Rank      int
	EnsPanic  []*Clause
	File      string
	Cases     []*Expr
	Pure      bool
	Ghosts    []VarDecl2
	used      bool
	Refs      bool
	Variants  []*Inv
	Term      bool // every loop must be shown to end
	TermProps []string
}

type Inv struct {
	Holes []VarDecl2
	E     *Expr
	Src   string
	Props []string
}

type SpecFn struct {
	Name   string
	Params []VarDecl2
	Ret    string
	Heap   bool
	Body   *Expr // for pred/def
}

type Axiom struct {
	Name    string
	E       *Expr
	Src     string
	Trusted string // "" definitional, else reason class
	Lemma   bool
	Using   []string // hypotheses for lemma proofs
	Induct  string
	File    string
}

type Spec struct {
	Sorts     []string
	Fns       map[string]*SpecFn
	FnOrder   []string
	Preds     map[string]*SpecFn
	Axioms    []*Axiom
	Contracts map[string]*Contract
	Order     []string
	TypeHeap  []string
	Globals   []*Clause
}

var clauseKW = map[string]bool{"props": true, "requires": true, "ensures": true, "panics_if": true, "may_panic": true, "modifies": true,
	"decreases": true, "inv": true, "trusted": true, "inline": true, "effects": true, "ensures_panic": true, "fact": true, "case": true, "pure": true, "ghost": true, "variant": true, "terminates": true}

var topKW = map[string]bool{"sort": true, "fn": true, "heapfn": true, "pred": true, "axiom": true, "lemma": true, "func": true, "iface": true, "ext": true, "typeheap": true, "global": true}

func firstWord(l string) string {
	l = strings.TrimSpace(l)
	i := 0
	for i < len(l) && (l[i] == '_' || l[i] >= 'a' && l[i] <= 'z') {
		i++
	}
	return l[:i]
}

func loadSpecs(dir string) (*Spec, error) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	sp := &Spec{Fns: map[string]*SpecFn{}, Preds: map[string]*SpecFn{}, Contracts: map[string]*Contract{}}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		text, on := onlyFor(string(b))
		if !on {
			continue
		}
		if err := sp.parse(filepath.Base(f), text); err != nil {
			return nil, fmt.Errorf("%s: %v", filepath.Base(f), err)
		}
	}
	return sp, nil
}

// curProp is the property being checked: a file that starts with "only Cxx..." is
// read for those properties alone.
var curProp string

func onlyFor(text string) (string, bool) {
	if !strings.HasPrefix(text, "only ") {
		return text, true
	}
	l := text
	if i := strings.Index(text, "\n"); i >= 0 {
		l, text = text[:i], text[i:]
	}
	for _, p := range strings.Fields(l)[1:] {
		if p == curProp {
			return text, true
		}
	}
	return "", false
}

func (sp *Spec) parse(file, text string) error {
	// group into items: a top-level line (no indent) and its indented lines
	var items [][]string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if l[0] != ' ' && l[0] != '\t' {
			items = append(items, []string{l})
		} else {
			if len(items) == 0 {
				return fmt.Errorf("indented line before any item: %s", l)
			}
			items[len(items)-1] = append(items[len(items)-1], l)
		}
	}
	for _, it := range items {
		kw := firstWord(it[0])
		if !topKW[kw] {
			return fmt.Errorf("unknown item %q", it[0])
		}
		rest := strings.TrimSpace(strings.TrimSpace(it[0])[len(kw):])
		var err error
		switch kw {
		case "func", "iface", "ext":
			err = sp.parseContract(file, kw, rest, it[1:])
		default:
			whole := rest
			for _, l := range it[1:] {
				whole += "\n" + l
			}
			err = sp.parseTop(file, kw, whole)
		}
		if err != nil {
			return fmt.Errorf("%v (in item %q)", err, it[0])
		}
	}
	return nil
}

// splitProps reads an optional [C01 C02] prefix.
func splitProps(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		return strings.Fields(s[1:j]), strings.TrimSpace(s[j+1:])
	}
	return nil, s
}

func splitLabel(s string) (string, string) {
	// label: expr   (label is a word with - allowed, followed by ": ")
	j := strings.Index(s, ":")
	if j > 0 && j+1 < len(s) && s[j+1] != ':' && s[j+1] != '=' {
		lab := s[:j]
		ok := true
		for _, r := range lab {
			if !(r == '-' || r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r)) {
				ok = false
			}
		}
		if ok {
			return lab, strings.TrimSpace(s[j+1:])
		}
	}
	return "", s
}

func parseParams(s string) ([]VarDecl2, error) {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil, nil
	}
	var out []VarDecl2
	var pend []string
	for _, p := range strings.Split(s, ",") {
		f := strings.Fields(p)
		switch len(f) {
		case 1:
			pend = append(pend, f[0])
		case 2:
			for _, n := range pend {
				out = append(out, VarDecl2{n, f[1]})
			}
			pend = nil
			out = append(out, VarDecl2{f[0], f[1]})
		default:
			return nil, fmt.Errorf("bad parameter %q", p)
		}
	}
	for _, n := range pend {
		out = append(out, VarDecl2{n, ""})
	}
	return out, nil
}

func (sp *Spec) parseTop(file, kw, s string) error {
	switch kw {
	case "sort":
		for _, f := range strings.Fields(s) {
			sp.Sorts = append(sp.Sorts, f)
		}
	case "typeheap":
		sp.TypeHeap = append(sp.TypeHeap, strings.Fields(s)...)
	case "fn", "heapfn", "pred":
		i := strings.Index(s, "(")
		j := strings.Index(s, ")")
		if i < 0 || j < 0 {
			return fmt.Errorf("bad declaration")
		}
		ps, err := parseParams(s[i+1 : j])
		if err != nil {
			return err
		}
		f := &SpecFn{Name: strings.TrimSpace(s[:i]), Params: ps, Heap: kw == "heapfn"}
		rest := strings.TrimSpace(s[j+1:])
		if kw == "pred" {
			rest = strings.TrimSpace(strings.TrimPrefix(rest, "="))
			f.Body, err = parseExpr(rest)
			if err != nil {
				return err
			}
			sp.Preds[f.Name] = f
		} else {
			f.Ret = rest
			sp.Fns[f.Name] = f
			sp.FnOrder = append(sp.FnOrder, f.Name)
		}
	case "axiom", "lemma":
		a := &Axiom{Lemma: kw == "lemma", File: file}
		if strings.HasPrefix(s, "trusted(") {
			j := strings.Index(s, ")")
			a.Trusted = s[8:j]
			s = strings.TrimSpace(s[j+1:])
		}
		if strings.HasPrefix(s, "induct(") {
			j, d := 7, 1
			for ; j < len(s); j++ {
				if s[j] == '(' {
					d++
				} else if s[j] == ')' {
					if d--; d == 0 {
						break
					}
				}
			}
			if j == len(s) {
				return fmt.Errorf("unbalanced induct(")
			}
			a.Induct = s[7:j]
			s = strings.TrimSpace(s[j+1:])
		}
		for strings.HasPrefix(s, "hint(") {
			j, d := 5, 1
			for ; j < len(s); j++ {
				if s[j] == '(' {
					d++
				} else if s[j] == ')' {
					if d--; d == 0 {
						break
					}
				}
			}
			if j == len(s) {
				return fmt.Errorf("unbalanced hint(")
			}
			a.Using = append(a.Using, s[5:j])
			s = strings.TrimSpace(s[j+1:])
		}
		a.Name, s = splitLabel(s)
		e, err := parseExpr(s)
		if err != nil {
			return err
		}
		a.E, a.Src = e, s
		sp.Axioms = append(sp.Axioms, a)
	case "global":
		pr, s := splitProps(s)
		lab, s := splitLabel(s)
		e, err := parseExpr(s)
		if err != nil {
			return err
		}
		sp.Globals = append(sp.Globals, &Clause{Label: lab, Props: pr, E: e, Src: s})
	}
	return nil
}

func (sp *Spec) parseContract(file, kw, head string, lines []string) error {
	i := strings.Index(head, "(")
	j := strings.LastIndex(head, ")")
	if i < 0 || j < 0 {
		return fmt.Errorf("bad contract header")
	}
	c := &Contract{Key: strings.TrimSpace(head[:i]), Kind: kw, File: file}
	for _, p := range strings.Split(head[i+1:j], ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.Params = append(c.Params, p)
		}
	}
	// group clauses
	var cl []string
	for _, l := range lines {
		if clauseKW[firstWord(l)] {
			cl = append(cl, strings.TrimSpace(l))
		} else {
			if len(cl) == 0 {
				return fmt.Errorf("bad clause %q", l)
			}
			cl[len(cl)-1] += "\n" + l
		}
	}
	for _, s := range cl {
		kw := firstWord(s)
		rest := strings.TrimSpace(s[len(kw):])
		mk := func() (*Clause, error) {
			pr, r := splitProps(rest)
			lab, r := splitLabel(r)
			e, err := parseExpr(r)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", c.Key, err)
			}
			return &Clause{Label: lab, Props: pr, E: e, Src: strings.Join(strings.Fields(r), " ")}, nil
		}
		switch kw {
		case "props":
			c.Props = strings.Fields(rest)
		case "may_panic":
			c.MayPanic = true
		case "trusted":
			c.Trusted = true
		case "inline":
			if rest == "closures" {
				c.InlineClo = true
			} else {
				c.Inline = true
			}
		case "effects":
			c.Effects, c.MayPanic = true, true
		case "pure":
			c.Pure = true
		case "ghost":
			ps, err := parseParams(rest)
			if err != nil {
				return err
			}
			c.Ghosts = append(c.Ghosts, ps...)
		case "terminates":
			c.Term = true
			c.TermProps, _ = splitProps2(rest)
		case "inv", "variant":
			pr, r := splitProps2(rest)
			inv := &Inv{Props: pr}
			for strings.HasPrefix(r, "[") {
				j, d := 0, 0
				for ; j < len(r); j++ {
					if r[j] == '[' {
						d++
					} else if r[j] == ']' {
						if d--; d == 0 {
							break
						}
					}
				}
				if j == len(r) {
					return fmt.Errorf("unbalanced hole in %q", r)
				}
				f := strings.Fields(r[1:j])
				if len(f) != 2 {
					return fmt.Errorf("bad hole %q", r[1:j])
				}
				inv.Holes = append(inv.Holes, VarDecl2{f[0], f[1]})
				r = strings.TrimSpace(r[j+1:])
			}
			e, err := parseExpr(r)
			if err != nil {
				return fmt.Errorf("%s inv: %v", c.Key, err)
			}
			inv.E, inv.Src = e, strings.Join(strings.Fields(r), " ")
			if kw == "variant" {
				c.Variants = append(c.Variants, inv)
			} else {
				c.Invs = append(c.Invs, inv)
			}
		case "modifies":
			for _, part := range splitTop(rest) {
				e, err := parseExpr(part)
				if err != nil {
					return err
				}
				c.Modifies = append(c.Modifies, &Clause{E: e, Src: part})
			}
		case "case":
			e, err := parseExpr(rest)
			if err != nil {
				return err
			}
			c.Cases = append(c.Cases, e)
		default:
			x, err := mk()
			if err != nil {
				return err
			}
			switch kw {
			case "requires":
				c.Requires = append(c.Requires, x)
			case "ensures":
				c.Ensures = append(c.Ensures, x)
			case "ensures_panic":
				c.EnsPanic = append(c.EnsPanic, x)
			case "fact":
				c.Facts = append(c.Facts, x)
			case "panics_if":
				c.PanicIf = append(c.PanicIf, x)
			case "decreases":
				c.Decreases = x
			}
		}
	}
	if sp.Contracts[c.Key] != nil {
		return fmt.Errorf("duplicate contract %s", c.Key)
	}
	sp.Contracts[c.Key] = c
	sp.Order = append(sp.Order, c.Key)
	return nil
}

// splitProps2 only accepts property ids, so that holes are not confused with them.
func splitProps2(s string) ([]string, string) {
	if strings.HasPrefix(s, "[C") && len(s) > 3 && unicode.IsDigit(rune(s[2])) {
		return splitProps(s)
	}
	return nil, strings.TrimSpace(s)
}

func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i, r := range s {
		switch r {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		out = append(out, t)
	}
	return out
}
