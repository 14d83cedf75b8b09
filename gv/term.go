package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is the text of an SMT-LIB sort.
type Sort = string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "String"
	SRef   Sort = "Ref"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	STrace Sort = "Trace"
)

func SArr(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type Kind int

const (
	KApp Kind = iota
	KInt
	KStr
	KForall
	KExists
	KBound // bound variable
)

// Term is a hash-consed SMT term.
type Term struct {
	K    Kind
	Op   string // function symbol; for KInt/KStr the literal; for bound vars the name
	Args []*Term
	Sort Sort
	// quantifiers
	Vars []*Term
	Pats [][]*Term
	id   int
	free bool // contains a bound variable
}

var (
	termTab = map[string]*Term{}
	termCnt int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.K)))
	sb.WriteByte('|')
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, v := range t.Vars {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(v.id))
	}
	for _, p := range t.Pats {
		sb.WriteByte('/')
		for _, q := range p {
			sb.WriteByte('.')
			sb.WriteString(strconv.Itoa(q.id))
		}
	}
	key := sb.String()
	if x, ok := termTab[key]; ok {
		return x
	}
	termCnt++
	t.id = termCnt
	t.free = t.K == KBound
	for _, a := range t.Args {
		if a.free {
			t.free = true
		}
	}
	termTab[key] = t
	return t
}

func App(op string, sort Sort, args ...*Term) *Term {
	return intern(&Term{K: KApp, Op: op, Args: args, Sort: sort})
}
func IntT(n int64) *Term { return intern(&Term{K: KInt, Op: strconv.FormatInt(n, 10), Sort: SInt}) }
func StrT(s string) *Term {
	return intern(&Term{K: KStr, Op: s, Sort: SStr})
}
func BoundT(name string, s Sort) *Term { return intern(&Term{K: KBound, Op: name, Sort: s}) }

var (
	True  = App("true", SBool)
	False = App("false", SBool)
	Null  = App("null", SRef)
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// consts: every declared constant (0-ary, non builtin)
var constCnt int
var declared = map[string]declInfo{}

type declInfo struct {
	args []Sort
	ret  Sort
}

func FreshName(hint string) string {
	constCnt++
	return fmt.Sprintf("%s!%d", mangle(hint), constCnt)
}

func Const(name string, s Sort) *Term {
	declared[name] = declInfo{nil, s}
	return App(name, s)
}

func Fresh(hint string, s Sort) *Term { return Const(FreshName(hint), s) }

// Fn declares and applies an uninterpreted function.
func Fn(name string, ret Sort, args ...*Term) *Term {
	if _, ok := declared[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.Sort)
		}
		declared[name] = declInfo{as, ret}
	}
	return App(name, ret, args...)
}

func mangle(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$':
			sb.WriteRune(r)
		case r == '*':
			sb.WriteString("P_")
		case r == '/':
			sb.WriteRune('.')
		default:
			sb.WriteRune('_')
		}
	}
	return sb.String()
}

// ---- datatypes registry ----
type ctorInfo struct {
	name string
	sort Sort
	sels []string
	srts []Sort
}

var ctors = map[string]*ctorInfo{}
var selOf = map[string]struct {
	c *ctorInfo
	i int
}{}
var sortCtors = map[Sort][]*ctorInfo{}

func regCtor(c *ctorInfo) {
	ctors[c.name] = c
	for i, s := range c.sels {
		selOf[s] = struct {
			c *ctorInfo
			i int
		}{c, i}
	}
	sortCtors[c.sort] = append(sortCtors[c.sort], c)
}

func Ctor(name string, args ...*Term) *Term {
	c := ctors[name]
	if c == nil {
		panic("unknown constructor " + name)
	}
	// eta: C(sel0(x),...,seln(x)) for single-constructor sorts is x
	if len(sortCtors[c.sort]) == 1 && len(args) > 0 {
		var base *Term
		ok := true
		for i, a := range args {
			if a.K == KApp && a.Op == c.sels[i] && len(a.Args) == 1 && (base == nil || base == a.Args[0]) {
				base = a.Args[0]
			} else {
				ok = false
				break
			}
		}
		if ok && base != nil {
			return base
		}
	}
	for i, a := range args {
		if a.Sort != c.srts[i] {
			panic(fmt.Sprintf("ctor %s arg %d: sort %s want %s", name, i, a.Sort, c.srts[i]))
		}
	}
	return App(name, c.sort, args...)
}

func Sel(sel string, x *Term) *Term {
	si, ok := selOf[sel]
	if !ok {
		panic("unknown selector " + sel)
	}
	if x.K == KApp && x.Op == si.c.name && len(x.Args) > 0 {
		return x.Args[si.i]
	}
	if x.K == KApp && x.Op == "ite" {
		a, b := x.Args[1], x.Args[2]
		if isCtorApp(a) || isCtorApp(b) {
			return Ite(x.Args[0], Sel(sel, a), Sel(sel, b))
		}
	}
	return App(sel, si.c.srts[si.i], x)
}

func isCtorApp(x *Term) bool {
	if x.K != KApp {
		return false
	}
	_, ok := ctors[x.Op]
	return ok
}

func Is(ctor string, x *Term) *Term {
	if isCtorApp(x) {
		return BoolT(x.Op == ctor)
	}
	c := ctors[ctor]
	if c == nil {
		panic("unknown ctor " + ctor)
	}
	if len(sortCtors[c.sort]) == 1 {
		return True
	}
	if x.K == KApp && x.Op == "ite" {
		return Ite(x.Args[0], Is(ctor, x.Args[1]), Is(ctor, x.Args[2]))
	}
	return App("(_ is "+ctor+")", SBool, x)
}

// ---- boolean ----
func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.K == KApp && a.Op == "not":
		return a.Args[0]
	}
	return App("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == nil || a == True {
			continue
		}
		if a == False {
			return False
		}
		if a.K == KApp && a.Op == "and" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if seen[Not(a)] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == nil || a == False {
			continue
		}
		if a == True {
			return True
		}
		if a.K == KApp && a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if seen[Not(a)] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return App("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return App("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return App("ite", a.Sort, c, a, b)
}

func isLit(t *Term) bool { return t.K == KInt || t.K == KStr || t == True || t == False }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sorts differ: %s : %s  vs  %s : %s", a, a.Sort, b, b.Sort))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isCtorApp(a) && isCtorApp(b) {
		if a.Op != b.Op {
			return False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Sort == SRef && distinctRefs(a, b, true) {
		return False
	}
	if a.Sort == SInt {
		if x, c1 := splitOff(a); true {
			y, c2 := splitOff(b)
			if x == y {
				return BoolT(c1 == c2)
			}
		}
	}
	if a.K == KApp && a.Op == "ite" && isLit(b) {
		if isLit(a.Args[1]) || isLit(a.Args[2]) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
	}
	if b.K == KApp && b.Op == "ite" && isLit(a) {
		return Eq(b, a)
	}
	if a.Sort == SStr {
		if r := strEq(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

// strEq strips common prefixes and suffixes of concatenations.
func strEq(a, b *Term) *Term {
	pa, pb := strParts(a), strParts(b)
	n := 0
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			n++
			continue
		}
		if pa[0].K == KStr && pb[0].K == KStr {
			x, y := pa[0].Op, pb[0].Op
			if strings.HasPrefix(x, y) {
				pa = append([]*Term{StrT(x[len(y):])}, pa[1:]...)
				pb = pb[1:]
				n++
				continue
			}
			if strings.HasPrefix(y, x) {
				pb = append([]*Term{StrT(y[len(x):])}, pb[1:]...)
				pa = pa[1:]
				n++
				continue
			}
			return False
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		i, j := len(pa)-1, len(pb)-1
		if pa[i] == pb[j] {
			pa, pb = pa[:i], pb[:j]
			n++
			continue
		}
		if pa[i].K == KStr && pb[j].K == KStr {
			x, y := pa[i].Op, pb[j].Op
			if strings.HasSuffix(x, y) {
				pa = append(append([]*Term{}, pa[:i]...), StrT(x[:len(x)-len(y)]))
				pb = pb[:j]
				n++
				continue
			}
			if strings.HasSuffix(y, x) {
				pb = append(append([]*Term{}, pb[:j]...), StrT(y[:len(y)-len(x)]))
				pa = pa[:i]
				n++
				continue
			}
			return False
		}
		break
	}
	if n == 0 {
		return nil
	}
	ca, cb := Concat(pa...), Concat(pb...)
	if ca == cb {
		return True
	}
	if isLit(ca) && isLit(cb) {
		return False
	}
	if ca.id > cb.id {
		ca, cb = cb, ca
	}
	return App("=", SBool, ca, cb)
}

func strParts(a *Term) []*Term {
	if a.K == KApp && a.Op == "str.++" {
		return append([]*Term{}, a.Args...)
	}
	if a.K == KStr && a.Op == "" {
		return nil
	}
	return []*Term{a}
}

func Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range strParts(a) {
			if len(out) > 0 && p.K == KStr && out[len(out)-1].K == KStr {
				out[len(out)-1] = StrT(out[len(out)-1].Op + p.Op)
				continue
			}
			if p.K == KStr && p.Op == "" {
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return StrT("")
	case 1:
		return out[0]
	}
	return App("str.++", SStr, out...)
}

func StrLen(a *Term) *Term {
	if a.K == KStr {
		return IntT(int64(len(a.Op)))
	}
	if a.K == KApp && a.Op == "str.++" {
		var xs []*Term
		for _, p := range a.Args {
			xs = append(xs, StrLen(p))
		}
		return Add(xs...)
	}
	return App("str.len", SInt, a)
}

// ---- integers ----
func intVal(t *Term) (int64, bool) {
	if t.K == KInt {
		n, _ := strconv.ParseInt(t.Op, 10, 64)
		return n, true
	}
	return 0, false
}

// splitOff writes t as x + c.
func splitOff(t *Term) (*Term, int64) {
	if n, ok := intVal(t); ok {
		return IntT(0), n
	}
	if t.K == KApp && t.Op == "+" && len(t.Args) == 2 {
		if n, ok := intVal(t.Args[1]); ok {
			return t.Args[0], n
		}
	}
	return t, 0
}

func Add(as ...*Term) *Term {
	var sum int64
	var rest []*Term
	for _, a := range as {
		if n, ok := intVal(a); ok {
			sum += n
			continue
		}
		if a.K == KApp && a.Op == "+" {
			for _, b := range a.Args {
				if n, ok := intVal(b); ok {
					sum += n
				} else {
					rest = append(rest, b)
				}
			}
			continue
		}
		rest = append(rest, a)
	}
	if len(rest) == 0 {
		return IntT(sum)
	}
	var base *Term
	if len(rest) == 1 {
		base = rest[0]
	} else {
		sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
		base = App("+", SInt, rest...)
	}
	if sum == 0 {
		return base
	}
	if len(rest) > 1 {
		return App("+", SInt, append(append([]*Term{}, rest...), IntT(sum))...)
	}
	return App("+", SInt, base, IntT(sum))
}

func Sub(a, b *Term) *Term {
	if n, ok := intVal(b); ok {
		return Add(a, IntT(-n))
	}
	if a == b {
		return IntT(0)
	}
	x, c := splitOff(a)
	y, d := splitOff(b)
	if x == y {
		return IntT(c - d)
	}
	return App("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 {
		return IntT(x * y)
	}
	return App("*", SInt, a, b)
}

func Lt(a, b *Term) *Term {
	x, c := splitOff(a)
	y, d := splitOff(b)
	if x == y {
		return BoolT(c < d)
	}
	return App("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	x, c := splitOff(a)
	y, d := splitOff(b)
	if x == y {
		return BoolT(c <= d)
	}
	return App("<=", SBool, a, b)
}

// ---- arrays ----
func Store(a, i, v *Term) *Term {
	if a.K == KApp && a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return App("store", a.Sort, a, i, v)
}

func Select(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	for a.K == KApp && a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if Eq(a.Args[1], i) == False || i.Sort == SRef && distinctRefs(a.Args[1], i, false) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.K == KApp && a.Op == "constarr" {
		return a.Args[0]
	}
	if a.K == KApp && a.Op == "ite" {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return App("select", v, a, i)
}

// ---- quantifiers ----
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	return mkQuant(KForall, vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	return mkQuant(KExists, vars, body, pats)
}
func mkQuant(k Kind, vars []*Term, body *Term, pats [][]*Term) *Term {
	op := "forall"
	if k == KExists {
		op = "exists"
	}
	t := &Term{K: k, Op: op, Args: []*Term{body}, Sort: SBool, Vars: vars, Pats: pats}
	t = intern(t)
	// recompute free: bound variables other than vars
	t.free = hasFree(t, map[*Term]bool{})
	return t
}

func hasFree(t *Term, bound map[*Term]bool) bool {
	switch t.K {
	case KBound:
		return !bound[t]
	case KForall, KExists:
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.Vars {
			nb[v] = true
		}
		return hasFree(t.Args[0], nb)
	}
	if !t.free {
		return false
	}
	for _, a := range t.Args {
		if hasFree(a, bound) {
			return true
		}
	}
	return false
}

// Subst replaces subterms (bound variables or constants) and re-simplifies.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.K {
	case KForall, KExists:
		b := subst(t.Args[0], m, memo)
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, subst(x, m, memo))
			}
			ps = append(ps, q)
		}
		if t.K == KForall {
			r = Forall(t.Vars, b, ps...)
		} else {
			r = Exists(t.Vars, b, ps...)
		}
	case KApp:
		if len(t.Args) == 0 {
			r = t
			break
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = subst(a, m, memo)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, args)
		}
	default:
		r = t
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "str.++":
		return Concat(args...)
	case "str.len":
		return StrLen(args[0])
	case "+":
		return Add(args...)
	case "-":
		return Sub(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	if strings.HasPrefix(t.Op, "(_ is ") {
		return Is(t.Op[6:len(t.Op)-1], args[0])
	}
	if _, ok := ctors[t.Op]; ok {
		return Ctor(t.Op, args...)
	}
	if _, ok := selOf[t.Op]; ok {
		return Sel(t.Op, args[0])
	}
	return App(t.Op, t.Sort, args...)
}

func (t *Term) String() string {
	s := smtText(t)
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func smtLitStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&sb, "\\u{%x}", c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func smtSym(s string) string {
	if strings.HasPrefix(s, "(") {
		return s
	}
	return s
}

func smtText(t *Term) string {
	var sb strings.Builder
	writeTerm(&sb, t, nil)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, named map[*Term]string) {
	if named != nil {
		if n, ok := named[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	writeTermBody(sb, t, named)
}

func writeTermBody(sb *strings.Builder, t *Term, named map[*Term]string) {
	switch t.K {
	case KInt:
		if strings.HasPrefix(t.Op, "-") {
			sb.WriteString("(- " + t.Op[1:] + ")")
		} else {
			sb.WriteString(t.Op)
		}
	case KStr:
		sb.WriteString(smtLitStr(t.Op))
	case KBound:
		sb.WriteString(t.Op)
	case KForall, KExists:
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + v.Op + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.Args[0], named)
		for _, p := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				writeTerm(sb, x, named)
			}
			sb.WriteString(")")
		}
		if len(t.Pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if len(t.Args) == 0 {
			sb.WriteString(t.Op)
			return
		}
		sb.WriteByte('(')
		if t.Op == "constarr" {
			sb.WriteString("(as const " + t.Sort + ")")
		} else {
			sb.WriteString(t.Op)
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			writeTerm(sb, a, named)
		}
		sb.WriteByte(')')
	}
}

// ---- references ----
// Allocation epochs: epoch e has an integer constant n!e; along a path these
// grow.  birth[c] = e means that every object root reachable as a value through
// constant c is below n!e.  A newly allocated object is base(L!k) for a fresh
// integer L!k.  Until it is "sealed" (its address becomes visible to memory or
// to a callee) L!k lies above every n; sealing at epoch s puts it below n!s
// while it stays above n!e for every e < s.

var birth = map[string]int{}
var epochOf = map[string]int{}
var epochCnt int

func NewEpoch() *Term {
	epochCnt++
	n := fmt.Sprintf("n!%d", epochCnt)
	epochOf[n] = epochCnt
	return Const(n, SInt)
}

const unsealed = 1 << 30

var curSt *State

// lateStamp returns the sealing epoch of an object root.
func lateStamp(root *Term) (int, bool) {
	if curSt == nil {
		return 0, false
	}
	id := Rt(root)
	if _, ok := curSt.late[id]; ok {
		return unsealed, true
	}
	if s, ok := curSt.sealed[id]; ok {
		return s, true
	}
	return 0, false
}

var boundMemo = map[*Term]struct {
	s  int
	ok bool
}{}

func hasLate(t *Term) bool { return refInfo(t).late }

type refInf struct{ late bool }

var refInfMemo = map[*Term]refInf{}

func refInfo(t *Term) refInf {
	if r, ok := refInfMemo[t]; ok {
		return r
	}
	r := refInf{}
	if t.K == KApp && t.Op == "base" && strings.HasPrefix(t.Args[0].Op, "L!") {
		r.late = true
	}
	for _, a := range t.Args {
		if refInfo(a).late {
			r.late = true
		}
	}
	refInfMemo[t] = r
	return r
}

// refBound returns an epoch e such that all roots in t are below n!e.
func refBound(t *Term) (int, bool) {
	late := hasLate(t)
	if !late {
		if r, ok := boundMemo[t]; ok {
			return r.s, r.ok
		}
	}
	res := 0
	okAll := true
	if t.K == KApp && t.Op == "base" {
		if s, ok := lateStamp(t); ok {
			if s == unsealed {
				okAll = false
			}
			res = s
		} else if _, isInt := intVal(t.Args[0]); !isInt {
			okAll = false
		}
	} else {
		switch t.K {
		case KInt, KStr:
		case KBound, KForall, KExists:
			okAll = false
		default:
			if len(t.Args) == 0 {
				if t != Null && t != True && t != False && t.Sort != SInt && t.Sort != SStr && t.Sort != SBool {
					if b, ok := birth[t.Op]; ok {
						res = b
					} else if _, isC := ctors[t.Op]; !isC {
						okAll = false
					}
				}
			}
			for _, a := range t.Args {
				if a.Sort == SInt || a.Sort == SBool || a.Sort == SStr {
					continue
				}
				b, ok := refBound(a)
				if !ok {
					okAll = false
					break
				}
				if res < b {
					res = b
				}
			}
		}
	}
	if !late {
		boundMemo[t] = struct {
			s  int
			ok bool
		}{res, okAll}
	}
	return res, okAll
}

// rootTerm strips el/sub.
func rootTerm(t *Term) *Term {
	for t.K == KApp && (t.Op == "el" || strings.HasPrefix(t.Op, "sub_") || t.Op == "shift") {
		t = t.Args[0]
	}
	return t
}

func nonNull(root *Term) bool {
	return root.Op == "base" || curSt != nil && curSt.known[Not(Eq0(root, Null))]
}

// Eq0 is an equality without any simplification but the order of its sides.
func Eq0(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

func refShape(t *Term) string {
	if t.K != KApp {
		return ""
	}
	if t.Op == "el" || t.Op == "base" || strings.HasPrefix(t.Op, "sub_") {
		return t.Op
	}
	if t == Null {
		return "null"
	}
	return ""
}

// distinctRefs reports that two references differ. Unless strict, one of them is
// known not to be nil (the address of a store that was carried out).
func distinctRefs(a, b *Term, strict bool) bool {
	if a == b {
		return false
	}
	ra, rb := rootTerm(a), rootTerm(b)
	if ra != rb {
		sa, oka := lateStamp(ra)
		sb, okb := lateStamp(rb)
		if ra.Op == "base" && rb.Op == "base" && ra != rb {
			// distinct allocations (late ones carry distinct ids; globals are negative)
			la, lb := strings.HasPrefix(ra.Args[0].Op, "L!"), strings.HasPrefix(rb.Args[0].Op, "L!")
			if (la || ra.Args[0].K == KInt) && (lb || rb.Args[0].K == KInt) {
				return true
			}
		}
		if oka && ra.Op == "base" && rb == Null || okb && rb.Op == "base" && ra == Null {
			return true
		}
		// a private object held by a loop variable may be nil
		if strict && !nonNull(ra) && !nonNull(rb) {
			oka, okb = false, false
		}
		if oka && !okb {
			if bd, ok := refBound(rb); ok && bd < sa {
				return true
			}
		}
		if okb && !oka {
			if bd, ok := refBound(ra); ok && bd < sb {
				return true
			}
		}
		if oka && okb {
			// one sealed before the other became visible
			if bd, ok := refBound(rb); ok && bd < sa {
				return true
			}
			if bd, ok := refBound(ra); ok && bd < sb {
				return true
			}
		}
	}
	ha, hb := refShape(a), refShape(b)
	if ha != "" && hb != "" && ha != "null" && hb != "null" {
		if ha != hb {
			return true
		}
		if ha == "el" && a.Args[0] == b.Args[0] {
			return Eq(a.Args[1], b.Args[1]) == False
		}
		if strings.HasPrefix(ha, "sub_") {
			return distinctRefs(a.Args[0], b.Args[0], strict)
		}
	}
	return false
}
