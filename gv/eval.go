package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

type HeapView func(r *region) *Term

// SV is a spec-level value.
type SV struct {
	t  *Term
	ty types.Type // Go type when known
	lv bool       // t is the address of a struct of type ty
}

type Env struct {
	vars       map[string]SV
	cur, old   HeapView
	nCur, nOld *Term
	fname      string
}

func (e *Env) with(name string, v SV) *Env {
	ne := *e
	ne.vars = map[string]SV{}
	for k, x := range e.vars {
		ne.vars[k] = x
	}
	ne.vars[name] = v
	return &ne
}

var SP *Spec

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }

func sfail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

// resolveType turns spec type text into a sort and (if any) Go type.
func resolveType(s string) (types.Type, Sort) {
	switch s {
	case "int":
		return types.Typ[types.Int], SInt
	case "string":
		return types.Typ[types.String], SStr
	case "bool":
		return types.Typ[types.Bool], SBool
	case "int64":
		return types.Typ[types.Int64], SInt
	case "Ref":
		return nil, SRef
	case "Iface", "any":
		return types.NewInterfaceType(nil, nil), SIface
	case "error":
		return types.Universe.Lookup("error").Type(), SIface
	case "Slice":
		return nil, SSlice
	case "TH":
		return nil, "TH"
	case "Trace":
		return nil, STrace
	case "StrSet":
		return nil, SArr(SStr, SBool)
	case "StrMem":
		return nil, SArr(SRef, SStr)
	case "IfMem":
		return nil, SArr(SRef, SIface)
	case "RefMem":
		return nil, SArr(SRef, SRef)
	case "DefMap":
		t := P.pkg.Scope().Lookup("importDef")
		if t == nil {
			sfail("no type importDef")
		}
		return nil, SArr(SStr, sortOf(t.Type()))
	}
	for _, x := range SP.Sorts {
		if x == s {
			return nil, s
		}
	}
	if strings.HasPrefix(s, "*") {
		t, _ := resolveType(s[1:])
		if t == nil {
			sfail("unknown type %s", s)
		}
		return types.NewPointer(t), SRef
	}
	if strings.HasPrefix(s, "[]") {
		t, _ := resolveType(s[2:])
		if t == nil {
			sfail("unknown type %s", s)
		}
		return types.NewSlice(t), SSlice
	}
	sc := P.pkg.Scope()
	name := s
	if i := strings.Index(s, "."); i >= 0 {
		pk := findPkg(s[:i])
		if pk == nil {
			sfail("unknown package in type %s", s)
		}
		sc = pk.Scope()
		name = s[i+1:]
	}
	tn, ok := sc.Lookup(name).(*types.TypeName)
	if !ok {
		sfail("unknown type %s", s)
	}
	return tn.Type(), sortOf(tn.Type())
}

func findPkg(name string) *types.Package {
	for _, ip := range P.pkg.Imports() {
		if ip.Name() == name {
			return ip
		}
	}
	for _, ip := range P.prog.AllPackages() {
		if ip.Pkg.Name() == name && (ip.Pkg.Path() == name || strings.HasPrefix(ip.Pkg.Path(), "go/")) {
			return ip.Pkg
		}
	}
	return nil
}

func thRegions() []*region {
	var out []*region
	for _, n := range SP.TypeHeap {
		r, ok := regions[n]
		if !ok {
			sfail("typeheap: unknown region %s", n)
		}
		out = append(out, r)
	}
	return out
}

var thSet map[string]bool

func TH(h HeapView) *Term {
	var as []*Term
	for _, r := range thRegions() {
		as = append(as, h(r))
	}
	return Ctor("mkTH", as...)
}

func thView(h *Term) HeapView {
	return func(r *region) *Term {
		for i, x := range thRegions() {
			if x == r {
				return Sel(ctors["mkTH"].sels[i], h)
			}
		}
		sfail("region %s is not in the type heap", r.name)
		return nil
	}
}

func regSort(r *region) Sort { return SArr(SRef, r.val) }

// loadAt reads a value of type t at address ref.
func loadAt(h HeapView, ref *Term, t types.Type) *Term {
	if isStruct(t) {
		s := structOf(t)
		if s.opaque {
			return Select(h(ghostOf(s)), ref)
		}
		var as []*Term
		for i, f := range s.fields {
			if f.sub {
				as = append(as, loadAt(h, subRef(s, i, ref), f.typ))
			} else {
				as = append(as, Select(h(fieldRegion(s, i)), ref))
			}
		}
		return Ctor("mk_"+s.name, as...)
	}
	return Select(h(cellRegion(t)), ref)
}

// val turns an lvalue into a value.
func (e *Env) val(v SV) *Term {
	if v.lv {
		return loadAt(e.cur, v.t, v.ty)
	}
	return v.t
}

func (e *Env) bool(x *Expr) *Term {
	v := e.eval(x)
	if v.lv || v.t.Sort != SBool {
		sfail("boolean expected: %s", exprStr(x))
	}
	return v.t
}

func exprStr(x *Expr) string {
	switch x.Op {
	case "id", "lit-int", "type":
		return x.S
	case "lit-str":
		return strconv.Quote(x.S)
	case "call":
		var as []string
		for _, a := range x.A {
			as = append(as, exprStr(a))
		}
		return x.S + "(" + strings.Join(as, ", ") + ")"
	case "field":
		return exprStr(x.A[0]) + "." + x.S
	case "index":
		return exprStr(x.A[0]) + "[" + exprStr(x.A[1]) + "]"
	case "bin":
		return "(" + exprStr(x.A[0]) + " " + x.S + " " + exprStr(x.A[1]) + ")"
	case "un":
		return x.S + exprStr(x.A[0])
	case "ite":
		return "(if " + exprStr(x.A[0]) + " then " + exprStr(x.A[1]) + " else " + exprStr(x.A[2]) + ")"
	case "quant":
		var vs []string
		for _, v := range x.Vars {
			vs = append(vs, v.Name+" "+v.Type)
		}
		return "(" + x.S + " " + strings.Join(vs, "; ") + " :: " + exprStr(x.A[0]) + ")"
	case "let":
		return "(let " + x.S + " := " + exprStr(x.A[0]) + "; " + exprStr(x.A[1]) + ")"
	}
	return "?" + x.Op
}

var bvCnt int

func (e *Env) eval(x *Expr) SV {
	switch x.Op {
	case "lit-int":
		n, _ := strconv.ParseInt(x.S, 10, 64)
		return SV{t: IntT(n), ty: types.Typ[types.Int]}
	case "lit-str":
		return SV{t: StrT(x.S), ty: types.Typ[types.String]}
	case "id":
		return e.ident(x.S)
	case "un":
		v := e.val(e.eval(x.A[0]))
		if x.S == "!" {
			if v.Sort != SBool {
				sfail("! of non-bool %s", exprStr(x))
			}
			return SV{t: Not(v)}
		}
		return SV{t: Sub(IntT(0), v)}
	case "bin":
		return e.bin(x)
	case "ite":
		c := e.bool(x.A[0])
		a, b := e.eval(x.A[1]), e.eval(x.A[2])
		ta, tb := e.val(a), e.val(b)
		ta, tb = e.nilFix(ta, tb)
		if ta.Sort != tb.Sort {
			sfail("if branches differ in sort: %s", exprStr(x))
		}
		ty := a.ty
		if ty == nil {
			ty = b.ty
		}
		return SV{t: Ite(c, ta, tb), ty: ty}
	case "let":
		v := e.eval(x.A[0])
		if v.lv {
			return e.with(x.S, v).eval(x.A[1])
		}
		return e.with(x.S, v).eval(x.A[1])
	case "quant":
		ne := e
		var vs []*Term
		for _, d := range x.Vars {
			ty, so := resolveType(d.Type)
			bvCnt++
			b := BoundT(fmt.Sprintf("%s_%d", mangle(d.Name), bvCnt), so)
			vs = append(vs, b)
			ne = ne.with(d.Name, SV{t: b, ty: ty})
		}
		body := ne.bool(x.A[0])
		var pats [][]*Term
		for _, p := range x.Pats {
			var q []*Term
			for _, y := range p {
				q = append(q, ne.val(ne.eval(y)))
			}
			pats = append(pats, q)
		}
		if x.S == "forall" {
			return SV{t: Forall(vs, body, pats...)}
		}
		return SV{t: Exists(vs, body, pats...)}
	case "field":
		// package-qualified constant or variable
		if x.A[0].Op == "id" {
			if _, bound := e.vars[x.A[0].S]; !bound {
				if pk := findPkg(x.A[0].S); pk != nil {
					if c, ok := pk.Scope().Lookup(x.S).(*types.Const); ok {
						return constSV(c)
					}
				}
			}
		}
		return e.field(e.eval(x.A[0]), x.S, x)
	case "index":
		v := e.eval(x.A[0])
		i := e.eval(x.A[1])
		if v.ty == nil {
			sfail("index of untyped %s", exprStr(x))
		}
		switch u := v.ty.Underlying().(type) {
		case *types.Slice:
			vt := e.val(v)
			addr := El(Sel("sptr", vt), e.val(i))
			if isStruct(u.Elem()) {
				return SV{t: addr, ty: u.Elem(), lv: true}
			}
			return SV{t: Select(e.cur(cellRegion(u.Elem())), addr), ty: u.Elem()}
		case *types.Map:
			_, val := mapRegions(v.ty)
			return SV{t: Select(Select(e.cur(val), e.val(v)), e.val(i)), ty: u.Elem()}
		case *types.Basic:
			return SV{t: byteAt(e.val(v), e.val(i)), ty: types.Typ[types.Int]}
		}
		sfail("cannot index %s", exprStr(x))
	case "call":
		return e.call(x)
	}
	sfail("cannot evaluate %s", exprStr(x))
	return SV{}
}

func byteAt(s, i *Term) *Term {
	return App("str.to_code", SInt, App("str.at", SStr, s, i))
}

func constSV(c *types.Const) SV {
	switch c.Val().Kind() {
	case constant.Int:
		n, _ := constant.Int64Val(c.Val())
		return SV{t: IntT(n), ty: c.Type()}
	case constant.String:
		return SV{t: StrT(constant.StringVal(c.Val())), ty: c.Type()}
	case constant.Bool:
		return SV{t: BoolT(constant.BoolVal(c.Val())), ty: c.Type()}
	}
	sfail("constant %s", c.Name())
	return SV{}
}

func (e *Env) ident(s string) SV {
	if v, ok := e.vars[s]; ok {
		return v
	}
	switch s {
	case "true":
		return SV{t: True}
	case "false":
		return SV{t: False}
	case "nil":
		return SV{t: Const("nil$", "Nil")}
	case "null":
		return SV{t: Null}
	case "trace":
		return SV{t: e.cur(regTrace())}
	}
	switch o := P.pkg.Scope().Lookup(s).(type) {
	case *types.Const:
		return constSV(o)
	case *types.Var:
		return SV{t: loadAt(e.cur, globalRef(o.Name()), o.Type()), ty: o.Type()}
	}
	if SP.Fns[s] != nil && len(SP.Fns[s].Params) == 0 {
		return e.call(&Expr{Op: "call", S: s})
	}
	sfail("unknown identifier %s", s)
	return SV{}
}

var globalIdx = map[string]int{}

func globalRef(name string) *Term {
	if _, ok := globalIdx[name]; !ok {
		globalIdx[name] = len(globalIdx)
	}
	return App("base", SRef, IntT(int64(-2-globalIdx[name])))
}

func (e *Env) field(v SV, f string, x *Expr) SV {
	if v.ty == nil {
		sfail("field %s of untyped value in %s", f, exprStr(x))
	}
	t := v.ty
	if !v.lv {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			v = SV{t: v.t, ty: pt.Elem(), lv: true}
			t = pt.Elem()
		}
	}
	if !isStruct(t) {
		sfail("field %s of non-struct %s in %s", f, t, exprStr(x))
	}
	s := structOf(t)
	i := s.field(f)
	if i < 0 {
		sfail("no field %s in %s", f, s.key)
	}
	fi := s.fields[i]
	if v.lv {
		if fi.sub {
			return SV{t: subRef(s, i, v.t), ty: fi.typ, lv: true}
		}
		return SV{t: Select(e.cur(fieldRegion(s, i)), v.t), ty: fi.typ}
	}
	return SV{t: Sel(s.name+"."+f, v.t), ty: fi.typ}
}

func (e *Env) nilFix(a, b *Term) (*Term, *Term) {
	isNil := func(t *Term) bool { return t.Sort == "Nil" }
	conv := func(s Sort) *Term {
		switch s {
		case SRef:
			return Null
		case SIface:
			return INil
		case SSlice:
			return NilSlice()
		}
		sfail("nil compared with sort %s", s)
		return nil
	}
	if isNil(a) && !isNil(b) {
		a = conv(b.Sort)
	} else if isNil(b) && !isNil(a) {
		b = conv(a.Sort)
	}
	return a, b
}

func (e *Env) bin(x *Expr) SV {
	switch x.S {
	case "==>":
		return SV{t: Implies(e.bool(x.A[0]), e.bool(x.A[1]))}
	case "<==>":
		return SV{t: Eq(e.bool(x.A[0]), e.bool(x.A[1]))}
	case "&&":
		return SV{t: And(e.bool(x.A[0]), e.bool(x.A[1]))}
	case "||":
		return SV{t: Or(e.bool(x.A[0]), e.bool(x.A[1]))}
	}
	va, vb := e.eval(x.A[0]), e.eval(x.A[1])
	a, b := e.val(va), e.val(vb)
	switch x.S {
	case "==", "!=":
		var r *Term
		if (a.Sort == SSlice && b.Sort == "Nil") || (b.Sort == SSlice && a.Sort == "Nil") {
			s := a
			if a.Sort == "Nil" {
				s = b
			}
			r = Eq(Sel("sptr", s), Null)
		} else {
			a, b = e.nilFix(a, b)
			if a.Sort != b.Sort {
				sfail("== of sorts %s and %s in %s", a.Sort, b.Sort, exprStr(x))
			}
			r = Eq(a, b)
		}
		if x.S == "!=" {
			r = Not(r)
		}
		return SV{t: r}
	case "+":
		if a.Sort == SStr {
			return SV{t: Concat(a, b), ty: types.Typ[types.String]}
		}
		return SV{t: Add(a, b), ty: types.Typ[types.Int]}
	case "-":
		return SV{t: Sub(a, b), ty: types.Typ[types.Int]}
	case "*":
		return SV{t: Mul(a, b), ty: types.Typ[types.Int]}
	}
	if a.Sort == SStr {
		switch x.S {
		case "<":
			return SV{t: StrLess(a, b)}
		case "<=":
			return SV{t: Not(StrLess(b, a))}
		case ">":
			return SV{t: StrLess(b, a)}
		case ">=":
			return SV{t: Not(StrLess(a, b))}
		}
	}
	if a.Sort != SInt || b.Sort != SInt {
		sfail("comparison of sorts %s, %s in %s", a.Sort, b.Sort, exprStr(x))
	}
	switch x.S {
	case "<":
		return SV{t: Lt(a, b)}
	case "<=":
		return SV{t: Le(a, b)}
	case ">":
		return SV{t: Lt(b, a)}
	case ">=":
		return SV{t: Le(b, a)}
	}
	sfail("operator %s", x.S)
	return SV{}
}

func regTrace() *region { return regGhost("$trace", STrace) }

// below says that every reference inside v is allocated below n.
func below(v *Term, ty types.Type, n *Term) *Term {
	switch v.Sort {
	case SRef:
		return Lt(Rt(v), n)
	case SSlice:
		return And(Lt(Rt(Sel("sptr", v)), n), Le(IntT(0), Sel("slen", v)), Le(Sel("slen", v), Sel("scap", v)),
			Implies(Eq(Sel("sptr", v), Null), Eq(Sel("slen", v), IntT(0))))
	case SIface:
		return IBelow(v, n)
	}
	if ty != nil && isStruct(ty) {
		s := structOf(ty)
		if s.opaque {
			return True
		}
		var cs []*Term
		for _, f := range s.fields {
			cs = append(cs, below(Sel(s.name+"."+f.name, v), f.typ, n))
		}
		return And(cs...)
	}
	return True
}

func IBelow(v, n *Term) *Term {
	if v == INil {
		return True
	}
	if isCtorApp(v) {
		if b, ok := boxByCtor[v.Op]; ok {
			return below(v.Args[0], b.typ, n)
		}
	}
	return Lt(Fn("irt", SInt, v), n)
}

func Itoa(n *Term) *Term {
	if v, ok := intVal(n); ok {
		return StrT(strconv.FormatInt(v, 10))
	}
	return Fn("itoa", SStr, n)
}

func (e *Env) call(x *Expr) SV {
	arg := func(i int) *Term {
		if i >= len(x.A) {
			sfail("too few arguments in %s", exprStr(x))
		}
		return e.val(e.eval(x.A[i]))
	}
	typeArg := func(i int) types.Type {
		t, _ := resolveType(x.A[i].S)
		if t == nil {
			sfail("Go type expected in %s", exprStr(x))
		}
		return t
	}
	switch x.S {
	case "old":
		ne := *e
		ne.cur = e.old
		ne.nCur = e.nOld
		v := ne.eval(x.A[0])
		return SV{t: ne.val(v), ty: v.ty}
	case "at":
		h := arg(0)
		ne := *e
		ne.cur = thView(h)
		v := ne.eval(x.A[1])
		return SV{t: ne.val(v), ty: v.ty}
	case "th":
		return SV{t: TH(e.cur)}
	case "n":
		return SV{t: e.nCur}
	case "len":
		v := e.eval(x.A[0])
		t := e.val(v)
		switch t.Sort {
		case SStr:
			return SV{t: StrLen(t), ty: types.Typ[types.Int]}
		case SSlice:
			return SV{t: Sel("slen", t), ty: types.Typ[types.Int]}
		case SRef:
			if v.ty != nil {
				if _, ok := v.ty.Underlying().(*types.Map); ok {
					has, _ := mapRegions(v.ty)
					return SV{t: SetCard(Select(e.cur(has), t)), ty: types.Typ[types.Int]}
				}
			}
		}
		sfail("len of %s", exprStr(x))
	case "has":
		v := e.eval(x.A[0])
		has, _ := mapRegions(v.ty)
		return SV{t: Select(Select(e.cur(has), e.val(v)), arg(1))}
	case "maphas":
		v := e.eval(x.A[0])
		has, _ := mapRegions(v.ty)
		return SV{t: Select(e.cur(has), e.val(v))}
	case "mapval":
		v := e.eval(x.A[0])
		_, val := mapRegions(v.ty)
		return SV{t: Select(e.cur(val), e.val(v))}
	case "freeidx":
		// freeidx(m, base): the first n >= 1 for which base+itoa(n) is not a key of m
		v := e.eval(x.A[0])
		has, _ := mapRegions(v.ty)
		return SV{t: FreeIdx(Select(e.cur(has), e.val(v)), arg(1)), ty: types.Typ[types.Int]}
	case "is":
		return SV{t: isType(arg(0), typeArg(1))}
	case "as":
		t := typeArg(1)
		if types.IsInterface(t) {
			return SV{t: arg(0), ty: t}
		}
		return SV{t: Sel("un"+boxOf(t).ctor, arg(0)), ty: t}
	case "ptr":
		return SV{t: arg(0), ty: types.NewPointer(typeArg(1))}
	case "box":
		t := typeArg(0)
		return SV{t: Box(t, arg(1)), ty: types.NewInterfaceType(nil, nil)}
	case "zero":
		t := typeArg(0)
		return SV{t: zeroOf(t), ty: t}
	case "rec":
		t := typeArg(0)
		s := structOf(t)
		if len(x.A)-1 != len(s.fields) {
			sfail("rec %s: %d fields expected", s.key, len(s.fields))
		}
		var as []*Term
		for i := range s.fields {
			as = append(as, arg(i+1))
		}
		return SV{t: Ctor("mk_"+s.name, as...), ty: t}
	case "sptr":
		return SV{t: Sel("sptr", arg(0))}
	case "scap":
		return SV{t: Sel("scap", arg(0))}
	case "el":
		return SV{t: El(arg(0), arg(1))}
	case "addr":
		// address of a struct lvalue
		v := e.eval(x.A[0])
		if !v.lv {
			sfail("addr of a non-lvalue %s", exprStr(x))
		}
		return SV{t: v.t, ty: types.NewPointer(v.ty)}
	case "rt":
		v := arg(0)
		if v.Sort == SSlice {
			v = Sel("sptr", v)
		}
		return SV{t: Rt(v), ty: types.Typ[types.Int]}
	case "fresh":
		v := arg(0)
		if v.Sort == SSlice {
			v = Sel("sptr", v)
		}
		return SV{t: Le(e.nOld, Rt(v))}
	case "below":
		v := e.eval(x.A[0])
		return SV{t: below(e.val(v), v.ty, arg(1))}
	case "live":
		v := e.eval(x.A[0])
		return SV{t: below(e.val(v), v.ty, e.nCur)}
	case "buf":
		return SV{t: Select(e.cur(regGhost("bytes.Buffer.$s", SStr)), arg(0)), ty: types.Typ[types.String]}
	case "itoa":
		return SV{t: Itoa(arg(0)), ty: types.Typ[types.String]}
	case "substr":
		return SV{t: App("str.substr", SStr, arg(0), arg(1), arg(2)), ty: types.Typ[types.String]}
	case "hasprefix":
		return SV{t: App("str.prefixof", SBool, arg(1), arg(0))}
	case "contains":
		return SV{t: App("str.contains", SBool, arg(0), arg(1))}
	case "same":
		// same(x.f): the location has the same value as before
		v := e.eval(x.A[0])
		o := *e
		o.cur = e.old
		w := o.eval(x.A[0])
		return SV{t: Eq(e.val(v), o.val(w))}
	case "mk":
		return SV{t: Mk(arg(0))}
	case "entry":
		if curEntry == nil {
			sfail("entry outside a loop")
		}
		ne := *e
		ne.cur = curEntry
		ne.nCur = curEntryN
		v := ne.eval(x.A[0])
		return SV{t: ne.val(v), ty: v.ty}
	case "itkey":
		if curIter == nil {
			sfail("itkey outside a map loop")
		}
		return SV{t: curIter.key(arg(0)), ty: curIter.mt.Underlying().(*types.Map).Key()}
	case "itidx":
		if curIter == nil {
			sfail("itidx outside a map loop")
		}
		return SV{t: curIter.idx(arg(0)), ty: types.Typ[types.Int]}
	case "ithas":
		if curIter == nil {
			sfail("ithas outside a map loop")
		}
		return SV{t: curIter.has}
	case "itval":
		if curIter == nil {
			sfail("itval outside a map loop")
		}
		return SV{t: curIter.val}
	case "refsof":
		return SV{t: True}
	case "agree":
		return SV{t: Fn("agree", SBool, arg(0), arg(1), arg(2))}
	case "sel":
		s := SV{t: Select(arg(0), arg(1))}
		if s.t.Sort == SStr {
			s.ty = types.Typ[types.String]
		}
		return s
	case "seldef":
		// seldef(V, p): the import definition of path p
		t := P.pkg.Scope().Lookup("importDef")
		if t == nil {
			sfail("no type importDef")
		}
		return SV{t: Select(arg(0), arg(1)), ty: t.Type()}
	case "bytes":
		// bytes(b): the text of byte slice b
		return SV{t: Select(e.cur(regGhost("$bytes", SStr)), Sel("sptr", arg(0))), ty: types.Typ[types.String]}
	case "mem":
		// mem(T): all cells of type T
		return SV{t: e.cur(cellRegion(typeArgExpr(x.A[0])))}
	case "region":
		// region(Name, ref)
		r := regions[x.A[0].S]
		if r == nil {
			sfail("unknown region %s", x.A[0].S)
		}
		return SV{t: Select(e.cur(r), arg(1))}
	case "memf":
		// memf(T.f): field f of all values of type T
		r := regions[exprStr(x.A[0])]
		if r == nil {
			sfail("unknown region %s", exprStr(x.A[0]))
		}
		return SV{t: e.cur(r)}
	case "cell":
		t := typeArgExpr(x.A[0])
		return SV{t: Select(e.cur(cellRegion(t)), arg(1)), ty: t}
	}
	if p, ok := SP.Preds[x.S]; ok {
		if len(p.Params) != len(x.A) {
			sfail("pred %s: %d arguments expected", x.S, len(p.Params))
		}
		ne := *e
		ne.vars = map[string]SV{}
		for i, d := range p.Params {
			v := e.eval(x.A[i])
			if !v.lv {
				if d.Type != "" {
					ty, so := resolveType(d.Type)
					if v.t.Sort == "Nil" {
						v.t, _ = e.nilFix(v.t, Const("dummy$"+so, so))
					}
					if v.t.Sort != so {
						sfail("pred %s argument %d has sort %s, want %s", x.S, i, v.t.Sort, so)
					}
					if ty != nil {
						v.ty = ty
					}
				}
			} else if d.Type != "" {
				ty, _ := resolveType(d.Type)
				if ty != nil {
					if _, ok := ty.Underlying().(*types.Pointer); ok {
						v = SV{t: v.t, ty: ty}
					} else {
						v = SV{t: e.val(v), ty: ty}
					}
				}
			}
			ne.vars[d.Name] = v
		}
		return ne.eval(p.Body)
	}
	if f, ok := SP.Fns[x.S]; ok {
		if len(f.Params) != len(x.A) {
			sfail("%s: %d arguments expected, got %d", x.S, len(f.Params), len(x.A))
		}
		var as []*Term
		if f.Heap {
			as = append(as, TH(e.cur))
		}
		for i, d := range f.Params {
			_, so := resolveType(d.Type)
			a := arg(i)
			if a.Sort == "Nil" {
				a, _ = e.nilFix(a, Const("dummy$"+so, so))
			}
			if a.Sort != so {
				sfail("%s argument %d: sort %s, want %s in %s", x.S, i, a.Sort, so, exprStr(x))
			}
			as = append(as, a)
		}
		ty, so := resolveType(f.Ret)
		return SV{t: Fn("s_"+mangle(f.Name), so, as...), ty: ty}
	}
	sfail("unknown function %s in %s", x.S, exprStr(x))
	return SV{}
}

func typeArgExpr(x *Expr) types.Type {
	t, _ := resolveType(exprStr(x))
	if t == nil {
		sfail("type expected: %s", exprStr(x))
	}
	return t
}

// StrLess is the order of strings.
func StrLess(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.K == KStr && b.K == KStr {
		return BoolT(a.Op < b.Op)
	}
	return Fn("strless", SBool, a, b)
}

// FreeIdx exists because the keys of a map are finitely many.
func FreeIdx(h, base *Term) *Term { return Fn("freeidx", SInt, h, base) }

func Mk(t *Term) *Term { return Fn("mk", SBool, t) }

// isType is the dynamic type test v.(T) for concrete or interface T.
func isType(v *Term, t types.Type) *Term {
	if !types.IsInterface(t) {
		return Is(boxOf(t).ctor, v)
	}
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Not(Is("I_nil", v))
	}
	if isCtorApp(v) && v.Op != "I_other" {
		if v == INil {
			return False
		}
		return BoolT(types.Implements(boxByCtor[v.Op].typ, it))
	}
	var cs []*Term
	for _, b := range boxes {
		if types.Implements(b.typ, it) {
			cs = append(cs, Is(b.ctor, v))
		}
	}
	// unknown concrete types: only if some type outside the package could implement it
	closed := closedIface(it)
	if !closed {
		cs = append(cs, And(Is("I_other", v), Fn("impl_"+mangle(typeStr(t)), SBool, Sel("otag", v))))
	}
	return Or(cs...)
}
