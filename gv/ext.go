package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ifaceHint remembers the static interface type a boxed value had before it was
// converted to interface{} (used by the model of package fmt).
var ifaceHint = map[*Term]types.Type{}

func bufReg(st *State) *region { return regGhost("bytes.Buffer.$s", SStr) }

func (x *Exec) bufAppend(st *State, b, s *Term) {
	r := bufReg(st)
	st.set(r, Store(st.raw(r), b, Concat(Select(st.get(r), b), s)))
}

// external models a call of a function outside the package.
func (x *Exec) external(st *State, key string, sig *types.Signature, c *ssa.CallCommon, args []Val, pos token.Pos, cont func(*State, Val)) {
	if ct := extContract(key); ct != nil {
		x.usedExt[key] = true
		var pts []types.Type
		if sig.Recv() != nil {
			pts = append(pts, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			pts = append(pts, sig.Params().At(i).Type())
		}
		w := writeSet{}
		if c != nil {
			w = extWrites(key, c)
		}
		x.applyContract(st, ct, nil, sig, pts, args, w, w, pos, cont)
		return
	}
	if x.rootC.Key == "init" && strings.HasSuffix(key, ".init") && len(args) == 0 {
		cont(st, Val{}) // another package's initializer does not touch this one
		return
	}
	x.usedExt[key] = true
	arg := func(i int) *Term {
		if args[i].t == nil {
			unsupported("argument %d of %s", i, key)
		}
		return args[i].t
	}
	nonNil := func(p *Term, f func(*State)) {
		x.check(st, Not(Eq(p, Null)), "nil dereference", pos, f)
	}
	switch key {
	case "bytes.Buffer.WriteString":
		b, s := arg(0), arg(1)
		nonNil(b, func(st *State) {
			x.bufAppend(st, b, s)
			cont(st, Val{tup: []Val{{t: StrLen(s)}, {t: INil}}})
		})
	case "bytes.Buffer.Write":
		b, s := arg(0), x.bytesText(st, arg(1))
		nonNil(b, func(st *State) {
			x.bufAppend(st, b, s)
			cont(st, Val{tup: []Val{{t: StrLen(s)}, {t: INil}}})
		})
	case "bytes.Buffer.WriteRune":
		b, r := arg(0), arg(1)
		nonNil(b, func(st *State) {
			x.bufAppend(st, b, runeStr(r))
			cont(st, Val{tup: []Val{{t: StrLen(runeStr(r))}, {t: INil}}})
		})
	case "bytes.Buffer.WriteByte":
		b, r := arg(0), arg(1)
		nonNil(b, func(st *State) {
			x.bufAppend(st, b, byteStr(r))
			cont(st, Val{t: INil})
		})
	case "bytes.Buffer.String":
		b := arg(0)
		nonNil(b, func(st *State) {
			cont(st, Val{t: Select(st.get(bufReg(st)), b)})
		})
	case "bytes.Buffer.Len":
		b := arg(0)
		nonNil(b, func(st *State) {
			cont(st, Val{t: StrLen(Select(st.get(bufReg(st)), b))})
		})
	case "bytes.Buffer.Bytes":
		b := arg(0)
		nonNil(b, func(st *State) {
			cont(st, Val{t: x.bytesOf(st, Select(st.get(bufReg(st)), b))})
		})
	case "fmt.Sprintf":
		x.format(st, arg(0), arg(1), pos, func(st *State, s *Term) { cont(st, Val{t: s}) })
	case "fmt.Sprint":
		x.sprint(st, arg(0), pos, func(st *State, s *Term) { cont(st, Val{t: s}) })
	case "fmt.Fprintf":
		b := x.writer(st, arg(0))
		x.format(st, arg(1), arg(2), pos, func(st *State, s *Term) {
			x.bufAppend(st, b, s)
			cont(st, Val{tup: []Val{{t: StrLen(s)}, {t: INil}}})
		})
	case "fmt.Fprint":
		b := x.writer(st, arg(0))
		x.sprint(st, arg(1), pos, func(st *State, s *Term) {
			x.bufAppend(st, b, s)
			cont(st, Val{tup: []Val{{t: StrLen(s)}, {t: INil}}})
		})
	case "fmt.Errorf":
		v := Fresh("err", SIface)
		birth[v.Op] = st.epoch()
		st.assume(Not(Is("I_nil", v)), below(v, nil, st.n))
		cont(st, Val{t: v})
	case "io.WriteString":
		b := x.writer(st, arg(0))
		x.bufAppend(st, b, arg(1))
		cont(st, Val{tup: []Val{{t: StrLen(arg(1))}, {t: INil}}})
	case "strconv.Itoa":
		cont(st, Val{t: Itoa(arg(0))})
	case "strings.HasPrefix":
		cont(st, Val{t: App("str.prefixof", SBool, arg(1), arg(0))})
	case "strings.HasSuffix":
		cont(st, Val{t: App("str.suffixof", SBool, arg(1), arg(0))})
	case "strings.Contains":
		cont(st, Val{t: App("str.contains", SBool, arg(0), arg(1))})
	case "strings.TrimSuffix":
		s, suf := arg(0), arg(1)
		x.branch(st, App("str.suffixof", SBool, suf, s), func(st *State) {
			cont(st, Val{t: SubStr(s, IntT(0), Sub(StrLen(s), StrLen(suf)))})
		}, func(st *State) { cont(st, Val{t: s}) })
	case "sort.Slice", "sort.SliceStable":
		st.flushAll()
		x.sortSlice(st, args, pos, cont)
	case "reflect.ValueOf":
		// only for the identity of slices
		cont(st, Val{t: Fn("rv_of", "O_"+mangle("reflect.Value"), arg(0))})
	case "reflect.Value.Pointer":
		s := rvSlice(arg(0))
		cont(st, Val{t: Ite(Lt(IntT(0), Sel("slen", s)), Fn("refid", SInt, Sel("sptr", s)), Fn("refid0", SInt, Sel("sptr", s)))})
	case "reflect.Value.Len":
		s := rvSlice(arg(0))
		cont(st, Val{t: Sel("slen", s)})
	default:
		unsupported("external function %s has no contract", key)
	}
}

func rvSlice(v *Term) *Term {
	if v.K == KApp && v.Op == "rv_of" && isCtorApp(v.Args[0]) && len(v.Args[0].Args) == 1 && v.Args[0].Args[0].Sort == SSlice {
		return v.Args[0].Args[0]
	}
	unsupported("reflection")
	return nil
}

func byteStr(r *Term) *Term {
	if n, ok := intVal(r); ok {
		return StrT(string([]byte{byte(n)}))
	}
	return App("str.from_code", SStr, r)
}

// writer is the buffer behind an io.Writer.
func (x *Exec) writer(st *State, w *Term) *Term {
	for _, b := range boxes {
		if typeStr(b.typ) == "*bytes.Buffer" && w.K == KApp && w.Op == b.ctor {
			return w.Args[0]
		}
	}
	unsupported("write to an unknown io.Writer")
	return nil
}

// elems are the values of a slice with known length.
func (x *Exec) ifaceElems(st *State, s *Term) ([]*Term, bool) {
	n, ok := intVal(Sel("slen", s))
	if !ok {
		return nil, false
	}
	r := cellRegion(types.NewInterfaceType(nil, nil))
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, Select(st.get(r), El(Sel("sptr", s), IntT(i))))
	}
	return out, true
}

// format gives the text of a printf call.
func (x *Exec) format(st *State, f, argSlice *Term, pos token.Pos, cont func(*State, *Term)) {
	as, ok := x.ifaceElems(st, argSlice)
	if f.K != KStr || !ok {
		if h, ok := SP.Fns["fmtv"]; ok && len(h.Params) == 3 {
			// what fmt prints, as a function of the values of the arguments
			r := cellRegion(types.NewInterfaceType(nil, nil))
			cont(st, Fn("s_fmtv", SStr, f, st.get(r), argSlice))
			return
		}
		unsupported("format string that is not constant")
	}
	var rec func(st *State, s string, ai int, acc []*Term)
	rec = func(st *State, s string, ai int, acc []*Term) {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			t := Concat(append(acc, StrT(s))...)
			if ai < len(as) {
				t = Concat(t, Fresh("fmtextra", SStr))
			}
			cont(st, t)
			return
		}
		acc = append(acc[:len(acc):len(acc)], StrT(s[:i]))
		s = s[i+1:]
		if s == "" {
			cont(st, Concat(append(acc, StrT("%!(NOVERB)"))...))
			return
		}
		v := s[0]
		s = s[1:]
		if v == '%' {
			rec(st, s, ai, append(acc, StrT("%")))
			return
		}
		if ai >= len(as) {
			rec(st, s, ai, append(acc, StrT("%!"+string(v)+"(MISSING)")))
			return
		}
		x.verb(st, v, as[ai], pos, func(st *State, t *Term) {
			rec(st, s, ai+1, append(acc[:len(acc):len(acc)], t))
		})
	}
	rec(st, f.Op, 0, nil)
}

func (x *Exec) sprint(st *State, argSlice *Term, pos token.Pos, cont func(*State, *Term)) {
	as, ok := x.ifaceElems(st, argSlice)
	if !ok || len(as) != 1 {
		unsupported("Print with several operands")
	}
	x.verb(st, 'v', as[0], pos, cont)
}

func quoteT(s *Term) *Term {
	return Fn("s_quote", SStr, s)
}

// verb gives the text of one operand.
func (x *Exec) verb(st *State, v byte, a *Term, pos token.Pos, cont func(*State, *Term)) {
	other := func(st *State) { cont(st, Fn("fmtv_"+string(v), SStr, a)) }
	text := func(st *State, s *Term) {
		switch v {
		case 's', 'v':
			cont(st, s)
		case 'q':
			cont(st, quoteT(s))
		default:
			other(st)
		}
	}
	if a == INil {
		if v == 'v' {
			cont(st, StrT("<nil>"))
		} else {
			cont(st, StrT("%!"+string(v)+"(<nil>)"))
		}
		return
	}
	if v != 's' && v != 'v' && v != 'q' && v != 'd' {
		other(st)
		return
	}
	if isCtorApp(a) {
		b, ok := boxByCtor[a.Op]
		if !ok {
			other(st)
			return
		}
		if v != 'd' {
			if m := stringMethod(b.typ); m != nil {
				val := Val{t: a.Args[0]}
				callIt := func(st *State) {
					x.callFn(st, m, []Val{val}, pos, func(st *State, r Val) { text(st, r.t) })
				}
				if b.srt == SRef {
					x.branch(st, Eq(a.Args[0], Null), func(st *State) { text(st, StrT("<nil>")) }, callIt)
				} else {
					callIt(st)
				}
				return
			}
		}
		switch b.srt {
		case SStr:
			text(st, a.Args[0])
			return
		case SInt:
			if v == 'd' || v == 'v' {
				cont(st, Itoa(a.Args[0]))
				return
			}
		}
		other(st)
		return
	}
	if h, ok := ifaceHint[a]; ok && v != 'd' {
		if it, ok := h.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "String" {
					x.branch(st, Eq(a, INil), func(st *State) { x.verb(st, v, INil, pos, cont) }, func(st *State) {
						key := ifaceKey(h) + ".String"
						if ct := SP.Contracts[key]; ct != nil {
							x.usedCtr[key] = true
							sig := it.Method(i).Type().(*types.Signature)
							x.applyContract(st, ct, nil, sig, []types.Type{h}, []Val{{t: a}}, writeSet{}, writeSet{}, pos, func(st *State, r Val) { text(st, r.t) })
							return
						}
						x.stringCases(st, a, h, pos, text, other)
					})
					return
				}
			}
		}
	}
	other(st)
}

func (x *Exec) stringCases(st *State, a *Term, h types.Type, pos token.Pos, text func(*State, *Term), other func(*State)) {
	it := h.Underlying().(*types.Interface)
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(boxes) {
			if st.assume(isType(a, h)) {
				other(st)
			}
			return
		}
		b := boxes[i]
		if !types.Implements(b.typ, it) {
			rec(st, i+1)
			return
		}
		x.branch(st, Is(b.ctor, a), func(st *State) {
			m := stringMethod(b.typ)
			x.callFn(st, m, []Val{{t: Sel("un"+b.ctor, a)}}, pos, func(st *State, r Val) { text(st, r.t) })
		}, func(st *State) { rec(st, i+1) })
	}
	rec(st, 0)
}

// stringMethod finds String() string of this package's types.
func stringMethod(t types.Type) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == "String" || s.Obj().Name() == "Error" {
			f := P.prog.MethodValue(s)
			if f == nil {
				return nil
			}
			if f.Pkg == P.spkg || f.Pkg == nil {
				return f
			}
		}
	}
	return nil
}

// sortSlice models sort.Slice: a permutation ordered by less.
func (x *Exec) sortSlice(st *State, args []Val, pos token.Pos, cont func(*State, Val)) {
	a := args[0].t
	if !isCtorApp(a) || len(a.Args) != 1 || a.Args[0].Sort != SSlice {
		unsupported("sort.Slice of an unknown value")
	}
	s := a.Args[0]
	et := boxByCtor[a.Op].typ.Underlying().(*types.Slice).Elem()
	clo := args[1].clo
	if clo == nil {
		unsupported("sort.Slice with an unknown function")
	}
	n := Sel("slen", s)
	p := Sel("sptr", s)
	bvCnt++
	tag := fmt.Sprintf("%d", bvCnt)
	perm := func(i *Term) *Term { return Fn("perm_"+tag, SInt, i) }
	inv := func(i *Term) *Term { return Fn("perminv_"+tag, SInt, i) }
	inR := func(i *Term) *Term { return And(Le(IntT(0), i), Lt(i, n)) }
	lps := leafPaths(et)
	olds := map[string]*Term{}
	news := map[string]*Term{}
	for _, lp := range lps {
		if olds[lp.r.name] == nil {
			o := st.raw(lp.r)
			nw := Fresh("h_"+lp.r.name, regSort(lp.r))
			birth[nw.Op] = st.epoch()
			olds[lp.r.name], news[lp.r.name] = o, nw
			st.set(lp.r, nw)
			havocOf[nw] = havocInfo{old: o, root: rootTerm(p)}
		}
	}
	for _, lp := range lps {
		bvCnt++
		i := BoundT(fmt.Sprintf("si_%d", bvCnt), SInt)
		addr := lp.addr(El(p, i))
		sel := App("select", lp.r.val, news[lp.r.name], addr)
		osel := App("select", lp.r.val, olds[lp.r.name], addr)
		st.assume(Forall([]*Term{i}, Implies(inR(i), Eq(App("select", lp.r.val, news[lp.r.name], lp.addr(El(p, inv(i)))), osel)), []*Term{osel}))
		st.assume(Forall([]*Term{i}, Eq(sel, Ite(inR(i), App("select", lp.r.val, olds[lp.r.name], lp.addr(El(p, perm(i)))), App("select", lp.r.val, olds[lp.r.name], addr))), []*Term{sel}))
	}
	for _, rn := range sortedKeysT(news) {
		bvCnt++
		q := BoundT(fmt.Sprintf("q_%d", bvCnt), SRef)
		r := regions[rn]
		sel := App("select", r.val, news[rn], q)
		st.assume(Forall([]*Term{q}, Implies(Not(Eq(Rt(q), Rt(p))), Eq(sel, App("select", r.val, olds[rn], q))), []*Term{sel}))
	}
	bvCnt++
	i := BoundT(fmt.Sprintf("si_%d", bvCnt), SInt)
	st.assume(Forall([]*Term{i}, And(Eq(inv(perm(i)), i), Implies(inR(i), inR(perm(i)))), []*Term{perm(i)}),
		Forall([]*Term{i}, And(Eq(perm(inv(i)), i), Implies(inR(i), inR(inv(i)))), []*Term{inv(i)}))
	// the comparison as a formula over two indices
	ci, cj := Fresh("si", SInt), Fresh("sj", SInt)
	var res []*Term
	s2 := st.clone()
	curSt = s2
	base := len(s2.pc)
	if !s2.assume(inR(ci), inR(cj)) {
		cont(st, Val{})
		return
	}
	base = len(s2.pc)
	x.run(s2, clo.fn, []Val{{t: ci}, {t: cj}}, clo.bind, "less"+tag, func(s3 *State, r []Val) {
		var cs []*Term
		for _, h := range s3.pc[base:] {
			if mentions(h, ci) || mentions(h, cj) {
				cs = append(cs, h)
			}
		}
		// facts about loaded values hold anyway; only branch conditions matter
		if len(s3.trail) != len(s2.trail) {
			res = append(res, And(And(cs...), r[0].t))
		} else {
			res = append(res, r[0].t)
		}
	})
	curSt = st
	R := Or(res...)
	less := func(a, b *Term) *Term { return Subst(R, map[*Term]*Term{ci: a, cj: b}) }
	ck := Fresh("sk", SInt)
	s4 := st.clone()
	if s4.assume(inR(ci), inR(cj), inR(ck)) {
		x.oblige(s4, "pre", "sort.Slice: less is asymmetric", pos, Implies(less(ci, cj), Not(less(cj, ci))))
		x.oblige(s4, "pre", "sort.Slice: less is negatively transitive", pos, Implies(And(Not(less(ci, cj)), Not(less(cj, ck))), Not(less(ci, ck))))
	}
	bvCnt++
	b1, b2 := BoundT(fmt.Sprintf("sa_%d", bvCnt), SInt), BoundT(fmt.Sprintf("sb_%d", bvCnt), SInt)
	var pats [][]*Term
	for _, lp := range lps {
		pats = append(pats, []*Term{App("select", lp.r.val, news[lp.r.name], lp.addr(El(p, b1))), App("select", lp.r.val, news[lp.r.name], lp.addr(El(p, b2)))})
	}
	st.assume(Forall([]*Term{b1, b2}, Implies(And(Le(IntT(0), b1), Lt(b1, b2), Lt(b2, n)), Not(less(b2, b1))), pats...))
	cont(st, Val{})
}

func sortedKeysT(m map[string]*Term) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func mentions(t, c *Term) bool {
	if t == c {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, c) {
			return true
		}
	}
	return false
}
