package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof goal.
type Obligation struct {
	Fn     string
	Kind   string // pre post panic frame inv lemma smoke
	Label  string
	Pos    string
	Hyps   []*Term
	Goal   *Term
	Trail  []string
	Cand   *candidate // houdini candidate check
	Result string     // proved failed
	Solver string
	Millis int64
	Detail string
	Text   string
	Strong bool // no failing-fallback
}

type Exec struct {
	borrow   string // the parameter taken to point to an object nothing else refers to
	prop     string
	root     *ssa.Function
	rootC    *Contract
	obls     []*Obligation
	old      HeapView
	oldN     *Term
	env      *Env // root parameters
	loops    map[string]*loopState
	houdini  bool
	paths    int
	maxPaths int
	fail     []string // unsupported constructs
	rets     [][]*Term
	noCtr    map[string]bool // internal contracts disabled (inlined instead)
	usedExt  map[string]bool
	usedCtr  map[string]bool
	inlined  map[string]bool
	depth    int
	rootRank *Term
	visited  map[*ssa.BasicBlock]bool
	scc      map[string]bool
}

func (x *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	if goal == True {
		// still counted: discharged by simplification
	}
	if x.houdini && kind != "houdini" {
		return
	}
	for _, g := range splitGoal(goal) {
		x.obls = append(x.obls, &Obligation{Fn: fnName(x.root), Kind: kind, Label: label, Pos: posStr(pos), Hyps: st.pc, Goal: g, Trail: st.trail})
	}
}

func splitGoal(g *Term) []*Term {
	if g.K == KApp && g.Op == "and" {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.K == KApp && g.Op == "=>" {
		var out []*Term
		for _, b := range splitGoal(g.Args[1]) {
			out = append(out, Implies(g.Args[0], b))
		}
		return out
	}
	if g.K == KApp && g.Op == "not" {
		a := g.Args[0]
		if a.K == KApp && a.Op == "or" {
			var out []*Term
			for _, b := range a.Args {
				out = append(out, splitGoal(Not(b))...)
			}
			return out
		}
		if a.K == KExists {
			return splitGoal(Not(skolem(a)))
		}
		if a.K == KApp && a.Op == "=>" {
			return splitGoal(And(a.Args[0], Not(a.Args[1])))
		}
	}
	if g.K == KForall {
		if a, b := lastSplit(g); a != nil {
			return append(splitGoal(skolem(a)), splitGoal(b)...)
		}
		return splitGoal(skolem(g))
	}
	return []*Term{g}
}

// lastSplit splits "for all j < t+c" (c > 0) into "for all j < t+c-1" and the case j = t+c-1.
func lastSplit(g *Term) (*Term, *Term) {
	if len(g.Vars) != 1 || g.Vars[0].Sort != SInt {
		return nil, nil
	}
	j, b := g.Vars[0], g.Args[0]
	if b.K != KApp || b.Op != "=>" {
		return nil, nil
	}
	cs := conj(b.Args[0])
	for i, c := range cs {
		if c.K != KApp || c.Op != "<" || c.Args[0] != j {
			continue
		}
		t := c.Args[1]
		if t.K != KApp || t.Op != "+" || len(symbolicIn(t, j)) > 0 {
			continue
		}
		n := t.Args[len(t.Args)-1]
		if v, ok := intVal(n); !ok || v <= 0 {
			continue
		}
		last := Sub(t, IntT(1))
		rest := append([]*Term{}, cs...)
		rest[i] = Lt(j, last)
		fa := Forall(g.Vars, Implies(And(rest...), b.Args[1]), g.Pats...)
		at := Subst(b, map[*Term]*Term{j: last})
		return fa, at
	}
	return nil, nil
}

func symbolicIn(t, v *Term) []*Term {
	if t == v {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, symbolicIn(a, v)...)
	}
	return out
}

// skolem replaces the bound variables of a quantified goal by new constants.
func skolem(q *Term) *Term {
	m := map[*Term]*Term{}
	for _, v := range q.Vars {
		m[v] = Fresh("sk", v.Sort)
	}
	return Subst(q.Args[0], m)
}

func (x *Exec) tick() {
	x.paths++
	if x.paths > x.maxPaths {
		unsupported("more than %d paths", x.maxPaths)
	}
}

// branch runs yes with c assumed and no with its negation, skipping impossible sides.
func (x *Exec) branch(st *State, c *Term, yes, no func(*State)) {
	curSt = st
	c = st.decide(c)
	switch c {
	case True:
		yes(st)
		return
	case False:
		no(st)
		return
	}
	s2 := st.clone()
	if st.assume(c) {
		yes(st)
	}
	curSt = s2
	if s2.assume(Not(c)) {
		no(s2)
	}
}

// check continues only if ok; otherwise the path panics.
func (x *Exec) check(st *State, ok *Term, why string, pos token.Pos, cont func(*State)) {
	x.branch(st, ok, cont, func(s *State) { x.panicPath(s, why, pos) })
}

func (x *Exec) panicPath(st *State, why string, pos token.Pos) {
	x.tick()
	c := x.rootC
	if c.MayPanic {
		return
	}
	e := x.preEnv()
	var cs []*Term
	for _, p := range c.PanicIf {
		if clauseOn(p, x.prop) {
			cs = append(cs, e.bool(p.E))
		}
	}
	goal := Or(cs...)
	x.oblige(st, "panic", "panics only when allowed: "+why, pos, goal)
	if len(c.EnsPanic) > 0 {
		pe := x.postEnv(st, nil)
		for _, q := range c.EnsPanic {
			if clauseOn(q, x.prop) {
				x.oblige(st, "post-panic", q.Label, pos, pe.bool(q.E))
			}
		}
	}
	x.frameObls(st, pos, "panic-frame")
}

func clauseOn(c *Clause, prop string) bool {
	if prop == "" || len(c.Props) == 0 {
		return true
	}
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func (x *Exec) preEnv() *Env {
	return &Env{vars: x.env.vars, cur: x.old, old: x.old, nCur: x.oldN, nOld: x.oldN, fname: fnName(x.root)}
}

func (x *Exec) postEnv(st *State, res []Val) *Env {
	e := &Env{vars: map[string]SV{}, cur: st.view(), old: x.old, nCur: st.nTerm(), nOld: x.oldN, fname: fnName(x.root)}
	for k, v := range x.env.vars {
		e.vars[k] = v
	}
	bindResults(e, x.root.Signature, res)
	return e
}

func bindResults(e *Env, sig *types.Signature, res []Val) {
	for i := range res {
		t := sig.Results().At(i).Type()
		sv := SV{t: res[i].t, ty: t}
		e.vars[fmt.Sprintf("result%d", i)] = sv
		if len(res) == 1 {
			e.vars["result"] = sv
		}
	}
}

// ---- values ----
func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		if v.Pkg != x.root.Pkg && v.Pkg != P.spkg {
			return Val{t: globalRef(v.Pkg.Pkg.Name() + "." + v.Name())}
		}
		return Val{t: globalRef(v.Name())}
	case *ssa.Function:
		return Val{t: Const("fn_"+mangle(fnName(v)), SRef), clo: &Closure{fn: v}}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := st.act.locals[v]
	if !ok {
		unsupported("value %s of %s not available", v.Name(), fnName(st.act.fn))
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) *Term {
	r := x.val(st, v)
	if r.lv != nil {
		unsupported("address of field %s used as a value", r.lv.r.name)
	}
	if r.t == nil {
		unsupported("no term for %s", v.Name())
	}
	return r.t
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return Val{t: zeroOf(c.Type())}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{t: BoolT(constant.BoolVal(c.Value))}
	case constant.String:
		return Val{t: StrT(constant.StringVal(c.Value))}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return Val{t: IntT(n)}
		}
		return Val{t: App("bigint_"+mangle(c.Value.ExactString()), SInt)}
	}
	unsupported("constant %s", c)
	return Val{}
}

// ---- running ----
// run executes fn from the start of its body; k is called once per returning path.
func (x *Exec) run(st *State, fn *ssa.Function, args []Val, binds []Val, tag string, k func(*State, []Val)) {
	if fn.Blocks == nil {
		unsupported("no body: %s", fn)
	}
	d := 0
	if st.act != nil {
		d = st.act.depth + 1
	}
	if d > 12 {
		unsupported("inlining too deep at %s", fnName(fn))
	}
	a := &Act{fn: fn, locals: map[ssa.Value]Val{}, k: k, parent: st.act, tag: tag, depth: d}
	for i, p := range fn.Params {
		a.locals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		a.locals[p] = binds[i]
	}
	st.act = a
	x.block(st, fn.Blocks[0], nil)
}

func (x *Exec) block(st *State, b *ssa.BasicBlock, prev *ssa.BasicBlock) {
	// loops
	li := loopsOf(b.Parent())
	// leaving loops
	for len(st.act.loops) > 0 {
		top := st.act.loops[len(st.act.loops)-1]
		if top.li.blocks[b] {
			break
		}
		// (no spare capacity: other paths share the array)
		n := len(st.act.loops) - 1
		st.act.loops = st.act.loops[:n:n]
	}
	if l := li[b]; l != nil {
		inLoop := len(st.act.loops) > 0 && st.act.loops[len(st.act.loops)-1].header == b
		if inLoop && l.blocks[prev] {
			x.backedge(st, b, prev)
			return
		}
		x.enterLoop(st, b, prev, l)
		return
	}
	x.phis(st, b, prev)
	x.instrs(st, b, len(phisOf(b)))
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) phiVals(st *State, b, prev *ssa.BasicBlock) []Val {
	i := predIndex(b, prev)
	var vs []Val
	for _, p := range phisOf(b) {
		vs = append(vs, x.val(st, p.Edges[i]))
	}
	return vs
}

func (x *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	vs := x.phiVals(st, b, prev)
	for i, p := range phisOf(b) {
		st.act.locals[p] = vs[i]
	}
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, i int) {
	if x.visited == nil {
		x.visited = map[*ssa.BasicBlock]bool{}
	}
	x.visited[b] = true
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		curSt = st
		next := func(s *State) { x.instrs(s, b, i+1) }
		set := func(s *State, v Val) { s.act.locals[in.(ssa.Value)] = v }
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			x.block(st, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.term(st, in.Cond)
			x.branch(st, c,
				func(s *State) {
					s.trail = append(s.trail, posStr(condPos(in.Cond))+"+")
					x.block(s, b.Succs[0], b)
				},
				func(s *State) {
					s.trail = append(s.trail, posStr(condPos(in.Cond))+"-")
					x.block(s, b.Succs[1], b)
				})
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			a := st.act
			st.act = a.parent
			a.k(st, res)
			return
		case *ssa.Panic:
			x.panicPath(st, "explicit panic", in.Pos())
			return
		case *ssa.RunDefers:
			x.runDefers(st, next)
			return
		case *ssa.Defer:
			d := &deferred{call: &in.Call, pos: in.Pos()}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, a))
			}
			d.fn = x.val(st, in.Call.Value)
			st.act.defers = append(st.act.defers, d)
		case *ssa.Alloc:
			et := deref(in.Type())
			if isCell(in) {
				set(st, Val{cell: zeroOf(et)})
				break
			}
			r := st.alloc(leafRegions2(et)...)
			if at, ok := et.Underlying().(*types.Array); ok {
				if at.Len() > 64 {
					unsupported("large array")
				}
				for j := int64(0); j < at.Len(); j++ {
					st.store(El(r, IntT(j)), zeroOf(at.Elem()), at.Elem())
				}
			} else {
				st.store(r, zeroOf(et), et)
			}
			set(st, Val{t: r})
		case *ssa.FieldAddr:
			if cellLoc(in) != nil {
				break // used to load and store only
			}
			base := x.term(st, in.X)
			s := structOf(deref(in.X.Type()))
			if s.opaque {
				if f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field); f.Embedded() && isStruct(f.Type()) && structOf(f.Type()).opaque {
					// what is embedded in an object of another package goes by the object's address
					x.check(st, Not(Eq(base, Null)), "nil dereference", in.Pos(), func(s2 *State) {
						set(s2, Val{t: base})
						next(s2)
					})
					return
				}
				unsupported("field of %s", s.key)
			}
			fi := in.Field
			x.check(st, Not(Eq(base, Null)), "nil dereference", in.Pos(), func(s2 *State) {
				if s.fields[fi].sub {
					set(s2, Val{t: subRef(s, fi, base)})
				} else {
					set(s2, Val{lv: &LV{fieldRegion(s, fi), base}})
				}
				next(s2)
			})
			return
		case *ssa.Field:
			s := structOf(in.X.Type())
			if s.opaque {
				unsupported("field of %s", s.key)
			}
			set(st, Val{t: Sel(s.name+"."+s.fields[in.Field].name, x.term(st, in.X))})
		case *ssa.IndexAddr:
			x.indexAddr(st, in, next)
			return
		case *ssa.Index:
			if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				s, ix := x.term(st, in.X), x.term(st, in.Index)
				x.check(st, And(Le(IntT(0), ix), Lt(ix, StrLen(s))), "index out of range", in.Pos(), func(s2 *State) {
					set(s2, Val{t: byteAt(s, ix)})
					next(s2)
				})
				return
			}
			unsupported("array index")
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				if l := cellLoc(in.X); l != nil {
					set(st, Val{t: cellGet(x.val(st, l.a).cell, deref(l.a.Type()), l.path)})
					break
				}
				av := x.val(st, in.X)
				if av.lv != nil {
					st.touch(av.lv.r, av.lv.ref)
					set(st, x.loaded(st, Select(st.get(av.lv.r), av.lv.ref), in.Type()))
					break
				}
				t := deref(in.X.Type())
				x.check(st, Not(Eq(av.t, Null)), "nil dereference", in.Pos(), func(s2 *State) {
					s2.touchAt(av.t, t)
					set(s2, x.loaded(s2, loadAt(s2.view(), av.t, t), t))
					next(s2)
				})
				return
			case token.NOT:
				set(st, Val{t: Not(x.term(st, in.X))})
			case token.SUB:
				set(st, Val{t: Sub(IntT(0), x.term(st, in.X))})
			default:
				unsupported("unary %s", in.Op)
			}
		case *ssa.BinOp:
			set(st, Val{t: x.binop(st, in)})
		case *ssa.Store:
			if b, ia := writeBase(in.Addr); b != nil {
				x.guardWrite(st, b, x.term(st, ia.Index), in.Pos())
			}
			v := x.val(st, in.Val)
			if v.clo != nil || v.lv != nil {
				st.sealVal(v)
			}
			if v.clo != nil && v.t == nil {
				v.t = Fresh("closure", SRef)
			}
			if v.lv != nil {
				unsupported("address of field %s stored", v.lv.r.name)
			}
			if l := cellLoc(in.Addr); l != nil {
				st.seal(v.t)
				c := x.val(st, l.a)
				c.cell = cellPut(c.cell, deref(l.a.Type()), l.path, v.t)
				st.act.locals[l.a] = c
				break
			}
			av := x.val(st, in.Addr)
			if av.lv != nil {
				st.put(av.lv.r, av.lv.ref, v.t)
				break
			}
			t := deref(in.Addr.Type())
			x.check(st, Not(Eq(av.t, Null)), "nil dereference", in.Pos(), func(s2 *State) {
				s2.store(av.t, v.t, t)
				next(s2)
			})
			return
		case *ssa.MakeInterface:
			v := x.val(st, in.X)
			if v.lv != nil {
				unsupported("address of a field boxed")
			}
			st.sealVal(v)
			set(st, Val{t: Box(in.X.Type(), v.t), static: in.X.Type()})
		case *ssa.ChangeInterface:
			v := x.val(st, in.X)
			if v.t != nil {
				if it, ok := in.X.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
					ifaceHint[v.t] = in.X.Type()
				}
			}
			set(st, v)
		case *ssa.ChangeType:
			v := x.val(st, in.X)
			set(st, v)
		case *ssa.Convert:
			set(st, Val{t: x.convert(st, in)})
		case *ssa.MakeClosure:
			c := &Closure{fn: in.Fn.(*ssa.Function)}
			for _, b := range in.Bindings {
				c.bind = append(c.bind, x.val(st, b))
			}
			set(st, Val{t: Fresh("closure", SRef), clo: c})
		case *ssa.MakeMap:
			has, mval := mapRegions(in.Type())
			r := st.alloc(has, mval)
			ks, _ := arrParts(has.val)
			st.set(has, Store(st.raw(has), r, App("constarr", SArr(ks, SBool), False)))
			set(st, Val{t: r})
		case *ssa.MakeSlice:
			x.makeSlice(st, in, next)
			return
		case *ssa.Slice:
			x.slice(st, in, next)
			return
		case *ssa.MapUpdate:
			m := x.term(st, in.Map)
			k, v := x.term(st, in.Key), x.term(st, in.Value)
			has, val := mapRegions(in.Map.Type())
			st.seal(k, v)
			x.check(st, Not(Eq(m, Null)), "assignment to entry in nil map", in.Pos(), func(s2 *State) {
				h, vv := s2.raw(has), s2.raw(val)
				s2.set(has, Store(h, m, Store(Select(h, m), k, True)))
				s2.set(val, Store(vv, m, Store(Select(vv, m), k, v)))
				next(s2)
			})
			return
		case *ssa.Lookup:
			if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				s, ix := x.term(st, in.X), x.term(st, in.Index)
				x.check(st, And(Le(IntT(0), ix), Lt(ix, StrLen(s))), "index out of range", in.Pos(), func(s2 *State) {
					set(s2, Val{t: byteAt(s, ix)})
					next(s2)
				})
				return
			}
			m, k := x.term(st, in.X), x.term(st, in.Index)
			has, val := mapRegions(in.X.Type())
			et := in.X.Type().Underlying().(*types.Map).Elem()
			x.nilMapFacts(st, in.X.Type())
			h := Select(Select(st.get(has), m), k)
			v := Select(Select(st.get(val), m), k)
			x.branch(st, h, func(s *State) {
				lv := x.loaded(s, v, et)
				if in.CommaOk {
					lv = Val{tup: []Val{lv, {t: True}}}
				}
				set(s, lv)
				next(s)
			}, func(s *State) {
				lv := Val{t: zeroOf(et)}
				if in.CommaOk {
					lv = Val{tup: []Val{lv, {t: False}}}
				}
				set(s, lv)
				next(s)
			})
			return
		case *ssa.Extract:
			t := x.val(st, in.Tuple)
			if len(t.tup) <= in.Index {
				unsupported("extract")
			}
			set(st, t.tup[in.Index])
		case *ssa.TypeAssert:
			v := x.val(st, in.X)
			c := isType(v.t, in.AssertedType)
			x.branch(st, c, func(s *State) {
				r := v
				if !types.IsInterface(in.AssertedType) {
					r = x.loaded(s, Sel("un"+boxOf(in.AssertedType).ctor, v.t), in.AssertedType)
				} else {
					x.ifaceFacts(s, v.t, in.AssertedType)
				}
				if in.CommaOk {
					r = Val{tup: []Val{r, {t: True}}}
				}
				set(s, r)
				next(s)
			}, func(s *State) {
				if !in.CommaOk {
					x.panicPath(s, "type assertion fails", in.Pos())
					return
				}
				set(s, Val{tup: []Val{{t: zeroOf(in.AssertedType)}, {t: False}}})
				next(s)
			})
			return
		case *ssa.Range:
			mt, ok := in.X.Type().Underlying().(*types.Map)
			if !ok {
				unsupported("range over string")
			}
			_ = mt
			m := x.term(st, in.X)
			has, val := mapRegions(in.X.Type())
			x.nilMapFacts(st, in.X.Type())
			ks, _ := arrParts(has.val)
			_ = ks
			it := &Iter{mt: in.X.Type(), has: Select(st.get(has), m), val: Select(st.get(val), m), tok: Fresh("itok", SInt), count: IntT(0)}
			st.assume(Fn("eknown_"+mangle(ks), SBool, it.has, it.tok))
			set(st, Val{iter: it})
		case *ssa.Next:
			iv := x.val(st, in.Iter)
			it := iv.iter
			if it == nil {
				unsupported("string iterator")
			}
			mt := it.mt.Underlying().(*types.Map)
			x.branch(st, Lt(it.count, SetCard(it.has)), func(s *State) {
				k := it.key(it.count)
				s.assume(Select(it.has, k), Eq(it.idx(k), it.count))
				v := x.loaded(s, Select(it.val, k), mt.Elem())
				n := *it
				n.count = Add(it.count, IntT(1))
				s.act.locals[in.Iter] = Val{iter: &n}
				set(s, Val{tup: []Val{{t: True}, {t: k}, v}})
				next(s)
			}, func(s *State) {
				set(s, Val{tup: []Val{{t: False}, {t: zeroOf(mt.Key())}, {t: zeroOf(mt.Elem())}}})
				next(s)
			})
			return
		case *ssa.Call:
			x.call(st, in, &in.Call, in.Pos(), func(s *State, v Val) {
				set(s, v)
				next(s)
			})
			return
		default:
			unsupported("instruction %T (%s)", in, in)
		}
	}
}

// nilMapFacts: the nil map has no keys.
func (x *Exec) nilMapFacts(st *State, mt types.Type) {
	has, _ := mapRegions(mt)
	ks, _ := arrParts(has.val)
	st.assume(Eq(Select(rootArr(st.get(has)), Null), App("constarr", SArr(ks, SBool), False)))
}

func rootArr(a *Term) *Term {
	for a.K == KApp && a.Op == "store" {
		a = a.Args[0]
	}
	return a
}

func condPos(v ssa.Value) token.Pos {
	if v.Pos().IsValid() {
		return v.Pos()
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil && (*op).Pos().IsValid() {
				return (*op).Pos()
			}
		}
	}
	return token.NoPos
}

// loaded adds what is known about any value read from memory.
func (x *Exec) loaded(st *State, t *Term, ty types.Type) Val {
	if len(st.lateIn(t)) > 0 {
		return Val{t: t} // a pending store read back
	}
	b := below(t, ty, st.nTerm())
	st.assume(b)
	if u, ok := ty.Underlying().(*types.Basic); ok && u.Info()&types.IsUnsigned != 0 {
		st.assume(Le(IntT(0), t))
	}
	return Val{t: t}
}

func (x *Exec) ifaceFacts(st *State, v *Term, t types.Type) {}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr, next func(*State)) {
	ix := x.term(st, in.Index)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(st, in.X)
		x.check(st, And(Le(IntT(0), ix), Lt(ix, Sel("slen", s))), "index out of range", in.Pos(), func(s2 *State) {
			a := El(Sel("sptr", s), ix)
			s2.assume(Not(Eq(a, Null)))
			s2.act.locals[in] = Val{t: a}
			next(s2)
		})
		return
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.term(st, in.X)
		x.check(st, And(Le(IntT(0), ix), Lt(ix, IntT(at.Len()))), "index out of range", in.Pos(), func(s2 *State) {
			s2.act.locals[in] = Val{t: El(p, ix)}
			next(s2)
		})
		return
	}
	unsupported("index address of %s", in.X.Type())
}

func (x *Exec) makeSlice(st *State, in *ssa.MakeSlice, next func(*State)) {
	l, c := x.term(st, in.Len), x.term(st, in.Cap)
	x.check(st, And(Le(IntT(0), l), Le(l, c)), "makeslice: len out of range", in.Pos(), func(s2 *State) {
		et := in.Type().Underlying().(*types.Slice).Elem()
		s2.act.locals[in] = Val{t: x.newSlice(s2, et, l, c)}
		next(s2)
	})
}

// newSlice allocates a zeroed backing array.
func (x *Exec) newSlice(st *State, et types.Type, l, c *Term) *Term {
	r := st.alloc(leafRegions(et)...)
	x.zeroElems(st, r, et)
	return Ctor("mkslice", r, l, c)
}

func (x *Exec) zeroElems(st *State, r *Term, et types.Type) {
	bvCnt++
	i := BoundT(fmt.Sprintf("zi_%d", bvCnt), SInt)
	x.zeroAt(st, El(r, i), et, i)
}

func (x *Exec) zeroAt(st *State, addr *Term, et types.Type, i *Term) {
	if isStruct(et) {
		s := structOf(et)
		if s.opaque {
			return
		}
		for k, f := range s.fields {
			if f.sub {
				x.zeroAt(st, subRef(s, k, addr), f.typ, i)
				continue
			}
			h := rootArr(st.get(fieldRegion(s, k)))
			sel := App("select", f.sort, h, addr)
			st.assume(Forall([]*Term{i}, Eq(sel, zeroOf(f.typ)), []*Term{sel}))
		}
		return
	}
	reg := cellRegion(et)
	h := rootArr(st.get(reg))
	sel := App("select", reg.val, h, addr)
	st.assume(Forall([]*Term{i}, Eq(sel, zeroOf(et)), []*Term{sel}))
}

func (x *Exec) slice(st *State, in *ssa.Slice, next func(*State)) {
	lo := IntT(0)
	if in.Low != nil {
		lo = x.term(st, in.Low)
	}
	if in.Max != nil {
		unsupported("three-index slice")
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.term(st, in.X)
		hi := StrLen(s)
		if in.High != nil {
			hi = x.term(st, in.High)
		}
		x.check(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, StrLen(s))), "slice bounds out of range", in.Pos(), func(s2 *State) {
			s2.act.locals[in] = Val{t: SubStr(s, lo, hi)}
			next(s2)
		})
		return
	case *types.Slice:
		s := x.term(st, in.X)
		hi := Sel("slen", s)
		if in.High != nil {
			hi = x.term(st, in.High)
		}
		x.check(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, Sel("scap", s))), "slice bounds out of range", in.Pos(), func(s2 *State) {
			s2.act.locals[in] = Val{t: Ctor("mkslice", Shift(Sel("sptr", s), lo), Sub(hi, lo), Sub(Sel("scap", s), lo))}
			next(s2)
		})
		return
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.term(st, in.X)
		hi := IntT(at.Len())
		if in.High != nil {
			hi = x.term(st, in.High)
		}
		x.check(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, IntT(at.Len()))), "slice bounds out of range", in.Pos(), func(s2 *State) {
			s2.act.locals[in] = Val{t: Ctor("mkslice", Shift(p, lo), Sub(hi, lo), Sub(IntT(at.Len()), lo))}
			next(s2)
		})
		return
	}
	unsupported("slice of %s", in.X.Type())
}

// SubStr is s[lo:hi].
func SubStr(s, lo, hi *Term) *Term {
	if lo.Op == "0" && lo.K == KInt && hi == StrLen(s) {
		return s
	}
	// drop a literal suffix: (a ++ "x")[0 : len-1]
	if lo.K == KInt && lo.Op == "0" {
		d := Sub(StrLen(s), hi)
		if n, ok := intVal(d); ok && n >= 0 {
			ps := strParts(s)
			if len(ps) > 0 && ps[len(ps)-1].K == KStr && int64(len(ps[len(ps)-1].Op)) >= n {
				last := ps[len(ps)-1].Op
				return Concat(append(append([]*Term{}, ps[:len(ps)-1]...), StrT(last[:int64(len(last))-n]))...)
			}
		}
	}
	return App("str.substr", SStr, s, lo, Sub(hi, lo))
}

func (x *Exec) binop(st *State, in *ssa.BinOp) *Term {
	a, b := x.term(st, in.X), x.term(st, in.Y)
	str := a.Sort == SStr
	switch in.Op {
	case token.ADD:
		if str {
			return Concat(a, b)
		}
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.EQL, token.NEQ:
		var r *Term
		if a.Sort == SSlice {
			r = Eq(Sel("sptr", a), Sel("sptr", b))
		} else {
			r = x.goEq(a, b, in.X.Type(), in.Y.Type())
		}
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS:
		if str {
			return StrLess(a, b)
		}
		return Lt(a, b)
	case token.LEQ:
		if str {
			return Not(StrLess(b, a))
		}
		return Le(a, b)
	case token.GTR:
		if str {
			return StrLess(b, a)
		}
		return Lt(b, a)
	case token.GEQ:
		if str {
			return Not(StrLess(a, b))
		}
		return Le(b, a)
	case token.AND_NOT, token.AND:
		if m, ok := intVal(b); ok && m >= 0 && (m&(m+1)) == 0 {
			md := App("mod", SInt, a, IntT(m+1))
			if in.Op == token.AND {
				return md
			}
			return Sub(a, md)
		}
		if m, ok := intVal(b); ok && in.Op == token.AND && m > 0 && m&(m-1) == 0 {
			return Mul(IntT(m), App("mod", SInt, App("div", SInt, a, IntT(m)), IntT(2)))
		}
		return Fn("bit_"+strings.ToLower(in.Op.String()[:1]), SInt, a, b)
	case token.QUO, token.REM:
		unsupported("division")
	}
	unsupported("binary %s", in.Op)
	return nil
}

// goEq is == on Go values; comparing a slice or map field is not possible in Go.
func (x *Exec) goEq(a, b *Term, ta, tb types.Type) *Term {
	if a.Sort == b.Sort {
		return Eq(a, b)
	}
	// interface against concrete
	if a.Sort == SIface {
		return Eq(a, Box(tb, b))
	}
	if b.Sort == SIface {
		return Eq(Box(ta, a), b)
	}
	unsupported("comparison")
	return nil
}

func (x *Exec) convert(st *State, in *ssa.Convert) *Term {
	v := x.term(st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fs, ts := sortOf(in.X.Type()), sortOf(in.Type())
	if fs == SInt && ts == SStr {
		return runeStr(v)
	}
	if fs == ts && fs != SSlice {
		return v
	}
	if fs == SSlice && ts == SStr {
		return x.bytesText(st, v)
	}
	if fs == SStr && ts == SSlice {
		if sl, ok := to.(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
			return x.bytesOf(st, v)
		}
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

// the text of a byte slice is a ghost of its backing pointer, set when it is made
func (x *Exec) bytesText(st *State, s *Term) *Term {
	g := regGhost("$bytes", SStr)
	return Select(st.get(g), Sel("sptr", s))
}

func (x *Exec) bytesOf(st *State, str *Term) *Term {
	g := regGhost("$bytes", SStr)
	r := st.alloc()
	st.set(g, Store(st.raw(g), r, str))
	return Ctor("mkslice", r, StrLen(str), StrLen(str))
}

func runeStr(r *Term) *Term {
	if n, ok := intVal(r); ok {
		return StrT(string(rune(n)))
	}
	return Fn("s_runestr", SStr, r)
}

func (x *Exec) runDefers(st *State, next func(*State)) {
	if len(st.act.defers) == 0 {
		next(st)
		return
	}
	d := st.act.defers[len(st.act.defers)-1]
	st.act.defers = st.act.defers[:len(st.act.defers)-1]
	x.callVals(st, d.call, d.fn, d.args, d.pos, func(s *State, _ Val) { x.runDefers(s, next) })
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
