package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- modifies clauses ----
type modSet struct {
	preds map[string][]func(q *Term) *Term
	all   map[string]bool
	any   bool
}

func (m *modSet) pred(r *region, q *Term) *Term {
	if m == nil {
		return False
	}
	if m.any || m.all[r.name] {
		return True
	}
	var cs []*Term
	for _, f := range m.preds[r.name] {
		cs = append(cs, f(q))
	}
	return Or(cs...)
}

func (m *modSet) touches(r *region) bool {
	return m != nil && (m.any || m.all[r.name] || len(m.preds[r.name]) > 0)
}

func (x *Exec) modSets(e *Env, c *Contract) *modSet {
	m := &modSet{preds: map[string][]func(*Term) *Term{}, all: map[string]bool{}}
	if c == nil {
		return m
	}
	for _, cl := range c.Modifies {
		e.addMods(m, cl.E)
	}
	return m
}

func (e *Env) addMods(m *modSet, ex *Expr) {
	addRef := func(r *region, ref *Term) {
		m.preds[r.name] = append(m.preds[r.name], func(q *Term) *Term { return Eq(q, ref) })
	}
	addStruct := func(ref *Term, t types.Type) {
		var rec func(ref *Term, t types.Type)
		rec = func(ref *Term, t types.Type) {
			s := structOf(t)
			if s.opaque {
				addRef(ghostOf(s), ref)
				return
			}
			for i, f := range s.fields {
				if f.sub {
					rec(subRef(s, i, ref), f.typ)
				} else {
					addRef(fieldRegion(s, i), ref)
				}
			}
		}
		rec(ref, t)
	}
	switch {
	case ex.Op == "id" && ex.S == "trace":
		m.all["$trace"] = true
	case ex.Op == "id" && ex.S == "anything":
		m.any = true
	case ex.Op == "call" && ex.S == "all":
		n := exprStr(ex.A[0])
		r := regions[n]
		if a := ex.A[0]; a.Op == "call" && a.S == "mem" {
			t, _ := resolveType(exprStr(a.A[0]))
			r = cellRegion(t)
			n = r.name
		}
		if r == nil {
			sfail("modifies all: unknown region %s", n)
		}
		m.all[n] = true
	case ex.Op == "call" && ex.S == "allof":
		// allof(T): every field of every T
		t, _ := resolveType(exprStr(ex.A[0]))
		for _, r := range leafRegions(t) {
			m.all[r.name] = true
		}
	case ex.Op == "call" && ex.S == "buf":
		addRef(regGhost("bytes.Buffer.$s", SStr), e.val(e.eval(ex.A[0])))
	case ex.Op == "call" && ex.S == "map":
		v := e.eval(ex.A[0])
		h, vv := mapRegions(v.ty)
		addRef(h, e.val(v))
		addRef(vv, e.val(v))
	case ex.Op == "call" && ex.S == "elems":
		v := e.eval(ex.A[0])
		et := v.ty.Underlying().(*types.Slice).Elem()
		p, n := Sel("sptr", e.val(v)), Sel("slen", e.val(v))
		for _, r := range leafRegions(et) {
			r := r
			m.preds[r.name] = append(m.preds[r.name], func(q *Term) *Term {
				if !isStruct(et) {
					// q is el(p, j) for some 0 <= j < n
					ix := Fn("eli", SInt, q)
					of := Fn("off", SInt, p)
					return And(Eq(Rt(q), Rt(p)), Eq(Fn("shape", SInt, q), IntT(1)), Eq(Fn("elb", SRef, q), Fn("elb0", SRef, p)), Le(of, ix), Lt(ix, Add(of, n)))
				}
				return And(Eq(Rt(q), Rt(p)), Fn("under", SBool, q, p))
			})
		}
	case ex.Op == "call" && ex.S == "star":
		v := e.eval(ex.A[0])
		addStruct(e.val(v), deref(v.ty))
	case ex.Op == "call" && ex.S == "when":
		// when(cond, lvalue)
		c := e.bool(ex.A[0])
		if c == False {
			return
		}
		sub := &modSet{preds: map[string][]func(*Term) *Term{}, all: map[string]bool{}}
		e.addMods(sub, ex.A[1])
		for k, fs := range sub.preds {
			for _, f := range fs {
				f := f
				m.preds[k] = append(m.preds[k], func(q *Term) *Term { return And(c, f(q)) })
			}
		}
		for k := range sub.all {
			m.preds[k] = append(m.preds[k], func(q *Term) *Term { return c })
		}
	case ex.Op == "field":
		v := e.eval(ex)
		if v.lv {
			addStruct(v.t, v.ty)
			return
		}
		// leaf: recompute its location
		b := e.eval(ex.A[0])
		t := b.ty
		if !b.lv {
			t = deref(b.ty)
		}
		s := structOf(t)
		addRef(fieldRegion(s, s.field(ex.S)), b.t)
	default:
		sfail("modifies: unsupported location %s", exprStr(ex))
	}
}

// reduceTo strips writes that touch nothing below n!bound, until want is reached.
func reduceTo(t *Term, bound int, want *Term) *Term {
	for t != want {
		n := reduceFrame1(t, bound)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// reduceFrame strips writes that touch nothing below n!bound.
func reduceFrame(t *Term, bound int) *Term { return reduceTo(t, bound, nil) }

func reduceFrame1(t *Term, bound int) *Term {
	if t.K == KApp && t.Op == "store" {
		if s, ok := lateStamp(rootTerm(t.Args[1])); ok && s > bound {
			return t.Args[0]
		}
	}
	if h, ok := havocOf[t]; ok && h.ok() && h.stamp() >= bound {
		return h.old
	}
	return t
}

// havocInfo: a region constant that agrees with old below n!epoch.
type havocInfo struct {
	old   *Term
	epoch int
	clean bool
	root  *Term // when set: differs only at this root
}

func (h havocInfo) ok() bool {
	if h.root != nil {
		_, ok := lateStamp(h.root)
		return ok
	}
	return h.clean
}

func (h havocInfo) stamp() int {
	if h.root != nil {
		s, _ := lateStamp(h.root)
		return s - 1
	}
	return h.epoch
}

var havocOf = map[*Term]havocInfo{}

// frameObls: at the end, old memory outside the modifies clause is unchanged.
func (x *Exec) frameObls(st *State, pos token.Pos, kind string) {
	if x.rootC.Trusted {
		return
	}
	mods := x.modSets(x.preEnv(), x.rootC)
	if mods.any {
		return
	}
	names := map[string]*region{}
	for n := range st.heap {
		if r := regions[n]; r != nil {
			names[n] = r
		}
	}
	var ks = map[string]bool{}
	for k := range names {
		ks[k] = true
	}
	for _, n := range sortedKeys(ks) {
		r := names[n]
		end, old := st.get(r), x.old(r)
		if end == old || mods.all[n] {
			continue
		}
		if n == "$trace" {
			x.oblige(st, kind, "no input or output", pos, Eq(end, old))
			continue
		}
		if reduceFrame(end, 1) == old {
			continue
		}
		q := Const("fq_"+mangle(n), SRef)
		hyp := And(Lt(Rt(q), x.oldN), Not(mods.pred(r, q)))
		goal := Implies(hyp, Eq(App("select", r.val, end, q), App("select", r.val, old, q)))
		x.oblige(st, kind, "only declared locations change: "+n, pos, goal)
	}
}

// AgreeT states that two type heaps agree below n.
func AgreeT(a, b, n *Term) *Term {
	if a == b {
		return True
	}
	return Fn("agree", SBool, a, b, n)
}

// thSync records how the type heap changed since the last snapshot, when only
// fresh memory was written since.
func (x *Exec) thSync(st *State) {
	if len(SP.TypeHeap) == 0 {
		return
	}
	cur := TH(st.view())
	if st.snap == nil {
		st.snap, st.snapN = cur, st.nTerm()
		return
	}
	if cur == st.snap {
		return
	}
	// the latest snapshot since which only fresh memory was written
	for sn := (&snapRec{st.snap, st.snapN, st.older}); sn != nil; sn = sn.prev {
		if onlyFresh(st, sn) {
			st.assume(AgreeT(sn.th, cur, sn.n))
			break
		}
	}
	st.setSnap(cur, st.nTerm())
}

func onlyFresh(st *State, sn *snapRec) bool {
	bound := epochOf[sn.n.Op]
	sv := thView(sn.th)
	for _, r := range thRegions() {
		a, b := sv(r), st.get(r)
		if a != b && reduceTo(b, bound, a) != a && reduceFrame(b, bound) != reduceFrame(a, bound) {
			return false
		}
	}
	return true
}

// ---- calls ----
func (x *Exec) call(st *State, in *ssa.Call, c *ssa.CallCommon, pos token.Pos, cont func(*State, Val)) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	fv := Val{}
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = x.val(st, c.Value)
	}
	x.callVals(st, c, fv, args, pos, cont)
}

func retVal(res []Val) Val {
	if len(res) == 1 {
		return res[0]
	}
	return Val{tup: res}
}

func (x *Exec) callVals(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, cont func(*State, Val)) {
	if c.IsInvoke() {
		x.check(st, Not(Eq(fv.t, INil)), "method call on nil interface", pos, func(s *State) {
			x.invoke(s, c, fv, args, pos, cont)
		})
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, b, c, args, pos, cont)
		return
	}
	fn := c.StaticCallee()
	if fn == nil && fv.clo != nil {
		fn = fv.clo.fn
	}
	if fn == nil {
		x.dynCall(st, c, fv, args, pos, cont)
		return
	}
	if fn.Pkg == P.spkg || fn.Parent() != nil {
		fn = originOf2(fn)
		ct := SP.Contracts[fnName(fn)]
		if ct == nil {
			ct = x.implContract(fn)
		}
		if ct != nil && !ct.Inline && !(ct.InlineClo && hasClo(args)) && !x.noCtr[ct.Key] && x.contractOn(ct) && len(ct.Params) == len(fn.Params) {
			x.usedCtr[ct.Key] = true
			x.applyContract(st, ct, fn, fn.Signature, paramTypes(fn), args, writesOf(fn), oldWritesOf(fn), pos, cont)
			return
		}
		// a helper without contract is taken in with its body
		for a := st.act; a != nil; a = a.parent {
			if a.fn == fn {
				unsupported("recursive helper %s without contract", fnName(fn))
			}
		}
		x.inlined[fnName(fn)] = true
		var binds []Val
		if fv.clo != nil {
			binds = fv.clo.bind
		}
		if c.StaticCallee() != nil {
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				binds = x.val(st, mc).clo.bind
			}
		}
		x.run(st, fn, args, binds, fmt.Sprintf("%d", pos), func(s *State, res []Val) { cont(s, retVal(res)) })
		return
	}
	x.external(st, extKey(fn), fn.Signature, c, args, pos, cont)
}

func originOf2(fn *ssa.Function) *ssa.Function { return fn }

func paramTypes(fn *ssa.Function) []types.Type {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	return ts
}

// contractOn: contracts restricted to some properties are ignored for others.
func (x *Exec) contractOn(c *Contract) bool { return true }

// implContract gives a method of an interface with an interface-level contract that contract.
func (x *Exec) implContract(fn *ssa.Function) *Contract {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	return ifaceImpl(fn, r.Type())
}

var implMemo = map[*ssa.Function]*Contract{}

func ifaceImpl(fn *ssa.Function, rt types.Type) *Contract {
	if c, ok := implMemo[fn]; ok {
		return c
	}
	implMemo[fn] = nil
	for _, key := range SP.Order {
		c := SP.Contracts[key]
		if c.Kind != "iface" {
			continue
		}
		i := strings.LastIndex(key, ".")
		tn, _ := P.pkg.Scope().Lookup(key[:i]).(*types.TypeName)
		if tn == nil || key[i+1:] != fn.Name() {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(rt, it) {
			continue
		}
		nc := *c
		nc.Key = fnName(fn)
		nc.Kind = "impl"
		implMemo[fn] = &nc
		return &nc
	}
	return nil
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos, cont func(*State, Val)) {
	key := ifaceKey(c.Value.Type()) + "." + c.Method.Name()
	all := append([]Val{recv}, args...)
	sig := c.Method.Type().(*types.Signature)
	pts := []types.Type{c.Value.Type()}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	if ct := SP.Contracts[key]; ct != nil && (ct.Kind == "iface" || ct.Kind == "ext") && !x.noCtr[key] {
		w := writeSet{}
		callWrites(c, w)
		wo := writeSet{}
		inOldMode(func() { callWrites(c, wo) })
		if ct.Kind == "ext" {
			x.usedExt[key] = true
		} else {
			x.usedCtr[key] = true
		}
		x.applyContract(st, ct, nil, sig, pts, all, w, wo, pos, cont)
		return
	}
	// dynamic dispatch over the known implementations
	it := c.Value.Type().Underlying().(*types.Interface)
	var impls []*boxInfo
	implCount := 0
	for _, b := range boxes {
		if types.Implements(b.typ, it) {
			implCount++
			if m := P.prog.LookupMethod(b.typ, c.Method.Pkg(), c.Method.Name()); m != nil && ours(m) {
				impls = append(impls, b)
			}
		}
	}
	if len(impls) == 0 {
		unsupported("call of %s without a contract", key)
	}
	var rec func(s *State, i int)
	rec = func(s *State, i int) {
		if i == len(impls) {
			if s.assume(isType(recv.t, c.Value.Type())) && !(closedIface(it) && implCount == len(impls)) {
				unsupported("call of %s on an unknown implementation", key)
			}
			return
		}
		b := impls[i]
		x.branch(s, Is(b.ctor, recv.t), func(s1 *State) {
			m := P.prog.LookupMethod(b.typ, c.Method.Pkg(), c.Method.Name())
			rv := Val{t: Sel("un"+b.ctor, recv.t)}
			x.callFn(s1, m, append([]Val{rv}, args...), pos, cont)
		}, func(s2 *State) { rec(s2, i+1) })
	}
	rec(st, 0)
}

// ours: the body is this package's (or a wrapper made for one of its methods)
func ours(fn *ssa.Function) bool {
	return fn.Pkg == P.spkg || fn.Parent() != nil || fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Object() != nil && fn.Object().Pkg() == P.pkg
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, pos token.Pos, cont func(*State, Val)) {
	if ours(fn) {
		ct := SP.Contracts[fnName(fn)]
		if ct == nil {
			ct = x.implContract(fn)
		}
		if ct != nil && !ct.Inline && !(ct.InlineClo && hasClo(args)) && !x.noCtr[ct.Key] && fn.Synthetic == "" && len(ct.Params) == len(fn.Params) {
			x.usedCtr[ct.Key] = true
			x.applyContract(st, ct, fn, fn.Signature, paramTypes(fn), args, writesOf(fn), oldWritesOf(fn), pos, cont)
			return
		}
		x.inlined[fnName(fn)] = true
		x.run(st, fn, args, nil, fmt.Sprintf("%d", pos), func(s *State, res []Val) { cont(s, retVal(res)) })
		return
	}
	x.external(st, extKey(fn), fn.Signature, nil, args, pos, cont)
}

func (x *Exec) applyContract(st *State, ct *Contract, fn *ssa.Function, sig *types.Signature, pts []types.Type, args []Val, w, wo writeSet, pos token.Pos, cont func(*State, Val)) {
	x.thSync(st)
	if len(ct.Params) != len(args) {
		unsupported("contract %s has %d parameters, the code has %d", ct.Key, len(ct.Params), len(args))
	}
	for i, v := range args {
		if !ct.borrowed(ct.Params[i]) || v.t == nil || v.t.Sort != SRef {
			st.sealVal(v)
		}
	}
	// a private object is lent once only
	var lent []*Term
	for i, v := range args {
		if ct.borrowed(ct.Params[i]) && v.t != nil && v.t.Sort == SRef {
			for _, id := range st.lateIn(v.t) {
				if len(lent) > 0 || Rt(v.t) != id {
					st.sealID(id)
				} else {
					st.flushOf(id)
					lent = append(lent, v.t)
				}
			}
		}
	}
	if len(lent) == 1 && len(st.lateIn(lent[0])) == 0 {
		lent = nil
	}
	pre := &Env{vars: map[string]SV{}, cur: st.snapshot(), nCur: st.nTerm(), fname: ct.Key}
	pre.old, pre.nOld = pre.cur, pre.nCur
	impl := ct.Kind == "impl"
	for i, p := range ct.Params {
		v := args[i]
		if v.lv != nil {
			unsupported("address of field %s passed to %s", v.lv.r.name, ct.Key)
		}
		t := v.t
		ty := pts[i]
		if impl && i == 0 {
			t = Box(pts[0], v.t)
			ty = types.NewInterfaceType(nil, nil)
		}
		if t == nil && v.clo != nil {
			t = Fresh("closure", SRef)
		}
		pre.vars[p] = SV{t: t, ty: ty}
	}
	where := "call of " + ct.Key
	// implicit non-nil pointers
	if fn != nil && !impl {
		for i, p := range ct.Params {
			if _, ok := pts[i].Underlying().(*types.Pointer); ok && !ct.nullable(p) {
				x.oblige(st, "pre", where+": "+p+" not nil", pos, Not(Eq(pre.vars[p].t, Null)))
				st.assume(Not(Eq(pre.vars[p].t, Null)))
			}
		}
	}
	for _, r := range ct.Requires {
		if r.Label == "borrow" || r.Label == "nullable" {
			continue
		}
		if clauseOn(r, x.prop) {
			g := pre.bool(r.E)
			x.oblige(st, "pre", where+": "+r.Label+" "+r.Src, pos, g)
			st.assume(g)
		}
	}
	// termination of recursion
	if fn != nil && x.rootC.Decreases != nil && ct.Decreases != nil && x.scc[ct.Key] && clauseOn(ct.Decreases, x.prop) {
		m := pre.val(pre.eval(ct.Decreases.E))
		x.oblige(st, "decreases", where+": measure decreases", pos, And(Le(IntT(0), m), Lt(m, x.rootMeasure())))
	}
	if fn == nil && x.rootC.Decreases != nil && ct.Decreases != nil && x.scc[ct.Key] && clauseOn(ct.Decreases, x.prop) {
		m := pre.val(pre.eval(ct.Decreases.E))
		x.oblige(st, "decreases", where+": measure decreases", pos, And(Le(IntT(0), m), Lt(m, x.rootMeasure())))
	}
	var pcs []*Term
	for _, p := range ct.PanicIf {
		if clauseOn(p, x.prop) {
			pcs = append(pcs, pre.bool(p.E))
		}
	}
	pc := Or(pcs...)
	if ct.MayPanic {
		pc = Fresh("panics", SBool)
	}
	x.branch(st, pc, func(s *State) {
		// the callee panics: its effects up to then are within its frame
		if ct.MayPanic || len(ct.PanicIf) > 0 {
			mods := x.modSets(pre, ct)
			if len(mods.preds) > 0 || len(mods.all) > 0 || mods.any || ct.Effects {
				x.havocCall(s, ct, pre, w, wo, nil, lent)
				e := &Env{vars: pre.vars, cur: s.view(), old: pre.cur, nCur: s.nTerm(), nOld: pre.nCur, fname: ct.Key}
				for _, q := range ct.EnsPanic {
					if clauseOn(q, x.prop) {
						s.assume(e.bool(q.E))
					}
				}
			}
		}
		x.panicPath(s, where, pos)
	}, func(s *State) {
		res := x.havocCall(s, ct, pre, w, wo, sig, lent)
		post := &Env{vars: map[string]SV{}, cur: s.view(), old: pre.cur, nCur: s.nTerm(), nOld: pre.nCur, fname: ct.Key}
		for k, v := range pre.vars {
			post.vars[k] = v
		}
		bindResults(post, sig, res)
		ok := true
		for _, q := range ct.Ensures {
			if clauseOn(q, x.prop) {
				if !s.assume(post.bool(q.E)) {
					ok = false
				}
			}
		}
		if !ok {
			x.tick()
			return
		}
		// definitional results become the term itself
		cont(s, retVal(res))
	})
}

// borrowed: "requires borrow: p" promises that the function keeps no reference to
// what p points to: nothing in memory refers to it afterwards that did not before,
// and a result is either p itself or does not refer to it.  The function is verified
// a second time for an object that only the caller knows.
func (c *Contract) borrowed(p string) bool {
	for _, r := range c.Requires {
		if r.Label == "borrow" && exprStr(r.E) == p {
			return true
		}
	}
	return false
}

// aliasOf: results that may be the private object passed to the call.
var aliasOf = map[*Term][]*Term{}

func (c *Contract) nullable(p string) bool {
	for _, r := range c.Requires {
		if r.Label == "nullable" && exprStr(r.E) == p {
			return true
		}
	}
	return false
}

// havocCall makes the state after a call under contract; it returns the results.
func (x *Exec) havocCall(st *State, ct *Contract, pre *Env, w, wo writeSet, sig *types.Signature, lent []*Term) []Val {
	mods := x.modSets(pre, ct)
	dirty := len(w) > 0 && !ct.Pure
	if ct.Effects {
		for n := range w {
			mods.all[n] = true
		}
	}
	oldN := pre.nCur
	if dirty {
		st.newEpoch()
		thClean := true
		for _, n := range sortedRegs(w) {
			r := w[n]
			if r.name == "$trace" {
				if mods.all["$trace"] || mods.any {
					x.havoc(st, r)
				}
				continue
			}
			old := st.raw(r)
			nw := x.havoc(st, r)
			fresh := wo[r.name] == nil // only new objects
			if !fresh && (mods.any || mods.all[r.name]) {
				if thHas(r) {
					thClean = false
				}
				// objects the caller keeps to itself are out of the callee's reach
				bvCnt++
				q := BoundT(fmt.Sprintf("q_%d", bvCnt), SRef)
				cs := []*Term{Le(st.n, Rt(q))}
				for _, l := range lent {
					cs = append(cs, Not(Eq(Rt(q), Rt(l))))
				}
				sel := App("select", r.val, nw, q)
				st.assume(Forall([]*Term{q}, Implies(And(cs...), Eq(sel, App("select", r.val, old, q))), []*Term{sel}))
				continue
			}
			clean := fresh || !mods.touches(r)
			if !clean && thHas(r) {
				thClean = false
			}
			havocOf[nw] = havocInfo{old: old, epoch: epochOf[oldN.Op], clean: clean}
			bvCnt++
			q := BoundT(fmt.Sprintf("q_%d", bvCnt), SRef)
			sel := App("select", r.val, nw, q)
			c := Or(Lt(Rt(q), oldN), Le(st.n, Rt(q)))
			if !fresh {
				c = And(c, Not(mods.pred(r, q)))
			}
			st.assume(Forall([]*Term{q}, Implies(c, Eq(sel, App("select", r.val, old, q))), []*Term{sel}))
		}
		if len(SP.TypeHeap) > 0 {
			cur := TH(st.view())
			if cur != st.snap {
				if thClean {
					st.assume(AgreeT(st.snap, cur, oldN))
				}
				st.setSnap(cur, st.nTerm())
			}
		}
	}
	if sig == nil {
		return nil
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		c := Fresh("res_"+ct.Key, sortOf(t))
		birth[c.Op] = st.epoch()
		b := below(c, t, st.nTerm())
		if _, isP := t.Underlying().(*types.Pointer); isP && len(lent) > 0 {
			b = Or(Eq(c, lent[0]), b)
			aliasOf[c] = []*Term{Rt(lent[0])}
		}
		st.assume(b)
		res = append(res, Val{t: c, static: nil})
	}
	return res
}

func thHas(r *region) bool {
	for _, n := range SP.TypeHeap {
		if n == r.name {
			return true
		}
	}
	return false
}

func (x *Exec) rootMeasure() *Term {
	e := x.preEnv()
	return e.val(e.eval(x.rootC.Decreases.E))
}

// ---- builtins ----
func (x *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, cont func(*State, Val)) {
	switch b.Name() {
	case "len":
		a := args[0].t
		switch a.Sort {
		case SStr:
			cont(st, Val{t: StrLen(a)})
		case SSlice:
			cont(st, Val{t: Sel("slen", a)})
		default:
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				has, _ := mapRegions(c.Args[0].Type())
				x.nilMapFacts(st, c.Args[0].Type())
				cont(st, Val{t: SetCard(Select(st.get(has), a))})
				return
			}
			unsupported("len of %s", c.Args[0].Type())
		}
	case "cap":
		cont(st, Val{t: Sel("scap", args[0].t)})
	case "append":
		x.appendCall(st, c, args, pos, cont)
	case "copy":
		x.guardWrite(st, c.Args[0], nil, pos)
		x.copyCall(st, c, args, pos, cont)
	case "ssa:wrapnilchk":
		cont(st, args[0])
	default:
		unsupported("builtin %s", b.Name())
	}
}

// appendCall models append as always copying into a fresh array; alias.go guards
// what could tell the difference inside one function (across functions it is an
// assumption reported in the evidence: spare capacity is not shared).
func (x *Exec) appendCall(st *State, c *ssa.CallCommon, args []Val, pos token.Pos, cont func(*State, Val)) {
	a := args[0].t
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isBytes(c.Args[0].Type()) {
		txt := Concat(x.bytesText(st, a), x.appendText(st, c, args[1].t))
		cont(st, Val{t: x.bytesOf(st, txt)})
		return
	}
	b := args[1].t
	x.guardAppend(st, c, a, pos)
	st.flushAll()
	la, lb := Sel("slen", a), Sel("slen", b)
	x.usedExt["builtin append"] = true
	// append(x) with nothing: same slice
	if n, ok := intVal(lb); ok && n == 0 {
		cont(st, Val{t: a})
		return
	}
	st.seal(a, b)
	r := st.alloc(leafRegions(et)...)
	total := Add(la, lb)
	if na, ok := intVal(la); ok {
		if nb, ok2 := intVal(lb); ok2 && na+nb <= 8 {
			for i := int64(0); i < na; i++ {
				x.copyElem(st, El(r, IntT(i)), El(Sel("sptr", a), IntT(i)), et)
			}
			for i := int64(0); i < nb; i++ {
				x.copyElem(st, El(r, IntT(na+i)), El(Sel("sptr", b), IntT(i)), et)
			}
			cont(st, Val{t: Ctor("mkslice", r, total, total)})
			return
		}
	}
	if nb, ok := intVal(lb); ok && nb <= 4 {
		// copied prefix, then explicit elements
		st2 := x.bulkCopy(st, r, IntT(0), Sel("sptr", a), la, et)
		for i := int64(0); i < nb; i++ {
			x.copyElem(st2, El(r, Add(la, IntT(i))), El(Sel("sptr", b), IntT(i)), et)
		}
		x.appendNil(st2, a, b, r, total, cont)
		return
	}
	x.bulkCopy2(st, r, Sel("sptr", a), la, Sel("sptr", b), lb, et)
	x.appendNil(st, a, b, r, total, cont)
}

// appendNil: appending nothing yields the first slice (nil stays nil).
func (x *Exec) appendNil(st *State, a, b, r, total *Term, cont func(*State, Val)) {
	x.branch(st, Eq(Sel("slen", b), IntT(0)), func(s *State) { cont(s, Val{t: a}) },
		func(s *State) { cont(s, Val{t: Ctor("mkslice", r, total, total)}) })
}

func (x *Exec) copyElem(st *State, dst, src *Term, et types.Type) {
	st.store(dst, loadAt(st.view(), src, et), et)
}

type leafPath struct {
	r    *region
	addr func(*Term) *Term
}

func leafPaths(t types.Type) []leafPath {
	if isStruct(t) {
		s := structOf(t)
		if s.opaque {
			unsupported("copy of opaque struct %s", s.key)
		}
		var out []leafPath
		for i, f := range s.fields {
			i, f := i, f
			if f.sub {
				for _, lp := range leafPaths(f.typ) {
					lp := lp
					out = append(out, leafPath{lp.r, func(r *Term) *Term { return lp.addr(subRef(s, i, r)) }})
				}
			} else {
				out = append(out, leafPath{fieldRegion(s, i), func(r *Term) *Term { return r }})
			}
		}
		return out
	}
	return []leafPath{{cellRegion(t), func(r *Term) *Term { return r }}}
}

// bulkCopy copies n elements from src to dst+off where dst is fresh: the region
// becomes a new array that differs only below dst.
func (x *Exec) bulkCopy(st *State, dst, off, src, n *Term, et types.Type) *State {
	x.bulk(st, dst, et, func(i *Term, old func(leafPath, *Term) *Term, lp leafPath) (*Term, *Term) {
		return And(Le(off, i), Lt(i, Add(off, n))), old(lp, El(src, Sub(i, off)))
	}, Add(off, n))
	return st
}

func (x *Exec) bulkCopy2(st *State, dst, a, la, b, lb *Term, et types.Type) {
	x.bulk(st, dst, et, func(i *Term, old func(leafPath, *Term) *Term, lp leafPath) (*Term, *Term) {
		return And(Le(IntT(0), i), Lt(i, Add(la, lb))), Ite(Lt(i, la), old(lp, El(a, i)), old(lp, El(b, Sub(i, la))))
	}, Add(la, lb))
}

// bulk replaces each leaf region by a fresh array equal to the old one except
// at elements of dst selected by f.
func (x *Exec) bulk(st *State, dst *Term, et types.Type, f func(i *Term, old func(leafPath, *Term) *Term, lp leafPath) (*Term, *Term), total *Term) {
	byReg := map[string][]leafPath{}
	var order []string
	for _, lp := range leafPaths(et) {
		if byReg[lp.r.name] == nil {
			order = append(order, lp.r.name)
		}
		byReg[lp.r.name] = append(byReg[lp.r.name], lp)
	}
	for _, rn := range order {
		lps := byReg[rn]
		r := lps[0].r
		old := st.raw(r)
		nw := Fresh("h_"+r.name, regSort(r))
		birth[nw.Op] = st.epoch()
		havocOf[nw] = havocInfo{old: old, root: rootTerm(dst)}
		for _, lp := range lps {
			bvCnt++
			i := BoundT(fmt.Sprintf("ci_%d", bvCnt), SInt)
			addr := lp.addr(El(dst, i))
			cond, v := f(i, func(lp leafPath, a *Term) *Term { return App("select", r.val, old, lp.addr(a)) }, lp)
			sel := App("select", r.val, nw, addr)
			st.assume(Forall([]*Term{i}, Eq(sel, Ite(cond, v, App("select", r.val, old, addr))), []*Term{sel}))
		}
		bvCnt++
		q := BoundT(fmt.Sprintf("q_%d", bvCnt), SRef)
		sel := App("select", r.val, nw, q)
		st.assume(Forall([]*Term{q}, Implies(Not(Eq(Rt(q), Rt(dst))), Eq(sel, App("select", r.val, old, q))), []*Term{sel}))
		st.set(r, nw)
	}
}

func (x *Exec) copyCall(st *State, c *ssa.CallCommon, args []Val, pos token.Pos, cont func(*State, Val)) {
	d, s := args[0].t, args[1].t
	st.flushAll()
	if s.Sort == SStr {
		unsupported("copy from string")
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	ld, ls := Sel("slen", d), Sel("slen", s)
	n := Ite(Le(ls, ld), ls, ld)
	if st.decide(Le(ls, ld)) == True {
		n = ls
	}
	dst, src := Sel("sptr", d), Sel("sptr", s)
	if dst.Op == "shift" {
		// copy into a tail: index from the base
		off := dst.Args[1]
		b := dst.Args[0]
		x.bulk(st, b, et, func(i *Term, old func(leafPath, *Term) *Term, lp leafPath) (*Term, *Term) {
			return And(Le(off, i), Lt(i, Add(off, n))), old(lp, El(src, Sub(i, off)))
		}, n)
	} else {
		x.bulk(st, dst, et, func(i *Term, old func(leafPath, *Term) *Term, lp leafPath) (*Term, *Term) {
			return And(Le(IntT(0), i), Lt(i, n)), old(lp, El(src, i))
		}, n)
	}
	cont(st, Val{t: n})
}

func (x *Exec) appendText(st *State, c *ssa.CallCommon, b *Term) *Term {
	if b.Sort == SStr {
		return b
	}
	return x.bytesText(st, b)
}

// dynKey names the contract of function values of a type.
func dynKey(t types.Type) string {
	sig := t.Underlying().(*types.Signature)
	list := func(tu *types.Tuple) string {
		var ss []string
		for i := 0; i < tu.Len(); i++ {
			ss = append(ss, typeStr(tu.At(i).Type()))
		}
		return strings.Join(ss, ",")
	}
	return "dyn." + mangle(list(sig.Params())+"->"+list(sig.Results()))
}

func (x *Exec) dynCall(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, cont func(*State, Val)) {
	key := dynKey(c.Value.Type())
	if ct := SP.Contracts[key]; ct != nil {
		x.usedExt[ct.Key] = true
		pts := []types.Type{c.Value.Type()}
		sig := c.Value.Type().Underlying().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			pts = append(pts, sig.Params().At(i).Type())
		}
		x.applyContract(st, ct, nil, sig, pts, append([]Val{fv}, args...), extWrites(ct.Key, c), extWrites(ct.Key, c), pos, cont)
		return
	}
	unsupported("call of an unknown function value of type %s", key)
}

// closedIface: only types of this package (the boxes) implement it.
func closedIface(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); !m.Exported() && m.Pkg() == P.pkg {
			return true
		}
	}
	return false
}

func hasClo(args []Val) bool {
	for _, a := range args {
		if a.clo != nil {
			return true
		}
	}
	return false
}
