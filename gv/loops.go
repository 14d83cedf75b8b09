package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	writes writeSet
}

var loopsMemo = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := loopsMemo[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for _, l := range m {
		l.writes = blocksWrites(l.blocks)
	}
	loopsMemo[f] = m
	return m
}

// candidate is one possible loop invariant of one loop.
type candidate struct {
	desc   string
	active bool
	auto   bool
	weakOf *candidate // implied by this one while it is active
	syn    bool // decided while executing (who can see an object)
	phi    int  // syn: phi index, or -1
	late   int  // syn: index into base.late, or -1
	pend   bool // syn: pending stores stay pending
	eval   func(b *loopEnvBase, st *State, phis []Val) *Term
}

type loopState struct {
	key   string
	cands []*candidate
	vars  []*candidate // variants
	fn    string
	pos   string
}

// loopEnvBase is what is fixed for one arrival at a loop from outside.
type loopEnvBase struct {
	entry     HeapView
	entryRaw  HeapView // without pending stores
	entryN    *Term
	entryPhis []Val
	phis      []*ssa.Phi
	iterInstr *ssa.Range
	snap      *Term
	outer     []outerVal
	cells     []*ssa.Alloc // variables not in memory, defined outside
	indVars   map[int]bool // phi index -> induction variable with step 1
	ls        *loopState
	pos       token.Pos
	headN     *Term
	late      []*Term // ids unsealed at entry
	pend      []pendStore
	variants  []*Term // values at the loop head
}

// isLateVal: nil, or an object nothing else can refer to.
func isLateVal(st *State, v *Term) *Term {
	p := v
	if p.Sort == SSlice {
		p = Sel("sptr", v)
	}
	if p == Null {
		return True
	}
	if p != rootTerm(p) {
		return False // the address of a part
	}
	if _, ok := st.late[Rt(p)]; ok {
		return True
	}
	return False
}

type outerVal struct {
	name  string
	v     Val
	ty    types.Type
	alloc bool
	param bool
}

func (x *Exec) loopKey(st *State, b *ssa.BasicBlock) string {
	s := fmt.Sprintf("%s#%d", fnName(b.Parent()), b.Index)
	for a := st.act; a != nil; a = a.parent {
		s += "/" + a.tag
	}
	for _, l := range st.act.loops {
		s += fmt.Sprintf("<%d", l.header.Index)
	}
	return s
}

func (x *Exec) enterLoop(st *State, b, prev *ssa.BasicBlock, li *loopInfo) {
	base := &loopEnvBase{phis: phisOf(b), indVars: map[int]bool{}}
	base.entryPhis = x.phiVals(st, b, prev)
	for _, v := range base.entryPhis {
		if v.lv != nil || v.iter != nil || v.clo != nil && v.t == nil {
			unsupported("loop-carried value without a term")
		}
	}
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			base.pos = in.Pos()
			break
		}
	}
	for id := range st.late {
		base.late = append(base.late, id)
	}
	sort.Slice(base.late, func(i, j int) bool { return base.late[i].id < base.late[j].id })
	key := x.loopKey(st, b)
	ls := x.loops[key]
	// objects that do not stay private are visible from here on
	if ls != nil {
		for _, c := range ls.cands {
			if c.syn && !c.active {
				if c.pend {
					st.flushAll()
				} else if c.phi >= 0 {
					st.seal(base.entryPhis[c.phi].t)
				} else if c.late < len(base.late) {
					st.sealID(base.late[c.late])
				}
			}
		}
	}
	// a private object carried by a loop variable must not have another name
	for i := range base.phis {
		for j, v := range base.entryPhis {
			if i < j && v.t != nil {
				x.sealShared(st, b, li, base, i, j)
			}
		}
	}
	for i, v := range base.entryPhis {
		for _, id := range st.lateIn(v.t) {
			st.flushOf(id)
			if x.aliased(st, b, base.phis[i], id) {
				st.sealID(id)
			}
		}
	}
	base.pend = st.pend
	x.thSync(st)
	base.entry = st.snapshot()
	base.entryRaw = st.rawSnapshot()
	base.entryN = st.nTerm()
	base.snap = st.snap
	// induction variables: phi + 1 on every back edge
	for pi, p := range base.phis {
		ok := sortOf(p.Type()) == SInt
		for ei, e := range p.Edges {
			if !li.blocks[b.Preds[ei]] {
				continue
			}
			bo, isB := e.(*ssa.BinOp)
			if !isB || bo.Op != token.ADD || bo.X != p {
				ok = false
				break
			}
			c, isC := bo.Y.(*ssa.Const)
			if !isC || c.Int64() != 1 {
				ok = false
			}
		}
		if ok {
			base.indVars[pi] = true
		}
	}
	// map iterator advanced in this loop
	for bb := range li.blocks {
		for _, in := range bb.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok {
					inner := false
					for h, l := range loopsOf(b.Parent()) {
						if h != b && li.blocks[h] && l.blocks[bb] {
							inner = true
						}
					}
					if !inner {
						base.iterInstr = r
					}
				}
			}
		}
	}
	// values defined outside and used inside
	seen := map[ssa.Value]bool{}
	var outs []ssa.Value
	for bb := range li.blocks {
		for _, in := range bb.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				switch v.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
					continue
				}
				if _, ok := st.act.locals[v]; ok {
					if in2, ok := v.(ssa.Instruction); ok && li.blocks[in2.Block()] {
						continue
					}
					outs = append(outs, v)
				}
			}
		}
	}
	sort.Slice(outs, func(i, j int) bool { return outs[i].Name() < outs[j].Name() })
	for _, v := range outs {
		sv := st.act.locals[v]
		if sv.cell != nil {
			base.cells = append(base.cells, v.(*ssa.Alloc))
		}
		if sv.t != nil && sv.lv == nil {
			_, al := v.(*ssa.Alloc)
			_, par := v.(*ssa.Parameter)
			base.outer = append(base.outer, outerVal{v.Name(), sv, v.Type(), al, par})
		}
	}
	if ls == nil {
		ls = &loopState{key: key, fn: fnName(b.Parent()), pos: posStr(base.pos)}
		x.loops[key] = ls
		x.makeCandidates(ls, base, li, b, st)
	}
	base.ls = ls
	// entry checks
	x.loopObls(st, base, base.entryPhis, "at entry")
	// havoc
	for r := range li.writes {
		if strings.HasPrefix(r, "map:") && base.iterInstr != nil {
			mt := base.iterInstr.X.Type()
			h, _ := mapRegions(mt)
			if r == h.name {
				unsupported("map written while ranged over")
			}
		}
	}
	for i, v := range base.entryPhis {
		if x.phiPrivate(ls, i) {
			for _, id := range st.lateIn(v.t) {
				delete(st.late, id) // known by the name of the loop variable only
			}
		}
	}
	st.newEpoch()
	for _, rn := range sortedRegs(li.writes) {
		x.havoc(st, li.writes[rn])
	}
	base.headN = st.nTerm()
	var hv []Val
	for i, p := range base.phis {
		c := Fresh("phi_"+p.Comment, sortOf(p.Type()))
		birth[c.Op] = st.epoch()
		st.act.locals[p] = Val{t: c}
		hv = append(hv, Val{t: c})
		if base.indVars[i] {
			st.assume(Le(base.entryPhis[i].t, c))
		}
		switch c.Sort {
		case SRef, SSlice:
			if x.phiPrivate(ls, i) {
				pt := c
				if c.Sort == SSlice {
					pt = Sel("sptr", c)
					st.assume(And(Le(IntT(0), Sel("slen", c)), Le(Sel("slen", c), Sel("scap", c)), Implies(Eq(pt, Null), Eq(Sel("slen", c), IntT(0)))))
				}
				id := Rt(pt)
				st.late[id] = &lateInfo{id: id, mayNil: true, regs: phiRegs(p.Type())}
				st.assume(Or(Eq(pt, Null), Le(st.n, id)))
			} else {
				st.assume(below(c, p.Type(), st.n))
			}
		default:
			st.assume(below(c, p.Type(), st.n))
		}
	}
	cw := cellsWritten(li.blocks)
	for _, a := range base.cells {
		if cw[a] {
			et := deref(a.Type())
			c := Fresh("var_"+a.Comment, sortOf(et))
			birth[c.Op] = st.epoch()
			st.act.locals[a] = Val{cell: c}
			st.assume(below(c, et, st.n))
		}
	}
	if base.iterInstr != nil {
		it := *st.act.locals[base.iterInstr].iter
		it.count = Fresh("iterk", SInt)
		st.assume(Le(IntT(0), it.count), Le(it.count, SetCard(it.has)))
		st.act.locals[base.iterInstr] = Val{iter: &it}
	}
	if k := x.loopK(st, base, hv); k != nil {
		st.assume(Mk(k), Mk(Add(k, IntT(1))))
	}
	base.variants = nil
	for _, v := range ls.vars {
		var t *Term
		if v.active {
			t = v.eval(base, st, hv)
		}
		base.variants = append(base.variants, t)
	}
	// nested loop counters of enclosing loops stay as they are
	st.setSnap(TH(st.view()), st.nTerm())
	for _, c := range ls.cands {
		if c.active && !c.syn && !(c.weakOf != nil && c.weakOf.active) {
			st.assume(c.eval(base, st, hv))
		}
	}
	st.act.loops = append(st.act.loops, &loopCtx{header: b, li: li, key: key, env: base})
	x.instrs(st, b, len(base.phis))
}

func sortedRegs(w writeSet) []string {
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// havoc replaces a region by an unknown one (valid below the current epoch).
func (x *Exec) havoc(st *State, r *region) *Term {
	s := regSort(r)
	if r.name == "$trace" {
		s = STrace
	}
	c := Fresh("h_"+r.name, s)
	birth[c.Op] = st.epoch()
	st.set(r, c)
	nilMapRegion(st, r, c)
	return c
}

// nilMapRegion: the nil map has no keys, ever.
func nilMapRegion(st *State, r *region, t *Term) {
	if strings.HasPrefix(r.name, "map:") && strings.HasSuffix(r.name, ".has") {
		st.assume(Eq(Select(t, Null), App("constarr", r.val, False)))
	}
}

func (x *Exec) loopK(st *State, base *loopEnvBase, phis []Val) *Term {
	if base.iterInstr != nil {
		return st.act.locals[base.iterInstr].iter.count
	}
	for i := range base.phis {
		if base.indVars[i] {
			return Sub(phis[i].t, base.entryPhis[i].t)
		}
	}
	return nil
}

func (x *Exec) loopObls(st *State, base *loopEnvBase, phis []Val, when string) {
	for _, c := range base.ls.cands {
		if !c.active || c.weakOf != nil && c.weakOf.active {
			continue
		}
		g := c.eval(base, st, phis)
		if x.houdini {
			x.obls = append(x.obls, &Obligation{Fn: fnName(x.root), Kind: "houdini", Label: c.desc, Hyps: st.pc, Goal: g, Cand: c, Pos: base.ls.pos})
		} else {
			if c.syn {
				if g != True {
					unsupported("object escapes in a loop")
				}
				continue
			}
			for _, gg := range splitGoal(g) {
				x.obls = append(x.obls, &Obligation{Fn: fnName(x.root), Kind: "inv", Label: when + ": " + c.desc, Hyps: st.pc, Goal: gg, Pos: base.ls.pos, Trail: st.trail})
			}
		}
	}
}

func (x *Exec) phiPrivate(ls *loopState, i int) bool {
	for _, cd := range ls.cands {
		if cd.syn && cd.active && cd.phi == i {
			return true
		}
	}
	return false
}

// sealShared makes an object carried by two loop variables visible.
func (x *Exec) sealShared(st *State, b *ssa.BasicBlock, li *loopInfo, base *loopEnvBase, i, j int) {
	in := map[*Term]bool{}
	for _, id := range st.lateIn(base.entryPhis[i].t) {
		in[id] = true
	}
	for _, id := range st.lateIn(base.entryPhis[j].t) {
		if in[id] {
			st.sealID(id)
		}
	}
}

// aliased: is the object also known under a name that is used at or after the loop?
func (x *Exec) aliased(st *State, b *ssa.BasicBlock, phi *ssa.Phi, id *Term) bool {
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(bb *ssa.BasicBlock)
	walk = func(bb *ssa.BasicBlock) {
		if reach[bb] {
			return
		}
		reach[bb] = true
		for _, s := range bb.Succs {
			walk(s)
		}
	}
	walk(b)
	mentions := func(v Val) bool {
		var found bool
		var rec func(v Val)
		rec = func(v Val) {
			if v.t != nil {
				for _, l := range st.lateIn(v.t) {
					if l == id {
						found = true
					}
				}
			}
			if v.lv != nil {
				for _, l := range st.lateIn(v.lv.ref) {
					if l == id {
						found = true
					}
				}
			}
			for _, y := range v.tup {
				rec(y)
			}
			if v.clo != nil {
				for _, y := range v.clo.bind {
					rec(y)
				}
			}
		}
		rec(v)
		return found
	}
	for v, val := range st.act.locals {
		if !mentions(val) || v.Referrers() == nil {
			continue
		}
		for _, in := range *v.Referrers() {
			if !reach[in.Block()] {
				continue
			}
			if p, ok := in.(*ssa.Phi); ok && p.Block() == b {
				continue
			}
			return true
		}
	}
	for _, d := range st.act.defers {
		for _, v := range append([]Val{d.fn}, d.args...) {
			if mentions(v) {
				return true
			}
		}
	}
	for a := st.act.parent; a != nil; a = a.parent {
		for _, val := range a.locals {
			if mentions(val) {
				return true
			}
		}
	}
	return false
}

func phiRegs(t types.Type) []*region {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return leafRegions(u.Elem())
	case *types.Pointer:
		return leafRegions2(u.Elem())
	case *types.Map:
		a, b := mapRegions(t)
		return []*region{a, b}
	}
	return nil
}

func (x *Exec) backedge(st *State, b, prev *ssa.BasicBlock) {
	x.tick()
	ctx := st.act.loops[len(st.act.loops)-1]
	base := ctx.env
	vs := x.phiVals(st, b, prev)
	for _, c := range base.ls.cands {
		if c.syn && !c.active && c.phi >= 0 {
			st.seal(vs[c.phi].t)
		}
	}
	for _, v := range vs {
		for _, id := range st.lateIn(v.t) {
			st.flushOf(id)
		}
	}
	for i := 0; i < len(st.pend); {
		if base.pending(st.pend[i]) {
			i++
		} else {
			st.flush(i)
			i = 0
		}
	}
	x.thSync(st)
	if k := x.loopK(st, base, vs); k != nil {
		st.assume(Mk(k))
	}
	x.loopObls(st, base, vs, "preserved")
	x.variantObls(st, base, vs)
}

// pending: was the store pending when the loop was entered?
func (b *loopEnvBase) pending(p pendStore) bool {
	for _, o := range b.pend {
		if o.r == p.r && o.ref == p.ref && o.v == p.v {
			return true
		}
	}
	return false
}

// needsTermination: the contract verified asks for it.
func (x *Exec) needsTermination() bool {
	c := x.rootC
	if c == nil || !c.Term {
		return false
	}
	if len(c.TermProps) == 0 || x.prop == "" {
		return true
	}
	for _, p := range c.TermProps {
		if p == x.prop {
			return true
		}
	}
	return false
}

func (x *Exec) variantObls(st *State, base *loopEnvBase, phis []Val) {
	if !x.needsTermination() || base.iterInstr != nil {
		return // the elements of a map are finitely many
	}
	for i, v := range base.ls.vars {
		if !v.active || i >= len(base.variants) || base.variants[i] == nil {
			continue
		}
		g := And(Le(IntT(0), base.variants[i]), Lt(v.eval(base, st, phis), base.variants[i]))
		if x.houdini {
			x.obls = append(x.obls, &Obligation{Fn: fnName(x.root), Kind: "houdini", Label: "variant " + v.desc, Hyps: st.pc, Goal: g, Cand: v, Pos: base.ls.pos})
			continue
		}
		x.obls = append(x.obls, &Obligation{Fn: fnName(x.root), Kind: "variant", Label: "loop ends: " + v.desc + " decreases", Hyps: st.pc, Goal: g, Pos: base.ls.pos, Trail: st.trail})
		return
	}
	if !x.houdini {
		x.obls = append(x.obls, &Obligation{Fn: fnName(x.root), Kind: "variant", Label: "loop ends", Hyps: st.pc, Goal: False, Pos: base.ls.pos, Trail: st.trail})
	}
}

// makeCandidates instantiates the invariant pool for one loop.
func (x *Exec) makeCandidates(ls *loopState, base *loopEnvBase, li *loopInfo, b *ssa.BasicBlock, st *State) {
	add := func(c *candidate) { c.active = true; ls.cands = append(ls.cands, c) }
	for i, p := range base.phis {
		switch sortOf(p.Type()) {
		case SRef, SSlice:
			i := i
			add(&candidate{desc: p.Comment + " not visible elsewhere", auto: true, syn: true, phi: i, late: -1, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
				return isLateVal(s, ph[i].t)
			}})
		}
	}
	if len(base.pend) > 0 {
		add(&candidate{desc: "pending stores stay pending", auto: true, syn: true, pend: true, phi: -1, late: -1, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
			return BoolT(len(s.pend) == len(lb.pend))
		}})
	}
	for i := range base.late {
		i := i
		add(&candidate{desc: "new object stays private", auto: true, syn: true, phi: -1, late: i, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
			if i >= len(lb.late) {
				return True
			}
			if _, ok := s.late[lb.late[i]]; ok {
				return True
			}
			return False
		}})
	}
	// every induction variable advances with the iteration count
	var first = -1
	for i := range base.phis {
		if base.indVars[i] {
			if first < 0 {
				first = i
			}
			i := i
			if base.iterInstr != nil || i != first {
				add(&candidate{desc: "counter " + base.phis[i].Comment + " counts iterations", auto: true, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
					return Eq(Sub(ph[i].t, lb.entryPhis[i].t), x.loopK(s, lb, ph))
				}})
			}
			// bound by any integer compared with it in the header
		}
	}
	// bounds: in the header, cond  i < n  (or next < n)
	if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.NEQ || bo.Op == token.GTR || bo.Op == token.LEQ) {
			lhs, rhs := bo.X, bo.Y
			if bo.Op == token.GTR {
				lhs, rhs = rhs, lhs
			}
			for i, p := range base.phis {
				off := int64(-1)
				if lhs == p {
					off = 0
				} else if nb, ok := lhs.(*ssa.BinOp); ok && nb.Op == token.ADD && nb.X == p {
					off = 1
				}
				if off < 0 || !base.indVars[i] {
					continue
				}
				i := i
				var bound func(s *State) *Term
				if _, isC := rhs.(*ssa.Const); isC {
					bound = func(s *State) *Term { return x.term(s, rhs) }
				} else if _, ok := st.act.locals[rhs]; ok {
					if in2, ok := rhs.(ssa.Instruction); !ok || !li.blocks[in2.Block()] {
						bound = func(s *State) *Term { return x.term(s, rhs) }
					}
				} else if cl, ok := rhs.(*ssa.Call); ok {
					// len(x) evaluated in the header
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						av := cl.Call.Args[0]
						if _, ok := st.act.locals[av]; ok {
							bound = func(s *State) *Term { return lenOf(x.val(s, av).t) }
						}
					}
				}
				if bound != nil {
					add(&candidate{desc: "counter within bound", auto: true, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
						bd := bound(s)
						return Or(Le(Add(ph[i].t, IntT(off)), bd), Eq(ph[i].t, lb.entryPhis[i].t))
					}})
					if x.needsTermination() {
						ls.vars = append(ls.vars, &candidate{desc: "distance of " + p.Comment + " to its bound", active: true, auto: true, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
							return Sub(bound(s), ph[i].t)
						}})
					}
				}
			}
		}
	}
	// frames
	for _, rn := range sortedRegs(li.writes) {
		r := li.writes[rn]
		if r.name == "$trace" {
			continue
		}
		x.frameCands(add, r, base)
	}
	th := false
	for _, n := range SP.TypeHeap {
		if li.writes[n] != nil {
			th = true
		}
	}
	if th {
		add(&candidate{desc: "type data allocated before the loop unchanged", auto: true, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
			return AgreeT(lb.snap, TH(s.view()), lb.entryN)
		}})
	}
	// declared pool: of the function verified, of the functions taken in with their
	// bodies, and of those whose contract is out of use
	var pool []*Inv
	havePool := map[string]bool{}
	addPool := func(ivs []*Inv) {
		for _, iv := range ivs {
			if !havePool[iv.Src+fmt.Sprint(iv.Holes)] {
				havePool[iv.Src+fmt.Sprint(iv.Holes)] = true
				pool = append(pool, iv)
			}
		}
	}
	if x.rootC != nil {
		addPool(x.rootC.Invs)
	}
	for _, key := range SP.Order {
		c := SP.Contracts[key]
		if c.Key == "*" || x.noCtr[key] || (c.Inline || c.InlineClo) && x.inlined[key] {
			addPool(c.Invs)
		}
	}
	for _, iv := range pool {
		if len(iv.Props) > 0 && x.prop != "" {
			on := false
			for _, p := range iv.Props {
				if p == x.prop {
					on = true
				}
			}
			if !on {
				continue
			}
		}
		x.instantiate(add, iv, base, li, st)
	}
	if x.needsTermination() {
		vars := append([]*Inv{}, x.rootC.Variants...)
		for _, key := range SP.Order {
			if c := SP.Contracts[key]; x.noCtr[key] || (c.Inline || c.InlineClo) && x.inlined[key] {
				vars = append(vars, c.Variants...)
			}
		}
		for _, iv := range vars {
			x.instantiate(func(c *candidate) { c.active = true; ls.vars = append(ls.vars, c) }, iv, base, li, st)
		}
	}
}

func lenOf(t *Term) *Term {
	if t.Sort == SStr {
		return StrLen(t)
	}
	return Sel("slen", t)
}

// frameCands proposes what a loop leaves alone in one region.
func (x *Exec) frameCands(add func(*candidate), r *region, base *loopEnvBase) {
	var strong *candidate
	mk := func(desc string, pre func(lb *loopEnvBase) HeapView, nn func(lb *loopEnvBase) *Term, mods func(lb *loopEnvBase, q *Term) *Term) {
		cd := &candidate{desc: desc, auto: true, weakOf: strong}
		if strong == nil {
			strong = cd
		}
		*cd = candidate{desc: desc, auto: true, weakOf: cd.weakOf, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
			a, b := pre(lb)(r), s.raw(r)
			if a == b {
				return True
			}
			bvCnt++
			q := BoundT(fmt.Sprintf("q_%d", bvCnt), SRef)
			c := Lt(Rt(q), nn(lb))
			if mods != nil {
				c = And(c, Not(mods(lb, q)))
			}
			sel := App("select", r.val, b, q)
			return Forall([]*Term{q}, Implies(c, Eq(sel, App("select", r.val, a, q))), []*Term{sel})
		}}
		add(cd)
	}
	mods := x.modSets(x.preEnv(), x.rootC)
	inMods := func(lb *loopEnvBase, q *Term) *Term { return mods.pred(r, q) }
	mk(r.name+": memory older than the loop unchanged", func(lb *loopEnvBase) HeapView { return lb.entryRaw }, func(lb *loopEnvBase) *Term { return lb.entryN }, nil)
	mk(r.name+": memory older than the call unchanged", func(*loopEnvBase) HeapView { return x.old }, func(*loopEnvBase) *Term { return x.oldN }, inMods)
	// objects private to this activation
	for i := range base.late {
		i := i
		add(&candidate{desc: r.name + ": private object unchanged", auto: true, eval: func(lb *loopEnvBase, s *State, ph []Val) *Term {
			if i >= len(lb.late) {
				return True
			}
			a, b := lb.entryRaw(r), s.raw(r)
			if a == b {
				return True
			}
			bvCnt++
			q := BoundT(fmt.Sprintf("q_%d", bvCnt), SRef)
			sel := App("select", r.val, b, q)
			return Forall([]*Term{q}, Implies(Eq(Rt(q), lb.late[i]), Eq(sel, App("select", r.val, a, q))), []*Term{sel})
		}})
	}
	// only elements of one slice / one buffer change
	for i, o := range base.outer {
		i := i
		if sl, ok := o.ty.Underlying().(*types.Slice); ok {
			for _, lr := range leafRegions(sl.Elem()) {
				if lr == r {
					mk(fmt.Sprintf("%s: only elements of %s change", r.name, o.name), func(lb *loopEnvBase) HeapView { return lb.entryRaw }, func(lb *loopEnvBase) *Term { return lb.entryN },
						func(lb *loopEnvBase, q *Term) *Term {
							if i >= len(lb.outer) {
								return True
							}
							return Eq(Rt(q), Rt(Sel("sptr", lb.outer[i].v.t)))
						})
				}
			}
		}
		if pt, ok := o.ty.Underlying().(*types.Pointer); ok {
			regs := leafRegions2(pt.Elem())
			for _, lr := range regs {
				if lr == r {
					mk(fmt.Sprintf("%s: only %s changes", r.name, o.name), func(lb *loopEnvBase) HeapView { return lb.entryRaw }, func(lb *loopEnvBase) *Term { return lb.entryN },
						func(lb *loopEnvBase, q *Term) *Term {
							if i >= len(lb.outer) {
								return True
							}
							return Eq(q, lb.outer[i].v.t)
						})
				}
			}
		}
	}
}

func leafRegions2(t types.Type) []*region {
	if at, ok := t.Underlying().(*types.Array); ok {
		return leafRegions(at.Elem())
	}
	return leafRegions(t)
}

// instantiate fills the holes of an invariant template.
func (x *Exec) instantiate(add func(*candidate), iv *Inv, base *loopEnvBase, li *loopInfo, st *State) {
	type src struct {
		phi   int // -1: outer
		outer int
		name  string
		deref bool // a local variable kept in memory
		cell  *ssa.Alloc
	}
	var doms [][]src
	var htypes []types.Type
	for _, h := range iv.Holes {
		ty, so := resolveType(h.Type)
		var d []src
		for i, p := range base.phis {
			if sortOf(p.Type()) == so && holeMatch(ty, p.Type()) {
				d = append(d, src{i, -1, "phi " + p.Comment, false, nil})
			}
		}
		for i, o := range base.outer {
			if o.v.t.Sort == so && holeMatch(ty, o.ty) {
				d = append(d, src{-1, i, o.name, false, nil})
			}
			if pt, ok := o.ty.(*types.Pointer); ok && o.alloc && sortOf(pt.Elem()) == so && holeMatch(ty, pt.Elem()) {
				d = append(d, src{-1, i, "*" + o.name, true, nil})
			}
		}
		for _, a := range base.cells {
			if el := deref(a.Type()); sortOf(el) == so && holeMatch(ty, el) {
				d = append(d, src{-1, -1, "*" + a.Comment, false, a})
			}
		}
		// parameters only where nothing else fits
		var np []src
		for _, sc := range d {
			if sc.phi >= 0 || sc.cell != nil || !base.outer[sc.outer].param {
				np = append(np, sc)
			}
		}
		if len(np) > 0 {
			d = np
		}
		if len(d) == 0 {
			return
		}
		doms = append(doms, d)
		htypes = append(htypes, ty)
	}
	pick := make([]src, len(doms))
	count := 0
	var rec func(i int)
	rec = func(i int) {
		if count > 60 {
			return
		}
		if i == len(doms) {
			count++
			sel := append([]src{}, pick...)
			desc := iv.Src
			for j, s := range sel {
				desc += fmt.Sprintf(" [%s=%s]", iv.Holes[j].Name, s.name)
			}
			ev := func(lb *loopEnvBase, s *State, ph []Val) *Term {
				e := x.postEnv(s, nil)
				for j, sc := range sel {
					if sc.phi >= 0 {
						e.vars[iv.Holes[j].Name] = SV{t: ph[sc.phi].t, ty: base.phis[sc.phi].Type()}
					} else if sc.cell != nil {
						e.vars[iv.Holes[j].Name] = SV{t: s.act.locals[sc.cell].cell, ty: deref(sc.cell.Type())}
					} else {
						if sc.outer >= len(lb.outer) {
							return False
						}
						o := lb.outer[sc.outer]
						if sc.deref {
							el := o.ty.(*types.Pointer).Elem()
							e.vars[iv.Holes[j].Name] = SV{t: loadAt(s.view(), o.v.t, el), ty: el}
						} else {
							e.vars[iv.Holes[j].Name] = SV{t: o.v.t, ty: o.ty}
						}
					}
				}
				if k := x.loopK(s, lb, ph); k != nil {
					e.vars["k"] = SV{t: k, ty: types.Typ[types.Int]}
				}
				if lb.iterInstr != nil {
					e.vars["$iter"] = SV{t: True}
					it := s.act.locals[lb.iterInstr].iter
					curIter = it
				} else {
					curIter = nil
				}
				// entry(...) refers to the state at loop entry
				curEntry, curEntryN = lb.entry, lb.entryN
				defer func() { curEntry, curEntryN, curIter = nil, nil, nil }()
				return e.val(e.eval(iv.E))
			}
			// templates that do not apply to this loop are skipped
			ok := func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specErr); is {
							ok = false
							return
						}
						panic(r)
					}
				}()
				ev(base, st, base.entryPhis)
				return true
			}()
			if ok {
				add(&candidate{desc: desc, eval: ev})
			}
			return
		}
		for _, s := range doms[i] {
			dup := false
			for j := 0; j < i; j++ {
				if pick[j] == s {
					dup = true
				}
			}
			if dup {
				continue
			}
			pick[i] = s
			rec(i + 1)
		}
	}
	rec(0)
}

var curIter *Iter
var curEntry HeapView
var curEntryN *Term

func holeMatch(want, have types.Type) bool {
	if want == nil {
		return true
	}
	if types.Identical(want, have) {
		return true
	}
	// integers match any integer type
	wb, ok1 := want.Underlying().(*types.Basic)
	hb, ok2 := have.Underlying().(*types.Basic)
	return ok1 && ok2 && wb.Info()&types.IsInteger != 0 && hb.Info()&types.IsInteger != 0
}
