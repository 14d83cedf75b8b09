package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of an SSA value.
type Val struct {
	t    *Term
	tup  []Val
	lv   *LV
	clo  *Closure
	iter *Iter
	cell *Term // contents of a variable that is not in memory
	// provenance of a boxed value (for fmt)
	static types.Type
}

type LV struct {
	r   *region
	ref *Term
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type Iter struct {
	mt    types.Type
	has   *Term // key set at the start
	val   *Term
	tok   *Term
	count *Term
}

func (it *Iter) key(j *Term) *Term {
	ks, _ := arrParts(it.has.Sort)
	return Fn("ekey_"+mangle(ks), ks, it.has, it.tok, j)
}
func (it *Iter) idx(k *Term) *Term {
	ks, _ := arrParts(it.has.Sort)
	return Fn("eidx_"+mangle(ks), SInt, it.has, it.tok, k)
}

type loopCtx struct {
	header *ssa.BasicBlock
	li     *loopInfo
	key    string
	env    *loopEnvBase
}

// Act is one activation of a function.
type Act struct {
	fn     *ssa.Function
	locals map[ssa.Value]Val
	defers []*deferred
	loops  []*loopCtx
	k      func(st *State, res []Val)
	parent *Act
	tag    string
	depth  int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

// State is the symbolic state on a path.
type State struct {
	heap  map[string]*Term
	n      *Term // current epoch constant
	late   map[*Term]*lateInfo
	sealed map[*Term]int
	pc    []*Term
	known map[*Term]bool
	act   *Act
	snap  *Term // last type-heap tuple for which an agree fact chain exists
	snapN *Term
	older *snapRec // earlier snapshots
	trail []string
	borrowed *Term // id of the object a borrowed parameter points to
	pend     []pendStore
}

// pendStore is a store of a private object into a private object that memory does
// not show yet: reads at exactly that address see it, anything else that might
// touch the cell carries the store out first (which makes the object visible).
type pendStore struct {
	r      *region
	ref, v *Term
	ids    []*Term
}

type snapRec struct {
	th, n *Term
	prev  *snapRec
}

// setSnap starts a new snapshot of the type heap.
func (st *State) setSnap(th, n *Term) {
	if st.snap != nil {
		st.older = &snapRec{st.snap, st.snapN, st.older}
	}
	st.snap, st.snapN = th, n
}

// onLeak is told when a borrowed object becomes visible to memory.
var onLeak func(st *State)

// lateInfo describes an object that nothing else can refer to yet.
type lateInfo struct {
	id     *Term
	mayNil bool
	regs   []*region
}

func (st *State) clone() *State {
	ns := *st
	ns.late = make(map[*Term]*lateInfo, len(st.late))
	for k, v := range st.late {
		ns.late[k] = v
	}
	ns.sealed = make(map[*Term]int, len(st.sealed))
	for k, v := range st.sealed {
		ns.sealed[k] = v
	}
	ns.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		ns.heap[k] = v
	}
	ns.known = make(map[*Term]bool, len(st.known)+8)
	for k, v := range st.known {
		ns.known[k] = v
	}
	ns.pc = st.pc[:len(st.pc):len(st.pc)]
	ns.trail = st.trail[:len(st.trail):len(st.trail)]
	ns.act = st.act.clone()
	return &ns
}

func (a *Act) clone() *Act {
	if a == nil {
		return nil
	}
	na := *a
	na.locals = make(map[ssa.Value]Val, len(a.locals))
	for k, v := range a.locals {
		na.locals[k] = v
	}
	na.defers = a.defers[:len(a.defers):len(a.defers)]
	na.loops = a.loops[:len(a.loops):len(a.loops)]
	na.parent = a.parent.clone()
	return &na
}

func (st *State) nTerm() *Term { return st.n }

func (st *State) epoch() int { return epochOf[st.n.Op] }

// get is a region as the code sees it, pending stores included.
func (st *State) get(r *region) *Term {
	t := st.raw(r)
	for _, p := range st.pend {
		if p.r == r {
			t = Store(t, p.ref, p.v)
		}
	}
	return t
}

// touch carries out pending stores into cells that might be the one at ref without
// being known to be it.
func (st *State) touch(r *region, ref *Term) {
	for again := true; again; {
		again = false
		for i, p := range st.pend {
			if p.r != r {
				continue
			}
			if e := Eq(p.ref, ref); e != True && e != False && !distinctRefs(p.ref, ref, false) {
				st.flush(i)
				again = true
				break
			}
		}
	}
}

// touchAt does the same for all cells of a value of type t.
func (st *State) touchAt(ref *Term, t types.Type) {
	if len(st.pend) == 0 {
		return
	}
	if isStruct(t) {
		s := structOf(t)
		if s.opaque {
			return
		}
		for i, f := range s.fields {
			if f.sub {
				st.touchAt(subRef(s, i, ref), f.typ)
			} else {
				st.touch(fieldRegion(s, i), ref)
			}
		}
		return
	}
	st.touch(cellRegion(t), ref)
}

func (st *State) flush(i int) {
	p := st.pend[i]
	st.pend = append(append([]pendStore{}, st.pend[:i]...), st.pend[i+1:]...)
	st.heap[p.r.name] = Store(st.raw(p.r), p.ref, p.v)
	st.sealIDs(p.ids)
}

func (st *State) flushAll() {
	for len(st.pend) > 0 {
		st.flush(0)
	}
}

// flushOf carries out the pending stores that involve an object.
func (st *State) flushOf(id *Term) {
	for again := true; again; {
		again = false
		for i, p := range st.pend {
			if p.involves(id) {
				st.flush(i)
				again = true
				break
			}
		}
	}
}

func (p pendStore) involves(id *Term) bool {
	if Rt(p.ref) == id {
		return true
	}
	for _, x := range p.ids {
		if x == id {
			return true
		}
	}
	return false
}

// put writes one cell.
func (st *State) put(r *region, ref, v *Term) {
	st.touch(r, ref)
	for i, p := range st.pend {
		if p.r == r && p.ref == ref {
			st.pend = append(append([]pendStore{}, st.pend[:i]...), st.pend[i+1:]...)
			break
		}
	}
	if ids := st.pendable(ref, v); ids != nil {
		st.raw(r)
		st.pend = append(st.pend[:len(st.pend):len(st.pend)], pendStore{r, ref, v, ids})
		return
	}
	st.seal(v)
	st.set(r, Store(st.raw(r), ref, v))
}

// pendable: the private objects in v, if storing them at ref keeps them private.
func (st *State) pendable(ref, v *Term) []*Term {
	if v.Sort != SRef && v.Sort != SSlice {
		return nil
	}
	own := func(id *Term) bool {
		l, ok := st.late[id]
		return ok && !l.mayNil && id != st.borrowed
	}
	c := Rt(ref)
	if !own(c) {
		return nil
	}
	ids := st.lateIn(v)
	for _, id := range ids {
		if !own(id) || id == c {
			return nil
		}
	}
	return ids
}

func (st *State) raw(r *region) *Term {
	if t, ok := st.heap[r.name]; ok {
		return t
	}
	t := initialRegion(r)
	st.heap[r.name] = t
	return t
}

// initial region constants are shared by the whole verification of one function
func initialRegion(r *region) *Term {
	name := "h0_" + mangle(r.name)
	s := regSort(r)
	if r.name == "$trace" {
		s = STrace
	}
	c := Const(name, s)
	birth[name] = 1
	return c
}

func (st *State) view() HeapView { return func(r *region) *Term { return st.get(r) } }

func (st *State) snapshot() HeapView {
	raw := st.rawSnapshot()
	if len(st.pend) == 0 {
		return raw
	}
	pend := st.pend
	return func(r *region) *Term {
		t := raw(r)
		for _, p := range pend {
			if p.r == r {
				t = Store(t, p.ref, p.v)
			}
		}
		return t
	}
}

func (st *State) rawSnapshot() HeapView {
	h := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	return func(r *region) *Term {
		if t, ok := h[r.name]; ok {
			return t
		}
		t := initialRegion(r)
		h[r.name] = t
		return t
	}
}

func (st *State) set(r *region, t *Term) { st.heap[r.name] = t }

// assume adds a fact; it reports whether the path is still possible.
func (st *State) assume(ts ...*Term) bool {
	for _, t := range ts {
		if t == nil || t == True || st.known[t] {
			continue
		}
		if t == False || st.known[Not(t)] {
			st.pc = append(st.pc, False)
			return false
		}
		if t.K == KApp && t.Op == "and" {
			if !st.assume(t.Args...) {
				return false
			}
			continue
		}
		if t.K == KApp && t.Op == "not" && t.Args[0].K == KApp && t.Args[0].Op == "or" {
			for _, a := range t.Args[0].Args {
				if !st.assume(Not(a)) {
					return false
				}
			}
			continue
		}
		st.known[t] = true
		st.pc = append(st.pc, t)
		// exclusive constructors and literals
		if !st.exclusive(t) {
			st.pc = append(st.pc, False)
			return false
		}
	}
	return true
}

// exclusive detects two different constructor tests or literal equalities on one term.
func (st *State) exclusive(t *Term) bool {
	if t.K != KApp {
		return true
	}
	if len(t.Op) > 6 && t.Op[:6] == "(_ is " {
		key := App("$ctor", SBool, t.Args[0])
		for k := range st.known {
			if k.K == KApp && len(k.Op) > 6 && k.Op[:6] == "(_ is " && k != t && k.Args[0] == t.Args[0] {
				return false
			}
		}
		_ = key
	}
	if t.Op == "=" {
		for i := 0; i < 2; i++ {
			if isLit(t.Args[i]) {
				x := t.Args[1-i]
				for k := range st.known {
					if k != t && k.K == KApp && k.Op == "=" {
						if (k.Args[0] == x && isLit(k.Args[1]) && k.Args[1] != t.Args[i]) || (k.Args[1] == x && isLit(k.Args[0]) && k.Args[0] != t.Args[i]) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// implied looks a condition up among known facts.
func (st *State) decide(c *Term) *Term {
	if c == True || c == False {
		return c
	}
	if st.known[c] {
		return True
	}
	if st.known[Not(c)] {
		return False
	}
	if c.K == KApp {
		switch c.Op {
		case "not":
			return Not(st.decide(c.Args[0]))
		case "and":
			all := true
			for _, a := range c.Args {
				d := st.decide(a)
				if d == False {
					return False
				}
				if d != True {
					all = false
				}
			}
			if all {
				return True
			}
		case "or":
			all := true
			for _, a := range c.Args {
				d := st.decide(a)
				if d == True {
					return True
				}
				if d != False {
					all = false
				}
			}
			if all {
				return False
			}
		case "=":
			// x = lit when x = other literal is known
			for i := 0; i < 2; i++ {
				if isLit(c.Args[i]) && c.Args[i].Sort != SBool {
					x := c.Args[1-i]
					for k := range st.known {
						if k.K == KApp && k.Op == "=" {
							if k.Args[0] == x && isLit(k.Args[1]) && k.Args[1] != c.Args[i] {
								return False
							}
							if k.Args[1] == x && isLit(k.Args[0]) && k.Args[0] != c.Args[i] {
								return False
							}
						}
					}
				}
			}
		}
		if len(c.Op) > 6 && c.Op[:6] == "(_ is " {
			for k := range st.known {
				if k.K == KApp && len(k.Op) > 6 && k.Op[:6] == "(_ is " && k != c && k.Args[0] == c.Args[0] {
					return False
				}
			}
		}
	}
	return c
}

var lateCnt int

func (st *State) alloc(regs ...*region) *Term {
	lateCnt++
	id := Const(fmt.Sprintf("L!%d", lateCnt), SInt)
	r := Fn("base", SRef, id)
	st.assume(Le(st.n, id), Eq(Fn("lateidx", SInt, id), IntT(int64(lateCnt))))
	var others []*Term
	for o, li := range st.late {
		if li.mayNil {
			others = append(others, o) // private objects named by a loop variable
		}
	}
	sort.Slice(others, func(i, j int) bool { return others[i].id < others[j].id })
	for _, o := range others {
		st.assume(Not(Eq(o, id)))
	}
	st.late[id] = &lateInfo{id: id, regs: regs}
	return r
}

// seal makes every unsealed object in t visible.
func (st *State) seal(ts ...*Term) {
	var ids []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == nil {
			continue
		}
		st.findLate(t, seen, &ids)
	}
	st.sealIDs(ids)
}

func (st *State) sealIDs(ids []*Term) {
	ids = append([]*Term{}, ids...)
	have := map[*Term]bool{}
	n := 0
	for _, id := range ids {
		if _, ok := st.late[id]; ok && !have[id] {
			have[id] = true
			ids[n] = id
			n++
		}
	}
	ids = ids[:n]
	if len(ids) == 0 {
		return
	}
	// what was put into them is carried out, and goes with them
	for again := true; again; {
		again = false
		for i, p := range st.pend {
			hit := have[Rt(p.ref)]
			for _, id := range p.ids {
				hit = hit || have[id]
			}
			if !hit {
				continue
			}
			st.pend = append(append([]pendStore{}, st.pend[:i]...), st.pend[i+1:]...)
			st.heap[p.r.name] = Store(st.raw(p.r), p.ref, p.v)
			for _, id := range p.ids {
				if _, ok := st.late[id]; ok && !have[id] {
					have[id] = true
					ids = append(ids, id)
				}
			}
			again = true
			break
		}
	}
	for _, id := range ids {
		delete(st.late, id)
		if id == st.borrowed && onLeak != nil {
			onLeak(st)
		}
	}
	st.newEpoch()
	for _, id := range ids {
		st.assume(Lt(id, st.n))
		st.sealed[id] = st.epoch()
	}
}

// sealVal also makes visible what a closure captured.
func (st *State) sealVal(v Val) {
	st.seal(v.t)
	if v.clo != nil {
		for _, b := range v.clo.bind {
			if b.lv != nil {
				st.seal(b.lv.ref)
			}
			st.sealVal(b)
		}
	}
}

func (st *State) lateIn(t *Term) []*Term {
	if t == nil {
		return nil
	}
	var ids []*Term
	st.findLate(t, map[*Term]bool{}, &ids)
	return ids
}

func (st *State) sealID(id *Term) { st.sealIDs([]*Term{id}) }

func (st *State) findLate(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.K == KApp && t.Op == "select" {
		return // what memory holds was made visible when it was stored
	}
	for _, id := range aliasOf[t] {
		if _, ok := st.late[id]; ok && !seen[id] {
			seen[id] = true
			*out = append(*out, id)
		}
	}
	if t.Sort == SRef {
		id := Rt(t)
		if _, ok := st.late[id]; ok {
			if !seen[id] {
				seen[id] = true
				*out = append(*out, id)
			}
			return
		}
	}
	if t.Sort == SSlice && !isCtorApp(t) {
		st.findLate(Sel("sptr", t), seen, out)
		return
	}
	for _, a := range t.Args {
		switch a.Sort {
		case SInt, SBool, SStr:
			continue
		}
		if strings.HasPrefix(a.Sort, "(Array") {
			continue
		}
		st.findLate(a, seen, out)
	}
}

// newEpoch starts a new allocation epoch (after a call or at a loop head).
func (st *State) newEpoch() *Term {
	old := st.n
	st.n = NewEpoch()
	st.assume(Le(old, st.n))
	var ids []*lateInfo
	for _, l := range st.late {
		ids = append(ids, l)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id.id < ids[j].id.id })
	for _, l := range ids {
		if l.mayNil {
			st.assume(Or(Lt(l.id, IntT(0)), Le(st.n, l.id)))
		} else {
			st.assume(Le(st.n, l.id))
		}
	}
	return old
}

// store writes a value of Go type t at address ref.
func (st *State) store(ref, v *Term, t types.Type) {
	if isStruct(t) {
		s := structOf(t)
		if s.opaque {
			g := ghostOf(s)
			if g.val == s.sort {
				st.seal(v)
				st.set(g, Store(st.raw(g), ref, v))
			} else if v == zeroOf(t) {
				st.set(g, Store(st.raw(g), ref, zeroGhost(g)))
			} else {
				unsupported("copy of opaque struct %s", s.key)
			}
			return
		}
		for i, f := range s.fields {
			fv := Sel(s.name+"."+f.name, v)
			if f.sub {
				st.store(subRef(s, i, ref), fv, f.typ)
			} else {
				st.put(fieldRegion(s, i), ref, fv)
			}
		}
		return
	}
	st.put(cellRegion(t), ref, v)
}

func zeroGhost(g *region) *Term {
	switch g.val {
	case SStr:
		return StrT("")
	case SInt:
		return IntT(0)
	}
	return Const("zero_"+mangle(g.val), g.val)
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }

func unsupported(f string, a ...interface{}) { panic(unsupportedErr{fmt.Sprintf(f, a...)}) }
