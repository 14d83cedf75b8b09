package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FnResult is the outcome for one function.
type FnResult struct {
	Key         string
	Fn          *ssa.Function
	Contract    *Contract
	Obls        []*Obligation
	Unsupported string
	Rounds      int
	Cands       int
	Kept        int
	UsedCtr     map[string]bool
	UsedExt     map[string]bool
	Inlined     map[string]bool
	Vacuous     bool
	Covered     int
	Millis      int64
	Paths       int
	Unreached   []string // blocks no path reaches
}

func (r *FnResult) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if o.Result != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (r *FnResult) ok() bool { return r.Unsupported == "" && len(r.failed()) == 0 && !r.Vacuous }

func resetRun() {
	constCnt, epochCnt, lateCnt = 0, 0, 0
	birth = map[string]int{}
	epochOf = map[string]int{}
	boundMemo = map[*Term]struct {
		s  int
		ok bool
	}{}
	havocOf = map[*Term]havocInfo{}
	ifaceHint = map[*Term]types.Type{}
	aliasOf = map[*Term][]*Term{}
	curSt = nil
}

var pathLimit = 4000

func newExec(fn *ssa.Function, c *Contract, prop string, noCtr map[string]bool) *Exec {
	return &Exec{prop: prop, root: fn, rootC: c, loops: map[string]*loopState{}, maxPaths: pathLimit, noCtr: noCtr,
		usedExt: map[string]bool{}, usedCtr: map[string]bool{}, inlined: map[string]bool{}, scc: sccOf(fn)}
}

// sccOf: the contract keys of functions that can call fn back.
func sccOf(fn *ssa.Function) map[string]bool {
	m := map[string]bool{}
	for _, f := range P.funcs {
		if f == fn || reaches(fn, f) && reaches(f, fn) {
			m[fnName(f)] = true
			if c := SP.Contracts[fnName(f)]; c == nil && f.Signature.Recv() != nil {
				for _, k := range SP.Order {
					ic := SP.Contracts[k]
					if ic.Kind == "iface" && strings.HasSuffix(k, "."+f.Name()) {
						m[k] = true
					}
				}
			}
		}
	}
	return m
}

func (x *Exec) attempt(houdini bool) (err string) {
	resetRun()
	x.houdini = houdini
	x.obls = nil
	x.paths = 0
	x.rets = nil
	x.visited = nil
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				err = e.Error()
			case specErr:
				err = "specification: " + e.msg
			default:
				if os.Getenv("GV_DEBUG") != "" {
					panic(r)
				}
				err = fmt.Sprintf("internal error: %v", r)
			}
		}
	}()
	fn, c := x.root, x.rootC
	st := &State{heap: map[string]*Term{}, late: map[*Term]*lateInfo{}, sealed: map[*Term]int{}, known: map[*Term]bool{}}
	curSt = st
	st.n = NewEpoch()
	st.assume(Le(IntT(1), st.n))
	x.old = func(r *region) *Term { return initialRegion(r) }
	x.oldN = st.n
	x.env = &Env{vars: map[string]SV{}, cur: x.old, old: x.old, nCur: st.n, nOld: st.n, fname: fnName(fn)}
	var args []Val
	var lentT *Term
	onLeak = nil
	if x.borrow != "" {
		onLeak = func(s *State) {
			if !houdini {
				x.obls = append(x.obls, &Obligation{Fn: fnName(fn), Kind: "frame", Label: "what " + x.borrow + " points to is not kept", Hyps: s.pc, Goal: False})
			}
		}
		defer func() { onLeak = nil }()
	}
	for i, p := range fn.Params {
		t := Const("p_"+mangle(p.Name())+fmt.Sprintf("_%d", i), sortOf(p.Type()))
		if x.borrow != "" && c.Params[i] == x.borrow {
			// an object nothing else refers to
			t = st.alloc(phiRegs(p.Type())...)
			st.borrowed = Rt(t)
			lentT = t
		} else {
			birth[t.Op] = 1
			st.assume(below(t, p.Type(), st.n))
		}
		if u, ok := p.Type().Underlying().(*types.Basic); ok && u.Info()&types.IsUnsigned != 0 {
			st.assume(Le(IntT(0), t))
		}
		args = append(args, Val{t: t})
		sv := SV{t: t, ty: p.Type()}
		if c.Kind == "impl" && i == 0 {
			sv = SV{t: Box(p.Type(), t), ty: types.NewInterfaceType(nil, nil)}
		}
		x.env.vars[c.Params[i]] = sv
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && !c.nullable(c.Params[i]) && c.Kind != "impl" {
			st.assume(Not(Eq(t, Null)))
		}
	}
	for _, n := range sortedRegs(regions) {
		nilMapRegion(st, regions[n], initialRegion(regions[n]))
	}
	st.snap, st.snapN, st.older = nil, nil, nil
	if len(SP.TypeHeap) > 0 {
		st.snap, st.snapN = TH(st.view()), st.n
	}
	e := x.preEnv()
	if c.Key == "init" && fn.Synthetic != "" {
		var ns []string
		for n := range P.spkg.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if g, ok := P.spkg.Members[n].(*ssa.Global); ok {
				t := deref(g.Type())
				st.assume(Eq(loadAt(st.view(), globalRef(n), t), zeroOf(t)))
			}
		}
	} else {
		for _, g := range SP.Globals {
			if clauseOn(g, x.prop) {
				st.assume(e.bool(g.E))
			}
		}
	}
	for _, q := range c.Requires {
		if q.Label == "nullable" || q.Label == "borrow" {
			continue
		}
		if clauseOn(q, x.prop) {
			if !st.assume(e.bool(q.E)) {
				return "" // no states: reported as vacuous
			}
		}
	}
	entry := st.pc
	if !houdini {
		x.obls = append(x.obls, &Obligation{Fn: fnName(fn), Kind: "smoke", Label: "precondition satisfiable", Hyps: entry, Goal: False})
	}
	var pcs []*Term
	for _, p := range c.PanicIf {
		if clauseOn(p, x.prop) {
			pcs = append(pcs, e.bool(p.E))
		}
	}
	done := func(st *State, res []Val) {
		curSt = st
		x.tick()
		for i := range res {
			if res[i].lv != nil {
				unsupported("address of a field returned")
			}
			if lentT != nil && res[i].t == lentT {
				continue // the object lent may be handed back
			}
			if lentT != nil && res[i].t != nil && len(aliasOf[res[i].t]) == 1 && aliasOf[res[i].t][0] == st.borrowed {
				continue
			}
			st.sealVal(res[i])
			if res[i].t == nil && res[i].clo != nil {
				res[i].t = Fresh("closure", SRef)
			}
			st.seal(res[i].t)
		}
		x.thSync(st)
		if houdini {
			return
		}
		pe := x.postEnv(st, res)
		for _, f := range c.Facts {
			if clauseOn(f, x.prop) {
				t := pe.bool(f.E)
				x.oblige(st, "fact", f.Label+" "+f.Src, fn.Pos(), t)
				st.assume(t)
			}
		}
		if len(pcs) > 0 && !c.MayPanic {
			x.oblige(st, "panic", "returns only when it need not panic", fn.Pos(), Not(Or(pcs...)))
		}
		for _, q := range c.Ensures {
			if clauseOn(q, x.prop) {
				x.oblige(st, "post", q.Label+": "+q.Src, fn.Pos(), pe.bool(q.E))
			}
		}
		x.frameObls(st, fn.Pos(), "frame")
		if lentT != nil {
			mods := x.modSets(x.preEnv(), c)
			for _, n := range sortedKeysT(st.heap) {
				r := regions[n]
				if r == nil || n == "$trace" || mods.any || mods.all[n] {
					continue
				}
				a, b := st.get(r), x.old(r)
				if a != b {
					x.oblige(st, "frame", "object lent unchanged: "+n, fn.Pos(), Or(mods.pred(r, lentT), Eq(Select(a, lentT), Select(b, lentT))))
				}
			}
		}
		x.rets = append(x.rets, st.pc)
	}
	start := func(st *State) { x.run(st, fn, args, nil, "root", done) }
	// case splits
	var split func(st *State, cs []*Expr)
	split = func(st *State, cs []*Expr) {
		if len(cs) == 0 {
			start(st)
			return
		}
		x.branch(st, e.bool(cs[0]), func(s *State) { split(s, cs[1:]) }, func(s *State) { split(s, cs[1:]) })
	}
	split(st, c.Cases)
	return ""
}

func hypKey(hs []*Term) [32]byte {
	h := sha256.New()
	var b [8]byte
	for _, t := range hs {
		binary.LittleEndian.PutUint64(b[:], uint64(t.id))
		h.Write(b[:])
	}
	var o [32]byte
	copy(o[:], h.Sum(nil))
	return o
}

var dumpN int

var (
	candMS   = 1500
	goalMS   = 8000
	deadline time.Time
	verbose  = false
)

func expired() bool { return !deadline.IsZero() && time.Now().After(deadline) }

func goalsOf(os []*Obligation) []*Term {
	var gs []*Term
	for _, o := range os {
		gs = append(gs, o.Goal)
	}
	return gs
}

var thMemo = map[*Term]bool{}

// mentionsTH: the term speaks of what memory stands for.
func mentionsTH(t *Term) bool {
	if v, ok := thMemo[t]; ok {
		return v
	}
	v := t.Sort == "TH"
	for _, a := range t.Args {
		v = v || mentionsTH(a)
	}
	for _, b := range t.Vars {
		v = v || b.Sort == "TH"
	}
	thMemo[t] = v
	return v
}

var specSymMemo = map[*Term][]string{}

// specSyms: the functions of the specification a term mentions.
func specSyms(t *Term) []string {
	if v, ok := specSymMemo[t]; ok {
		return v
	}
	m := map[string]bool{}
	if t.K == KApp && (strings.HasPrefix(t.Op, "s_") || t.Op == "agree") {
		m[t.Op] = true
	}
	for _, a := range t.Args {
		for _, s := range specSyms(a) {
			m[s] = true
		}
	}
	v := sortedKeys(m)
	specSymMemo[t] = v
	return v
}

// lightQuery is the query with fewer hypotheses and axioms: only those that speak of
// functions of the specification the goal depends on.  nil where nothing would be left out.
func lightQuery(hyps []*Term, goal *Term) *query {
	rel := map[string]bool{}
	for _, s := range specSyms(goal) {
		rel[s] = true
	}
	if mentionsTH(goal) {
		rel["agree"] = true
	}
	sub := func(ss []string) bool {
		for _, s := range ss {
			if !rel[s] {
				return false
			}
		}
		return true
	}
	use := map[*axiomInfo]bool{}
	for changed := true; changed; {
		changed = false
		for _, a := range specAx {
			if use[a] {
				continue
			}
			ok := false
			if len(a.t.Pats) == 0 || a.t.K != KForall {
				ok = sub(specSyms(a.t))
			} else {
				for _, ps := range a.t.Pats {
					in := true
					for _, p := range ps {
						in = in && sub(specSyms(p))
					}
					ok = ok || in
				}
			}
			if ok {
				use[a] = true
				changed = true
				for _, s := range specSyms(a.t) {
					rel[s] = true
				}
			}
		}
	}
	var hs []*Term
	out := false
	for _, h := range hyps {
		for _, c := range conj(h) {
			if sub(specSyms(c)) && (rel["agree"] || !mentionsTH(c)) {
				hs = append(hs, c)
			} else {
				out = true
			}
		}
	}
	if !out {
		return nil
	}
	isSpec := map[*axiomInfo]bool{}
	for _, a := range specAx {
		isSpec[a] = true
	}
	return makeQuery(hs, goal, func(a *axiomInfo) bool {
		if isSpec[a] {
			return !use[a]
		}
		return !rel["agree"] && mentionsTH(a.t)
	})
}

// houdiniRound drops candidates that are not inductive; it reports whether any was dropped.
func (x *Exec) houdiniRound() bool {
	dropped := false
	for _, o := range x.obls {
		if o.Cand != nil && o.Cand.syn && o.Goal != True && o.Cand.active {
			o.Cand.active = false
			dropped = true
			if verbose {
				fmt.Println("   drop (syn)", o.Label)
			}
		}
	}
	if dropped {
		return true
	}
	type group struct {
		obls []*Obligation
	}
	gs := map[[32]byte]*group{}
	var order [][32]byte
	for _, o := range x.obls {
		if o.Cand == nil || o.Cand.syn || o.Goal == True {
			continue
		}
		k := hypKey(o.Hyps)
		if gs[k] == nil {
			gs[k] = &group{}
			order = append(order, k)
		}
		gs[k].obls = append(gs[k].obls, o)
	}
	// literally false goals first
	type job struct {
		q, l *query
		obls []*Obligation
		ok   bool
	}
	var jobs []*job
	for _, k := range order {
		g := gs[k]
		var goals []*Term
		for _, o := range g.obls {
			goals = append(goals, o.Goal)
		}
		jobs = append(jobs, &job{q: makeQuery(g.obls[0].Hyps, And(goals...), nil), obls: g.obls})
	}
	// goals about the memory itself are tried without the facts about what memory stands for
	for _, j := range jobs {
		j.l = lightQuery(j.obls[0].Hyps, And(goalsOf(j.obls)...))
	}
	parallel(len(jobs), func(i int) {
		if l := jobs[i].l; l != nil {
			if prove(l, 500, false).res == "unsat" {
				jobs[i].ok = true
			}
			return
		}
		jobs[i].ok = prove(jobs[i].q, candMS, false).res == "unsat"
	})
	var singles []*job
	for _, j := range jobs {
		if j.ok {
			continue
		}
		if len(j.obls) == 1 {
			if len(splitGoal(j.obls[0].Goal)) == 1 {
				singles = append(singles, j)
				continue
			}
		}
		for _, o := range j.obls {
			for _, g := range splitGoal(o.Goal) {
				singles = append(singles, &job{q: makeQuery(o.Hyps, g, nil), l: lightQuery(o.Hyps, g), obls: []*Obligation{o}})
			}
		}
	}
	parallel(len(singles), func(i int) {
		if singles[i].obls[0].Cand.active || verbose && os.Getenv("GV_DUMPC") != "" {
			ms := candMS
			if !singles[i].obls[0].Cand.auto {
				ms = 4 * candMS
			}
			if l := singles[i].l; l != nil && prove(l, 500, false).res == "unsat" {
				singles[i].ok = true
				return
			}
			if singles[i].l != nil && singles[i].obls[0].Cand.auto {
				return
			}
			singles[i].ok = prove(singles[i].q, ms, false).res == "unsat"
		}
	})
	if verbose && os.Getenv("GV_DUMPC") != "" {
		for _, j := range singles {
			if !j.ok && !j.obls[0].Cand.auto {
				dumpN++
				os.WriteFile(fmt.Sprintf("/tmp/gv_cand_%d.smt2", dumpN), []byte(j.q.text), 0644)
				ls := strings.Split(strings.TrimSpace(j.q.text), "\n")
				g := ls[len(ls)-2]
				if len(g) > 300 {
					g = g[len(g)-300:]
				}
				fmt.Println("   not shown cand", dumpN, g)
			}
		}
	}
	for _, j := range singles {
		if !j.ok && j.obls[0].Cand.active {
			j.obls[0].Cand.active = false
			dropped = true
			if verbose {
				fmt.Println("   drop", j.obls[0].Label)
			}
		}
	}
	return dropped
}

// verifyFn verifies a function against its contract; once more for every parameter
// it borrows, with an object that nothing else refers to.
func verifyFn(fn *ssa.Function, c *Contract, prop string, noCtr map[string]bool) *FnResult {
	r := verifyOnce(fn, c, prop, noCtr, "")
	for _, q := range c.Requires {
		if q.Label != "borrow" || r.Unsupported != "" {
			continue
		}
		r2 := verifyOnce(fn, c, prop, noCtr, exprStr(q.E))
		for _, o := range r2.Obls {
			o.Label += " [" + exprStr(q.E) + " lent]"
		}
		r.Obls = append(r.Obls, r2.Obls...)
		r.Unsupported = r2.Unsupported
		r.Rounds += r2.Rounds
		r.Cands += r2.Cands
		r.Kept += r2.Kept
		r.Paths += r2.Paths
		r.Vacuous = r.Vacuous || r2.Vacuous
		r.Covered += r2.Covered
		r.Millis += r2.Millis
		for k := range r2.UsedCtr {
			r.UsedCtr[k] = true
		}
		for k := range r2.UsedExt {
			r.UsedExt[k] = true
		}
		for k := range r2.Inlined {
			r.Inlined[k] = true
		}
	}
	return r
}

func verifyOnce(fn *ssa.Function, c *Contract, prop string, noCtr map[string]bool, borrow string) *FnResult {
	t0 := time.Now()
	r := &FnResult{Key: fnName(fn), Fn: fn, Contract: c}
	defer func() { r.Millis = time.Since(t0).Milliseconds() }()
	if len(c.Params) != len(fn.Params) {
		r.Unsupported = fmt.Sprintf("contract has %d parameters, the code %d", len(c.Params), len(fn.Params))
		return r
	}
	x := newExec(fn, c, prop, noCtr)
	x.borrow = borrow
	defer func() { r.UsedCtr, r.UsedExt, r.Inlined, r.Paths = x.usedCtr, x.usedExt, x.inlined, x.paths }()
	for round := 0; ; round++ {
		if expired() {
			r.Unsupported = "out of time"
			return r
		}
		if err := x.attempt(true); err != "" {
			r.Unsupported = err
			return r
		}
		any := false
		for _, o := range x.obls {
			if o.Cand != nil {
				any = true
			}
		}
		r.Rounds = round + 1
		if verbose {
			fmt.Printf("   round %d executed after %.1fs\n", round+1, time.Since(t0).Seconds())
		}
		if !any || !x.houdiniRound() {
			break
		}
		if round > 40 {
			r.Unsupported = "invariants do not stabilise"
			return r
		}
	}
	if verbose {
		fmt.Printf("   rounds done after %.1fs\n", time.Since(t0).Seconds())
	}
	for _, ls := range x.loops {
		for _, cd := range ls.cands {
			r.Cands++
			if cd.active {
				r.Kept++
			}
		}
	}
	if verbose {
		var ks []string
		for k := range x.loops {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, cd := range x.loops[k].cands {
				if cd.active {
					fmt.Println("   inv", x.loops[k].pos, cd.desc)
				}
			}
		}
	}
	if err := x.attempt(false); err != "" {
		r.Unsupported = err
		return r
	}
	r.Obls = x.obls
	fns := map[*ssa.Function]bool{fn: true}
	for b := range x.visited {
		fns[b.Parent()] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			if !x.visited[b] && b != f.Recover {
				at := "?"
				for _, in := range b.Instrs {
					if in.Pos().IsValid() {
						at = posStr(in.Pos())
						break
					}
				}
				r.Unreached = append(r.Unreached, fmt.Sprintf("%s block %d (%s) at %s", fnName(f), b.Index, b.Comment, at))
			}
		}
	}
	sort.Strings(r.Unreached)
	solveObls(r, x)
	return r
}

func solveObls(r *FnResult, x *Exec) {
	type group struct {
		obls []*Obligation
		q, l *query
		ans  answer
	}
	// obligations with the same hypotheses share a first query
	gs := map[[32]byte]*group{}
	var order []*group
	for _, o := range r.Obls {
		if o.Kind == "smoke" {
			continue
		}
		if o.Goal == True {
			o.Result, o.Solver = "proved", "simplifier"
			continue
		}
		k := hypKey(o.Hyps)
		g := gs[k]
		if g == nil {
			g = &group{}
			gs[k] = g
			order = append(order, g)
		}
		g.obls = append(g.obls, o)
	}
	for _, g := range order {
		var goals []*Term
		for _, o := range g.obls {
			goals = append(goals, o.Goal)
		}
		g.q = makeQuery(g.obls[0].Hyps, And(goals...), nil)
		g.l = lightQuery(g.obls[0].Hyps, And(goals...))
	}
	parallel(len(order), func(i int) {
		if expired() {
			order[i].ans = answer{res: "timeout"}
			return
		}
		if l := order[i].l; l != nil {
			if a := prove(l, 500, false); a.res == "unsat" {
				order[i].ans = a
				return
			}
		}
		ms := goalMS
		if len(order[i].obls) > 1 {
			ms = min(ms, 1000) // the goals are tried one by one next
		}
		order[i].ans = prove(order[i].q, ms, len(order[i].obls) == 1)
	})
	var rest []*Obligation
	for _, g := range order {
		if g.ans.res == "unsat" {
			for _, o := range g.obls {
				o.Result, o.Solver, o.Millis = "proved", g.ans.solver, g.ans.ms
			}
			continue
		}
		if len(g.obls) == 1 {
			o := g.obls[0]
			o.Result, o.Solver, o.Millis, o.Detail = g.ans.res, g.ans.solver, g.ans.ms, g.ans.out
			o.Text = g.q.text
			continue
		}
		rest = append(rest, g.obls...)
	}
	qs := make([]*query, len(rest))
	ls := make([]*query, len(rest))
	for i, o := range rest {
		qs[i] = makeQuery(o.Hyps, o.Goal, nil)
		ls[i] = lightQuery(o.Hyps, o.Goal)
	}
	parallel(len(rest), func(i int) {
		o := rest[i]
		if expired() {
			o.Result = "timeout"
			return
		}
		if ls[i] != nil {
			if a := prove(ls[i], 500, false); a.res == "unsat" {
				o.Result, o.Solver, o.Millis = "proved", a.solver, a.ms
				return
			}
		}
		a := prove(qs[i], goalMS, true)
		o.Solver, o.Millis = a.solver, a.ms
		if a.res == "unsat" {
			o.Result = "proved"
		} else {
			o.Result, o.Detail, o.Text = a.res, a.out, qs[i].text
		}
	})
	if d := os.Getenv("GV_DUMPALL"); d != "" {
		for i, o := range r.Obls {
			os.WriteFile(fmt.Sprintf("%s/o_%d.smt2", d, i), []byte("; "+o.Kind+" "+o.Label+" "+o.Pos+" "+strings.Join(o.Trail, " ")+"\n"+makeQuery(o.Hyps, o.Goal, nil).text), 0644)
		}
	}
	if os.Getenv("GV_VAC") != "" {
		vq := make([]*query, len(order))
		for i, g := range order {
			vq[i] = makeQuery(g.obls[0].Hyps, False, nil)
		}
		parallel(len(order), func(i int) {
			if a := prove(vq[i], 3000, true); a.res == "unsat" {
				o := order[i].obls[0]
				fmt.Printf("  IMPOSSIBLE path: %s %s %s\n", o.Kind, o.Pos, strings.Join(o.Trail, " "))
				os.WriteFile(fmt.Sprintf("/tmp/gv_vac_%d.smt2", i), []byte(vq[i].text), 0644)
			}
		})
		for i, pc := range x.rets {
			if a := prove(makeQuery(pc, False, nil), 3000, true); a.res == "unsat" {
				fmt.Printf("  IMPOSSIBLE return %d of %d\n", i, len(x.rets))
			}
		}
	}
	// vacuity: the precondition must not be contradictory and some return reachable
	var smokes []*query
	for _, o := range r.Obls {
		if o.Kind == "smoke" {
			smokes = append(smokes, makeQuery(o.Hyps, False, nil))
		}
	}
	nPre := len(smokes)
	for i, pc := range x.rets {
		if i >= 24 {
			break
		}
		smokes = append(smokes, makeQuery(pc, False, nil))
	}
	res := make([]bool, len(smokes))
	parallel(len(smokes), func(i int) { res[i] = prove(smokes[i], 1500, false).res == "unsat" })
	reach := 0
	for i := range smokes {
		if i < nPre {
			if res[i] {
				r.Vacuous = true
			}
		} else if !res[i] {
			reach++
		}
	}
	r.Covered = reach
	if len(x.rets) > 0 && reach == 0 {
		r.Vacuous = true
	}
	var keep []*Obligation
	for _, o := range r.Obls {
		if o.Kind != "smoke" {
			keep = append(keep, o)
		}
	}
	r.Obls = keep
	if os.Getenv("GV_DUMP") != "" {
		n := 0
		for _, o := range r.Obls {
			if o.Result != "proved" {
				os.WriteFile(fmt.Sprintf("/tmp/gv_fail_%d.smt2", n), []byte(o.Text), 0644)
				n++
			}
		}
	}
}

// proveLemma proves one lemma of the specification from the definitions and the
// lemmas before it.
func proveLemma(idx int) (answer, *query) {
	a := SP.Axioms[idx]
	resetRun()
	e := &Env{vars: map[string]SV{}, cur: func(r *region) *Term { sfail("heap access"); return nil }}
	t := e.bool(a.E)
	var hyps []*Term
	goal := t
	if t.K == KForall {
		m := map[*Term]*Term{}
		for _, v := range t.Vars {
			m[v] = Const("lm_"+v.Op, v.Sort)
		}
		goal = Subst(t.Args[0], m)
		q := a.E
		ne := e
		for i, d := range q.Vars {
			ty, _ := resolveType(d.Type)
			ne = ne.with(d.Name, SV{t: t.Vars[i], ty: ty})
		}
		// hints only bring terms into the query: hintb is a predicate nothing is known of
		for _, h := range a.Using {
			he, err := parseExpr(h)
			if err != nil {
				sfail("hint: %v", err)
			}
			ht := Subst(ne.val(ne.eval(he)), m)
			hyps = append(hyps, Fn("hint_"+mangle(ht.Sort), SBool, ht))
		}
		if a.Induct != "" {
			ie, err := parseExpr(a.Induct)
			if err != nil {
				sfail("induct: %v", err)
			}
			// evaluate the measure over the quantified variables
			meas := ne.val(ne.eval(ie))
			hyps = append(hyps, Le(IntT(0), Subst(meas, m)))
			ih := Forall(t.Vars, Implies(And(Le(IntT(0), meas), Lt(meas, Subst(meas, m))), t.Args[0]), t.Pats...)
			hyps = append(hyps, ih)
		}
	}
	skip := func(ai *axiomInfo) bool {
		if ai.ax == nil || !ai.ax.Lemma {
			return false
		}
		for j := idx; j < len(SP.Axioms); j++ {
			if SP.Axioms[j] == ai.ax {
				return true
			}
		}
		return false
	}
	inLemma = true
	q := makeQuery(hyps, goal, skip)
	inLemma = false
	return prove(q, 20000, true), q
}
