package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- axioms ----

type axiomInfo struct {
	name string
	t    *Term
	pats [][]string // symbols of each pattern
	lem  bool
	ax   *Axiom
	auto bool
	lemOnly bool // for the proofs of lemmas only
}

// inLemma is set while the query of a lemma is built.
var inLemma bool

var preludeAx []*axiomInfo
var preludeDone = map[string]bool{}

func bv(n string, s Sort) *Term { return BoundT(n, s) }

func addAx(name string, t *Term) *axiomInfo {
	a := &axiomInfo{name: name, t: t}
	if t.K == KForall {
		for _, p := range t.Pats {
			m := map[string]bool{}
			for _, x := range p {
				symsOf(x, m)
			}
			a.pats = append(a.pats, sortedKeys(m))
		}
	}
	return a
}

func symsOf(t *Term, m map[string]bool) {
	if t.K == KApp {
		if userSym(t.Op) {
			m[t.Op] = true
		}
		if t.Op == "select" || t.Op == "store" {
			// arrays are everywhere: no filter
		}
	}
	for _, a := range t.Args {
		symsOf(a, m)
	}
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "+": true, "-": true, "*": true, "<": true, "<=": true, "select": true, "store": true,
	"true": true, "false": true, "mod": true, "div": true, "constarr": true, "distinct": true, "re.none": true}

func userSym(op string) bool {
	if builtinOps[op] || strings.HasPrefix(op, "str.") || strings.HasPrefix(op, "(_ ") || strings.HasPrefix(op, "re.") {
		return false
	}
	if _, ok := ctors[op]; ok {
		return false
	}
	if _, ok := selOf[op]; ok {
		return false
	}
	return true
}

func qall(vs []*Term, body *Term, pat ...*Term) *Term { return intern(&Term{K: KForall, Op: "forall", Vars: vs, Args: []*Term{body}, Pats: [][]*Term{pat}, Sort: SBool}) }

var subIdx = 2

// addSubAx says where an embedded struct lies.
func addSubAx(s string) {
	p := bv("xp", SRef)
	sub := App(s, SRef, p)
	Fn("inv"+s, SRef, p)
	Fn(s, SRef, p)
	preludeAx = append(preludeAx, addAx(s, qall([]*Term{p}, And(Eq2(App("rt", SInt, sub), App("rt", SInt, p)), Eq2(App("shape", SInt, sub), IntT(int64(subIdx))), Eq2(App("inv"+s, SRef, sub), p)), sub)))
	subIdx++
}

// buildPrelude makes the background axioms.
func buildPrelude() {
	p, q, r := bv("xp", SRef), bv("xq", SRef), bv("xr", SRef)
	_ = q
	i, j, k, n, m := bv("xi", SInt), bv("xj", SInt), bv("xk", SInt), bv("xn", SInt), bv("xm", SInt)
	add := func(name string, t *Term) *axiomInfo {
		a := addAx(name, t)
		preludeAx = append(preludeAx, a)
		return a
	}
	rt := func(x *Term) *Term { return App("rt", SInt, x) }
	shape := func(x *Term) *Term { return App("shape", SInt, x) }
	base := App("base", SRef, i)
	Fn("rt", SInt, r)
	Fn("shape", SInt, r)
	Fn("elb", SRef, p)
	Fn("elb0", SRef, p)
	Fn("eli", SInt, p)
	Fn("off", SInt, p)
	Fn("el", SRef, p, i)
	Fn("shift", SRef, p, i)
	Fn("base", SRef, i)
	Fn("refid", SInt, p)
	Fn("refinv", SRef, i)
	add("rt-base", qall([]*Term{i}, And(Eq2(rt(base), i), Eq2(shape(base), IntT(0))), base))
	add("null", And(Eq2(App("rt", SInt, Null), IntT(-1)), Eq2(shape(Null), IntT(-1))))
	el := App("el", SRef, p, i)
	add("el", qall([]*Term{p, i}, And(Eq2(rt(el), rt(p)), Eq2(shape(el), IntT(1)), Eq2(App("elb", SRef, el), App("elb0", SRef, p)), Eq2(App("eli", SInt, el), Add(App("off", SInt, p), i))), el))
	sh := App("shift", SRef, p, k)
	add("shift", qall([]*Term{p, k}, And(Eq2(rt(sh), rt(p)), Eq2(App("elb0", SRef, sh), App("elb0", SRef, p)), Eq2(App("off", SInt, sh), Add(App("off", SInt, p), k)), Implies(Not(Eq2(p, Null)), Not(Eq2(sh, Null)))), sh))
	add("el-shift", qall([]*Term{p, k, j}, Eq2(App("el", SRef, sh, j), App("el", SRef, p, Add(k, j))), App("el", SRef, sh, j)))
	for _, s := range sortedKeys(subFns) {
		addSubAx(s)
	}
	add("refid", qall([]*Term{p}, Eq2(App("refinv", SRef, App("refid", SInt, p)), p), App("refid", SInt, p)))
	// interface payloads
	v := bv("xv", SIface)
	Fn("irt", SInt, v)
	add("irt-nil", Eq2(App("irt", SInt, INil), IntT(-1)))
	for _, b := range boxes {
		un := App("un"+b.ctor, b.srt, v)
		irt := App("irt", SInt, v)
		is := App("(_ is "+b.ctor+")", SBool, v)
		switch b.srt {
		case SRef:
			add("irt-"+b.ctor, qall([]*Term{v}, Implies(is, Eq2(irt, rt(un))), irt, un))
		case SSlice:
			add("irt-"+b.ctor, qall([]*Term{v}, Implies(is, Eq2(irt, rt(App("sptr", SRef, un)))), irt, un))
		case SIface:
		default:
			if !isStruct(b.typ) || structOf(b.typ).opaque {
				continue
			}
			// a value box lives as long as what its fields refer to
			y := bv("xy", b.srt)
			bx := App(b.ctor, SIface, y)
			m := IntT(-1)
			for _, l := range leafRoots(y, b.typ) {
				m = Ite(Le(m, l), l, m)
			}
			add("irt-"+b.ctor, qall([]*Term{y}, Eq2(App("irt", SInt, bx), m), App("irt", SInt, bx)))
			m = IntT(-1)
			for _, l := range leafRoots(un, b.typ) {
				m = Ite(Le(m, l), l, m)
			}
			add("irt2-"+b.ctor, qall([]*Term{v}, Implies(is, Eq2(irt, m)), irt, un))
		}
	}
	// finite sets of keys
	for _, name := range sortedDecl() {
		d := declared[name]
		if strings.HasPrefix(name, "setcard_") {
			set := d.args[0]
			ks, _ := arrParts(set)
			h, x := bv("xh", set), bv("xx", ks)
			sc := func(t *Term) *Term { return App(name, SInt, t) }
			sel := App("select", SBool, h, x)
			st := App("store", set, h, x, True)
			add(name+"-nonneg", qall([]*Term{h}, Le(IntT(0), sc(h)), sc(h)))
			add(name+"-empty", Eq2(sc(App("constarr", set, False)), IntT(0)))
			add(name+"-zero", qall([]*Term{h, x}, Implies(Eq2(sc(h), IntT(0)), Not(sel)), sc(h), sel))
			add(name+"-store", qall([]*Term{h, x}, Eq2(sc(st), Add(sc(h), Ite(sel, IntT(0), IntT(1)))), sc(st)))
			ek, ei := "ekey_"+mangle(ks), "eidx_"+mangle(ks)
			t := bv("xt", SInt)
			Fn(ek, ks, h, t, j)
			Fn(ei, SInt, h, t, x)
			Fn("eknown_"+mangle(ks), SBool, h, t)
			key := App(ek, ks, h, t, j)
			ix := App(ei, SInt, h, t, x)
			add(ek, qall([]*Term{h, t, j}, Implies(And(Le(IntT(0), j), Lt(j, sc(h))), And(App("select", SBool, h, key), Eq2(App(ei, SInt, h, t, key), j))), key))
			body := Implies(sel, And(Le(IntT(0), ix), Lt(ix, sc(h)), Eq2(App(ek, ks, h, t, ix), x)))
			add(ei, qall([]*Term{h, t, x}, body, ix))
			add(ei+"2", qall([]*Term{h, t, x}, body, sel, App("eknown_"+mangle(ks), SBool, h, t)))
		}
	}
	// agreement of type heaps
	if len(SP.TypeHeap) > 0 {
		a, b, c := bv("xa", "TH"), bv("xb", "TH"), bv("xc", "TH")
		ag := func(a, b, n *Term) *Term { return App("agree", SBool, a, b, n) }
		Fn("agree", SBool, a, b, n)
		var as, bs []*Term
		rs := thRegions()
		for ri, r := range rs {
			as = append(as, bv(fmt.Sprintf("xa%d", ri), regSort(r)))
			bs = append(bs, bv(fmt.Sprintf("xb%d", ri), regSort(r)))
		}
		ma, mb := App("mkTH", "TH", as...), App("mkTH", "TH", bs...)
		vs := append(append([]*Term{}, as...), bs...)
		vs = append(vs, n, r)
		for ri, rr := range rs {
			x, y := App("select", rr.val, as[ri], r), App("select", rr.val, bs[ri], r)
			body := Implies(Lt(rt(r), n), Eq2(x, y))
			if os.Getenv("GV_AGREE") != "" {
				add("agree-"+rr.name, qall(vs, body, ag(ma, mb, n), y))
				add("agree2-"+rr.name, qall(vs, body, ag(ma, mb, n), x))
			}
			// lemmas speak about arbitrary memories; in functions the region
			// frames say the same
			ta, tb := App(fmt.Sprintf("th%d", ri), regSort(rr), a), App(fmt.Sprintf("th%d", ri), regSort(rr), b)
			xa, xb := App("select", rr.val, ta, r), App("select", rr.val, tb, r)
			bd := Eq2(xa, xb)
			var cl []*Term
			for _, l := range leafRoots(xa, nil) {
				cl = append(cl, Lt(l, n))
			}
			if rr.val == SSlice {
				p, l := App("sptr", SRef, xa), App("slen", SInt, xa)
				cl = append(cl, Le(IntT(0), l), Le(l, App("scap", SInt, xa)), Implies(Eq2(p, Null), Eq2(l, IntT(0))))
			}
			bd = And(append(cl, bd)...)
			l1 := add("agreeL-"+rr.name, qall([]*Term{a, b, n, r}, Implies(Lt(rt(r), n), bd), ag(a, b, n), xa))
			l2 := add("agreeL2-"+rr.name, qall([]*Term{a, b, n, r}, Implies(Lt(rt(r), n), bd), ag(a, b, n), xb))
			l1.lemOnly, l2.lemOnly = true, true
		}
		// a two-step chain
		add("agree-trans", qall([]*Term{a, b, c, n, m}, And(Implies(Le(n, m), ag(a, c, n)), Implies(Le(m, n), ag(a, c, m))), ag(a, b, n), ag(b, c, m)))
	}
	if a, b, c := bv("xsa", SStr), bv("xsb", SStr), bv("xsc", SStr); true {
		lt := func(a, b *Term) *Term { return Fn("strless", SBool, a, b) }
		add("strless", qall([]*Term{a, b}, And(Implies(lt(a, b), Not(lt(b, a))), Or(Eq2(a, b), lt(a, b), lt(b, a)), Implies(Eq2(a, b), Not(lt(a, b)))), lt(a, b)))
		add("strless-trans", qall([]*Term{a, b, c}, Implies(And(lt(a, b), lt(b, c)), lt(a, c)), lt(a, b), lt(b, c)))
	}
	if ss := SArr(SStr, SBool); true {
		h, b := bv("xfh", ss), bv("xfb", SStr)
		f := Fn("freeidx", SInt, h, b)
		nm := func(i *Term) *Term { return App("str.++", SStr, b, App("itoa", SStr, i)) }
		Fn("itoa", SStr, i)
		add("freeidx", qall([]*Term{h, b}, And(Le(IntT(1), f), Not(App("select", SBool, h, nm(f)))), f))
		add("freeidx-min", qall([]*Term{h, b, i}, Implies(And(Le(IntT(1), i), Lt(i, f)), App("select", SBool, h, nm(i))), f, App("itoa", SStr, i)))
	}
	Fn("itoainv", SInt, bv("xs", SStr))
	Fn("itoa", SStr, i)
	add("itoa", qall([]*Term{i}, And(Eq2(App("itoainv", SInt, App("itoa", SStr, i)), i), Lt(IntT(0), App("str.len", SInt, App("itoa", SStr, i)))), App("itoa", SStr, i)))
}

// leafRoots: the allocation stamps of the references inside a struct value.
func leafRoots(v *Term, t types.Type) []*Term {
	switch v.Sort {
	case SRef:
		return []*Term{App("rt", SInt, v)}
	case SSlice:
		return []*Term{App("rt", SInt, App("sptr", SRef, v))}
	case SIface:
		return []*Term{App("irt", SInt, v)}
	}
	if t != nil && isStruct(t) && !structOf(t).opaque {
		var out []*Term
		s := structOf(t)
		for _, f := range s.fields {
			out = append(out, leafRoots(App(s.name+"."+f.name, sortOf(f.typ), v), f.typ)...)
		}
		return out
	}
	return nil
}

func sortedDecl() []string {
	var ks []string
	for k := range declared {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// forceTypes declares the functions that belong to types of the program.
func forceTypes() {
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if _, ok := v.Type().Underlying().(*types.Map); ok {
					h, _ := mapRegions(v.Type())
					SetCard(Const("dummyset$"+mangle(h.val), h.val))
				}
			}
		}
	}
	for _, n := range P.pkg.Scope().Names() {
		if tn, ok := P.pkg.Scope().Lookup(n).(*types.TypeName); ok && isStruct(tn.Type()) {
			structOf(tn.Type())
		}
	}
	for _, s := range structs {
		for i, f := range s.fields {
			if f.sub {
				subRef(s, i, Null)
			}
		}
	}
}

// Eq2 is equality without simplification.
func Eq2(a, b *Term) *Term { return App("=", SBool, a, b) }

var specAx []*axiomInfo

// what the queries of this run drew on
var axiomUsed, lemmaUsed = map[*Axiom]bool{}, map[*Axiom]bool{}

func buildSpecAxioms() {
	e := &Env{vars: map[string]SV{}, cur: func(r *region) *Term { sfail("heap access in an axiom: use at(h, ...)"); return nil }}
	for _, a := range SP.Axioms {
		t := func() *Term {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(specErr); ok {
						panic(specErr{fmt.Sprintf("axiom %s: %s", a.Name, se.msg)})
					}
					panic(r)
				}
			}()
			return e.bool(a.E)
		}()
		for _, c := range conj(t) {
			ai := addAx(a.Name, c)
			ai.lem = a.Lemma
			ai.ax = a
			specAx = append(specAx, ai)
		}
	}
}

func conj(t *Term) []*Term {
	if t.K == KApp && t.Op == "and" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conj(a)...)
		}
		return out
	}
	return []*Term{t}
}

// ---- emission ----
type query struct {
	text string
	ax   []*axiomInfo
}

func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		collect(a, seen, f)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			collect(x, seen, f)
		}
	}
}

func makeQuery(hyps []*Term, goal *Term, skip func(*axiomInfo) bool) *query {
	ts := append([]*Term{}, hyps...)
	ts = append(ts, Not(goal))
	seen := map[*Term]bool{}
	syms := map[string]bool{}
	visit := func(t *Term) {
		if t.K == KApp && userSym(t.Op) {
			syms[t.Op] = true
		}
	}
	for _, t := range ts {
		collect(t, seen, visit)
	}
	// memory that existed at an epoch refers only to memory of that epoch
	for _, c := range closureConsts(seen) {
		f := closureFact(c)
		ts = append([]*Term{f}, ts...)
		collect(f, seen, visit)
	}
	q := &query{}
	used := map[*axiomInfo]bool{}
	all := append(append([]*axiomInfo{}, preludeAx...), specAx...)
	for changed := true; changed; {
		changed = false
		for _, a := range all {
			if used[a] || skip != nil && skip(a) || a.lemOnly && !inLemma {
				continue
			}
			ok := len(a.pats) == 0
			if ok {
				// ground or pattern-less: needs all its symbols
				m := map[string]bool{}
				symsOf(a.t, m)
				for s := range m {
					if !syms[s] && a.t.K != KForall {
						ok = false
					}
				}
			}
			for _, ps := range a.pats {
				all := true
				for _, s := range ps {
					if !syms[s] {
						all = false
					}
				}
				if all {
					ok = true
				}
			}
			if ok {
				used[a] = true
				q.ax = append(q.ax, a)
				if a.ax != nil {
					axiomUsed[a.ax] = true
					if a.ax.Lemma {
						lemmaUsed[a.ax] = true
					}
				}
				collect(a.t, seen, visit)
				changed = true
			}
		}
	}
	var axs []*Term
	for _, a := range all {
		if used[a] {
			axs = append(axs, a.t)
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n")
	sb.WriteString(q.decls(seen))
	for _, a := range axs {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, nil)
		sb.WriteString(")\n")
	}
	named := map[*Term]string{}
	nameShared(ts, named, &sb)
	for _, t := range ts {
		sb.WriteString("(assert ")
		writeTerm(&sb, t, named)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	q.text = sb.String()
	return q
}

func closureConsts(seen map[*Term]bool) []*Term {
	var out []*Term
	for t := range seen {
		if t.K != KApp || len(t.Args) != 0 {
			continue
		}
		if _, ok := birth[t.Op]; !ok {
			continue
		}
		switch t.Sort {
		case SArr(SRef, SRef), SArr(SRef, SSlice), SArr(SRef, SIface):
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Op < out[j].Op })
	return out
}

// closureFact: everything stored anywhere is visible (sealed), so what memory held
// when the region constant was introduced lies below the epoch of that moment.  This
// includes the contents of private objects; cells not allocated yet hold nothing
// anybody reads before they are written.
func closureFact(h *Term) *Term {
	q := bv("xcl", SRef)
	_, v := arrParts(h.Sort)
	n := Const(fmt.Sprintf("n!%d", birth[h.Op]), SInt)
	sel := App("select", v, h, q)
	var b *Term
	switch v {
	case SRef:
		b = Lt(App("rt", SInt, sel), n)
	case SIface:
		b = Lt(Fn("irt", SInt, sel), n)
	default:
		p, l := App("sptr", SRef, sel), App("slen", SInt, sel)
		b = And(Lt(App("rt", SInt, p), n), Le(IntT(0), l), Le(l, App("scap", SInt, sel)), Implies(Eq2(p, Null), Eq2(l, IntT(0))))
	}
	return qall([]*Term{q}, b, sel)
}

// nameShared defines macros for ground subterms used several times.
func nameShared(ts []*Term, named map[*Term]string, sb *strings.Builder) {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	n := 0
	for _, t := range order {
		if cnt[t] > 1 && !t.free && t.K == KApp && len(t.Args) > 0 && !(t.Op == "not") {
			name := fmt.Sprintf("$%d", n)
			n++
			sb.WriteString("(define-fun " + name + " () " + t.Sort + " ")
			writeTermBody(sb, t, named)
			sb.WriteString(")\n")
			named[t] = name
		}
	}
}

func (q *query) decls(seen map[*Term]bool) string {
	var sb strings.Builder
	sb.WriteString(sortDecls())
	var fs []string
	m := map[string]*Term{}
	for t := range seen {
		if t.K == KApp && userSym(t.Op) {
			if _, ok := m[t.Op]; !ok {
				m[t.Op] = t
				fs = append(fs, t.Op)
			}
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		t := m[f]
		sb.WriteString("(declare-fun " + f + " (")
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.Sort)
		}
		sb.WriteString(") " + t.Sort + ")\n")
	}
	return sb.String()
}

var sortDeclMemo string
var sortDeclKey int

func sortDecls() string {
	key := len(structs)*1000003 + len(opaqueSorts)*1009 + len(ctors)
	if sortDeclMemo != "" && key == sortDeclKey {
		return sortDeclMemo
	}
	sortDeclKey = key
	var sb strings.Builder
	var ss []string
	for s := range opaqueSorts {
		ss = append(ss, s)
	}
	ss = append(ss, STrace, "Nil")
	ss = append(ss, SP.Sorts...)
	sort.Strings(ss)
	for _, s := range ss {
		sb.WriteString("(declare-sort " + s + " 0)\n")
	}
	var dts []Sort
	for s := range sortCtors {
		if s != "TH" {
			dts = append(dts, s)
		}
	}
	sort.Strings(dts)
	sb.WriteString("(declare-datatypes (")
	for _, d := range dts {
		sb.WriteString("(" + d + " 0)")
	}
	sb.WriteString(") (\n")
	one := func(d Sort) {
		sb.WriteString(" (")
		for _, c := range sortCtors[d] {
			sb.WriteString("(" + c.name)
			for i := range c.sels {
				sb.WriteString(" (" + c.sels[i] + " " + c.srts[i] + ")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")\n")
	}
	for _, d := range dts {
		one(d)
	}
	sb.WriteString("))\n")
	if len(SP.TypeHeap) > 0 {
		sb.WriteString("(declare-datatypes ((TH 0)) (\n")
		one("TH")
		sb.WriteString("))\n")
	}
	sortDeclMemo = sb.String()
	return sortDeclMemo
}

// ---- running solvers ----
type answer struct {
	res    string // unsat sat unknown timeout error
	solver string
	ms     int64
	out    string
}

var ansMu sync.Mutex
var ansCache = map[[32]byte]answer{}
var solverMS = map[string]int64{}
var solverN = map[string]int{}

func runSolver(pc context.Context, bin string, args []string, text string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(pc, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	o := strings.TrimSpace(out.String())
	if strings.Contains(o, "(error") {
		return "error", o
	}
	switch {
	case strings.HasPrefix(o, "unsat"):
		return "unsat", o
	case strings.HasPrefix(o, "sat"):
		return "sat", o
	case strings.HasPrefix(o, "unknown"):
		return "unknown", o
	case strings.HasPrefix(o, "timeout"):
		return "timeout", o
	case ctx.Err() != nil || o == "":
		return "timeout", o
	}
	return "error", o
}

type solverCfg struct {
	name string
	bin  string
	args func(ms int) []string
}

var solvers = []solverCfg{
	{"z3-new", "z3-new", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms)} }},
	{"z3", "z3", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms)} }},
	// without extensionality of arrays: weaker, so unsat still counts, and often faster
	{"z3-new", "z3-new", func(ms int) []string { return []string{"-in", "smt.array.extensional=false", fmt.Sprintf("-t:%d", ms)} }},
	{"z3", "z3", func(ms int) []string { return []string{"-in", "smt.array.extensional=false", "smt.arith.solver=2", fmt.Sprintf("-t:%d", ms)} }},
}

// prove tries the solvers in turn, first briefly, then for ms milliseconds.
// Only the answer unsat counts as a proof.
func prove(q *query, ms int, full bool) answer {
	h := sha256.Sum256([]byte(q.text))
	ansMu.Lock()
	a, ok := ansCache[h]
	ansMu.Unlock()
	if ok && (a.res == "unsat" || a.res == "sat" || !full || a.solver == "all") {
		return a
	}
	quick := min(ms, 500)
	type stage struct {
		s  int
		ms int
	}
	gaveUp := map[int]bool{} // answered without running out of time
	// one runs one stage; it reports whether the query is settled
	one := func(ctx context.Context, sg stage) (answer, bool) {
		s := solvers[sg.s]
		t0 := time.Now()
		res, out := runSolver(ctx, s.bin, s.args(sg.ms), q.text, time.Duration(sg.ms)*time.Millisecond)
		d := time.Since(t0).Milliseconds()
		ansMu.Lock()
		defer ansMu.Unlock()
		solverMS[s.name] += d
		solverN[s.name]++
		if ctx.Err() != nil {
			return answer{res: "timeout", solver: s.name, ms: d}, false
		}
		if res == "error" {
			if os.Getenv("GV_DEBUG") != "" {
				os.WriteFile("/tmp/gv_error.smt2", []byte(q.text), 0644)
				fmt.Fprintln(os.Stderr, "solver error:", s.name, out[:min(len(out), 500)])
			}
			if sg.s == 0 {
				solverErrors++
			}
			gaveUp[sg.s] = true
			return answer{res: res, solver: s.name, ms: d, out: out}, false
		}
		if res == "sat" && sg.s >= 2 {
			res = "unknown"
		}
		if res == "unknown" && d < int64(sg.ms)*9/10 {
			gaveUp[sg.s] = true
		}
		return answer{res: res, solver: s.name, ms: d, out: out}, res == "unsat" || res == "sat" && !full
	}
	take := func(b answer) {
		if b.res != "error" || a.res == "" {
			a = b
		}
	}
	settled := false
	bg := context.Background()
	for _, s := range []int{3, 1} {
		procs <- struct{}{}
		b, ok := one(bg, stage{s, quick})
		<-procs
		take(b)
		if ok {
			settled = true
			break
		}
	}
	if !settled && ms > quick {
		var todo []stage
		for _, s := range []int{3, 1, 0, 2} {
			if !gaveUp[s] && (full || s == 3 || s == 1) {
				todo = append(todo, stage{s, ms})
			}
		}
		// side by side as far as there are processors to spare
		for len(todo) > 0 && !settled {
			ctx, cancel := context.WithCancel(bg)
			procs <- struct{}{}
			n := 1
			for n < len(todo) {
				select {
				case procs <- struct{}{}:
					n++
					continue
				default:
				}
				break
			}
			type back struct {
				b  answer
				ok bool
			}
			ch := make(chan back, n)
			for _, sg := range todo[:n] {
				go func(sg stage) {
					b, ok := one(ctx, sg)
					<-procs
					ch <- back{b, ok}
				}(sg)
			}
			todo = todo[n:]
			for i := 0; i < n; i++ {
				r := <-ch
				if settled {
					continue
				}
				take(r.b)
				if r.ok {
					settled = true
					cancel()
				}
			}
			cancel()
			if !full {
				break
			}
		}
	}
	if a.res != "unsat" && full {
		a.solver = "all"
	}
	if verbose && a.ms > 400 {
		fmt.Printf("      slow: %s %s %dms of %dms\n", a.res, a.solver, a.ms, ms)
	}
	ansMu.Lock()
	ansCache[h] = a
	ansMu.Unlock()
	return a
}

var solverErrors int

var workers = 8

// procs limits the solver processes that run at a time.
var procs = make(chan struct{}, 8)

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
