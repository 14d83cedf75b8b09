package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// finding is one line of the known-findings file.
type finding struct {
	prop, obligation, text string
}

func loadFindings() []finding {
	var out []finding
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C01 obligation=<key> <text>
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) == 3 {
			out = append(out, finding{strings.TrimPrefix(fs[0], "property="), strings.TrimPrefix(fs[1], "obligation="), fs[2]})
		}
	}
	return out
}

// classes of trusted statements, written out in the evidence
var engineAssumptions = []string{
	"integers are mathematical (no overflow): every arithmetic operation in the code under contract is on lengths, indexes and counters",
	"append always copies to fresh memory: a slice's spare capacity is not shared between two live slices",
	"maps are finite; map iteration order is arbitrary but visits every key present at the start once",
	"no goroutines: the package starts none, and callers do not call it concurrently on shared values",
	"Imports values are used through pointers and not copied (two import sets do not share their maps)",
	"go/ssa (golang.org/x/tools) represents the compiled code; go/types, the Go standard library and the solvers z3 4.8.12 and z3 5.3.2 are trusted",
	"the condition generator /verif/gv is trusted",
}

type replayResult struct {
	ran    bool
	failed bool
	text   string
	stats  map[string]interface{}
	err    string
}

// runReplay runs the test TestReplay<prop> on the real code.
func runReplay(prop, tier string, budget time.Duration) replayResult {
	var r replayResult
	src, _ := filepath.Glob(filepath.Join(verifDir, "replay", "*.go"))
	sort.Strings(src)
	if len(src) == 0 {
		return r
	}
	has := false
	dir, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		r.err = err.Error()
		return r
	}
	defer os.RemoveAll(dir)
	ov := map[string]map[string]string{"Replace": {}}
	for _, s := range src {
		b, _ := os.ReadFile(s)
		if strings.Contains(string(b), "func TestReplay"+prop+"(") {
			has = true
		}
		ov["Replace"][filepath.Join(repoDir, "zz_verif_"+strings.TrimSuffix(filepath.Base(s), ".go")+"_test.go")] = s
	}
	if !has {
		return r
	}
	// the repository's own tests are not part of the replay
	tests, _ := filepath.Glob(filepath.Join(repoDir, "*_test.go"))
	for _, t := range tests {
		ov["Replace"][t] = ""
	}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0644)
	out := filepath.Join(dir, "out.txt")
	cmd := exec.Command("go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-run", "^TestReplay"+prop+"$",
		"-timeout", fmt.Sprintf("%ds", int(budget.Seconds())), ".")
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
		"VERIF_REPLAY_OUT="+out, "VERIF_TIER="+tier, "TMPDIR="+dir)
	done := make(chan []byte, 1)
	go func() { o, _ := cmd.CombinedOutput(); done <- o }()
	var o []byte
	select {
	case o = <-done:
	case <-time.After(budget + 60*time.Second):
		cmd.Process.Kill()
		r.err = "replay timed out"
		return r
	}
	r.ran = true
	if t, err := os.ReadFile(out); err == nil && len(t) > 0 {
		r.failed = true
		r.text = string(t)
	} else if !strings.Contains(string(o), "ok  \t") {
		r.err = string(o)
		if len(r.err) > 4000 {
			r.err = r.err[:4000]
		}
		// a crash of the code under test inside the replay
		// or a call that never returned (the replays stop themselves long before)
		if strings.Contains(r.err, "panic: ") || strings.Contains(r.err, "stack overflow") {
			r.failed = true
			r.text = "the replay crashed or did not end:\n" + r.err
		}
	}
	if sb, err := os.ReadFile(out + ".stats"); err == nil {
		json.Unmarshal(sb, &r.stats)
	}
	return r
}

func replayBudget(tier string) time.Duration {
	if tier == "thorough" {
		return 400 * time.Second
	}
	return 150 * time.Second
}

func implsOf(key string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.funcs {
		c := contractFor(f)
		if c != nil && c.Kind == "impl" {
			i := strings.LastIndex(key, ".")
			if ic := SP.Contracts[key]; ic != nil && key[i+1:] == f.Name() && c.File == ic.File && fmt.Sprint(c.Params) == fmt.Sprint(ic.Params) {
				out = append(out, f)
			}
		}
	}
	return out
}

func exported(key string) bool {
	for _, p := range strings.Split(key, ".") {
		p = strings.TrimSuffix(p, "$")
		if p == "" || !token.IsExported(p) {
			return false
		}
	}
	return true
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

type failure struct {
	key, what, detail, smt string
}

func check(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 1500 * time.Second
		goalMS = 30000
		candMS = 4000
	}
	if s := os.Getenv("GV_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline = t0.Add(budget)
	ev := &evidence{prop: prop, tier: tier, seed: seed, t0: t0}
	var fails []failure
	if err := setup(); err != nil {
		fails = append(fails, failure{key: "setup", what: err.Error()})
	} else {
		fails = proveProp(prop, ev)
	}
	known := loadFindings()
	var open []failure
	for _, f := range fails {
		k := false
		for _, kf := range known {
			if kf.prop == prop && kf.obligation == f.key {
				k = true
			}
		}
		if !k {
			open = append(open, f)
		}
	}
	rep := ev.replay
	standin := bounded[prop] != ""
	if !rep.ran && (len(open) > 0 || tier == "thorough" || standin) {
		rep = runReplay(prop, tier, replayBudget(tier))
	}
	ev.replay = rep
	if rep.failed && len(open) == 0 && ev.early != nil {
		open = append(open, *ev.early)
	}
	for _, kf := range known {
		if kf.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.text)
		}
	}
	if len(open) == 0 && !rep.failed && (rep.err == "" || !standin && tier != "thorough") {
		ev.write(0)
		fmt.Printf("%s: %d obligations of %d functions discharged, %.1fs\n", prop, ev.discharged, len(ev.fns), time.Since(t0).Seconds())
		return 0
	}
	path := filepath.Join(verifDir, "evidence", "replay-"+prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", prop)
	if rep.failed {
		fmt.Fprintf(&sb, "failing input on the real code (run: bash %s/replay.sh %s):\n%s\n\n", verifDir, prop, rep.text)
	}
	for _, f := range open {
		fmt.Fprintf(&sb, "undischarged: %s: %s\n%s\n", f.key, f.what, f.detail)
	}
	if rep.err != "" {
		fmt.Fprintf(&sb, "replay error:\n%s\n", rep.err)
	}
	for i, f := range open {
		if f.smt != "" && i < 3 {
			fmt.Fprintf(&sb, "\n---- verification condition of %s: %s\n%s\n", f.key, f.what, f.smt)
		}
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, []byte(sb.String()), 0644)
	for i, f := range open {
		if i < 8 {
			fmt.Printf("%s: not discharged: %s\n", f.key, f.what)
		}
	}
	ev.write(1)
	if rep.failed {
		fmt.Printf("%s\n", rep.text[:min(len(rep.text), 1500)])
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	}
	return 1
}

// proveProp verifies every function of the property and all contracts it relies on.
func proveProp(prop string, ev *evidence) []failure {
	var fails []failure
	noCtr := map[string]bool{}
	var roots []*ssa.Function
	rootKeys := map[string]bool{}
	addRoot := func(f *ssa.Function) {
		if !rootKeys[fnName(f)] {
			rootKeys[fnName(f)] = true
			roots = append(roots, f)
		}
	}
	for _, key := range SP.Order {
		c := SP.Contracts[key]
		if c.Kind == "iface" && hasProp(c.Props, prop) {
			fs := implsOf(key)
			if len(fs) == 0 {
				fails = append(fails, failure{key: key, what: "no implementation found in the code"})
			}
			for _, f := range fs {
				addRoot(f)
			}
		}
		if c.Kind == "func" {
			f := P.byName[key]
			if f == nil {
				// gone: its callers are checked with what replaced it
				noCtr[key] = true
				if hasProp(c.Props, prop) && exported(key) {
					fails = append(fails, failure{key: key, what: "function under contract not found in the code"})
				}
				continue
			}
			if len(c.Params) != len(f.Params) && !exported(key) {
				noCtr[key] = true
				continue
			}
			if hasProp(c.Props, prop) {
				addRoot(f)
			}
		}
	}
	if len(roots) == 0 && len(fails) == 0 {
		return []failure{{key: prop, what: "no function under contract"}}
	}
	results := map[string]*FnResult{}
	verified := func(f *ssa.Function) *FnResult {
		k := fnName(f)
		if r := results[k]; r != nil {
			return r
		}
		c := contractFor(f)
		t := time.Now()
		r := verifyFn(f, c, prop, noCtr)
		if verbose {
			report(r, time.Since(t))
		}
		results[k] = r
		return r
	}
	for {
		// closure over used contracts
		todo := append([]*ssa.Function{}, roots...)
		seen := map[string]bool{}
		var order []*FnResult
		restart := false
		for len(todo) > 0 && !restart {
			f := todo[0]
			todo = todo[1:]
			k := fnName(f)
			if seen[k] {
				continue
			}
			seen[k] = true
			c := contractFor(f)
			if c == nil || c.Trusted || c.Inline || c.Effects || noCtr[k] {
				continue
			}
			r := verified(f)
			order = append(order, r)
			if !r.ok() && !ev.tried {
				// an input on which the real code fails settles it at once
				ev.tried = true
				ev.replay = runReplay(prop, ev.tier, replayBudget(ev.tier))
				if ev.replay.failed {
					ev.fns = order
					for _, o := range r.failed() {
						ev.early = &failure{key: k + "/" + o.Kind, what: fmt.Sprintf("%s %s at %s (%s)", o.Kind, o.Label, o.Pos, o.Result), smt: o.Text}
						break
					}
					if ev.early == nil {
						ev.early = &failure{key: k, what: r.Unsupported}
					}
					return nil
				}
			}
			// (a recursive one cannot be replaced by its body)
			if !r.ok() && c.Kind == "func" && !exported(k) && !reaches(f, f) && !expired() {
				// an internal function no longer meets its contract: that by itself breaks
				// nothing; its callers are checked against its body instead
				noCtr[k] = true
				for rk, rr := range results {
					if rr.UsedCtr[k] {
						delete(results, rk)
					}
				}
				delete(results, k)
				delete(rootKeys, k)
				var rs []*ssa.Function
				for _, x := range roots {
					if x != f {
						rs = append(rs, x)
					}
				}
				roots = rs
				ev.dropped = append(ev.dropped, k)
				restart = true
				break
			}
			for _, u := range sortedKeys(r.UsedCtr) {
				uc := SP.Contracts[u]
				if uc == nil {
					if g := P.byName[u]; g != nil {
						todo = append(todo, g)
					}
					continue
				}
				if uc.Kind == "iface" {
					todo = append(todo, implsOf(u)...)
				} else if g := P.byName[u]; g != nil {
					todo = append(todo, g)
				}
			}
		}
		if restart {
			continue
		}
		ev.fns = order
		break
	}
	if r, fs := checkGlobals(prop); r != nil {
		ev.fns = append(ev.fns, r)
		fails = append(fails, fs...)
	}
	for _, r := range ev.fns {
		if r.Vacuous {
			fails = append(fails, failure{key: r.Key, what: "the contract is vacuous (no reachable return)"})
		}
		if r.Unsupported != "" {
			fails = append(fails, failure{key: r.Key, what: r.Unsupported})
		}
		for _, o := range r.failed() {
			fails = append(fails, failure{key: r.Key + "/" + o.Kind, what: fmt.Sprintf("%s %s at %s (%s)", o.Kind, o.Label, o.Pos, o.Result),
				detail: "path: " + strings.Join(o.Trail, " ") + "\nsolver: " + o.Solver + " " + o.Result + " " + strings.TrimSpace(o.Detail), smt: o.Text})
		}
	}
	// the lemmas that were used
	pending := true
	tried := map[int]bool{}
	for pending {
		pending = false
		for i, a := range SP.Axioms {
			if !a.Lemma || tried[i] || !lemmaUsed[a] {
				continue
			}
			tried[i] = true
			pending = true
			ans, q := proveLemma(i)
			ev.lemmas++
			ev.obligations++
			if ans.res == "unsat" {
				ev.discharged++
				ev.count(ans.solver)
			} else {
				fails = append(fails, failure{key: "lemma " + a.Name, what: "lemma not proved: " + a.Src, smt: q.text})
			}
		}
	}
	for _, a := range SP.Axioms {
		if axiomUsed[a] && a.Trusted != "" {
			ev.trusted = append(ev.trusted, "axiom ("+a.Trusted+") "+a.Name+": "+strings.Join(strings.Fields(a.Src), " "))
		}
	}
	// the axioms must not be contradictory
	if prove(makeQuery(nil, False, nil), 3000, false).res == "unsat" {
		fails = append(fails, failure{key: "axioms", what: "the axioms are contradictory"})
	}
	return fails
}

type evidence struct {
	prop, tier  string
	seed        int
	t0          time.Time
	fns         []*FnResult
	dropped     []string
	lemmas      int
	obligations int
	discharged  int
	solver      map[string]int
	trusted     []string
	replay      replayResult
	tried       bool     // the replay ran before the end
	early       *failure // the obligation that failed when it found a failing input
}

func (e *evidence) count(s string) {
	if e.solver == nil {
		e.solver = map[string]int{}
	}
	e.solver[s]++
}

func (e *evidence) write(violations int) {
	cov := map[string]interface{}{}
	var fns []map[string]interface{}
	ext := map[string]bool{}
	inl := map[string]bool{}
	kinds := map[string]int{}
	assumed := map[string]bool{}
	for _, r := range e.fns {
		ok := 0
		for _, o := range r.Obls {
			e.obligations++
			if o.Result == "proved" {
				e.discharged++
				ok++
				e.count(o.Solver)
			}
			kinds[o.Kind]++
		}
		for k := range r.UsedExt {
			ext[k] = true
		}
		for k := range r.Inlined {
			inl[k] = true
		}
		for k := range r.UsedCtr {
			if c := SP.Contracts[k]; c != nil && (c.Trusted || c.Effects) {
				assumed[k] = true
			}
		}
		fns = append(fns, map[string]interface{}{"function": r.Key, "contract": r.Contract.File, "obligations": len(r.Obls), "discharged": ok,
			"loop_invariant_candidates": r.Cands, "loop_invariants_kept": r.Kept, "paths": r.Paths, "returns_reachable": r.Covered, "ms": r.Millis})
	}
	cov["obligations"] = e.obligations
	cov["discharged"] = e.discharged
	cov["checker_cmd"] = "bash check.sh " + e.prop
	cov["functions_under_contract"] = fns
	cov["functions_inlined"] = sortedKeys(inl)
	cov["internal_contracts_dropped"] = e.dropped
	cov["obligation_kinds"] = kinds
	cov["lemmas_proved"] = e.lemmas
	cov["discharged_by"] = e.solver
	cov["solver_ms"] = solverMS
	cov["solver_calls"] = solverN
	var tb []string
	for _, k := range sortedKeys(ext) {
		tb = append(tb, "external function contract: "+k)
	}
	for _, k := range sortedKeys(assumed) {
		tb = append(tb, "assumed contract of "+k)
	}
	tb = append(tb, e.trusted...)
	cov["trusted_base"] = tb
	if e.replay.ran {
		cov["replay_ran"] = true
		cov["replay_failed"] = e.replay.failed
		for k, v := range e.replay.stats {
			cov["bounded_"+k] = v
		}
		if bounded[e.prop] != "" {
			cov["bounded_standin"] = bounded[e.prop]
		}
	}
	out := map[string]interface{}{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "proof", "coverage": cov,
		"assumptions": append(append([]string{}, engineAssumptions...), tb...), "wall_s": time.Since(e.t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", e.prop+".json"), append(b, '\n'), 0644)
}

// bounded names what, per property, is covered by a bounded check on the real code
// and not by a proof.
var bounded = map[string]string{}
