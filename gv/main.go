package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoDir = "/repo"
var verifDir = "/verif"

func setup() error {
	var err error
	P, err = loadProgram(repoDir)
	if err != nil {
		return err
	}
	initSorts()
	INil = Ctor("I_nil")
	collectBoxes()
	SP = &Spec{Contracts: map[string]*Contract{}}
	if err := loadContracts(); err != nil {
		return err
	}
	forceTypes()
	computeWrites()
	registerTH()
	computeWrites()
	computeCallGraph()
	resetRun()
	buildPrelude()
	return func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specErr); ok {
					err = se
					return
				}
				panic(r)
			}
		}()
		buildSpecAxioms()
		return nil
	}()
}

func loadContracts() error {
	sp, err := loadSpecs(verifDir + "/contracts")
	if err != nil {
		return err
	}
	SP = sp
	return nil
}

func registerTH() {
	c := &ctorInfo{name: "mkTH", sort: "TH"}
	for i, r := range thRegions() {
		c.sels = append(c.sels, fmt.Sprintf("th%d", i))
		c.srts = append(c.srts, regSort(r))
	}
	regCtor(c)
}

// contractFor gives the contract a function is verified against.
func contractFor(fn *ssa.Function) *Contract {
	if c := SP.Contracts[fnName(fn)]; c != nil && c.Kind == "func" {
		return c
	}
	if fn.Signature.Recv() != nil {
		return ifaceImpl(fn, fn.Signature.Recv().Type())
	}
	return nil
}

func main() {
	cmd := ""
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	if f := os.Getenv("GV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	key := fs.String("key", "", "function")
	v := fs.Bool("v", false, "verbose")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework")
	noc := fs.String("noctr", "", "contracts to ignore")
	ms := fs.Int("ms", 8000, "milliseconds per goal")
	if len(os.Args) > 2 {
		fs.Parse(os.Args[2:])
	}
	verbose = *v
	curProp = *prop
	repoDir, verifDir = *repo, *verif
	goalMS = *ms
	switch cmd {
	case "types":
		if err := setup(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fmt.Print(dumpTypes())
		for _, f := range P.funcs {
			fmt.Println(fnName(f), contractFor(f) != nil)
		}
		for r := range regions {
			fmt.Println("region", r)
		}
	case "fn":
		if err := setup(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		no := map[string]bool{}
		for _, k := range strings.Split(*noc, ",") {
			no[k] = true
		}
		for _, f := range P.funcs {
			n := fnName(f)
			if *key != "" && !matchKey(*key, n) {
				continue
			}
			c := contractFor(f)
			if c == nil || c.Trusted || c.Inline || c.Effects {
				continue
			}
			t0 := time.Now()
			r := verifyFn(f, c, *prop, no)
			report(r, time.Since(t0))
		}
	case "globals":
		if err := setup(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		t0 := time.Now()
		r, fs := checkGlobals(*prop)
		for _, f := range fs {
			fmt.Println(f.what)
		}
		if r != nil {
			report(r, time.Since(t0))
		}
	case "lemmas":
		if err := setup(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for i, a := range SP.Axioms {
			if a.Lemma && (*key == "" || matchKey(*key, a.Name)) {
				ans, q := proveLemma(i)
				fmt.Println(a.Name, ans.res, ans.solver, ans.ms)
				if ans.res != "unsat" && os.Getenv("GV_DUMP") != "" {
					os.WriteFile("/tmp/gv_lemma.smt2", []byte(q.text), 0644)
				}
			}
		}
		q := makeQuery(nil, False, nil)
		fmt.Println("consistency (must not be unsat):", prove(q, 5000, false).res)
	case "replay":
		r := runReplay(*prop, os.Getenv("VERIF_TIER"), 300*time.Second)
		fmt.Println("ran", r.ran, "failed", r.failed, r.stats)
		fmt.Println(r.text, r.err)
		if r.failed {
			os.Exit(1)
		}
	case "check":
		os.Exit(check(*prop))
	default:
		fmt.Println("usage: gv types|fn|lemmas|check")
		os.Exit(2)
	}
}

func matchKey(pat, n string) bool {
	for _, p := range strings.Split(pat, ",") {
		if p == n || strings.HasSuffix(p, "*") && strings.HasPrefix(n, p[:len(p)-1]) {
			return true
		}
	}
	return false
}

func report(r *FnResult, d time.Duration) {
	status := "ok"
	if !r.ok() {
		status = "FAILED"
	}
	for _, u := range r.Unreached {
		fmt.Println("   unreached:", u)
	}
	fmt.Printf("%s: %s  obligations=%d cands=%d/%d rounds=%d paths=%d covered=%d %.1fs\n", r.Key, status, len(r.Obls), r.Kept, r.Cands, r.Rounds, r.Paths, r.Covered, d.Seconds())
	if r.Unsupported != "" {
		fmt.Println("   ", r.Unsupported)
	}
	if r.Vacuous {
		fmt.Println("    VACUOUS")
	}
	n := 0
	for _, o := range r.failed() {
		n++
		if n > 12 {
			fmt.Println("    ...")
			break
		}
		fmt.Printf("    %s %s [%s] %s (%dms)\n", o.Kind, o.Label, o.Pos, o.Result, o.Millis)
		if verbose {
			fmt.Println("       path:", strings.Join(o.Trail, " "))
			fmt.Println("       goal:", o.Goal)
		}
	}
}
