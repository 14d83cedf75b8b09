package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Package variables that the specifications speak about ("global" clauses) are
// assumed by every function.  That is discharged here: the package initializer is
// executed and must establish the clauses, and no other code may store to those
// variables, take their address, or change or leak a map held by them.

func globalNames(e *Expr, out map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "id" {
		if o, ok := P.pkg.Scope().Lookup(e.S).(*types.Var); ok && o != nil {
			out[e.S] = true
		}
	}
	for _, a := range e.A {
		globalNames(a, out)
	}
}

func activeGlobals(prop string) []*Clause {
	var out []*Clause
	for _, g := range SP.Globals {
		if clauseOn(g, prop) {
			out = append(out, g)
		}
	}
	return out
}

// checkGlobals returns the result of executing the initializer and the list of
// places that might change one of the variables later.
func checkGlobals(prop string) (*FnResult, []failure) {
	gs := activeGlobals(prop)
	if len(gs) == 0 {
		return nil, nil
	}
	names := map[string]bool{}
	for _, g := range gs {
		globalNames(g.E, names)
	}
	var fails []failure
	for _, f := range P.funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != P.spkg || !names[g.Name()] {
						continue
					}
					ld, ok := in.(*ssa.UnOp)
					if !ok {
						fails = append(fails, failure{key: "global " + g.Name(), what: fmt.Sprintf("%s stores to or takes the address of package variable %s", fnName(f), g.Name())})
						continue
					}
					if _, isMap := ld.Type().Underlying().(*types.Map); !isMap {
						continue
					}
					for _, r := range *ld.Referrers() {
						switch u := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							continue
						case *ssa.Call:
							if bi, ok := u.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								continue
							}
						}
						fails = append(fails, failure{key: "global " + g.Name(), what: fmt.Sprintf("%s may change or leak the map held by %s", fnName(f), g.Name())})
					}
				}
			}
		}
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].what < fails[j].what })
	init := P.spkg.Func("init")
	if init == nil {
		return nil, append(fails, failure{key: "init", what: "no package initializer"})
	}
	no := map[string]bool{}
	for k := range SP.Contracts {
		if SP.Contracts[k].Kind != "ext" {
			no[k] = true
		}
	}
	c := &Contract{Key: "init", Kind: "func", Ensures: gs, Modifies: []*Clause{{E: &Expr{Op: "id", S: "anything"}}}, MayPanic: false}
	return verifyFn(init, c, prop, no), fails
}
