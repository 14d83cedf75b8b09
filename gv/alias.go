package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// append is modelled as copying. The places where that could hide a write into
// an array somebody else sees are found here and guarded by obligations:
// elements written through the result of append(s, ...), s not made by this
// activation, and appends to a shortened view of a longer slice.

// foreign reports whether slice v may lie in an array this activation did not make.
func foreign(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		return false
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			_, own := v.X.(*ssa.Alloc)
			return !own
		}
		return foreign(v.X, seen)
	case *ssa.ChangeType:
		return foreign(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if foreign(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if isAppend(v) {
			return foreign(v.Call.Args[0], seen)
		}
	}
	return true
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// appendsIn lists the appends to foreign slices whose result v may be (part of).
func appendsIn(v ssa.Value, seen map[ssa.Value]bool, out *[]*ssa.Call) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
			appendsIn(v.X, seen, out)
		}
	case *ssa.ChangeType:
		appendsIn(v.X, seen, out)
	case *ssa.Phi:
		for _, e := range v.Edges {
			appendsIn(e, seen, out)
		}
	case *ssa.Call:
		if isAppend(v) {
			if foreign(v.Call.Args[0], map[ssa.Value]bool{}) {
				*out = append(*out, v)
			}
			appendsIn(v.Call.Args[0], seen, out)
		}
	}
}

// shortened reports whether v may be a view with hidden elements behind it.
func shortened(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Slice); !ok {
			return false
		}
		if v.High != nil && v.Max == nil {
			if c, ok := v.High.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && c.Call.Args[0] == v.X {
					return shortened(v.X, seen)
				}
			}
			return true
		}
		return v.Max == nil && shortened(v.X, seen)
	case *ssa.ChangeType:
		return shortened(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if shortened(e, seen) {
				return true
			}
		}
	case *ssa.Call:
		return isAppend(v) && shortened(v.Call.Args[0], seen)
	}
	return false
}

// guardWrite demands that writing element idx (nil: any) of slice v reaches no
// array that somebody else may see.
func (x *Exec) guardWrite(st *State, v ssa.Value, idx *Term, pos token.Pos) {
	var aps []*ssa.Call
	appendsIn(v, map[ssa.Value]bool{}, &aps)
	for _, ap := range aps {
		if x.act(st, ap) == nil {
			if !inCycle(ap.Block()) {
				continue // not executed on this path
			}
			x.oblige(st, "alias", "write through the result of append may reach the array appended to", pos, False)
			continue
		}
		goal := False
		if o := x.act(st, ap.Call.Args[0]); o != nil {
			goal = Or(Eq(Sel("scap", o), Sel("slen", o)), Eq(Sel("sptr", o), Null))
			if idx != nil && v == ssa.Value(ap) {
				goal = Or(goal, Le(Sel("slen", o), idx))
			}
		}
		x.oblige(st, "alias", "write through the result of append may reach the array appended to", pos, goal)
	}
}

// act is the value of v in this activation, if it has one.
func (x *Exec) act(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.term(st, v)
	}
	if val, ok := st.act.locals[v]; ok {
		return val.t
	}
	return nil
}

// guardAppend demands that appending to a shortened view overwrites nothing.
func (x *Exec) guardAppend(st *State, c *ssa.CallCommon, a *Term, pos token.Pos) {
	if !shortened(c.Args[0], map[ssa.Value]bool{}) {
		return
	}
	if k, ok := c.Args[0].(*ssa.Const); ok && (k.Value == nil || k.Value.Kind() == constant.Unknown) {
		return
	}
	x.oblige(st, "alias", "append to a shortened slice may overwrite the elements behind it", pos, Or(Eq(Sel("scap", a), Sel("slen", a)), Eq(Sel("sptr", a), Null)))
}

// writeBase is the slice whose element address a points into, and the element.
func writeBase(a ssa.Value) (ssa.Value, *ssa.IndexAddr) {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
				return v.X, v
			}
			a = v.X
		default:
			return nil, nil
		}
	}
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(c *ssa.BasicBlock) bool
	walk = func(c *ssa.BasicBlock) bool {
		for _, n := range c.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if walk(n) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}
