package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cells: variables of struct type that the code only reads and writes directly (no
// address is kept, passed on or captured).  Nothing else can refer to them, so their
// contents are values of the activation rather than cells of memory.

// Loc is a part of a cell.
type Loc struct {
	a    *ssa.Alloc
	path []int
}

var cellMemo = map[*ssa.Alloc]bool{}

func isCell(a *ssa.Alloc) bool {
	if v, ok := cellMemo[a]; ok {
		return v
	}
	t := deref(a.Type())
	_, st := t.Underlying().(*types.Struct)
	ok := st && !hasOpaque(t) && cellUse(a)
	cellMemo[a] = ok
	return ok
}

func hasOpaque(t types.Type) bool {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		_, arr := t.Underlying().(*types.Array)
		return arr
	}
	if structOf(t).opaque {
		return true
	}
	for i := 0; i < u.NumFields(); i++ {
		if hasOpaque(u.Field(i).Type()) {
			return true
		}
	}
	return false
}

// cellUse: the address is only loaded from, stored to, or used to select fields likewise.
func cellUse(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr != v || in.Val == v {
				return false
			}
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !cellUse(in) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// cellLoc: the part of a cell an address denotes.
func cellLoc(v ssa.Value) *Loc {
	switch v := v.(type) {
	case *ssa.Alloc:
		if isCell(v) {
			return &Loc{a: v}
		}
	case *ssa.FieldAddr:
		if l := cellLoc(v.X); l != nil {
			return &Loc{l.a, append(append([]int{}, l.path...), v.Field)}
		}
	}
	return nil
}

// get selects a part of a struct value.
func cellGet(t *Term, ty types.Type, path []int) *Term {
	for _, i := range path {
		s := structOf(ty)
		t = Sel(s.name+"."+s.fields[i].name, t)
		ty = s.fields[i].typ
	}
	return t
}

// cellPut replaces a part of a struct value.
func cellPut(t *Term, ty types.Type, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := structOf(ty)
	as := make([]*Term, len(s.fields))
	for i, f := range s.fields {
		as[i] = Sel(s.name+"."+f.name, t)
		if i == path[0] {
			as[i] = cellPut(as[i], f.typ, path[1:], v)
		}
	}
	return Ctor("mk_"+s.name, as...)
}

// cellsWritten: cells of enclosing code that the blocks store to.
func cellsWritten(bs map[*ssa.BasicBlock]bool) map[*ssa.Alloc]bool {
	m := map[*ssa.Alloc]bool{}
	for b := range bs {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if l := cellLoc(s.Addr); l != nil {
					m[l.a] = true
				}
			}
		}
	}
	return m
}
