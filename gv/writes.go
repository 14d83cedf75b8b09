package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Static write sets: the regions a function may write or allocate in,
// transitively, over all calls it can make.

type writeSet map[string]*region

func (w writeSet) add(rs ...*region) {
	for _, r := range rs {
		w[r.name] = r
	}
}

func (w writeSet) addAll(o writeSet) {
	for k, v := range o {
		w[k] = v
	}
}

var fnWrites = map[*ssa.Function]writeSet{}

// oldMode: writes to objects the writing activation itself has just made (and
// allocations) are left out, which leaves what may change in memory older than
// the call.
var oldMode bool
var fnWritesOld = map[*ssa.Function]writeSet{}

func computeWrites() {
	computeWritesMode()
	oldMode = true
	fnWrites, fnWritesOld = fnWritesOld, fnWrites
	computeWritesMode()
	fnWrites, fnWritesOld = fnWritesOld, fnWrites
	oldMode = false
}

func inOldMode(f func()) {
	oldMode = true
	fnWrites, fnWritesOld = fnWritesOld, fnWrites
	f()
	fnWrites, fnWritesOld = fnWritesOld, fnWrites
	oldMode = false
}

func oldWritesOf(f *ssa.Function) (w writeSet) {
	inOldMode(func() { w = writesOf(f) })
	return
}

// ownObject: the address lies in an object made by this activation.
func ownObject(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return ownObject(a.X)
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			return ownObject(a.X)
		}
		_, ok := a.X.(*ssa.MakeSlice)
		return ok
	case *ssa.MakeMap:
		return true
	}
	return false
}

// computeWritesMode is a fixpoint over the call graph.
func computeWritesMode() {
	for _, f := range P.funcs {
		fnWrites[f] = writeSet{}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range P.funcs {
			w := fnWrites[f]
			n := len(w)
			for _, b := range f.Blocks {
				instrWrites(b.Instrs, w)
			}
			for _, a := range f.AnonFuncs {
				w.addAll(fnWrites[a])
			}
			if len(w) != n {
				changed = true
			}
		}
	}
}

func blocksWrites(bs map[*ssa.BasicBlock]bool) writeSet {
	w := writeSet{}
	for b := range bs {
		instrWrites(b.Instrs, w)
	}
	return w
}

func addrRegions(a ssa.Value) []*region {
	if fa, ok := a.(*ssa.FieldAddr); ok {
		s := structOf(deref(fa.X.Type()))
		if s.opaque {
			return []*region{ghostOf(s)}
		}
		if !s.fields[fa.Field].sub {
			return []*region{fieldRegion(s, fa.Field)}
		}
	}
	return leafRegions(deref(a.Type()))
}

func instrWrites(ins []ssa.Instruction, w writeSet) {
	for _, in := range ins {
		switch in := in.(type) {
		case *ssa.Store:
			if cellLoc(in.Addr) != nil {
				continue
			}
			if oldMode && ownObject(in.Addr) {
				continue
			}
			w.add(addrRegions(in.Addr)...)
		case *ssa.Alloc:
			if isCell(in) || oldMode {
				continue
			}
			et := deref(in.Type())
			if at, ok := et.Underlying().(*types.Array); ok {
				w.add(leafRegions(at.Elem())...)
			} else {
				w.add(leafRegions(et)...)
			}
		case *ssa.MakeSlice:
			if oldMode {
				continue
			}
			w.add(leafRegions(in.Type().Underlying().(*types.Slice).Elem())...)
		case *ssa.MakeMap:
			if oldMode {
				continue
			}
			h, v := mapRegions(in.Type())
			w.add(h, v)
		case *ssa.MapUpdate:
			if oldMode && ownObject(in.Map) {
				continue
			}
			h, v := mapRegions(in.Map.Type())
			w.add(h, v)
		case *ssa.Convert:
			if !oldMode && sortOf(in.X.Type()) == SStr && sortOf(in.Type()) == SSlice {
				w.add(regGhost("$bytes", SStr))
			}
		case ssa.CallInstruction:
			callWrites(in.Common(), w)
		}
	}
}

func callWrites(c *ssa.CallCommon, w writeSet) {
	if c.IsInvoke() {
		it := c.Value.Type().Underlying().(*types.Interface)
		key := ifaceKey(c.Value.Type()) + "." + c.Method.Name()
		for _, b := range boxes {
			if types.Implements(b.typ, it) {
				if m := P.prog.LookupMethod(b.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
					if m.Pkg == P.spkg {
						w.addAll(writesOf(m))
					}
				}
			}
		}
		w.addAll(extWrites(key, c))
		return
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if oldMode {
				return // append copies (see alias.go)
			}
			w.add(leafRegions(c.Args[0].Type().Underlying().(*types.Slice).Elem())...)
			if isBytes(c.Args[0].Type()) {
				w.add(regGhost("$bytes", SStr))
			}
		case "copy":
			w.add(leafRegions(c.Args[0].Type().Underlying().(*types.Slice).Elem())...)
		case "delete":
			h, v := mapRegions(c.Args[0].Type())
			w.add(h, v)
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		if f.Pkg == P.spkg || f.Parent() != nil {
			w.addAll(writesOf(f))
			return
		}
		w.addAll(extWrites(extKey(f), c))
		// callbacks handed to external functions
		for _, a := range c.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				w.addAll(writesOf(mc.Fn.(*ssa.Function)))
			}
			if mi, ok := a.(*ssa.MakeInterface); ok {
				for _, r := range stringerWrites(mi.X.Type()) {
					w.add(r)
				}
			}
		}
		return
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		w.addAll(writesOf(mc.Fn.(*ssa.Function)))
		return
	}
	// unknown function value: declared by its dyn contract
	w.addAll(extWrites(dynKey(c.Value.Type()), c))
}

func writesOf(f *ssa.Function) writeSet {
	if w, ok := fnWrites[f]; ok {
		return w
	}
	// synthetic wrappers
	w := writeSet{}
	fnWrites[f] = w
	for _, b := range f.Blocks {
		instrWrites(b.Instrs, w)
	}
	return w
}

func stringerWrites(t types.Type) []*region { return nil }

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
}

func ifaceKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return rawStructKey(n)
	}
	return typeStr(t)
}

// extKey names an external function: pkg.F or pkg.T.M.
func extKey(f *ssa.Function) string {
	if f.Pkg == nil && f.Object() == nil {
		return f.String()
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

// extWrites lists what an external call may write.
func extWrites(key string, c *ssa.CallCommon) writeSet {
	w := writeSet{}
	if strings.HasPrefix(key, "bytes.Buffer.") || strings.HasPrefix(key, "strings.Builder.") {
		switch key[strings.LastIndex(key, ".")+1:] {
		case "Write", "WriteString", "WriteByte", "WriteRune", "Reset", "Truncate", "Grow":
			w.add(regGhost(strings.Join(strings.Split(key, ".")[:2], ".")+".$s", SStr))
		case "Bytes":
			w.add(regGhost("$bytes", SStr))
		}
	}
	switch key {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		w.add(regGhost("bytes.Buffer.$s", SStr))
	case "sort.Slice", "sort.SliceStable":
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			w.add(leafRegions(mi.X.Type().Underlying().(*types.Slice).Elem())...)
		}
	case "sort.Strings":
		w.add(cellRegion(types.Typ[types.String]))
	case "strings.Split", "strings.SplitN", "filepath.SplitList":
		w.add(cellRegion(types.Typ[types.String]))
	case "format.Source":
		w.add(regGhost("$bytes", SStr))
	case "template.Template.Execute":
		w.add(regGhost("bytes.Buffer.$s", SStr))
	}
	if ct := extContract(key); ct != nil {
		for _, m := range ct.Modifies {
			if m.E.Op == "id" && m.E.S == "trace" {
				w.add(regTrace())
			}
			if m.E.Op == "call" && m.E.S == "all" {
				if r := regions[exprStr(m.E.A[0])]; r != nil {
					w.add(r)
				}
			}
		}
	}
	return w
}

func extContract(key string) *Contract {
	if c, ok := SP.Contracts[key]; ok && c.Kind == "ext" {
		return c
	}
	return nil
}

// ---- call graph ----
var callees = map[*ssa.Function]map[*ssa.Function]bool{}

func computeCallGraph() {
	for _, f := range P.funcs {
		m := map[*ssa.Function]bool{}
		callees[f] = m
		for _, a := range f.AnonFuncs {
			m[a] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if c.IsInvoke() {
					it := c.Value.Type().Underlying().(*types.Interface)
					for _, bx := range boxes {
						if types.Implements(bx.typ, it) {
							if mm := P.prog.LookupMethod(bx.typ, c.Method.Pkg(), c.Method.Name()); mm != nil && mm.Pkg == P.spkg {
								m[originOf(mm)] = true
							}
						}
					}
					continue
				}
				if g := c.StaticCallee(); g != nil && (g.Pkg == P.spkg || g.Parent() != nil) {
					m[g] = true
				}
			}
		}
	}
}

// originOf maps a pointer-receiver wrapper to the method it wraps.
func originOf(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" {
		if g, ok := P.byName[fnName(f)]; ok {
			return g
		}
	}
	return f
}

func reaches(from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for g := range callees[f] {
			if rec(g) {
				return true
			}
		}
		return false
	}
	for g := range callees[from] {
		if rec(g) {
			return true
		}
	}
	return false
}
