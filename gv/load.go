package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the repository package in SSA form.
type Program struct {
	fset  *token.FileSet
	pkg   *types.Package
	spkg  *ssa.Package
	prog  *ssa.Program
	files []string
	info  *types.Info
	// every function with a body that belongs to the package (incl. closures)
	funcs  []*ssa.Function
	byName map[string]*ssa.Function
	// struct type merging: canonical representative
	merge map[string]string
}

var P *Program

func loadProgram(dir string) (*Program, error) {
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: token.NewFileSet(), byName: map[string]*ssa.Function{}, merge: map[string]string{}}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		full := filepath.Join(dir, f)
		af, err := parser.ParseFile(p.fset, full, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
		p.files = append(p.files, full)
	}
	pkg := types.NewPackage("github.com/jhump/gopoet", bp.Name)
	imp := importer.ForCompiler(p.fset, "source", nil)
	conf := &types.Config{Importer: imp, GoVersion: "go1.13"}
	spkg, info, err := ssautil.BuildPackage(conf, p.fset, pkg, files, ssa.InstantiateGenerics)
	if err != nil {
		return nil, err
	}
	p.pkg = pkg
	p.info = info
	p.spkg = spkg
	p.prog = spkg.Prog
	p.collect()
	p.mergeStructs()
	return p, nil
}

// fnName gives a stable readable name: "qualify", "Imports.qualify" (value or
// pointer receiver alike), "F$1" for closures.
func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if f.Parent() != nil {
		return fnName(f.Parent()) + "$" + f.Name()[strings.LastIndex(f.Name(), "$")+1:]
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
		return t.String() + "." + f.Name()
	}
	return f.Name()
}

func (p *Program) collect() {
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		p.byName[fnName(f)] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.spkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := p.prog.MethodValue(ms.At(i))
					if fn != nil && fn.Synthetic == "" && fn.Pkg == p.spkg {
						add(fn)
					}
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return fnName(p.funcs[i]) < fnName(p.funcs[j]) })
}

func (p *Program) find(k string) string {
	for p.merge[k] != "" {
		k = p.merge[k]
	}
	return k
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// mergeStructs unifies named struct types that are converted into each other.
func (p *Program) mergeStructs() {
	un := func(a, b types.Type) {
		x, y := p.find(rawStructKey(a)), p.find(rawStructKey(b))
		if x == y {
			return
		}
		// keep the exported name as representative
		if ast.IsExported(x) || !ast.IsExported(y) {
			p.merge[y] = x
		} else {
			p.merge[x] = y
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.ChangeType); ok {
					a, b := c.X.Type(), c.Type()
					if pa, ok := a.Underlying().(*types.Pointer); ok {
						if pb, ok := b.Underlying().(*types.Pointer); ok {
							a, b = pa.Elem(), pb.Elem()
						}
					}
					if isStruct(a) && isStruct(b) {
						un(a, b)
					}
				}
			}
		}
	}
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(pk *types.Package) string {
		if pk == P.pkg || pk.Path() == "github.com/jhump/gopoet" {
			return ""
		}
		return pk.Name()
	})
	return strings.ReplaceAll(s, "interface{}", "any")
}

func rawStructKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		pk := n.Obj().Pkg()
		if pk == nil || pk.Path() == "github.com/jhump/gopoet" {
			return n.Obj().Name()
		}
		return pk.Name() + "." + n.Obj().Name()
	}
	return "anon:" + types.TypeString(t, nil)
}

func structKey(t types.Type) string { return P.find(rawStructKey(t)) }

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	panic("deref of " + t.String())
}

func posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := P.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}
