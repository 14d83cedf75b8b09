package gopoet_test

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"testing"

	"github.com/jhump/gopoet"
)

type gPair struct {
	t types.Type
	d *D
}

var gPkgs = []*types.Package{types.NewPackage("example.com/foo", "foo"), types.NewPackage("example.com/x/weird-path", "q"), types.NewPackage("io", "io"), types.NewPackage("main", "main")}

func gPack(p *types.Package) gopoet.Package {
	if p == nil {
		return gopoet.Package{}
	}
	return gopoet.Package{Name: p.Name(), ImportPath: p.Path()}
}

func (r *replay) gPkg() *types.Package { return gPkgs[r.rng.Intn(len(gPkgs))] }

func named(p *types.Package, name string, under types.Type) gPair {
	n := types.NewNamed(types.NewTypeName(token.NoPos, p, name, nil), under, nil)
	return gPair{n, &D{k: gopoet.KindNamed, n: -1, sym: gopoet.Symbol{Name: name, Package: gPack(p)}}}
}

func (r *replay) gNamed(iface bool) gPair {
	if iface && r.rng.Intn(4) == 0 {
		return gPair{types.Universe.Lookup("error").Type(), &D{k: gopoet.KindNamed, n: -1, sym: gopoet.Symbol{Name: "error"}}}
	}
	var u types.Type = types.NewStruct(nil, nil)
	if iface {
		u = types.NewInterfaceType(nil, nil).Complete()
	} else if r.rng.Intn(2) == 0 {
		u = types.NewSlice(types.Typ[types.Int])
	}
	return named(r.gPkg(), r.pick([]string{"T", "U", "x", "Reader", "error", "int"}), u)
}

func (r *replay) genG(depth int) gPair {
	n := 10
	if depth <= 0 {
		n = 3
	}
	sub := func() gPair { return r.genG(depth - 1) }
	d := &D{n: -1}
	switch r.rng.Intn(n) {
	case 0:
		k := 1 + r.rng.Intn(18)
		if k == int(types.UnsafePointer) {
			d.k, d.sym = gopoet.KindNamed, gopoet.Symbol{Name: "Pointer", Package: gopoet.Package{Name: "unsafe", ImportPath: "unsafe"}}
		} else {
			d.k, d.bk = gopoet.KindBasic, basicKinds[k-1]
		}
		t := types.Typ[k]
		if k == int(types.Uint8) && r.rng.Intn(2) == 0 {
			return gPair{types.Universe.Lookup("byte").Type(), d}
		}
		return gPair{t, d}
	case 1:
		return r.gNamed(false)
	case 2:
		return r.gNamed(true)
	case 3:
		e := sub()
		d.k, d.elem = gopoet.KindPtr, e.d
		return gPair{types.NewPointer(e.t), d}
	case 4:
		e := sub()
		d.k, d.elem = gopoet.KindSlice, e.d
		return gPair{types.NewSlice(e.t), d}
	case 5:
		e := sub()
		d.k, d.elem, d.n = gopoet.KindArray, e.d, []int64{0, 1, 7, 1 << 40}[r.rng.Intn(4)]
		return gPair{types.NewArray(e.t, d.n), d}
	case 6:
		k, e := sub(), sub()
		d.k, d.key, d.elem = gopoet.KindMap, k.d, e.d
		return gPair{types.NewMap(k.t, e.t), d}
	case 7:
		e := sub()
		d.k, d.elem = gopoet.KindChan, e.d
		g := []types.ChanDir{types.RecvOnly, types.SendOnly, types.SendRecv}
		i := r.rng.Intn(3)
		d.dir = reflect.ChanDir(1 + i)
		return gPair{types.NewChan(g[i], e.t), d}
	case 8:
		s, ds := r.genGSig(depth, true)
		d.k, d.sig = gopoet.KindFunc, ds
		return gPair{s, d}
	}
	if r.rng.Intn(2) == 0 {
		d.k = gopoet.KindStruct
		var fs []*types.Var
		var tags []string
		nt := r.rng.Intn(5)
		for i, n := 0, r.rng.Intn(4); i < n; i++ {
			p := sub()
			f := DField{name: fmt.Sprintf("F%d", i), t: p.d}
			emb := r.rng.Intn(3) == 0
			if emb {
				p = r.gNamed(false)
				f.t = p.d
			}
			fs = append(fs, types.NewField(token.NoPos, gPkgs[0], fmt.Sprintf("F%d", i), p.t, emb))
			if emb {
				f.name = ""
			}
			if i < nt {
				tags = append(tags, genTags[r.rng.Intn(len(genTags))])
				f.tag = tags[i]
			}
			d.fields = append(d.fields, f)
		}
		return gPair{types.NewStruct(fs, tags), d}
	}
	d.k = gopoet.KindInterface
	var ms []*types.Func
	var es []types.Type
	for i, n := 0, r.rng.Intn(4); i < n; i++ {
		s, ds := r.genGSig(depth, false)
		ms = append(ms, types.NewFunc(token.NoPos, gPkgs[0], fmt.Sprintf("M%d", i), s))
		d.methods = append(d.methods, DMethod{fmt.Sprintf("M%d", i), ds})
	}
	for i, n := 0, r.rng.Intn(3); i < n; i++ {
		e := r.gNamed(true)
		es = append(es, e.t)
		d.embeds = append(d.embeds, e.d.sym)
	}
	return gPair{types.NewInterfaceType(ms, es), d}
}

func (r *replay) genGSig(depth int, recv bool) (*types.Signature, *DSig) {
	s := &DSig{}
	v := func(i int, p string) (*types.Var, DArg) {
		a := r.genG(depth - 1)
		name := ""
		if r.rng.Intn(2) == 0 {
			name = fmt.Sprintf("%s%d", p, i)
		}
		return types.NewVar(token.NoPos, gPkgs[0], name, a.t), DArg{name: name, t: a.d}
	}
	var in, out []*types.Var
	var rv *types.Var
	for i, n := 0, r.rng.Intn(4); i < n; i++ {
		x, a := v(i, "a")
		in, s.args = append(in, x), append(s.args, a)
	}
	for i, n := 0, r.rng.Intn(4); i < n; i++ {
		x, a := v(i, "r")
		out, s.res = append(out, x), append(s.res, a)
	}
	if n := len(in); n > 0 && r.rng.Intn(2) == 0 {
		in[n-1] = types.NewVar(token.NoPos, gPkgs[0], in[n-1].Name(), types.NewSlice(in[n-1].Type()))
		s.args[n-1].t = sl(s.args[n-1].t)
		s.variadic = true
	}
	if recv && r.rng.Intn(3) == 0 {
		p := r.gNamed(r.rng.Intn(3) == 0)
		_, isI := p.t.Underlying().(*types.Interface)
		if r.rng.Intn(2) == 0 {
			p = gPair{types.NewPointer(p.t), &D{k: gopoet.KindPtr, n: -1, elem: p.d}}
			isI = false
		}
		rv = types.NewVar(token.NoPos, gPkgs[0], r.pick([]string{"", "recv"}), p.t)
		if !isI {
			s.args = append([]DArg{{name: rv.Name(), t: p.d}}, s.args...)
		}
	}
	tup := func(vs []*types.Var) *types.Tuple { return types.NewTuple(vs...) }
	return types.NewSignature(rv, tup(in), tup(out), s.variadic), s
}

func (r *replay) objs() {
	p := r.gPkg()
	name := r.pick([]string{"A", "b", "Foo"})
	want := gopoet.Symbol{Name: name, Package: gPack(p)}
	plainSig := types.NewSignature(nil, nil, nil, false)
	for _, o := range []types.Object{
		types.NewConst(token.NoPos, p, name, types.Typ[types.Int], constant.MakeInt64(1)), types.NewVar(token.NoPos, p, name, types.Typ[types.Int]),
		types.NewTypeName(token.NoPos, p, name, types.Typ[types.Int]), types.NewFunc(token.NoPos, p, name, plainSig),
	} {
		r.oneObj(o, want)
	}
	for _, n := range []string{"error", "int", "true", "len", "nil"} {
		r.oneObj(types.Universe.Lookup(n), gopoet.Symbol{Name: n})
	}
	for i := 0; i < 4; i++ {
		n := r.gNamed(i%2 == 0)
		t := n.t
		if r.rng.Intn(2) == 0 {
			t = types.NewPointer(t)
		}
		m := r.pick([]string{"Meth", "meth", "_", "String"})
		f := types.NewFunc(token.NoPos, p, m, types.NewSignature(types.NewVar(token.NoPos, p, r.pick([]string{"", "x"}), t), nil, nil, false))
		r.oneObj(f, gopoet.MethodReference{Type: n.d.sym, Method: m})
	}
}

func (r *replay) oneObj(o types.Object, want gopoet.SymbolOrMethodRef) {
	var got gopoet.SymbolOrMethodRef
	if e := catch(func() { got = gopoet.SymbolForGoObject(o) }); e != nil {
		r.fail("SymbolForGoObject(%v) panics: %v", o, e)
	}
	if got != want {
		r.fail("SymbolForGoObject(%v) = %#v, want %#v", o, got, want)
	}
	r.tried("object " + o.String())
}

func TestReplayC06(t *testing.T) {
	r := newReplay(t, "go/types types of all supported kinds built by its constructors up to depth 3 (with receivers, tags, embedded parts), and objects and methods")
	for _, p := range append([]*types.Package{nil}, gPkgs...) {
		if e := catch(func() {
			if g := gopoet.PackageForGoType(p); g != gPack(p) {
				r.fail("PackageForGoType(%v) = %#v", p, g)
			}
		}); e != nil {
			r.fail("PackageForGoType(%v) panics: %v", p, e)
		}
	}
	for i := 0; i < 3000*r.scale && !r.late(); i++ {
		if i%10 == 0 {
			r.objs()
		}
		p := r.genG(i % 4)
		var g gopoet.TypeName
		if e := catch(func() { g = gopoet.TypeNameForGoType(p.t) }); e != nil {
			r.fail("TypeNameForGoType(%v) panics: %v", p.t, e)
		}
		if s := p.d.diff(g, nil); s != "" {
			r.fail("TypeNameForGoType(%v) = %v: %s", p.t, g, s)
		}
		r.tried(p.t.String())
	}
}
