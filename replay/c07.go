package gopoet_test

import (
	"fmt"
	"reflect"
	"testing"
	"unsafe"

	"github.com/jhump/gopoet"
)

type (
	rNamed   struct{ A int }
	rSlice   []string
	rFunc    func(int) error
	rIface   interface{ M() }
	rInt     int
	rMap     map[string]rInt
	rChan    chan<- int
	rPtr     *int
	rArr     [3]bool
	rNoField struct{}
)

type rPair struct {
	t reflect.Type
	d *D
}

func rOwn(x interface{}, name string) rPair {
	t := reflect.TypeOf(x).Elem()
	return rPair{t, &D{k: gopoet.KindNamed, n: -1, sym: gopoet.Symbol{Name: name, Package: gopoet.Package{ImportPath: t.PkgPath()}}}}
}

func rSym(x interface{}, path, name string) rPair {
	return rPair{reflect.TypeOf(x).Elem(), &D{k: gopoet.KindNamed, n: -1, sym: gopoet.Symbol{Name: name, Package: gopoet.Package{ImportPath: path}}}}
}

func bas(k reflect.Kind) *D { return &D{k: gopoet.KindBasic, n: -1, bk: k} }

var rNamedTypes = []rPair{
	rOwn((*rNamed)(nil), "rNamed"), rOwn((*rSlice)(nil), "rSlice"), rOwn((*rFunc)(nil), "rFunc"), rOwn((*rIface)(nil), "rIface"), rOwn((*rInt)(nil), "rInt"),
	rOwn((*rMap)(nil), "rMap"), rOwn((*rChan)(nil), "rChan"), rOwn((*rPtr)(nil), "rPtr"), rOwn((*rArr)(nil), "rArr"), rOwn((*rNoField)(nil), "rNoField"),
	rSym((*error)(nil), "", "error"), rSym((*unsafe.Pointer)(nil), "unsafe", "Pointer"), rSym((*reflect.StructTag)(nil), "reflect", "StructTag"),
	rSym((*gopoet.Symbol)(nil), "github.com/jhump/gopoet", "Symbol"), rSym((*fmt.Stringer)(nil), "fmt", "Stringer"),
}

func rIf(x interface{}, ms ...DMethod) rPair {
	return rPair{reflect.TypeOf(x).Elem(), &D{k: gopoet.KindInterface, n: -1, methods: ms}}
}

func plain(ds ...*D) []DArg {
	var out []DArg
	for _, d := range ds {
		out = append(out, DArg{t: d})
	}
	return out
}

func sl(d *D) *D { return &D{k: gopoet.KindSlice, n: -1, elem: d} }

// the runtime cannot build interface types, so these are written down
var rIfaceTypes = []rPair{
	rIf((*interface{})(nil)),
	rIf((*interface{ M() })(nil), DMethod{"M", &DSig{}}),
	rIf((*interface {
		Z(a int, b string) (bool, error)
		A(xs ...int)
		N() rNamed
	})(nil),
		DMethod{"A", &DSig{args: plain(sl(bas(reflect.Int))), variadic: true}},
		DMethod{"N", &DSig{res: plain(rNamedTypes[0].d)}},
		DMethod{"Z", &DSig{args: plain(bas(reflect.Int), bas(reflect.String)), res: plain(bas(reflect.Bool), rNamedTypes[10].d)}}),
	rIf((*interface {
		A() int
		B() (string, bool)
		C(int) int
		D(int) string
		E()
		F(int, string)
		G(string, int)
	})(nil),
		DMethod{"A", &DSig{res: plain(bas(reflect.Int))}},
		DMethod{"B", &DSig{res: plain(bas(reflect.String), bas(reflect.Bool))}},
		DMethod{"C", &DSig{args: plain(bas(reflect.Int)), res: plain(bas(reflect.Int))}},
		DMethod{"D", &DSig{args: plain(bas(reflect.Int)), res: plain(bas(reflect.String))}},
		DMethod{"E", &DSig{}},
		DMethod{"F", &DSig{args: plain(bas(reflect.Int), bas(reflect.String))}},
		DMethod{"G", &DSig{args: plain(bas(reflect.String), bas(reflect.Int))}}),
	rIf((*interface {
		fmt.Stringer
		F(func(int, ...string) bool) interface{ M() }
	})(nil),
		DMethod{"F", &DSig{args: plain(&D{k: gopoet.KindFunc, n: -1, sig: &DSig{args: plain(bas(reflect.Int), sl(bas(reflect.String))), res: plain(bas(reflect.Bool)), variadic: true}}),
			res: plain(&D{k: gopoet.KindInterface, n: -1, methods: []DMethod{{"M", &DSig{}}}})}},
		DMethod{"String", &DSig{res: plain(bas(reflect.String))}}),
}

// defined types whose names are those of predeclared types
func rShadow() []rPair {
	type (
		bBool = bool
		bInt  = int
		bStr  = string
		bF    = float64
		b8    = uint8
		bU    = uintptr
	)
	type bool bBool
	type int bInt
	type string bStr
	type float64 bF
	type uint8 b8
	type byte b8
	type uintptr bU
	type error interface{ Error() bStr }
	return []rPair{
		rOwn((*bool)(nil), "bool"), rOwn((*int)(nil), "int"), rOwn((*string)(nil), "string"), rOwn((*float64)(nil), "float64"), rOwn((*uint8)(nil), "uint8"),
		rOwn((*byte)(nil), "byte"), rOwn((*uintptr)(nil), "uintptr"), rOwn((*error)(nil), "error"),
	}
}

var rBasics = []interface{}{false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0),
	complex64(0), complex128(0), ""}

func (r *replay) genR(depth int) rPair {
	n := 10
	if depth <= 0 {
		n = 3
	}
	sub := func() rPair { return r.genR(depth - 1) }
	switch r.rng.Intn(n) {
	case 0:
		t := reflect.TypeOf(rBasics[r.rng.Intn(len(rBasics))])
		return rPair{t, bas(t.Kind())}
	case 1:
		return rNamedTypes[r.rng.Intn(len(rNamedTypes))]
	case 2:
		return rIfaceTypes[r.rng.Intn(len(rIfaceTypes))]
	case 3:
		e := sub()
		return rPair{reflect.PtrTo(e.t), &D{k: gopoet.KindPtr, n: -1, elem: e.d}}
	case 4:
		e := sub()
		return rPair{reflect.SliceOf(e.t), sl(e.d)}
	case 5:
		e := sub()
		n := r.rng.Intn(4)
		return rPair{reflect.ArrayOf(n, e.t), &D{k: gopoet.KindArray, n: int64(n), elem: e.d}}
	case 6:
		k, e := sub(), sub()
		for !k.t.Comparable() {
			k = r.genR(0)
		}
		return rPair{reflect.MapOf(k.t, e.t), &D{k: gopoet.KindMap, n: -1, key: k.d, elem: e.d}}
	case 7:
		e := sub()
		dir := reflect.ChanDir(1 + r.rng.Intn(3))
		return rPair{reflect.ChanOf(dir, e.t), &D{k: gopoet.KindChan, n: -1, dir: dir, elem: e.d}}
	case 8:
		var in, out []reflect.Type
		s := &DSig{}
		var p rPair
		for i, n := 0, r.rng.Intn(4); i < n; i++ {
			if i == 0 || r.rng.Intn(3) > 0 {
				p = sub()
			}
			in, s.args = append(in, p.t), append(s.args, DArg{t: p.d})
		}
		for i, n := 0, r.rng.Intn(4); i < n; i++ {
			p := sub()
			out, s.res = append(out, p.t), append(s.res, DArg{t: p.d})
		}
		if n := len(in); n > 0 && r.rng.Intn(2) == 0 {
			in[n-1], s.args[n-1].t = reflect.SliceOf(in[n-1]), sl(s.args[n-1].t)
			s.variadic = true
		}
		return rPair{reflect.FuncOf(in, out, s.variadic), &D{k: gopoet.KindFunc, n: -1, sig: s}}
	default:
		var fs []reflect.StructField
		d := &D{k: gopoet.KindStruct, n: -1}
		var p rPair
		for i, n := 0, r.rng.Intn(4); i < n; i++ {
			if i == 0 || r.rng.Intn(3) > 0 {
				p = sub()
			}
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: p.t, Tag: reflect.StructTag(genTags[r.rng.Intn(len(genTags))])}
			df := DField{name: f.Name, t: p.d, tag: string(f.Tag)}
			if r.rng.Intn(4) == 0 {
				f.Type, df.t = reflect.TypeOf(gopoet.Package{}), &D{k: gopoet.KindNamed, n: -1, sym: gopoet.Symbol{Name: "Package", Package: gopoet.Package{ImportPath: "github.com/jhump/gopoet"}}}
				f.Name = fmt.Sprintf("Package%d", i)
				f.Anonymous, df.name = true, ""
			}
			fs = append(fs, f)
			d.fields = append(d.fields, df)
		}
		var t reflect.Type
		if p := catch(func() { t = reflect.StructOf(fs) }); p != nil {
			return r.genR(0)
		}
		return rPair{t, d}
	}
}

func (r *replay) oneR(p rPair) {
	var g gopoet.TypeName
	if e := catch(func() { g = gopoet.TypeNameForReflectType(p.t) }); e != nil {
		r.fail("TypeNameForReflectType(%v) panics: %v", p.t, e)
	}
	if s := p.d.diff(g, nil); s != "" {
		r.fail("TypeNameForReflectType(%v) = %v: %s", p.t, g, s)
	}
	r.tried(p.t.String())
}

func TestReplayC07(t *testing.T) {
	r := newReplay(t, "runtime types of all kinds built by package reflect up to depth 3, with written-down interface types and named types")
	for _, p := range append(append(rShadow(), rNamedTypes...), rIfaceTypes...) {
		r.oneR(p)
	}
	for _, b := range rBasics {
		r.oneR(rPair{reflect.TypeOf(b), bas(reflect.TypeOf(b).Kind())})
	}
	for i := 0; i < 3000*r.scale && !r.late(); i++ {
		r.oneR(r.genR(i % 4))
	}
}
