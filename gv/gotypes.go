package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- Go types to SMT sorts ----

type structInfo struct {
	key    string
	name   string // mangled
	sort   Sort
	fields []fieldInfo
	opaque bool // no record: only ghost state
}

type fieldInfo struct {
	name string
	typ  types.Type
	sort Sort
	sub  bool // nested struct
}

var structs = map[string]*structInfo{}
var structOrder []string

// opaque external structs: values are never inspected field by field
var opaqueStructs = map[string]bool{"bytes.Buffer": true, "strings.Builder": true, "reflect.Value": true, "template.Template": true,
	"os.File": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true}

func isExternalOpaque(key string) bool {
	if opaqueStructs[key] {
		return true
	}
	if strings.HasPrefix(key, "types.") || strings.HasPrefix(key, "reflect.") && key != "reflect.StructField" && key != "reflect.Method" ||
		strings.HasPrefix(key, "template.") || strings.HasPrefix(key, "parse.") || strings.HasPrefix(key, "os.") {
		return true
	}
	return false
}

func structOf(t types.Type) *structInfo {
	k := structKey(t)
	if s, ok := structs[k]; ok {
		return s
	}
	s := &structInfo{key: k, name: mangle(k)}
	s.sort = "R_" + s.name
	structs[k] = s
	if isExternalOpaque(k) {
		s.opaque = true
		s.sort = "O_" + s.name
		opaqueSorts[s.sort] = true
		return s
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fi := fieldInfo{name: f.Name(), typ: f.Type()}
		fi.sub = isStruct(f.Type())
		s.fields = append(s.fields, fi)
	}
	for i := range s.fields {
		s.fields[i].sort = sortOf(s.fields[i].typ)
	}
	structOrder = append(structOrder, k)
	c := &ctorInfo{name: "mk_" + s.name, sort: s.sort}
	for _, f := range s.fields {
		c.sels = append(c.sels, s.name+"."+f.name)
		c.srts = append(c.srts, f.sort)
	}
	regCtor(c)
	return s
}

func (s *structInfo) field(name string) int {
	for i, f := range s.fields {
		if f.name == name {
			return i
		}
	}
	return -1
}

var opaqueSorts = map[Sort]bool{"Ref": true}

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SRef
		}
		opaqueSorts["O_float"] = true
		return "O_float"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Struct:
		return structOf(t).sort
	case *types.Array:
		opaqueSorts["O_array"] = true
		return "O_array"
	}
	panic("sortOf: " + t.String())
}

// ---- interface boxes ----
type boxInfo struct {
	ctor string
	typ  types.Type
	srt  Sort
}

var boxes []*boxInfo
var boxByKey = map[string]*boxInfo{}
var boxByCtor = map[string]*boxInfo{}

func boxKey(t types.Type) string { return types.TypeString(t, nil) }

func boxOf(t types.Type) *boxInfo {
	if b, ok := boxByKey[boxKey(t)]; ok {
		return b
	}
	if boxesSealed {
		panic("new box type after sealing: " + t.String())
	}
	b := &boxInfo{ctor: "B_" + mangle(typeStr(t)), typ: t}
	for boxByCtor[b.ctor] != nil {
		b.ctor += "x"
	}
	boxByKey[boxKey(t)] = b
	boxByCtor[b.ctor] = b
	boxes = append(boxes, b)
	b.srt = sortOf(t)
	regCtor(&ctorInfo{name: b.ctor, sort: SIface, sels: []string{"un" + b.ctor}, srts: []Sort{b.srt}})
	return b
}

var boxesSealed bool

// predeclare sorts
func initSorts() {
	regCtor(&ctorInfo{name: "mkslice", sort: SSlice, sels: []string{"sptr", "slen", "scap"}, srts: []Sort{SRef, SInt, SInt}})
	regCtor(&ctorInfo{name: "I_nil", sort: SIface})
	regCtor(&ctorInfo{name: "I_other", sort: SIface, sels: []string{"otag", "opay"}, srts: []Sort{SInt, SInt}})
}

var INil *Term

// collectBoxes scans the program for every concrete type that is boxed or asserted.
func collectBoxes() {
	var ts []types.Type
	seen := map[string]bool{}
	add := func(t types.Type) {
		if types.IsInterface(t) {
			return
		}
		if _, ok := t.(*types.Tuple); ok {
			return
		}
		k := boxKey(t)
		if !seen[k] {
			seen[k] = true
			ts = append(ts, t)
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					add(in.X.Type())
				case *ssa.TypeAssert:
					add(in.AssertedType)
				}
			}
		}
	}
	// every named type of the package, and pointers to named structs
	sc := P.pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if types.IsInterface(t) {
			continue
		}
		add(t)
		if isStruct(t) {
			add(types.NewPointer(t))
		}
	}
	for _, k := range []types.BasicKind{types.Bool, types.Int, types.Int64, types.String} {
		add(types.Typ[k])
	}
	sort.SliceStable(ts, func(i, j int) bool { return boxKey(ts[i]) < boxKey(ts[j]) })
	for _, t := range ts {
		boxOf(t)
	}
	boxesSealed = true
}

func Box(t types.Type, x *Term) *Term {
	b := boxOf(t)
	return Ctor(b.ctor, x)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return False
		case SInt:
			return IntT(0)
		case SStr:
			return StrT("")
		case SRef:
			return Null
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Null
	case *types.Slice:
		return NilSlice()
	case *types.Interface:
		return INil
	case *types.Struct:
		s := structOf(t)
		if s.opaque {
			return Const("zero_"+s.name, s.sort)
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return Ctor("mk_"+s.name, as...)
	}
	return Const("zero_"+mangle(sortOf(t)), sortOf(t))
}

func NilSlice() *Term { return Ctor("mkslice", Null, IntT(0), IntT(0)) }

// ---- regions ----
// A leaf region is an array Ref -> leaf value.

type region struct {
	name string
	val  Sort
	typ  types.Type // Go type of the leaf (nil for ghost)
}

var regions = map[string]*region{}

func regGhost(name string, val Sort) *region {
	if r, ok := regions[name]; ok {
		return r
	}
	r := &region{name: name, val: val}
	regions[name] = r
	return r
}

func fieldRegion(s *structInfo, i int) *region {
	f := s.fields[i]
	n := s.key + "." + f.name
	if r, ok := regions[n]; ok {
		return r
	}
	r := &region{name: n, val: f.sort, typ: f.typ}
	regions[n] = r
	return r
}

func cellKey(t types.Type) string {
	// distinct Go types never alias, but converted slices are rare: key on the
	// type string with merged structs
	return types.TypeString(t, nil)
}

func cellRegion(t types.Type) *region {
	n := "cell:" + mangle(typeStr(t))
	if r, ok := regions[n]; ok {
		return r
	}
	r := &region{name: n, val: sortOf(t), typ: t}
	regions[n] = r
	return r
}

// SetCard is the number of elements of a finite key set.
func SetCard(h *Term) *Term {
	k, _ := arrParts(h.Sort)
	return Fn("setcard_"+mangle(k), SInt, h)
}

func mapRegions(t types.Type) (has, val *region) {
	m := t.Underlying().(*types.Map)
	n := "map:" + mangle(typeStr(m.Key())) + ":" + mangle(typeStr(m.Elem()))
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	if regions[n+".has"] == nil {
		regions[n+".has"] = &region{name: n + ".has", val: SArr(ks, SBool)}
		regions[n+".val"] = &region{name: n + ".val", val: SArr(ks, vs)}
	}
	return regions[n+".has"], regions[n+".val"]
}

func subRef(s *structInfo, i int, r *Term) *Term {
	name := "sub_" + s.name + "." + s.fields[i].name
	if !subFns[name] {
		subFns[name] = true
		if preludeAx != nil {
			addSubAx(name)
		}
	}
	return Fn(name, SRef, r)
}

var subFns = map[string]bool{}

func El(p, i *Term) *Term {
	if p.K == KApp && p.Op == "shift" {
		return El(p.Args[0], Add(p.Args[1], i))
	}
	return Fn("el", SRef, p, i)
}

func Shift(p, k *Term) *Term {
	if n, ok := intVal(k); ok && n == 0 {
		return p
	}
	if p.K == KApp && p.Op == "shift" {
		return Shift(p.Args[0], Add(p.Args[1], k))
	}
	return Fn("shift", SRef, p, k)
}

func Rt(r *Term) *Term {
	for {
		if r.K == KApp && (r.Op == "el" || r.Op == "shift" || strings.HasPrefix(r.Op, "sub_")) {
			r = r.Args[0]
			continue
		}
		break
	}
	if r.K == KApp && r.Op == "base" {
		return r.Args[0]
	}
	if r == Null {
		return IntT(-1)
	}
	return Fn("rt", SInt, r)
}

// leafRegionsOf lists every region a value of struct type t occupies.
func leafRegions(t types.Type) []*region {
	if isStruct(t) {
		s := structOf(t)
		if s.opaque {
			return []*region{ghostOf(s)}
		}
		var out []*region
		for i, f := range s.fields {
			if f.sub {
				out = append(out, leafRegions(f.typ)...)
			} else {
				out = append(out, fieldRegion(s, i))
			}
		}
		return out
	}
	return []*region{cellRegion(t)}
}

// ghostOf is the single ghost region of an opaque struct type.
func ghostOf(s *structInfo) *region {
	switch s.key {
	case "bytes.Buffer", "strings.Builder":
		return regGhost(s.key+".$s", SStr)
	}
	return regGhost(s.key+".$o", s.sort)
}

func dumpTypes() string {
	var sb strings.Builder
	for _, k := range structOrder {
		s := structs[k]
		fmt.Fprintf(&sb, "%s:", s.sort)
		for _, f := range s.fields {
			fmt.Fprintf(&sb, " %s:%s", f.name, f.sort)
		}
		sb.WriteByte('\n')
	}
	for _, b := range boxes {
		fmt.Fprintf(&sb, "box %s %s\n", b.ctor, b.srt)
	}
	return sb.String()
}
