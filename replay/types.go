package gopoet_test

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

// D describes a type, independently of the code under test.
type D struct {
	k       gopoet.TypeKind
	bk      reflect.Kind
	sym     gopoet.Symbol
	elem    *D
	key     *D
	n       int64
	dir     reflect.ChanDir
	sig     *DSig
	fields  []DField
	methods []DMethod
	embeds  []gopoet.Symbol
}

type DSig struct {
	args, res []DArg
	variadic  bool
}

type DArg struct {
	name string
	t    *D
}

type DField struct {
	name string
	t    *D
	tag  string
}

type DMethod struct {
	name string
	sig  *DSig
}

var basicKinds = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
	reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String}

var genPkgs = []gopoet.Package{
	{Name: "foo", ImportPath: "example.com/foo"}, {Name: "foo", ImportPath: "example.com/x/foo"}, {Name: "foo", ImportPath: "other.org/foo"},
	{Name: "bar", ImportPath: "example.com/bar"}, {Name: "io", ImportPath: "io"}, {Name: "foo1", ImportPath: "z/foo1"}, {Name: "own", ImportPath: "example.com/own"},
	{Name: "q", ImportPath: "a/weird-path"}, {Name: "fmt", ImportPath: "fmt"},
}

func (r *replay) genSym() gopoet.Symbol {
	switch r.rng.Intn(8) {
	case 0:
		return gopoet.Symbol{Name: r.pick([]string{"error", "bool", "Local", "string"})}
	}
	return gopoet.Symbol{Name: r.pick([]string{"T", "U", "Reader", "x", "Foo"}), Package: genPkgs[r.rng.Intn(len(genPkgs))]}
}

var genTags = []string{"", "", "", `json:"a"`, "with`tick", `json:"a,omitempty" xml:"b"`, "new\nline", `back\slash`, "\x00\xff"}

func (r *replay) genD(depth int) *D {
	k := 1 + r.rng.Intn(10)
	if depth <= 0 {
		k = 1 + r.rng.Intn(2)
	}
	d := &D{k: gopoet.TypeKind(k), n: -1}
	sub := func() *D { return r.genD(depth - 1) }
	switch d.k {
	case gopoet.KindNamed:
		d.sym = r.genSym()
	case gopoet.KindBasic:
		d.bk = basicKinds[r.rng.Intn(len(basicKinds))]
	case gopoet.KindPtr, gopoet.KindSlice:
		d.elem = sub()
	case gopoet.KindArray:
		d.elem = sub()
		d.n = []int64{0, 1, 3, 255, 1 << 40}[r.rng.Intn(5)]
	case gopoet.KindMap:
		d.elem, d.key = sub(), sub()
	case gopoet.KindChan:
		d.elem = sub()
		d.dir = reflect.ChanDir(1 + r.rng.Intn(3))
	case gopoet.KindFunc:
		d.sig = r.genSig(depth)
	case gopoet.KindStruct:
		for i, n := 0, r.rng.Intn(4); i < n; i++ {
			f := DField{name: fmt.Sprintf("F%d", i), t: sub(), tag: genTags[r.rng.Intn(len(genTags))]}
			if r.rng.Intn(4) == 0 {
				f.name = ""
				f.t = &D{k: gopoet.KindNamed, n: -1, sym: r.genSym()}
				if r.rng.Intn(2) == 0 {
					f.t = &D{k: gopoet.KindPtr, n: -1, elem: f.t}
				}
			}
			d.fields = append(d.fields, f)
		}
	case gopoet.KindInterface:
		for i, n := 0, r.rng.Intn(3); i < n; i++ {
			d.embeds = append(d.embeds, r.genSym())
		}
		for i, n := 0, r.rng.Intn(3); i < n; i++ {
			d.methods = append(d.methods, DMethod{fmt.Sprintf("M%d", i), r.genSig(depth)})
		}
	}
	return d
}

func (r *replay) genSig(depth int) *DSig {
	s := &DSig{}
	mode := r.rng.Intn(3) // names: none, all, some
	arg := func(i int, p string) DArg {
		a := DArg{t: r.genD(depth - 1)}
		if mode == 1 || mode == 2 && r.rng.Intn(2) == 0 {
			a.name = fmt.Sprintf("%s%d", p, i)
		}
		return a
	}
	for i, n := 0, r.rng.Intn(4); i < n; i++ {
		s.args = append(s.args, arg(i, "a"))
	}
	mode = r.rng.Intn(3)
	for i, n := 0, r.rng.Intn(3); i < n; i++ {
		s.res = append(s.res, arg(i, "r"))
	}
	if n := len(s.args); n > 0 && r.rng.Intn(3) == 0 {
		s.args[n-1].t = &D{k: gopoet.KindSlice, n: -1, elem: s.args[n-1].t}
		s.variadic = true
	}
	return s
}

func buildArgs(as []DArg) []gopoet.ArgType {
	var out []gopoet.ArgType
	for _, a := range as {
		out = append(out, gopoet.ArgType{Name: a.name, Type: a.t.build()})
	}
	return out
}

func (s *DSig) build() *gopoet.Signature {
	return &gopoet.Signature{Args: buildArgs(s.args), Results: buildArgs(s.res), IsVariadic: s.variadic}
}

func (d *D) build() gopoet.TypeName {
	switch d.k {
	case gopoet.KindNamed:
		return gopoet.NamedType(d.sym)
	case gopoet.KindBasic:
		return gopoet.BasicType(d.bk)
	case gopoet.KindPtr:
		return gopoet.PointerType(d.elem.build())
	case gopoet.KindSlice:
		return gopoet.SliceType(d.elem.build())
	case gopoet.KindArray:
		return gopoet.ArrayType(d.elem.build(), d.n)
	case gopoet.KindMap:
		return gopoet.MapType(d.key.build(), d.elem.build())
	case gopoet.KindChan:
		return gopoet.ChannelType(d.elem.build(), d.dir)
	case gopoet.KindFunc:
		s := d.sig.build()
		switch {
		case len(s.Results)%2 == 0 && s.IsVariadic:
			return gopoet.FuncTypeVariadic(s.Args, s.Results)
		case len(s.Results)%2 == 0:
			return gopoet.FuncType(s.Args, s.Results)
		}
		return gopoet.FuncTypeFromSig(s)
	case gopoet.KindStruct:
		var fs []gopoet.FieldType
		for _, f := range d.fields {
			fs = append(fs, gopoet.FieldType{Name: f.name, Type: f.t.build(), Tag: reflect.StructTag(f.tag)})
		}
		return gopoet.StructType(fs...)
	default:
		var ms []gopoet.MethodType
		for _, m := range d.methods {
			ms = append(ms, gopoet.MethodType{Name: m.name, Signature: *m.sig.build()})
		}
		return gopoet.InterfaceType(append([]gopoet.Symbol{}, d.embeds...), ms...)
	}
}

// diff says how t differs from d ("" if it does not); nm gives the expected
// qualifier for a package.
func (d *D) diff(t gopoet.TypeName, nm func(gopoet.Package) string) string {
	if t == nil {
		return "nil type where " + d.text() + " is expected"
	}
	sym := func(s gopoet.Symbol) gopoet.Symbol {
		if nm != nil && s.Package != (gopoet.Package{}) {
			s.Package.Name = nm(s.Package)
		}
		return s
	}
	want := *d
	if d.k == gopoet.KindNamed {
		want.sym = sym(d.sym)
	}
	switch {
	case t.Kind() != d.k:
		return fmt.Sprintf("kind %v, want %v", t.Kind(), d.k)
	case t.Symbol() != want.sym:
		return fmt.Sprintf("symbol %#v, want %#v", t.Symbol(), want.sym)
	case t.Len() != d.n:
		return fmt.Sprintf("length %d, want %d", t.Len(), d.n)
	case t.Dir() != d.dir:
		return fmt.Sprintf("direction %d, want %d", t.Dir(), d.dir)
	case t.BasicKind() != d.bk:
		return fmt.Sprintf("basic kind %v, want %v", t.BasicKind(), d.bk)
	case (t.Elem() != nil) != (d.elem != nil):
		return fmt.Sprintf("element %v, want %v", t.Elem(), d.elem.text())
	case (t.Key() != nil) != (d.key != nil):
		return fmt.Sprintf("key %v, want %v", t.Key(), d.key.text())
	case (t.Signature() != nil) != (d.sig != nil):
		return "signature present where none is expected, or the reverse"
	case len(t.Fields()) != len(d.fields):
		return fmt.Sprintf("%d fields, want %d", len(t.Fields()), len(d.fields))
	case len(t.Methods()) != len(d.methods):
		return fmt.Sprintf("%d methods, want %d", len(t.Methods()), len(d.methods))
	case len(t.Embeds()) != len(d.embeds):
		return fmt.Sprintf("%d embeds, want %d", len(t.Embeds()), len(d.embeds))
	case t.Fields() != nil && d.k != gopoet.KindStruct || t.Methods() != nil && d.k != gopoet.KindInterface || t.Embeds() != nil && d.k != gopoet.KindInterface:
		return "non-nil list from an accessor that does not apply"
	}
	if d.elem != nil {
		if s := d.elem.diff(t.Elem(), nm); s != "" {
			return "element: " + s
		}
	}
	if d.key != nil {
		if s := d.key.diff(t.Key(), nm); s != "" {
			return "key: " + s
		}
	}
	if d.sig != nil {
		if s := d.sig.diff(t.Signature(), nm); s != "" {
			return s
		}
	}
	for i, f := range t.Fields() {
		w := d.fields[i]
		if f.Name != w.name || string(f.Tag) != w.tag {
			return fmt.Sprintf("field %d is %q with tag %q, want %q with tag %q", i, f.Name, f.Tag, w.name, w.tag)
		}
		if s := w.t.diff(f.Type, nm); s != "" {
			return fmt.Sprintf("field %d: %s", i, s)
		}
	}
	for i, m := range t.Methods() {
		w := d.methods[i]
		if m.Name != w.name {
			return fmt.Sprintf("method %d is %q, want %q", i, m.Name, w.name)
		}
		if s := w.sig.diff(&m.Signature, nm); s != "" {
			return fmt.Sprintf("method %d: %s", i, s)
		}
	}
	for i, e := range t.Embeds() {
		if e != sym(d.embeds[i]) {
			return fmt.Sprintf("embed %d is %#v, want %#v", i, e, sym(d.embeds[i]))
		}
	}
	return ""
}

func (s *DSig) diff(g *gopoet.Signature, nm func(gopoet.Package) string) string {
	if g == nil {
		return "nil signature"
	}
	if g.IsVariadic != s.variadic {
		return fmt.Sprintf("variadic %v, want %v", g.IsVariadic, s.variadic)
	}
	do := func(what string, as []DArg, bs []gopoet.ArgType) string {
		if len(as) != len(bs) {
			return fmt.Sprintf("%d %ss, want %d", len(bs), what, len(as))
		}
		for i := range as {
			if as[i].name != bs[i].Name {
				return fmt.Sprintf("%s %d is named %q, want %q", what, i, bs[i].Name, as[i].name)
			}
			if x := as[i].t.diff(bs[i].Type, nm); x != "" {
				return fmt.Sprintf("%s %d: %s", what, i, x)
			}
		}
		return ""
	}
	if x := do("parameter", s.args, g.Args); x != "" {
		return x
	}
	return do("result", s.res, g.Results)
}

// pkgs lists the packages a type mentions, in order.
func (d *D) pkgs(add func(gopoet.Package)) {
	if d == nil {
		return
	}
	sym := func(s gopoet.Symbol) {
		if s.Package != (gopoet.Package{}) {
			add(s.Package)
		}
	}
	if d.k == gopoet.KindNamed {
		sym(d.sym)
	}
	d.key.pkgs(add)
	d.elem.pkgs(add)
	d.sig.pkgs(add)
	for _, f := range d.fields {
		f.t.pkgs(add)
	}
	for _, e := range d.embeds {
		sym(e)
	}
	for _, m := range d.methods {
		m.sig.pkgs(add)
	}
}

func (s *DSig) pkgs(add func(gopoet.Package)) {
	if s == nil {
		return
	}
	for _, a := range s.args {
		a.t.pkgs(add)
	}
	for _, a := range s.res {
		a.t.pkgs(add)
	}
}

// text describes a type for messages.
func (d *D) text() string {
	if d == nil {
		return "nothing"
	}
	sym := func(s gopoet.Symbol) string {
		if s.Package == (gopoet.Package{}) {
			return s.Name
		}
		return strconv.Quote(s.Package.ImportPath) + "(" + s.Package.Name + ")." + s.Name
	}
	switch d.k {
	case gopoet.KindNamed:
		return sym(d.sym)
	case gopoet.KindBasic:
		return d.bk.String()
	case gopoet.KindPtr:
		return "*" + d.elem.text()
	case gopoet.KindSlice:
		return "[]" + d.elem.text()
	case gopoet.KindArray:
		return fmt.Sprintf("[%d]%s", d.n, d.elem.text())
	case gopoet.KindMap:
		return "map[" + d.key.text() + "]" + d.elem.text()
	case gopoet.KindChan:
		return fmt.Sprintf("chan{dir %d}(%s)", d.dir, d.elem.text())
	case gopoet.KindFunc:
		return "func" + d.sig.text()
	case gopoet.KindStruct:
		var ss []string
		for _, f := range d.fields {
			ss = append(ss, fmt.Sprintf("%s %s %q", f.name, f.t.text(), f.tag))
		}
		return "struct{" + strings.Join(ss, "; ") + "}"
	default:
		var ss []string
		for _, e := range d.embeds {
			ss = append(ss, sym(e))
		}
		for _, m := range d.methods {
			ss = append(ss, m.name+m.sig.text())
		}
		return "interface{" + strings.Join(ss, "; ") + "}"
	}
}

func (s *DSig) text() string {
	do := func(as []DArg) string {
		var ss []string
		for _, a := range as {
			ss = append(ss, strings.TrimSpace(a.name+" "+a.t.text()))
		}
		return "(" + strings.Join(ss, ", ") + ")"
	}
	v := ""
	if s.variadic {
		v = "{variadic}"
	}
	return v + do(s.args) + do(s.res)
}

// parses checks that a piece of Go source denotes d.
func (d *D) parses(src string) string {
	e, err := parser.ParseExpr(src)
	if err != nil {
		return fmt.Sprintf("does not parse: %v", err)
	}
	return d.ast(e)
}

func symAst(s gopoet.Symbol, e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		if s.Package.Name == "" && s.Name == e.Name {
			return ""
		}
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && s.Package.Name != "" && x.Name == s.Package.Name && e.Sel.Name == s.Name {
			return ""
		}
	}
	return fmt.Sprintf("name printed is not %s in package %q", s.Name, s.Package.Name)
}

func (d *D) ast(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	bad := func() string { return fmt.Sprintf("%T where %s is expected", e, d.text()) }
	switch d.k {
	case gopoet.KindNamed:
		return symAst(d.sym, e)
	case gopoet.KindBasic:
		if id, ok := e.(*ast.Ident); ok && (d.bk == reflect.Uint8 && id.Name == "byte" || d.bk == reflect.Int32 && id.Name == "rune") {
			return ""
		}
		return symAst(gopoet.Symbol{Name: d.bk.String()}, e)
	case gopoet.KindPtr:
		if x, ok := e.(*ast.StarExpr); ok {
			return d.elem.ast(x.X)
		}
		return bad()
	case gopoet.KindSlice, gopoet.KindArray:
		x, ok := e.(*ast.ArrayType)
		if !ok || (x.Len == nil) != (d.k == gopoet.KindSlice) {
			return bad()
		}
		if x.Len != nil {
			if l, ok := x.Len.(*ast.BasicLit); !ok || l.Value != strconv.FormatInt(d.n, 10) {
				return "wrong array length"
			}
		}
		return d.elem.ast(x.Elt)
	case gopoet.KindMap:
		x, ok := e.(*ast.MapType)
		if !ok {
			return bad()
		}
		if s := d.key.ast(x.Key); s != "" {
			return s
		}
		return d.elem.ast(x.Value)
	case gopoet.KindChan:
		x, ok := e.(*ast.ChanType)
		if !ok {
			return bad()
		}
		want := map[reflect.ChanDir]ast.ChanDir{reflect.RecvDir: ast.RECV, reflect.SendDir: ast.SEND, reflect.BothDir: ast.SEND | ast.RECV}[d.dir]
		if x.Dir != want {
			return fmt.Sprintf("channel direction wrong for %s", d.text())
		}
		return d.elem.ast(x.Value)
	case gopoet.KindFunc:
		x, ok := e.(*ast.FuncType)
		if !ok {
			return bad()
		}
		return d.sig.ast(x)
	case gopoet.KindStruct:
		x, ok := e.(*ast.StructType)
		if !ok {
			return bad()
		}
		type one struct {
			name string
			t    ast.Expr
			tag  *ast.BasicLit
		}
		var all []one
		for _, f := range x.Fields.List {
			if len(f.Names) == 0 {
				all = append(all, one{"", f.Type, f.Tag})
			}
			for _, n := range f.Names {
				all = append(all, one{n.Name, f.Type, f.Tag})
			}
		}
		if len(all) != len(d.fields) {
			return fmt.Sprintf("%d fields, want %d", len(all), len(d.fields))
		}
		for i, f := range d.fields {
			if all[i].name != f.name {
				return fmt.Sprintf("field %q, want %q", all[i].name, f.name)
			}
			tag := ""
			if all[i].tag != nil {
				tag, _ = strconv.Unquote(all[i].tag.Value)
			}
			if tag != f.tag {
				return fmt.Sprintf("tag %q, want %q", tag, f.tag)
			}
			if s := f.t.ast(all[i].t); s != "" {
				return s
			}
		}
		return ""
	default:
		x, ok := e.(*ast.InterfaceType)
		if !ok {
			return bad()
		}
		var es []ast.Expr
		var ms []*ast.Field
		for _, f := range x.Methods.List {
			if len(f.Names) == 0 {
				es = append(es, f.Type)
			} else {
				ms = append(ms, f)
			}
		}
		if len(es) != len(d.embeds) || len(ms) != len(d.methods) {
			return fmt.Sprintf("%d embeds and %d methods, want %d and %d", len(es), len(ms), len(d.embeds), len(d.methods))
		}
		for i := range es {
			if s := symAst(d.embeds[i], es[i]); s != "" {
				return s
			}
		}
		for i := range ms {
			ft, ok := ms[i].Type.(*ast.FuncType)
			if !ok || ms[i].Names[0].Name != d.methods[i].name {
				return "method name or form wrong"
			}
			if s := d.methods[i].sig.ast(ft); s != "" {
				return s
			}
		}
		return ""
	}
}

func (s *DSig) ast(x *ast.FuncType) string {
	do := func(as []DArg, fl *ast.FieldList, variadic bool) string {
		type one struct {
			name string
			t    ast.Expr
		}
		var all []one
		if fl != nil {
			for _, f := range fl.List {
				if len(f.Names) == 0 {
					all = append(all, one{"", f.Type})
				}
				for _, n := range f.Names {
					all = append(all, one{n.Name, f.Type})
				}
			}
		}
		if len(all) != len(as) {
			return fmt.Sprintf("%d parameters or results, want %d", len(all), len(as))
		}
		named := false
		for _, a := range as {
			named = named || a.name != ""
		}
		for i, a := range as {
			want := a.name
			if named && want == "" {
				want = "_"
			}
			if all[i].name != want {
				return fmt.Sprintf("parameter or result named %q, want %q", all[i].name, want)
			}
			t, e := a.t, all[i].t
			if variadic && i == len(as)-1 {
				el, ok := e.(*ast.Ellipsis)
				if !ok {
					return "last parameter lacks the three dots"
				}
				t, e = t.elem, el.Elt
			}
			if x := t.ast(e); x != "" {
				return x
			}
		}
		return ""
	}
	if m := do(s.args, x.Params, s.variadic); m != "" {
		return m
	}
	if m := do(s.res, x.Results, false); m != "" {
		return m
	}
	paren := x.Results != nil && x.Results.Opening.IsValid()
	need := len(s.res) > 1 || len(s.res) == 1 && s.res[0].name != ""
	if paren != need {
		return fmt.Sprintf("results parenthesised: %v, needed: %v", paren, need)
	}
	return ""
}

var _ = token.NoPos
