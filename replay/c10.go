package gopoet_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/jhump/gopoet"
)

// sigDiff compares a method type with the expected first parameter and the signature s.
func methodDiff(t gopoet.TypeName, first func(gopoet.ArgType) string, s *DSig) string {
	if t == nil || t.Kind() != gopoet.KindFunc {
		return fmt.Sprintf("%v is not a function type", t)
	}
	g := *t.Signature()
	if len(g.Args) != len(s.args)+1 {
		return fmt.Sprintf("%d parameters, want %d", len(g.Args), len(s.args)+1)
	}
	if x := first(g.Args[0]); x != "" {
		return "receiver parameter: " + x
	}
	g.Args = g.Args[1:]
	return s.diff(&g, nil)
}

func namedDiff(t gopoet.TypeName, s gopoet.Symbol) string {
	if t == nil || t.Kind() != gopoet.KindNamed || t.Symbol() != s {
		return fmt.Sprintf("type %v, want %#v", t, s)
	}
	return ""
}

func TestReplayC10(t *testing.T) {
	r := newReplay(t, "random declarations, referenced before and after they are added to a file; types and receivers built from random types")
	names := []string{"", "A", "b", "Foo"}
	check := func(what string, wantPanic bool, want string, f func() string) {
		r.t.Helper()
		r.tried(what)
		var got string
		p := catch(func() { got = f() })
		if (p != nil) != wantPanic {
			r.fail("%s: panicked with %v, should panic: %v", what, p, wantPanic)
		}
		if p == nil && got != want {
			r.fail("%s: %s, want %s", what, got, want)
		}
	}
	str := func(v interface{}) string { return fmt.Sprintf("%#v", v) }
	for _, fn := range []string{"a.go", "x/a.go", "a.txt", "", ".go", "a.go/", "go", "a.GO", "a.b.go", "./a.go"} {
		fn := fn
		check("NewGoFile("+fn+")", strings.Contains(fn, "/") || !strings.HasSuffix(fn, ".go"), fn, func() string { return gopoet.NewGoFile(fn, "p", "p").Name })
	}
	for i := 0; i < 4000*r.scale && !r.late(); i++ {
		pkg := gopoet.Package{Name: r.pick([]string{"", "foo", "own"}), ImportPath: r.pick([]string{"", "example.com/foo", "x"})}
		file := gopoet.NewGoFile("a.go", pkg.ImportPath, pkg.Name)
		if file.Package() != pkg || file.NumElements() != 0 || file.Name != "a.go" {
			r.fail("NewGoFile(a.go, %q, %q): package %#v, %d elements", pkg.ImportPath, pkg.Name, file.Package(), file.NumElements())
		}
		other := gopoet.NewGoFile("b.go", "b", "b")
		pre := ""
		if pkg.Name != "" {
			pre = pkg.Name + "."
		}
		sym := func(n string) gopoet.Symbol { return gopoet.Symbol{Name: n, Package: pkg} }
		var checks []func(added bool)
		var add func(f *gopoet.GoFile)
		var elem func(e gopoet.FileElement) bool
		one := r.rng.Intn(2) == 0
		nspec := 1 + r.rng.Intn(3)
		if one {
			nspec = 1
		}
		multi := func(what string, ns []string, at func(int) gopoet.Symbol, to func() gopoet.Symbol, st func() string) func(bool) {
			return func(added bool) {
				d := fmt.Sprintf("%s %q in package %#v, added %v: ", what, ns, pkg, added)
				for _, j := range []int{-1, 0, 1, 2, 3} {
					j := j
					bad := !added || j < 0 || j >= len(ns)
					w := ""
					if !bad {
						w = str(sym(ns[j]))
					}
					check(fmt.Sprintf("%sSymbolAt(%d)", d, j), bad, w, func() string { return str(at(j)) })
				}
				w := ""
				if len(ns) == 1 {
					w = str(sym(ns[0]))
				}
				check(d+"ToSymbol", !added || len(ns) != 1, w, func() string { return str(to()) })
				var all []string
				for _, n := range ns {
					if added {
						n = pre + n
					}
					all = append(all, n)
				}
				check(d+"String", false, strings.Join(all, ", "), st)
			}
		}
		specNames := func() []string {
			ns := make([]string, r.rng.Intn(4))
			for j := range ns {
				ns[j] = names[1+r.rng.Intn(3)]
			}
			return ns
		}
		switch r.rng.Intn(5) {
		case 0:
			var cs []*gopoet.ConstSpec
			for j := 0; j < nspec; j++ {
				ns := specNames()
				c := gopoet.NewConst(ns...)
				cs = append(cs, c)
				checks = append(checks, multi("const", ns, c.SymbolAt, c.ToSymbol, c.String))
			}
			d := gopoet.NewConstDecl(cs...)
			add = func(f *gopoet.GoFile) { f.AddElement(d) }
			elem = func(e gopoet.FileElement) bool { return e == gopoet.FileElement(d) }
			if one {
				add = func(f *gopoet.GoFile) { f.AddConst(cs[0]) }
				elem = func(e gopoet.FileElement) bool {
					d, ok := e.(*gopoet.ConstDecl)
					return ok && len(d.Consts) == 1 && d.Consts[0] == cs[0] && d.Comment == ""
				}
			}
		case 1:
			var cs []*gopoet.VarSpec
			for j := 0; j < nspec; j++ {
				ns := specNames()
				c := gopoet.NewVar(ns...)
				cs = append(cs, c)
				checks = append(checks, multi("var", ns, c.SymbolAt, c.ToSymbol, c.String))
			}
			d := gopoet.NewVarDecl(cs...)
			add = func(f *gopoet.GoFile) { f.AddElement(d) }
			elem = func(e gopoet.FileElement) bool { return e == gopoet.FileElement(d) }
			if one {
				add = func(f *gopoet.GoFile) { f.AddVar(cs[0]) }
				elem = func(e gopoet.FileElement) bool {
					d, ok := e.(*gopoet.VarDecl)
					return ok && len(d.Vars) == 1 && d.Vars[0] == cs[0] && d.Comment == ""
				}
			}
		case 2:
			var cs []*gopoet.TypeSpec
			for j := 0; j < nspec; j++ {
				n := names[r.rng.Intn(4)]
				d := r.genD(2)
				if r.rng.Intn(2) == 0 {
					d = r.genKind(2, gopoet.KindInterface, gopoet.KindStruct)
				}
				ty := d.build()
				alias := r.rng.Intn(2) == 0
				var c *gopoet.TypeSpec
				if alias {
					c = gopoet.NewTypeAlias(n, ty)
				} else {
					c = gopoet.NewTypeSpec(n, ty)
				}
				if c.Name != n || c.IsAlias() != alias || c.Comment != "" || d.diff(c.Underlying(), nil) != "" {
					r.fail("type %q (alias %v) built from %s: name %q, alias %v, %s", n, alias, d.text(), c.Name, c.IsAlias(), d.diff(c.Underlying(), nil))
				}
				var ie []gopoet.InterfaceElement
				if d.k == gopoet.KindInterface && r.rng.Intn(2) == 0 && !alias {
					// the same type from declared elements, in mixed order
					es := append([]gopoet.Symbol{}, d.embeds...)
					ms := append([]DMethod{}, d.methods...)
					for len(es)+len(ms) > 0 {
						if len(ms) == 0 || len(es) > 0 && r.rng.Intn(2) == 0 {
							ie = append(ie, gopoet.NewInterfaceEmbed(es[0]))
							es = es[1:]
							continue
						}
						m := gopoet.NewInterfaceMethod(ms[0].name)
						m.Signature = *ms[0].sig.build()
						ie = append(ie, m)
						ms = ms[1:]
					}
					c = gopoet.NewInterfaceTypeSpec(n, ie...)
					if c.Name != n || c.IsAlias() || d.diff(c.Underlying(), nil) != "" {
						r.fail("interface type %q built from the elements of %s: %s", n, d.text(), d.diff(c.Underlying(), nil))
					}
				}
				var fs []*gopoet.FieldSpec
				if d.k == gopoet.KindStruct && r.rng.Intn(2) == 0 && !alias {
					for _, f := range d.fields {
						fs = append(fs, gopoet.NewField(f.name, f.t.build()).SetTag(f.tag))
					}
					c = gopoet.NewStructTypeSpec(n, fs...)
					if c.Name != n || c.IsAlias() || d.diff(c.Underlying(), nil) != "" {
						r.fail("struct type %q built from the fields of %s: %s", n, d.text(), d.diff(c.Underlying(), nil))
					}
				}
				cs = append(cs, c)
				checks = append(checks, func(added bool) {
					w := fmt.Sprintf("type %q with definition %s in package %#v, added %v: ", n, d.text(), pkg, added)
					check(w+"ToSymbol", n == "" || !added, str(sym(n)), func() string { return str(c.ToSymbol()) })
					want := n
					if added {
						want = pre + n
					}
					if n == "" {
						want = c.Underlying().String()
					}
					check(w+"String", false, want, func() string { return c.String() })
					check(w+"ToTypeName", n != "" && !added, "", func() string {
						if n == "" {
							return d.diff(c.ToTypeName(), nil)
						}
						return namedDiff(c.ToTypeName(), sym(n))
					})
					// a type of this type
					check(w+"NewTypeSpec from it", n != "" && !added, "", func() string {
						for _, al := range []bool{false, true} {
							u := gopoet.NewTypeSpec("New", c)
							if al {
								u = gopoet.NewTypeAlias("New", c)
							}
							if u.Name != "New" || u.IsAlias() != al {
								return fmt.Sprintf("name %q, alias %v", u.Name, u.IsAlias())
							}
							if n == "" {
								if x := d.diff(u.Underlying(), nil); x != "" {
									return x
								}
							} else if x := namedDiff(u.Underlying(), sym(n)); x != "" {
								return x
							}
						}
						u := gopoet.NewStructTypeSpec("New", gopoet.NewField("F", c)).Underlying()
						if n == "" {
							return d.diff(u.Fields()[0].Type, nil)
						}
						return namedDiff(u.Fields()[0].Type, sym(n))
					})
					for _, ptr := range []bool{false, true} {
						mk := gopoet.NewReceiverForType
						if ptr {
							mk = gopoet.NewPointerReceiverForType
						}
						check(fmt.Sprintf("%sreceiver, pointer %v", w, ptr), n == "", str(gopoet.ReceiverSpec{Name: "r", Type: n, IsPointer: ptr}), func() string { return str(*mk("r", c)) })
					}
					for j, e := range ie {
						m, ok := e.(*gopoet.InterfaceMethod)
						if !ok {
							continue
						}
						var sg *DSig
						for _, x := range d.methods {
							if x.name == m.Name {
								sg = x.sig
							}
						}
						x := fmt.Sprintf("%selement %d: ", w, j)
						check(x+"ToMethodRef", n == "" || !added, str(gopoet.MethodReference{Type: sym(n), Method: m.Name}), func() string { return str(m.ToMethodRef()) })
						check(x+"ToTypeName", n != "" && !added, "", func() string {
							return methodDiff(m.ToTypeName(), func(a gopoet.ArgType) string {
								if a.Name != "" {
									return "named " + a.Name
								}
								if n == "" {
									return d.diff(a.Type, nil)
								}
								return namedDiff(a.Type, sym(n))
							}, sg)
						})
						check(x+"String", false, m.Name, m.String)
					}
				})
			}
			d := gopoet.NewTypeDecl(cs...)
			add = func(f *gopoet.GoFile) { f.AddElement(d) }
			elem = func(e gopoet.FileElement) bool { return e == gopoet.FileElement(d) }
			if one {
				add = func(f *gopoet.GoFile) { f.AddType(cs[0]) }
				elem = func(e gopoet.FileElement) bool {
					d, ok := e.(*gopoet.TypeDecl)
					return ok && len(d.Types) == 1 && d.Types[0] == cs[0] && d.Comment == ""
				}
			}
		default:
			n := names[1+r.rng.Intn(3)]
			sg := r.genSig(2)
			var f *gopoet.FuncSpec
			var rc *gopoet.ReceiverSpec
			if r.rng.Intn(2) == 0 {
				f = gopoet.NewFunc(n)
			} else {
				rc = gopoet.NewReceiver(r.pick([]string{"", "r"}), "T")
				if r.rng.Intn(2) == 0 {
					rc = gopoet.NewPointerReceiver(rc.Name, "T")
				}
				f = gopoet.NewMethod(rc, n)
			}
			for _, a := range buildArgs(sg.args) {
				f.AddArg(a.Name, a.Type)
			}
			for _, a := range buildArgs(sg.res) {
				f.AddResult(a.Name, a.Type)
			}
			f.SetVariadic(sg.variadic)
			checks = append(checks, func(added bool) {
				w := fmt.Sprintf("func %s with receiver %#v and signature %v in package %#v, added %v: ", n, rc, &f.Signature, pkg, added)
				want := str(sym(n))
				if rc != nil {
					want = str(gopoet.MethodReference{Type: sym("T"), Method: n})
				}
				check(w+"ToSymbol", !added, want, func() string { return str(f.ToSymbol()) })
				want = n
				if rc == nil && added {
					want = pre + n
				}
				check(w+"String", false, want, f.String)
				check(w+"parameters after ToTypeName", rc != nil && !added, "", func() string {
					f.ToTypeName()
					return sg.diff(&f.Signature, nil)
				})
				check(w+"ToTypeName", rc != nil && !added, "", func() string {
					ty := f.ToTypeName()
					if rc == nil {
						if ty.Kind() != gopoet.KindFunc {
							return "not a function type"
						}
						return sg.diff(ty.Signature(), nil)
					}
					return methodDiff(ty, func(a gopoet.ArgType) string {
						if a.Name != rc.Name {
							return "named " + a.Name
						}
						x := a.Type
						if rc.IsPointer {
							if x.Kind() != gopoet.KindPtr {
								return "not a pointer"
							}
							x = x.Elem()
						}
						return namedDiff(x, sym("T"))
					}, sg)
				})
			})
			add = func(x *gopoet.GoFile) { x.AddElement(f) }
			elem = func(e gopoet.FileElement) bool { return e == gopoet.FileElement(f) }
		}
		for _, c := range checks {
			c(false)
		}
		add(file)
		file.AddType(gopoet.NewTypeSpec("Z", gopoet.IntType)).AddConst(gopoet.NewConst("y")).AddVar(gopoet.NewVar("z")).AddElement(gopoet.NewFunc("w"))
		other.AddType(gopoet.NewTypeSpec("Z", gopoet.IntType)).AddConst(gopoet.NewConst("y")).AddVar(gopoet.NewVar("z")).AddElement(gopoet.NewFunc("w"))
		if file.NumElements() != 5 || !elem(file.ElementAt(0)) {
			r.fail("element added to an empty file: %d elements, the first is %#v", file.NumElements(), file.ElementAt(0))
		}
		for _, c := range checks {
			c(true)
		}
		// receivers from plain types
		d := r.genD(2)
		if r.rng.Intn(2) == 0 {
			d = r.genKind(1, gopoet.KindPtr, gopoet.KindNamed)
		}
		ty := d.build()
		named, ptr := d.k == gopoet.KindNamed, d.k == gopoet.KindPtr && d.elem.k == gopoet.KindNamed
		want := ""
		if named {
			want = d.sym.Name
		} else if ptr {
			want = d.elem.sym.Name
		}
		check("NewReceiverForType("+d.text()+")", !named && !ptr, str(gopoet.ReceiverSpec{Name: "r", Type: want, IsPointer: ptr}), func() string { return str(*gopoet.NewReceiverForType("r", ty)) })
		check("NewPointerReceiverForType("+d.text()+")", !named, str(gopoet.ReceiverSpec{Name: "r", Type: want, IsPointer: true}), func() string { return str(*gopoet.NewPointerReceiverForType("r", ty)) })
	}
	check("NewReceiver(empty type)", true, "", func() string { gopoet.NewReceiver("r", ""); return "" })
}

// genKind generates a type of one of the given kinds.
func (r *replay) genKind(depth int, ks ...gopoet.TypeKind) *D {
	for i := 0; i < 1000; i++ {
		if d := r.genD(depth); true {
			for _, k := range ks {
				if d.k == k {
					return d
				}
			}
		}
	}
	return r.genD(depth)
}
