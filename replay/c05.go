package gopoet_test

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/jhump/gopoet"
)

func goSym(s gopoet.Symbol) string {
	if s.Package.Name == "" {
		return s.Name
	}
	return s.Package.Name + "." + s.Name
}

// goText is the Go type literal for d.
func (d *D) goText() string {
	switch d.k {
	case gopoet.KindNamed:
		return goSym(d.sym)
	case gopoet.KindBasic:
		switch d.bk {
		case reflect.Uint8:
			return "byte"
		case reflect.Int32:
			return "rune"
		}
		return d.bk.String()
	case gopoet.KindPtr:
		return "*" + d.elem.goText()
	case gopoet.KindSlice:
		return "[]" + d.elem.goText()
	case gopoet.KindArray:
		return "[" + strconv.FormatInt(d.n, 10) + "]" + d.elem.goText()
	case gopoet.KindMap:
		return "map[" + d.key.goText() + "]" + d.elem.goText()
	case gopoet.KindChan:
		e := d.elem.goText()
		switch d.dir {
		case reflect.RecvDir:
			return "<-chan " + e
		case reflect.SendDir:
			return "chan<- " + e
		}
		if d.elem.k == gopoet.KindChan && d.elem.dir == reflect.RecvDir {
			e = "(" + e + ")"
		}
		return "chan " + e
	case gopoet.KindFunc:
		return "func" + d.sig.goText()
	case gopoet.KindStruct:
		var ss []string
		for _, f := range d.fields {
			s := f.t.goText()
			if f.name != "" {
				s = f.name + " " + s
			}
			if f.tag != "" {
				if strconv.CanBackquote(f.tag) {
					s += " `" + f.tag + "`"
				} else {
					s += " " + strconv.Quote(f.tag)
				}
			}
			ss = append(ss, s)
		}
		return "struct{" + strings.Join(ss, "; ") + "}"
	}
	var ss []string
	for _, e := range d.embeds {
		ss = append(ss, goSym(e))
	}
	for _, m := range d.methods {
		ss = append(ss, m.name+m.sig.goText())
	}
	return "interface{" + strings.Join(ss, "; ") + "}"
}

func (s *DSig) goText() string {
	list := func(as []DArg, variadic bool) (string, bool) {
		named := false
		for _, a := range as {
			named = named || a.name != ""
		}
		var ss []string
		for i, a := range as {
			t := a.t.goText()
			if variadic && i == len(as)-1 {
				t = "..." + a.t.elem.goText()
			}
			if named {
				n := a.name
				if n == "" {
					n = "_"
				}
				t = n + " " + t
			}
			ss = append(ss, t)
		}
		return strings.Join(ss, ", "), named
	}
	a, _ := list(s.args, s.variadic)
	out := "(" + a + ")"
	if len(s.res) > 0 {
		t, named := list(s.res, false)
		if len(s.res) > 1 || named {
			t = "(" + t + ")"
		}
		out += " " + t
	}
	return out
}

func TestReplayC05(t *testing.T) {
	r := newReplay(t, "the text of constructed types, compared with the literal built from their description and parsed back; symbols and packages")
	for _, pn := range []string{"", "p", "a_b", "é"} {
		for _, n := range []string{"T", "t", "", "error"} {
			for _, path := range []string{"", "example.com/p"} {
				s := gopoet.Symbol{Name: n, Package: gopoet.Package{Name: pn, ImportPath: path}}
				r.tried(fmt.Sprintf("symbol %#v", s))
				if got := s.String(); got != goSym(s) {
					r.fail("the text of %#v is %q, not %q", s, got, goSym(s))
				}
				if got := s.Package.String(); got != pn {
					r.fail("the text of %#v is %q, not %q", s.Package, got, pn)
				}
			}
		}
	}
	one := func(d *D) {
		r.tried(d.text())
		var got string
		ty := d.build()
		if p := catch(func() { got = ty.String() }); p != nil {
			r.fail("the text of %s: panic %v", d.text(), p)
		}
		if s := d.parses(got); s != "" {
			r.fail("the text of %s is %q: %s", d.text(), got, s)
		}
		if want := d.goText(); got != want {
			r.fail("the text of %s is %q, not %q", d.text(), got, want)
		}
		if s := d.diff(ty, nil); s != "" {
			r.fail("printing %s changed it: %s", d.text(), s)
		}
	}
	// every kind inside every other, and every direction in every direction
	var leaves []*D
	for _, k := range basicKinds {
		leaves = append(leaves, &D{k: gopoet.KindBasic, bk: k, n: -1})
	}
	i := leaves[1]
	nm := func(n string, p gopoet.Package) *D {
		return &D{k: gopoet.KindNamed, n: -1, sym: gopoet.Symbol{Name: n, Package: p}}
	}
	leaves = append(leaves, nm("error", gopoet.Package{}), nm("T", genPkgs[0]))
	wrap := func(e *D) []*D {
		var out []*D
		for dir := reflect.ChanDir(1); dir <= 3; dir++ {
			out = append(out, &D{k: gopoet.KindChan, n: -1, dir: dir, elem: e})
		}
		sl := &D{k: gopoet.KindSlice, n: -1, elem: e}
		out = append(out, sl, &D{k: gopoet.KindPtr, n: -1, elem: e}, &D{k: gopoet.KindArray, n: 3, elem: e}, &D{k: gopoet.KindArray, n: 0, elem: e},
			&D{k: gopoet.KindMap, n: -1, key: e, elem: i}, &D{k: gopoet.KindMap, n: -1, key: i, elem: e})
		fn := func(s DSig) { out = append(out, &D{k: gopoet.KindFunc, n: -1, sig: &s}) }
		for mask := 0; mask < 16; mask++ {
			name := func(b int, n string) string {
				if mask&(1<<uint(b)) != 0 {
					return n
				}
				return ""
			}
			fn(DSig{args: []DArg{{name(0, "a"), i}, {name(1, "b"), e}}, res: []DArg{{name(2, "r"), e}, {name(3, "s"), i}}})
			fn(DSig{args: []DArg{{name(0, "a"), i}, {name(1, "b"), sl}}, variadic: true, res: []DArg{{name(2, "r"), e}}})
			fn(DSig{args: []DArg{{name(0, "a"), sl}, {name(1, "b"), sl}}})
		}
		fn(DSig{args: []DArg{{"a", sl}}, variadic: true})
		fn(DSig{args: []DArg{{"", sl}}, variadic: true})
		fn(DSig{})
		for _, tag := range []string{"", `a:"b"`, "`", "\n", "x\\"} {
			out = append(out, &D{k: gopoet.KindStruct, n: -1, fields: []DField{{"A", e, tag}}}, &D{k: gopoet.KindStruct, n: -1, fields: []DField{{"A", e, tag}, {"B", i, tag}, {"C", e, ""}}},
				&D{k: gopoet.KindStruct, n: -1, fields: []DField{{"", nm("T", genPkgs[1]), tag}, {"B", e, ""}}})
		}
		m := DMethod{"M", &DSig{args: []DArg{{"", e}}}}
		m2 := DMethod{"N", &DSig{res: []DArg{{"", e}}}}
		e1, e2 := gopoet.Symbol{Name: "error"}, gopoet.Symbol{Name: "R", Package: genPkgs[4]}
		for _, ms := range [][]DMethod{nil, {m}, {m, m2}} {
			for _, es := range [][]gopoet.Symbol{nil, {e1}, {e1, e2}} {
				out = append(out, &D{k: gopoet.KindInterface, n: -1, methods: ms, embeds: es})
			}
		}
		return out
	}
	for _, e := range leaves {
		one(e)
	}
	for _, e := range append([]*D{leaves[6], leaves[17], leaves[18]}, wrap(i)...) {
		for _, w := range wrap(e) {
			one(w)
		}
	}
	for n := 0; n < 3000*r.scale && !r.late(); n++ {
		one(r.genD(3))
	}
}
