package gopoet_test

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/jhump/gopoet"
)

// importModel is the intended behaviour of an import set.
type importModel struct {
	own    string
	names  map[string]string // path -> name
	alias  map[string]bool
	byName map[string]string
}

func newImportModel(own string) *importModel {
	return &importModel{own: own, names: map[string]string{}, alias: map[string]bool{}, byName: map[string]string{}}
}

func (m *importModel) register(p, nm string) string {
	if p == m.own {
		return ""
	}
	if n, ok := m.names[p]; ok {
		return n + "."
	}
	b := nm
	if b == "" {
		b = path.Base(p)
	}
	n := b
	for s := 1; m.byName[n] != "" || m.has(n); s++ {
		n = b + strconv.Itoa(s)
	}
	m.names[p] = n
	m.byName[n] = p
	m.alias[p] = n != nm
	return n + "."
}

func (m *importModel) has(n string) bool { _, ok := m.byName[n]; return ok }

func (m *importModel) specs() []gopoet.ImportSpec {
	var ps []string
	for p := range m.names {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	var out []gopoet.ImportSpec
	for _, p := range ps {
		s := gopoet.ImportSpec{ImportPath: p}
		if m.alias[p] {
			s.PackageAlias = m.names[p]
		}
		out = append(out, s)
	}
	return out
}

var c01Paths = []string{"a", "b/a", "c/a", "d/e/a", "a1", "x/a1", "y/a1", "b", "c/b", "own", "z/own", "p/v2", "q/v2", "a10", "g/a2", "x/a-b", "", "b/Z", "B/a"}
var c01Names = []string{"", "", "a", "a", "a1", "a2", "a11", "b", "v2", "own", "zed", "a0"}

func checkImports(r *replay, own string, specs bool, steps int) {
	imp := gopoet.NewImportsFor(own)
	m := newImportModel(own)
	var log []string
	hist := func() string { return fmt.Sprintf("NewImportsFor(%q); ", own) + strings.Join(log, "; ") }
	for s := 0; s < steps; s++ {
		p, n := r.pick(c01Paths), r.pick(c01Names)
		switch r.rng.Intn(5) {
		case 0, 1:
			log = append(log, fmt.Sprintf("RegisterImport(%q, %q)", p, n))
			want := m.register(p, n)
			if got := imp.RegisterImport(p, n); got != want {
				r.fail("%s\nreturned prefix %q, want %q", hist(), got, want)
			}
		case 2:
			log = append(log, fmt.Sprintf("RegisterImportForPackage(%q, %q)", p, n))
			want := m.register(p, n)
			if got := imp.RegisterImportForPackage(gopoet.Package{ImportPath: p, Name: n}); got != want {
				r.fail("%s\nreturned prefix %q, want %q", hist(), got, want)
			}
		case 3:
			log = append(log, fmt.Sprintf("PrefixForPackage(%q)", p))
			want, ok := m.names[p]
			if p != own && ok {
				want += "."
			}
			var got string
			pn := catch(func() { got = imp.PrefixForPackage(p) })
			if p == own {
				want, ok = "", true
			}
			if ok && pn != nil {
				r.fail("%s\npanicked: %v, want %q", hist(), pn, want)
			}
			if !ok && pn == nil {
				r.fail("%s\nreturned %q, want a panic: the package was never registered", hist(), got)
			}
			if ok && got != want {
				r.fail("%s\nreturned prefix %q, want %q", hist(), got, want)
			}
		case 4:
			if specs {
				log = append(log, "ImportSpecs()")
				got, want := imp.ImportSpecs(), m.specs()
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) && len(got)+len(want) > 0 {
					r.fail("%s\nImportSpecs() = %q, want %q", hist(), got, want)
				}
			}
		}
		// everything registered so far keeps its prefix
		for q, nm := range m.names {
			var got string
			if pn := catch(func() { got = imp.PrefixForPackage(q) }); pn != nil || got != nm+"." {
				r.fail("%s\nPrefixForPackage(%q) = %q (panic %v), want %q", hist(), q, got, pn, nm+".")
			}
		}
		if len(imp.ImportSpecs()) != len(m.names) {
			r.fail("%s\n%d packages registered, want %d (%q)", hist(), len(imp.ImportSpecs()), len(m.names), imp.ImportSpecs())
		}
	}
	if specs {
		got, want := imp.ImportSpecs(), m.specs()
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) && len(got)+len(want) > 0 {
			r.fail("%s\nImportSpecs() = %q, want %q", hist(), got, want)
		}
		for k := range got {
			got[k].ImportPath = "changed"
		}
		if g2 := imp.ImportSpecs(); fmt.Sprintf("%q", g2) != fmt.Sprintf("%q", want) && len(want) > 0 {
			r.fail("%s\nImportSpecs() after changing an earlier result = %q, want %q", hist(), g2, want)
		}
	}
	r.tried(hist())
}

func TestReplayC01(t *testing.T) {
	r := newReplay(t, "random registration histories over conflicting paths and names against a reference import set")
	for k := 0; k < 3000*r.scale && !r.late(); k++ {
		checkImports(r, r.pick([]string{"own", "a", "", "q/v2", "elsewhere"}), false, 1+r.rng.Intn(14))
	}
	// many conflicts on one name
	for _, n := range []int{12, 120} {
		imp, m := gopoet.NewImportsFor("self"), newImportModel("self")
		for k := 0; k < n; k++ {
			p, nm := fmt.Sprintf("p%d/x", k), ""
			if k%3 == 0 {
				nm = "x"
			}
			if k%5 == 4 {
				nm = fmt.Sprintf("x%d", k)
			}
			want := m.register(p, nm)
			if got := imp.RegisterImport(p, nm); got != want {
				r.fail("registering %d packages named x: RegisterImport(%q, %q) = %q, want %q", n, p, nm, got, want)
			}
		}
		r.tried(fmt.Sprint("conflicts ", n))
	}
}

func TestReplayC02(t *testing.T) {
	r := newReplay(t, "random registration histories, then the import statements against a reference import set")
	for k := 0; k < 2000*r.scale && !r.late(); k++ {
		checkImports(r, r.pick([]string{"own", "a", "", "elsewhere"}), true, 1+r.rng.Intn(16))
	}
	for _, al := range []string{"", "x", "foo2"} {
		for _, p := range append(c01Paths, "we\"ird", "back\\slash", "new\nline", "ünï") {
			want := strconv.Quote(p)
			if al != "" {
				want = al + " " + want
			}
			if got := (gopoet.ImportSpec{PackageAlias: al, ImportPath: p}).String(); got != want {
				r.fail("ImportSpec{%q, %q}.String() = %s, want %s", al, p, got, want)
			}
			r.tried(want)
		}
	}
}
