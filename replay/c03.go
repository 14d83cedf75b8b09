package gopoet_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/jhump/gopoet"
)

func TestReplayC03(t *testing.T) {
	r := newReplay(t, "types, signatures and symbols imported and qualified against import sets with earlier registrations")
	for i := 0; i < 4000*r.scale && !r.late(); i++ {
		own := r.pick([]string{"", "example.com/own", "example.com/foo", "io"})
		imps := gopoet.NewImportsFor(own)
		hist := "own path " + own
		reg := map[string]string{}
		before := func() map[string]string {
			m := map[string]string{}
			for _, s := range imps.ImportSpecs() {
				m[s.ImportPath] = s.PackageAlias
			}
			return m
		}
		if own == "" && r.rng.Intn(2) == 0 {
			imps = &gopoet.Imports{}
		}
		for j, n := 0, r.rng.Intn(4); j < n; j++ {
			p := genPkgs[r.rng.Intn(len(genPkgs))]
			imps.RegisterImportForPackage(p)
			hist += ", registered " + p.ImportPath
		}
		qual := func(p gopoet.Package) string {
			if p.ImportPath == own {
				return ""
			}
			return strings.TrimSuffix(imps.PrefixForPackage(p.ImportPath), ".")
		}
		for step := 0; step < 3; step++ {
			d := r.genD(3)
			if r.rng.Intn(3) == 0 {
				d = &D{k: gopoet.KindNamed, n: -1, sym: r.genSym()}
			}
			mode := r.rng.Intn(3) // type, signature, symbol
			if mode == 1 {
				d = &D{k: gopoet.KindFunc, n: -1, sig: r.genSig(3)}
			}
			if mode == 2 && d.k != gopoet.KindNamed {
				mode = 0
			}
			imp := r.rng.Intn(2) == 0
			what := fmt.Sprintf("%s; then import=%v of %s", hist, imp, d.text())
			r.tried(what)
			ty := d.build()
			sig := ty.Signature()
			old := before()
			for p := range old {
				reg[p] = imps.PrefixForPackage(p)
			}
			missing := ""
			d.pkgs(func(p gopoet.Package) {
				if _, ok := old[p.ImportPath]; !ok && p.ImportPath != own {
					missing = p.ImportPath
				}
			})
			var got gopoet.TypeName
			pan := catch(func() {
				switch {
				case mode == 0 && imp:
					got = imps.EnsureTypeImported(ty)
				case mode == 0:
					got = imps.QualifyType(ty)
				case mode == 1 && imp:
					got = gopoet.FuncTypeFromSig(imps.EnsureAllTypesImported(sig))
				case mode == 1:
					got = gopoet.FuncTypeFromSig(imps.QualifySignature(sig))
				case imp:
					got = gopoet.NamedType(imps.EnsureImported(d.sym))
				default:
					got = gopoet.NamedType(imps.Qualify(d.sym))
				}
			})
			if (pan != nil) != (!imp && missing != "") {
				r.fail("%s: panic %v; package not registered: %q", what, pan, missing)
			}
			if s := d.diff(ty, nil); s != "" {
				r.fail("%s: the argument was modified: %s", what, s)
			}
			now := before()
			for p := range reg {
				if _, ok := now[p]; !ok {
					r.fail("%s: %s is no longer registered", what, p)
				}
				if x := imps.PrefixForPackage(p); x != reg[p] {
					r.fail("%s: the prefix of %s changed from %q to %q", what, p, reg[p], x)
				}
			}
			want := map[string]bool{}
			for p := range old {
				want[p] = true
			}
			if imp {
				d.pkgs(func(p gopoet.Package) {
					if p.ImportPath != own {
						want[p.ImportPath] = true
					}
				})
			}
			for p := range want {
				if _, ok := now[p]; !ok {
					r.fail("%s: %s was not registered", what, p)
				}
			}
			for p := range now {
				if !want[p] {
					r.fail("%s: %s was registered", what, p)
				}
			}
			if pan == nil {
				if s := d.diff(got, qual); s != "" {
					r.fail("%s: result %v: %s", what, got, s)
				}
			}
			hist = what
			if len(hist) > 1500 {
				break
			}
		}
	}
}
