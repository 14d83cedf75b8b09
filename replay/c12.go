package gopoet_test

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/jhump/gopoet"
)

// recW records what is done to it.
type recW struct {
	ev   *[]string
	id   string
	fail error
	buf  bytes.Buffer
}

func (w *recW) Write(p []byte) (int, error) {
	*w.ev = append(*w.ev, "write "+w.id)
	w.buf.Write(p)
	if w.fail != nil {
		return 0, w.fail
	}
	return len(p), nil
}

func (w *recW) Close() error {
	*w.ev = append(*w.ev, "close "+w.id)
	return nil
}

type fileDesc struct {
	pkg, name string
	bad       bool // does not format
	empty     bool
	code      string
	canonical string
}

func (d fileDesc) build() *gopoet.GoFile {
	f := gopoet.NewGoFile(d.name, d.pkg, "p")
	f.CanonicalImportPath = d.canonical
	if d.empty {
		return f
	}
	fn := gopoet.NewFunc("F")
	if d.bad {
		fn.Println("if {{{")
	}
	fn.Println("var a  =   1")
	fn.Println("_ = a")
	fn.Println(d.code)
	f.AddElement(fn)
	f.AddVar(gopoet.NewVar("v").SetType(gopoet.PointerType(gopoet.NamedType(gopoet.NewSymbol("verif.example/other", "T")))))
	return f
}

// text renders the file on its own.
func (d fileDesc) text() (string, error) {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, d.build())
	return b.String(), err
}

func (r *replay) genFile() fileDesc {
	d := fileDesc{
		pkg:   r.pick([]string{"verif-scratch.example/a", "verif-scratch.example/b/c", "verif-scratch.example/d", ""}),
		name:  r.pick([]string{"x.go", "y.go", "z_test.go", "a%20b.go"}),
		bad:   r.rng.Intn(6) == 0,
		empty: r.rng.Intn(6) == 0,
		code:  r.pick([]string{"", "// note", "var b   int; _ = b"}),
	}
	d.canonical = r.pick([]string{"", "", "verif-scratch.example/canon"})
	d.bad = d.bad && !d.empty
	return d
}

func TestReplayC12(t *testing.T) {
	r := newReplay(t, "files to write, writers and openers that fail at chosen points")
	// keep stray output inside a scratch directory
	scratch := t.TempDir()
	cwd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(cwd)
	inner := filepath.Join(scratch, "cwd")
	os.Mkdir(inner, 0777)
	if err := os.Chdir(inner); err != nil {
		t.Fatal(err)
	}
	// one file
	for i := 0; i < 150*r.scale && !r.late(); i++ {
		d := r.genFile()
		var ev []string
		w := &recW{ev: &ev, id: "w"}
		if r.rng.Intn(3) == 0 {
			w.fail = errors.New("disk full")
		}
		err := gopoet.WriteGoFile(w, d.build())
		desc := fmt.Sprintf("WriteGoFile of %+v, writer fails: %v", d, w.fail)
		r.tried(desc)
		if d.bad {
			fe, ok := err.(*gopoet.FormatError)
			if !ok || fe == nil {
				r.fail("%s: error is %#v, want a *FormatError", desc, err)
			}
			if len(ev) != 0 {
				r.fail("%s: writer saw %v, want nothing", desc, ev)
			}
			if _, e2 := format.Source(fe.Unformatted); e2 == nil || !strings.Contains(string(fe.Unformatted), "if {{{") {
				r.fail("%s: unformatted text is %q", desc, fe.Unformatted)
			}
			if fe.Err == nil {
				r.fail("%s: no cause", desc)
			}
			continue
		}
		if err != w.fail {
			r.fail("%s: error is %v", desc, err)
		}
		if fmt.Sprint(ev) != "[write w]" {
			r.fail("%s: writer saw %v, want one write", desc, ev)
		}
		out := w.buf.Bytes()
		f2, e2 := format.Source(out)
		if e2 != nil || !bytes.Equal(f2, out) || !bytes.Contains(out, []byte("package p")) {
			r.fail("%s: what was written is not formatted source: %q", desc, out)
		}
	}
	// several
	for i := 0; i < 400*r.scale && !r.late(); i++ {
		n := r.rng.Intn(4)
		var ds []fileDesc
		var fs []*gopoet.GoFile
		openFail, writeFail := -1, -1
		if r.rng.Intn(3) == 0 && n > 0 {
			openFail = r.rng.Intn(n)
		}
		if r.rng.Intn(3) == 0 && n > 0 {
			writeFail = r.rng.Intn(n)
		}
		for j := 0; j < n; j++ {
			d := r.genFile()
			ds = append(ds, d)
			fs = append(fs, d.build())
		}
		eOpen, eWrite := errors.New("cannot open"), errors.New("cannot write")
		var ev []string
		var ws []*recW
		k := 0
		err := gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) {
			ev = append(ev, fmt.Sprintf("open %d %s", k, p))
			w := &recW{ev: &ev, id: fmt.Sprint(k)}
			if k == writeFail {
				w.fail = eWrite
			}
			k++
			if k-1 == openFail {
				return nil, eOpen
			}
			ws = append(ws, w)
			return w, nil
		}, fs...)
		desc := fmt.Sprintf("WriteGoFiles of %+v, opening %d fails, writing %d fails", ds, openFail, writeFail)
		r.tried(desc)
		var want []string
		var wantErr error
		isFmt := false
		for j, d := range ds {
			want = append(want, fmt.Sprintf("open %d %s", j, filepath.Join(d.pkg, d.name)))
			if j == openFail {
				wantErr = eOpen
				break
			}
			if !d.bad {
				want = append(want, fmt.Sprintf("write %d", j))
			}
			want = append(want, fmt.Sprintf("close %d", j))
			if d.bad {
				isFmt = true
				break
			}
			if j == writeFail {
				wantErr = eWrite
				break
			}
		}
		if fmt.Sprint(ev) != fmt.Sprint(want) {
			r.fail("%s: events %v, want %v", desc, ev, want)
		}
		if isFmt {
			if _, ok := err.(*gopoet.FormatError); !ok {
				r.fail("%s: error is %#v, want a *FormatError", desc, err)
			}
		} else if err != wantErr {
			r.fail("%s: error is %v, want %v", desc, err, wantErr)
		}
		for j, w := range ws {
			if ds[j].bad {
				continue
			}
			if txt, _ := ds[j].text(); txt != w.buf.String() {
				r.fail("%s: file %d got %q, want %q", desc, j, w.buf.String(), txt)
			}
		}
	}
	// on disk
	for i := 0; i < 60*r.scale && !r.late(); i++ {
		root := filepath.Join(scratch, fmt.Sprintf("r%d", i), r.pick([]string{"root", "deep/er", "sp ace"}))
		var ds []fileDesc
		var fs []*gopoet.GoFile
		for j, n := 0, r.rng.Intn(4); j < n; j++ {
			d := r.genFile()
			if d.pkg == "" {
				d.pkg = "verif-scratch.example"
			}
			ds = append(ds, d)
			fs = append(fs, d.build())
		}
		stale := r.rng.Intn(2) == 0
		block := -1
		if len(ds) > 0 && r.rng.Intn(4) == 0 {
			block = r.rng.Intn(len(ds))
		}
		want := map[string]string{}
		for j, d := range ds {
			p := filepath.Join(root, d.pkg, d.name)
			if stale {
				os.MkdirAll(filepath.Dir(p), 0777)
				os.WriteFile(p, bytes.Repeat([]byte("old\n"), 500), 0666)
				want[p] = strings.Repeat("old\n", 500)
			}
			_ = j
		}
		if block >= 0 {
			p := filepath.Join(root, ds[block].pkg, ds[block].name)
			os.Remove(p)
			os.MkdirAll(p, 0777)
			delete(want, p)
		}
		useGo := r.rng.Intn(2) == 0
		var err error
		desc := fmt.Sprintf("files %+v written below %s (GOPATH form: %v, stale files: %v, blocked: %d)", ds, root, useGo, stale, block)
		r.tried(desc)
		if useGo {
			gp := root
			if r.rng.Intn(2) == 0 {
				gp += string(filepath.ListSeparator) + filepath.Join(scratch, "second")
			}
			os.Setenv("GOPATH", gp)
			err = gopoet.WriteGoFilesToGoPath(fs...)
			os.Unsetenv("GOPATH")
		} else {
			err = gopoet.WriteGoFilesToFileSystem(root, fs...)
		}
		failed := false
		for j, d := range ds {
			p := filepath.Join(root, d.pkg, d.name)
			if block >= 0 && p == filepath.Join(root, ds[block].pkg, ds[block].name) {
				failed = true
				break
			}
			_ = j
			if d.bad {
				want[p] = ""
				failed = true
				break
			}
			want[p], _ = d.text()
		}
		if failed != (err != nil) {
			r.fail("%s: error is %v", desc, err)
		}
		got := map[string]string{}
		filepath.Walk(scratch, func(p string, fi os.FileInfo, e error) error {
			if e == nil && fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				got[p] = string(b)
			}
			return nil
		})
		if a, b := dump(got), dump(want); a != b {
			r.fail("%s: files are\n%s\nwant\n%s", desc, a, b)
		}
		os.RemoveAll(filepath.Join(scratch, fmt.Sprintf("r%d", i)))
	}
	os.Unsetenv("GOPATH")
	if err := gopoet.WriteGoFilesToGoPath(fileDesc{pkg: "verif-scratch.example/a", name: "x.go"}.build()); err == nil {
		r.fail("WriteGoFilesToGoPath with GOPATH unset: no error")
	}
}

func dump(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s: %q\n", k, m[k])
	}
	return s
}
