// C12: what is opened, written and closed, in which order
sort Ev
fn mkOpen(path string, w io.WriteCloser, err error) Ev
fn mkWrite(w Iface, s string, err error) Ev
fn mkClose(w Iface) Ev
fn mkMkdir(dir string, err error) Ev
fn mkCreate(path string, w io.WriteCloser, err error) Ev
fn snoc(t Trace, e Ev) Trace
fn trlen(t Trace) int
fn evAt(t Trace, i int) Ev
axiom trace-len: forall t Trace {trlen(t)} :: trlen(t) >= 0
axiom trace-snoc: forall t Trace; e Ev {snoc(t, e)} :: trlen(snoc(t, e)) == trlen(t) + 1
axiom trace-at: forall t Trace; e Ev; i int {evAt(snoc(t, e), i)} :: evAt(snoc(t, e), i) == (if i == trlen(t) then e else evAt(t, i))
fn opw(e Ev) Iface
fn wtxt(e Ev) string
fn everr(e Ev) error
axiom open-w: forall p string; w io.WriteCloser; r error {mkOpen(p, w, r)} :: opw(mkOpen(p, w, r)) == w && everr(mkOpen(p, w, r)) == r
axiom create-w: forall p string; w io.WriteCloser; r error {mkCreate(p, w, r)} :: opw(mkCreate(p, w, r)) == w && everr(mkCreate(p, w, r)) == r
axiom mkdir-err: forall p string; r error {mkMkdir(p, r)} :: everr(mkMkdir(p, r)) == r
axiom write-w: forall p string; w Iface; r error {mkWrite(w, p, r)} :: wtxt(mkWrite(w, p, r)) == p && everr(mkWrite(w, p, r)) == r
pred evOpen(t Trace, path string, w io.WriteCloser, err error) = snoc(t, mkOpen(path, w, err))
pred evWrite(t Trace, w Iface, s string, err error) = snoc(t, mkWrite(w, s, err))
pred evClose(t Trace, w Iface) = snoc(t, mkClose(w))
pred evMkdir(t Trace, dir string, err error) = snoc(t, mkMkdir(dir, err))
pred evCreate(t Trace, path string, w io.WriteCloser, err error) = snoc(t, mkCreate(path, w, err))
// texts that are the formatted form of something
fn fmtd(s string) bool
axiom formatted: forall s string {gofmtText(s)} :: gofmtOK(s) ==> fmtd(gofmtText(s))

fn gofmtOK(s string) bool
fn gofmtText(s string) string
fn gofmtErr(s string) error
fn joinP(a string, b string) string
axiom trusted(filepath) join3: forall a, b, c string {joinP(a, joinP(b, c))} :: joinP(a, joinP(b, c)) == joinN(a, b, c)
fn joinN(a string, b string, c string) string
fn dirP(p string) string
fn envVal(name string) string
fn splitAt(s string, sep string, i int) string
fn splitN(s string, sep string) int
axiom trusted(strings) split1: forall s, sep string {splitN(s, sep)} :: sep != "" ==> 1 <= splitN(s, sep)

ext format.Source(src)
  trusted(stdlib)
  ensures gofmtOK(bytes(src)) ==> result1 == nil && bytes(result0) == gofmtText(bytes(src))
  ensures !gofmtOK(bytes(src)) ==> result1 != nil && result1 == gofmtErr(bytes(src))
ext filepath.Join(elem)
  trusted(stdlib)
  pure
  ensures len(elem) == 2 ==> result == joinP(elem[0], elem[1])
  ensures len(elem) == 3 ==> result == joinN(elem[0], elem[1], elem[2])
ext filepath.Dir(p)
  trusted(stdlib)
  pure
  ensures result == dirP(p)
ext os.Getenv(name)
  trusted(stdlib)
  pure
  ensures result == envVal(name)
ext strings.Split(s, sep)
  trusted(stdlib)
  ensures fresh(result) && len(result) == splitN(s, sep) && forall j int {result[j]} :: 0 <= j && j < len(result) ==> result[j] == splitAt(s, sep, j)
ext errors.New(text)
  trusted(stdlib)
  pure
  ensures result != nil
ext io.Writer.Write(w, p)
  trusted(user)
  modifies trace
  ensures trace == evWrite(old(trace), w, bytes(p), result1)
ext io.WriteCloser.Write(w, p)
  trusted(user)
  modifies trace
  ensures trace == evWrite(old(trace), w, bytes(p), result1)
ext io.WriteCloser.Close(w)
  trusted(user)
  modifies trace
  ensures trace == evClose(old(trace), w)
ext dyn.string__io.WriteCloser_error(f, path)
  trusted(user)
  modifies trace
  ensures result1 == nil ==> result0 != nil
  ensures trace == evOpen(old(trace), path, result0, result1)
ext os.MkdirAll(path, perm)
  trusted(stdlib)
  modifies trace
  ensures trace == evMkdir(old(trace), path, result)
ext os.OpenFile(name, flag, perm)
  trusted(stdlib)
  modifies trace
  ensures flag == os.O_WRONLY + os.O_CREATE + os.O_TRUNC ==> trace == evCreate(old(trace), name, box(*os.File, result0), result1)
  ensures result1 == nil ==> result0 != null

iface FileElement.qualify(e, imports)
  effects
iface FileElement.writeTo(e, b)
  effects
func writeComment(comment, w)
  effects
func GoFile.writeTo(f, w)
  props C12
  modifies anything
  may_panic
  ensures result == nil && trace == old(trace)

// one file: nothing, or one write of the formatted source
pred formatFail(t0 Trace, t1 Trace, e error, s string) = t1 == t0 && !gofmtOK(s) && is(e, *FormatError) && as(e, *FormatError) != null && bytes(as(e, *FormatError).Unformatted) == s && as(e, *FormatError).Err == gofmtErr(s)
pred wrote(t0 Trace, t1 Trace, w Iface, e error, s string) = gofmtOK(s) && t1 == evWrite(t0, w, gofmtText(s), e)
func WriteGoFile(w, f)
  props C12
  requires w != nil
  modifies anything
  may_panic
  ensures ok: result == nil ==> exists s string {gofmtText(s)} {gofmtOK(s)} :: wrote(old(trace), trace, w, result, s)
  ensures fail: result != nil ==> exists s string {gofmtText(s)} {gofmtOK(s)} :: wrote(old(trace), trace, w, result, s) || formatFail(old(trace), trace, result, s)

fn ix(n int, d int, j int) int
axiom ix: forall n, d, j int {ix(n, d, j)} :: ix(n, d, j) == n + d * j

// several files: open, one write, close for each in turn
pred fpath(f *GoFile) = joinP(f.Imports.pkgPath, f.Name)
pred kept(t0 Trace, t Trace) = forall i int {evAt(t, i)} :: 0 <= i && i < trlen(t0) ==> evAt(t, i) == evAt(t0, i)
pred written(t Trace, i int, w Iface) = evAt(t, i) == mkWrite(w, wtxt(evAt(t, i)), nil) && fmtd(wtxt(evAt(t, i))) && evAt(t, i + 1) == mkClose(w)
pred fileDone(t Trace, i int, path string) = evAt(t, i) == mkOpen(path, opw(evAt(t, i)), nil) && written(t, i + 1, opw(evAt(t, i)))
// the writer w got nothing (or one write that failed), was closed, and the error of that came out
pred failedWrite(t Trace, i int, w Iface, e error) = (trlen(t) == i + 1 && is(e, *FormatError) && evAt(t, i) == mkClose(w)) || (trlen(t) == i + 2 && evAt(t, i) == mkWrite(w, wtxt(evAt(t, i)), e) && fmtd(wtxt(evAt(t, i))) && evAt(t, i + 1) == mkClose(w))
pred fileFailed(t Trace, i int, path string, e error) = (trlen(t) == i + 1 && evAt(t, i) == mkOpen(path, opw(evAt(t, i)), e)) || (evAt(t, i) == mkOpen(path, opw(evAt(t, i)), nil) && failedWrite(t, i + 1, opw(evAt(t, i)), e))
func WriteGoFiles(outFn, files)
  props C12
  inline closures
  requires forall j int {files[j]} :: 0 <= j && j < len(files) ==> files[j] != null
  modifies anything
  may_panic
  inv trlen(trace) == ix(entry(trlen(trace)), 3, k)
  inv forall j int {files[j]} {ix(entry(trlen(trace)), 3, j)} :: 0 <= j && j < k ==> fileDone(trace, ix(entry(trlen(trace)), 3, j), fpath(files[j]))
  inv forall i int {evAt(trace, i)} :: 0 <= i && i < entry(trlen(trace)) ==> evAt(trace, i) == entry(evAt(trace, i))
  ensures before: kept(old(trace), trace)
  ensures all: result == nil ==> trlen(trace) == ix(trlen(old(trace)), 3, len(files)) && forall j int {files[j]} {ix(trlen(old(trace)), 3, j)} :: 0 <= j && j < len(files) ==> fileDone(trace, ix(trlen(old(trace)), 3, j), fpath(files[j]))
  ensures stop: result != nil ==> exists m int {files[m]} :: 0 <= m && m < len(files) && fileFailed(trace, ix(trlen(old(trace)), 3, m), fpath(files[m]), result) && forall j int {files[j]} {ix(trlen(old(trace)), 3, j)} :: 0 <= j && j < m ==> fileDone(trace, ix(trlen(old(trace)), 3, j), fpath(files[j]))

// the same below a root directory: make the directories, create, write, close
ext os.File.Close(f)
  trusted(stdlib)
  modifies trace
  ensures trace == evClose(old(trace), box(*os.File, f))
ext os.File.Write(f, p)
  trusted(stdlib)
  modifies trace
  ensures trace == evWrite(old(trace), box(*os.File, f), bytes(p), result1)
pred fsDone(t Trace, i int, path string) = evAt(t, i) == mkMkdir(dirP(path), nil) && evAt(t, i + 1) == mkCreate(path, opw(evAt(t, i + 1)), nil) && written(t, i + 2, opw(evAt(t, i + 1)))
pred fsFailed(t Trace, i int, path string, e error) = (trlen(t) == i + 1 && evAt(t, i) == mkMkdir(dirP(path), e)) || (evAt(t, i) == mkMkdir(dirP(path), nil) && ((trlen(t) == i + 2 && evAt(t, i + 1) == mkCreate(path, opw(evAt(t, i + 1)), e)) || (evAt(t, i + 1) == mkCreate(path, opw(evAt(t, i + 1)), nil) && failedWrite(t, i + 2, opw(evAt(t, i + 1)), e))))
func WriteGoFilesToFileSystem(rootDir, files)
  props C12
  requires forall j int {files[j]} :: 0 <= j && j < len(files) ==> files[j] != null
  modifies anything
  may_panic
  inv trlen(trace) == ix(entry(trlen(trace)), 4, k)
  inv forall j int {files[j]} {ix(entry(trlen(trace)), 4, j)} :: 0 <= j && j < k ==> fsDone(trace, ix(entry(trlen(trace)), 4, j), joinP(rootDir, fpath(files[j])))
  inv forall i int {evAt(trace, i)} :: 0 <= i && i < entry(trlen(trace)) ==> evAt(trace, i) == entry(evAt(trace, i))
  ensures before: kept(old(trace), trace)
  ensures all: result == nil ==> trlen(trace) == ix(trlen(old(trace)), 4, len(files)) && forall j int {files[j]} {ix(trlen(old(trace)), 4, j)} :: 0 <= j && j < len(files) ==> fsDone(trace, ix(trlen(old(trace)), 4, j), joinP(rootDir, fpath(files[j])))
  ensures stop: result != nil ==> exists m int {files[m]} :: 0 <= m && m < len(files) && fsFailed(trace, ix(trlen(old(trace)), 4, m), joinP(rootDir, fpath(files[m])), result) && forall j int {files[j]} {ix(trlen(old(trace)), 4, j)} :: 0 <= j && j < m ==> fsDone(trace, ix(trlen(old(trace)), 4, j), joinP(rootDir, fpath(files[j])))

pred goRoot() = splitAt(envVal("GOPATH"), ":", 0)
func WriteGoFilesToGoPath(files)
  props C12
  requires forall j int {files[j]} :: 0 <= j && j < len(files) ==> files[j] != null
  modifies anything
  may_panic
  ensures before: kept(old(trace), trace)
  ensures none: envVal("GOPATH") == "" ==> result != nil && trace == old(trace)
  ensures all: result == nil ==> trlen(trace) == ix(trlen(old(trace)), 4, len(files)) && forall j int {files[j]} {ix(trlen(old(trace)), 4, j)} :: 0 <= j && j < len(files) ==> fsDone(trace, ix(trlen(old(trace)), 4, j), joinP(goRoot(), fpath(files[j])))
  ensures stop: result != nil && envVal("GOPATH") != "" ==> exists m int {files[m]} :: 0 <= m && m < len(files) && fsFailed(trace, ix(trlen(old(trace)), 4, m), joinP(goRoot(), fpath(files[m])), result) && forall j int {files[j]} {ix(trlen(old(trace)), 4, j)} :: 0 <= j && j < m ==> fsDone(trace, ix(trlen(old(trace)), 4, j), joinP(goRoot(), fpath(files[j])))

// other ways to say the same
ext os.Create(name)
  trusted(stdlib)
  modifies trace
  ensures trace == evCreate(old(trace), name, box(*os.File, result0), result1)
  ensures result1 == nil ==> result0 != null
ext os.LookupEnv(name)
  trusted(stdlib)
  pure
  ensures result0 == envVal(name) && (!result1 ==> result0 == "")
ext filepath.SplitList(s)
  trusted(stdlib)
  ensures s != "" ==> fresh(result) && len(result) == splitN(s, ":") && forall j int {result[j]} :: 0 <= j && j < len(result) ==> result[j] == splitAt(s, ":", j)
  ensures s == "" ==> len(result) == 0
ext strings.SplitN(s, sep, n)
  trusted(stdlib)
  ensures sep != "" && n >= 2 ==> fresh(result) && len(result) >= 1 && result[0] == splitAt(s, sep, 0)
ext strings.Cut(s, sep)
  trusted(stdlib)
  pure
  ensures sep != "" ==> result0 == splitAt(s, sep, 0)
