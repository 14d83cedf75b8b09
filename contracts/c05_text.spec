// C05: the text of a type is the Go type literal that denotes it.
fn txt(t Ty) string
fn txtS(s Sg) string
// the first k members of a list, separated
fn txtA(l Al, named bool, variadic bool, k int) string
fn txtF(l Fl, k int) string
fn txtM(l Ml, k int) string
fn txtE(l El, k int) string
fn named(l Al) bool
// the by-kind axioms open a type only where its kind has been looked at
fn recvChan(t Ty) bool

pred symText(s Symbol) = if s.Package.Name != "" then s.Package.Name + "." + s.Name else s.Name
// how the standard library names the basic kinds (reflect.Kind.String), and how a string is quoted
fn kindName(k int) string
fn canbq(s string) bool
pred tagText(s string) = if canbq(s) then "`" + s + "`" else quote(s)

axiom kn: kindName(1) == "bool" && kindName(2) == "int" && kindName(3) == "int8" && kindName(4) == "int16" && kindName(5) == "int32" && kindName(6) == "int64" && kindName(7) == "uint" && kindName(8) == "uint8"
  && kindName(9) == "uint16" && kindName(10) == "uint32" && kindName(11) == "uint64" && kindName(12) == "uintptr" && kindName(13) == "float32" && kindName(14) == "float64" && kindName(15) == "complex64" && kindName(16) == "complex128" && kindName(24) == "string"

axiom txtBasic: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindBasic ==> txt(t) == (if tbk(t) == 8 then "byte" else if tbk(t) == 5 then "rune" else kindName(tbk(t)))
axiom txtNamed: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindNamed ==> txt(t) == symText(tsym(t))
axiom txtPtr: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindPtr ==> txt(t) == "*" + txt(telem(t))
axiom txtSlice: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindSlice ==> txt(t) == "[]" + txt(telem(t))
axiom txtArray: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindArray ==> txt(t) == "[" + itoa(tlen(t)) + "]" + txt(telem(t))
axiom txtMap: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindMap ==> txt(t) == "map[" + txt(tkey(t)) + "]" + txt(telem(t))
axiom txtChan: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindChan ==>
  txt(t) == (if tdir(t) == 1 then "<-chan " else if tdir(t) == 2 then "chan<- " else "chan ") + (if tdir(t) == 3 && recvChan(telem(t)) then "(" + txt(telem(t)) + ")" else txt(telem(t)))
axiom recvChan: forall t Ty {recvChan(t), tkind(t)} :: recvChan(t) <==> tkind(t) == KindChan && tdir(t) == 1
axiom txtFunc: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindFunc ==> txt(t) == "func" + txtS(tsig(t))
axiom txtStruct: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindStruct ==> txt(t) == "struct{" + txtF(tfields(t), flen(tfields(t))) + "}"
axiom txtIface: forall t Ty {txt(t), tkind(t)} :: tkind(t) == KindInterface ==>
  txt(t) == "interface{" + txtE(tembeds(t), elen(tembeds(t))) + (if 0 < elen(tembeds(t)) && 0 < mlen(tmethods(t)) then "; " else "") + txtM(tmethods(t), mlen(tmethods(t))) + "}"

axiom named: forall l Al {named(l)} :: named(l) <==> (exists i int {aname(l, i)} :: 0 <= i && i < alen(l) && aname(l, i) != "")
axiom txtS: forall s Sg {txtS(s)} :: txtS(s) == "(" + txtA(sargs(s), named(sargs(s)), svar(s), alen(sargs(s))) + ")" + resText(sres(s))
pred manyRes(l Al) = 1 < alen(l) || named(l)
pred resText(l Al) = if 0 < alen(l) then " " + (if manyRes(l) then "(" + txtA(l, named(l), false, alen(l)) + ")" else txtA(l, named(l), false, alen(l))) else ""

axiom txtA0: forall l Al; n, v bool {txtA(l, n, v, 0)} :: txtA(l, n, v, 0) == ""
axiom txtA1: forall l Al; n, v bool; j, k int {txtA(l, n, v, j), txtA(l, n, v, k)} :: k == j + 1 && 0 <= j && k <= alen(l) ==>
  txtA(l, n, v, k) == txtA(l, n, v, j) + (if 0 < j then ", " else "") + (if n then (if aname(l, j) != "" then aname(l, j) + " " else "_ ") else "") + (if v && k == alen(l) then "..." + txt(telem(atype(l, j))) else txt(atype(l, j)))
axiom txtF0: forall l Fl {txtF(l, 0)} :: txtF(l, 0) == ""
axiom txtF1: forall l Fl; j, k int {txtF(l, j), txtF(l, k)} :: k == j + 1 && 0 <= j && k <= flen(l) ==>
  txtF(l, k) == txtF(l, j) + (if 0 < j then "; " else "") + (if fname(l, j) != "" then fname(l, j) + " " else "") + txt(ftype(l, j)) + (if ftag(l, j) != "" then " " + tagText(ftag(l, j)) else "")
axiom txtM0: forall l Ml {txtM(l, 0)} :: txtM(l, 0) == ""
axiom txtM1: forall l Ml; j, k int {txtM(l, j), txtM(l, k)} :: k == j + 1 && 0 <= j && k <= mlen(l) ==>
  txtM(l, k) == txtM(l, j) + (if 0 < j then "; " else "") + mname(l, j) + txtS(msig(l, j))
axiom txtE0: forall l El {txtE(l, 0)} :: txtE(l, 0) == ""
axiom txtE1: forall l El; j, k int {txtE(l, j), txtE(l, k)} :: k == j + 1 && 0 <= j && k <= elen(l) ==>
  txtE(l, k) == txtE(l, j) + (if 0 < j then "; " else "") + symText(esym(l, j))

ext reflect.Kind.String(k)
  trusted(stdlib)
  pure
  ensures basicKind(k) ==> result == kindName(k)
ext strconv.CanBackquote(s)
  trusted(stdlib)
  pure
  ensures result == canbq(s)

func Symbol.String(s)
  props C05
  ensures result == symText(s)
func Package.String(p)
  props C05
  ensures result == p.Name

iface TypeName.String(t)
  props C05
  requires wf(t)
  ensures result == txt(abs(t))

func typeNameToString(tn)
  requires wf(tn)
  ensures result == txt(abs(tn))

func typeNameToBuffer(tn, b)
  requires wf(tn)
  decreases trank(abs(tn))
  modifies buf(b)
  inv buf(b) == old(buf(b)) + "struct{" + txtF(old(tfields(abs(tn))), k)
  inv buf(b) == old(buf(b)) + "interface{" + txtE(old(tembeds(abs(tn))), k)
  inv buf(b) == old(buf(b)) + "interface{" + txtE(old(tembeds(abs(tn))), elen(old(tembeds(abs(tn))))) + (if 0 < elen(old(tembeds(abs(tn)))) && 0 < k then "; " else "") + txtM(old(tmethods(abs(tn))), k)
  ensures buf(b) == old(buf(b)) + txt(old(abs(tn)))

func signatureToBuffer(sig, b)
  requires borrow: sig
  requires wfS(sig)
  decreases srank(absS(sig))
  modifies buf(b)
  inv forall j int {sig.Args[j].Name} :: 0 <= j && j < k ==> sig.Args[j].Name == ""
  inv forall j int {sig.Results[j].Name} :: 0 <= j && j < k ==> sig.Results[j].Name == ""
  inv buf(b) == old(buf(b)) + "(" + txtA(old(absA(sig.Args)), named(old(absA(sig.Args))), sig.IsVariadic, k)
  inv buf(b) == old(buf(b)) + "(" + txtA(old(absA(sig.Args)), named(old(absA(sig.Args))), sig.IsVariadic, len(sig.Args)) + ") " + (if manyRes(old(absA(sig.Results))) then "(" else "") + txtA(old(absA(sig.Results)), named(old(absA(sig.Results))), false, k)
  ensures buf(b) == old(buf(b)) + txtS(old(absS(sig)))
