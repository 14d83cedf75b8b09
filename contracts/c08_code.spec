only C08
// C08: code blocks
typeheap MethodReference.Method ConstSpec.parent ConstSpec.Names VarSpec.parent VarSpec.Names TypeSpec.parent TypeSpec.Name InterfaceMethod.parent InterfaceMethod.Name
  FuncSpec.parent FuncSpec.Name FuncSpec.Receiver ReceiverSpec.Type GoFile.PackageName Imports.pkgPath cell:string
// what fmt prints for a format and arguments; two formats are spelled out
fn fmtv(f string, m IfMem, s []any) string
axiom trusted(fmt) fmtvS: forall m IfMem; s []any {fmtv("%s", m, s)} :: len(s) == 1 && is(sel(m, el(sptr(s), 0)), string) ==> fmtv("%s", m, s) == as(sel(m, el(sptr(s), 0)), string)
axiom trusted(fmt) fmtvSn: forall m IfMem; s []any {fmtv("%s\n", m, s)} :: len(s) == 1 && is(sel(m, el(sptr(s), 0)), string) ==> fmtv("%s\n", m, s) == as(sel(m, el(sptr(s), 0)), string) + "\n"
axiom trusted(fmt) fmtvN: forall f string; m IfMem; s []any {fmtv(f, m, s)} :: len(s) == 0 && !contains(f, "%") ==> fmtv(f, m, s) == f
// what a template prints, and whether it fails
fn ttext(t Ref, d Iface) string
fn tfails(t Ref, d Iface) bool
// what re-qualifying template data gives (C14)
fn tdq(o string, V DefMap, d Iface) Iface

// the text of one piece, and of the first n pieces
fn etx(mi IfMem, mt RefMem, md IfMem, e Iface) string
axiom etxLine: forall mi IfMem; mt RefMem; md IfMem; x line {etx(mi, mt, md, box(line, x))} :: etx(mi, mt, md, box(line, x)) == fmtv(x.format, mi, x.args)
axiom etxTempl: forall mi IfMem; mt RefMem; md IfMem; p *templ {etx(mi, mt, md, box(*templ, p))} :: etx(mi, mt, md, box(*templ, p)) == ttext(sel(mt, p), sel(md, p))
fn cat(mi IfMem, mt RefMem, md IfMem, me IfMem, p Ref, n int) string
axiom cat0: forall mi IfMem; mt RefMem; md, me IfMem; p Ref; n int {cat(mi, mt, md, me, p, n)} :: n <= 0 ==> cat(mi, mt, md, me, p, n) == ""
axiom cat1: forall mi IfMem; mt RefMem; md, me IfMem; p Ref; k, n int {cat(mi, mt, md, me, p, k), cat(mi, mt, md, me, p, n)} :: 0 <= k && n == k + 1 ==> cat(mi, mt, md, me, p, n) == cat(mi, mt, md, me, p, k) + etx(mi, mt, md, sel(me, el(p, k)))
pred etext(e codeElement) = etx(mem(any), memf(templ.templ), memf(templ.data), e)
pred btext(s []codeElement, n int) = cat(mem(any), memf(templ.templ), memf(templ.data), mem(codeElement), sptr(s), n)

// a piece is a line, or a template
pred pieceOK(e codeElement) = is(e, line) || (is(e, *templ) && as(e, *templ) != null && as(e, *templ).templ != null)
pred blockOK(cb *CodeBlock) = forall j int {cb.elements[j]} :: 0 <= j && j < len(cb.elements) ==> pieceOK(cb.elements[j])
pred fails(e codeElement) = is(e, *templ) && tfails(as(e, *templ).templ, as(e, *templ).data)

ext template.Template.Execute(t, wr, data)
  trusted(stdlib)
  requires t != nil && is(wr, *bytes.Buffer) && as(wr, *bytes.Buffer) != nil
  modifies buf(as(wr, *bytes.Buffer))
  ensures (result != nil) <==> tfails(t, data)
  ensures result == nil ==> buf(as(wr, *bytes.Buffer)) == old(buf(as(wr, *bytes.Buffer))) + ttext(t, data)

ext error.Error(e)
  trusted(stdlib)
  pure

iface codeElement.writeTo(e, b)
  props C08
  requires b != nil && pieceOK(e)
  modifies buf(b)
  panics_if fails(e)
  ensures text: buf(b) == old(buf(b)) + etext(e)
func CodeBlock.writeTo(cb, b)
  props C08
  requires blockOK(cb)
  modifies buf(b)
  panics_if exists j int {cb.elements[j]} :: 0 <= j && j < len(cb.elements) && fails(cb.elements[j])
  inv buf(b) == old(buf(b)) + btext(cb.elements, k)
  inv forall j int {cb.elements[j]} :: 0 <= j && j < k ==> !fails(cb.elements[j])
  ensures text: buf(b) == old(buf(b)) + btext(cb.elements, len(cb.elements))

// adding pieces
pred keeps(cb *CodeBlock, n int) = len(cb.elements) == old(len(cb.elements)) + n
  && (forall j int {cb.elements[j]} :: 0 <= j && j < old(len(cb.elements)) ==> cb.elements[j] == old(cb.elements[j]))
pred lastOf(cb *CodeBlock) = cb.elements[len(cb.elements)-1]
func CodeBlock.Print(cb, text)
  props C08
  modifies cb.elements
  ensures result == cb && keeps(cb, 1)
  ensures verbatim: etext(lastOf(cb)) == text && is(lastOf(cb), line) && fresh(as(lastOf(cb), line).args)
func CodeBlock.Println(cb, text)
  props C08
  modifies cb.elements
  ensures result == cb && keeps(cb, 1)
  ensures verbatim: etext(lastOf(cb)) == text + "\n" && is(lastOf(cb), line) && fresh(as(lastOf(cb), line).args)
func CodeBlock.Printf(cb, fmt, args)
  props C08
  modifies cb.elements
  ensures result == cb && keeps(cb, 1)
  ensures line: lastOf(cb) == box(line, rec(line, fmt, args))
func CodeBlock.Printlnf(cb, fmt, args)
  props C08
  modifies cb.elements
  ensures result == cb && keeps(cb, 1)
  ensures line: lastOf(cb) == box(line, rec(line, fmt + "\n", args))
func CodeBlock.RenderCode(cb, template, data)
  props C08
  modifies cb.elements
  ensures result == cb && keeps(cb, 1)
  ensures templ: is(lastOf(cb), *templ) && fresh(as(lastOf(cb), *templ)) && as(lastOf(cb), *templ).templ == template && as(lastOf(cb), *templ).data == data
func CodeBlock.AddCode(cb, code)
  props C08
  modifies cb.elements
  ensures result == cb && keeps(cb, old(len(code.elements)))
  ensures spliced: forall j int {cb.elements[j]} :: old(len(cb.elements)) <= j && j < len(cb.elements) ==> cb.elements[j] == old(code.elements[j - len(cb.elements)])
  ensures old(blockOK(cb)) && old(blockOK(code)) ==> blockOK(cb)
pred single(cb *CodeBlock) = fresh(cb) && len(cb.elements) == 1
func Print(text)
  props C08
  ensures verbatim: single(result) && etext(result.elements[0]) == text && is(result.elements[0], line)
func Println(text)
  props C08
  ensures verbatim: single(result) && etext(result.elements[0]) == text + "\n" && is(result.elements[0], line)
func Printf(fmt, args)
  props C08
  ensures line: single(result) && result.elements[0] == box(line, rec(line, fmt, args))
func Printlnf(fmt, args)
  props C08
  ensures line: single(result) && result.elements[0] == box(line, rec(line, fmt + "\n", args))
func RenderCode(template, data)
  props C08
  ensures templ: single(result) && is(result.elements[0], *templ) && as(result.elements[0], *templ) != null && as(result.elements[0], *templ).templ == template && as(result.elements[0], *templ).data == data

// what an argument refers to
sort Rf
fn RPk(p Package) Rf
fn RSy(s Symbol) Rf
fn RMr(s Symbol, m string) Rf
fn RTy(t Ty) Rf
fn RSg(s Sg) Rf
fn RNo(x any) Rf
fn rfk(r Rf) int
fn rfPk(r Rf) Package
fn rfSy(r Rf) Symbol
fn rfM(r Rf) string
fn rfTy(r Rf) Ty
fn rfSg(r Rf) Sg
fn rfNo(r Rf) any
axiom rfPk: forall p Package {RPk(p)} :: rfk(RPk(p)) == 1 && rfPk(RPk(p)) == p
axiom rfSy: forall s Symbol {RSy(s)} :: rfk(RSy(s)) == 2 && rfSy(RSy(s)) == s
axiom rfMr: forall s Symbol; m string {RMr(s, m)} :: rfk(RMr(s, m)) == 3 && rfSy(RMr(s, m)) == s && rfM(RMr(s, m)) == m
axiom rfTy: forall t Ty {RTy(t)} :: rfk(RTy(t)) == 4 && rfTy(RTy(t)) == t
axiom rfSg: forall s Sg {RSg(s)} :: rfk(RSg(s)) == 5 && rfSg(RSg(s)) == s
axiom rfNo: forall x any {RNo(x)} :: rfk(RNo(x)) == 6 && rfNo(RNo(x)) == x
axiom rfk: forall r Rf {rfk(r)} :: 1 <= rfk(r) && rfk(r) <= 6
fn sameR(a Rf, b Rf) bool
axiom sameR: forall a, b Rf {sameR(a, b)} :: (sameR(a, b) <==> a == b) && (sameR(a, b) <==> rfk(a) == rfk(b) && (rfk(a) == 1 ==> rfPk(a) == rfPk(b)) && (rfk(a) == 2 || rfk(a) == 3 ==> rfSy(a) == rfSy(b)) && (rfk(a) == 3 ==> rfM(a) == rfM(b))
  && (rfk(a) == 4 ==> sameT(rfTy(a), rfTy(b))) && (rfk(a) == 5 ==> sameS(rfSg(a), rfSg(b))) && (rfk(a) == 6 ==> rfNo(a) == rfNo(b)))
fn mkSg(v bool, a Al, r Al) Sg
axiom mkSg: forall v bool; a, r Al {mkSg(v, a, r)} :: svar(mkSg(v, a, r)) == v && sargs(mkSg(v, a, r)) == a && sres(mkSg(v, a, r)) == r

pred pkAt(p *Package) = rec(Package, p.ImportPath, p.Name)
pred syAt(p *Symbol) = rec(Symbol, rec(Package, p.Package.ImportPath, p.Package.Name), p.Name)
pred syAtM(p *MethodReference) = rec(Symbol, rec(Package, p.Type.Package.ImportPath, p.Type.Package.Name), p.Type.Name)
pred mrM(p *MethodReference) = p.Method
pred sgV(s Signature) = mkSg(s.IsVariadic, absA(s.Args), absA(s.Results))
pred csSym(p *ConstSpec) = symIn(p.parent, p.Names[0])
pred vsSym(p *VarSpec) = symIn(p.parent, p.Names[0])
pred tsSym(p *TypeSpec) = symIn(p.parent, p.Name)
pred imSym(p *InterfaceMethod) = symIn(p.parent.parent, p.parent.Name)
pred fsSym(p *FuncSpec) = symIn(p.parent, p.Name)
pred fsRSym(p *FuncSpec) = symIn(p.parent, p.Receiver.Type)
pred omSym(x types.Object) = if tkind(grecvTy(x)) == KindPtr then tsym(telem(grecvTy(x))) else tsym(grecvTy(x))
// all the forms a reference may be given in, and when they can be resolved: no nil pointers, declared
// elements with one name, in a file
heapfn aref(v Iface) Rf
heapfn argOK(v Iface) bool
axiom arPk: forall h TH; x Package {at(h, aref(box(Package, x)))} :: at(h, argOK(box(Package, x))) ==> at(h, aref(box(Package, x))) == RPk(x)
axiom okPk: forall h TH; x Package {at(h, argOK(box(Package, x)))} :: at(h, argOK(box(Package, x))) <==> true
axiom arPkP: forall h TH; x *Package {at(h, aref(box(*Package, x)))} :: at(h, argOK(box(*Package, x))) ==> at(h, aref(box(*Package, x))) == RPk(at(h, pkAt(x)))
axiom okPkP: forall h TH; x *Package {at(h, argOK(box(*Package, x)))} :: at(h, argOK(box(*Package, x))) <==> x != null
axiom arSy: forall h TH; x Symbol {at(h, aref(box(Symbol, x)))} :: at(h, argOK(box(Symbol, x))) ==> at(h, aref(box(Symbol, x))) == RSy(x)
axiom okSy: forall h TH; x Symbol {at(h, argOK(box(Symbol, x)))} :: at(h, argOK(box(Symbol, x))) <==> true
axiom arSyP: forall h TH; x *Symbol {at(h, aref(box(*Symbol, x)))} :: at(h, argOK(box(*Symbol, x))) ==> at(h, aref(box(*Symbol, x))) == RSy(at(h, syAt(x)))
axiom okSyP: forall h TH; x *Symbol {at(h, argOK(box(*Symbol, x)))} :: at(h, argOK(box(*Symbol, x))) <==> x != null
axiom arMr: forall h TH; x MethodReference {at(h, aref(box(MethodReference, x)))} :: at(h, argOK(box(MethodReference, x))) ==> at(h, aref(box(MethodReference, x))) == RMr(x.Type, x.Method)
axiom okMr: forall h TH; x MethodReference {at(h, argOK(box(MethodReference, x)))} :: at(h, argOK(box(MethodReference, x))) <==> true
axiom arMrP: forall h TH; x *MethodReference {at(h, aref(box(*MethodReference, x)))} :: at(h, argOK(box(*MethodReference, x))) ==> at(h, aref(box(*MethodReference, x))) == RMr(at(h, syAtM(x)), at(h, mrM(x)))
axiom okMrP: forall h TH; x *MethodReference {at(h, argOK(box(*MethodReference, x)))} :: at(h, argOK(box(*MethodReference, x))) <==> x != null
axiom arSg: forall h TH; x Signature {at(h, aref(box(Signature, x)))} :: at(h, argOK(box(Signature, x))) ==> at(h, aref(box(Signature, x))) == RSg(at(h, sgV(x)))
axiom okSg: forall h TH; x Signature {at(h, argOK(box(Signature, x)))} :: at(h, argOK(box(Signature, x))) <==> at(h, wfArgs(x.Args)) && at(h, wfArgs(x.Results)) && at(h, variadicL(x.IsVariadic, absA(x.Args)))
axiom arSgP: forall h TH; x *Signature {at(h, aref(box(*Signature, x)))} :: at(h, argOK(box(*Signature, x))) ==> at(h, aref(box(*Signature, x))) == RSg(at(h, absS(x)))
axiom okSgP: forall h TH; x *Signature {at(h, argOK(box(*Signature, x)))} :: at(h, argOK(box(*Signature, x))) <==> at(h, wfS(x))
axiom arCs: forall h TH; x *ConstSpec {at(h, aref(box(*ConstSpec, x)))} :: at(h, argOK(box(*ConstSpec, x))) ==> at(h, aref(box(*ConstSpec, x))) == RSy(at(h, csSym(x)))
axiom okCs: forall h TH; x *ConstSpec {at(h, argOK(box(*ConstSpec, x)))} :: at(h, argOK(box(*ConstSpec, x))) <==> x != null && at(h, x.parent) != nil && at(h, len(x.Names)) == 1
axiom arVs: forall h TH; x *VarSpec {at(h, aref(box(*VarSpec, x)))} :: at(h, argOK(box(*VarSpec, x))) ==> at(h, aref(box(*VarSpec, x))) == RSy(at(h, vsSym(x)))
axiom okVs: forall h TH; x *VarSpec {at(h, argOK(box(*VarSpec, x)))} :: at(h, argOK(box(*VarSpec, x))) <==> x != null && at(h, x.parent) != nil && at(h, len(x.Names)) == 1
axiom arTs: forall h TH; x *TypeSpec {at(h, aref(box(*TypeSpec, x)))} :: at(h, argOK(box(*TypeSpec, x))) ==> at(h, aref(box(*TypeSpec, x))) == RSy(at(h, tsSym(x)))
axiom okTs: forall h TH; x *TypeSpec {at(h, argOK(box(*TypeSpec, x)))} :: at(h, argOK(box(*TypeSpec, x))) <==> x != null && at(h, x.parent) != nil && at(h, x.Name) != ""
axiom arIm: forall h TH; x *InterfaceMethod {at(h, aref(box(*InterfaceMethod, x)))} :: at(h, argOK(box(*InterfaceMethod, x))) ==> at(h, aref(box(*InterfaceMethod, x))) == RMr(at(h, imSym(x)), at(h, x.Name))
axiom okIm: forall h TH; x *InterfaceMethod {at(h, argOK(box(*InterfaceMethod, x)))} :: at(h, argOK(box(*InterfaceMethod, x))) <==> x != null && at(h, x.parent) != nil && at(h, x.parent.parent) != nil && at(h, x.parent.Name) != ""
axiom arFs: forall h TH; x *FuncSpec {at(h, aref(box(*FuncSpec, x)))} :: at(h, argOK(box(*FuncSpec, x))) ==> at(h, aref(box(*FuncSpec, x))) == (if at(h, x.Receiver) == nil then RSy(at(h, fsSym(x))) else RMr(at(h, fsRSym(x)), at(h, x.Name)))
axiom okFs: forall h TH; x *FuncSpec {at(h, argOK(box(*FuncSpec, x)))} :: at(h, argOK(box(*FuncSpec, x))) <==> x != null && at(h, x.parent) != nil
axiom arGp: forall h TH; x *types.Package {at(h, aref(box(*types.Package, x)))} :: at(h, argOK(box(*types.Package, x))) ==> at(h, aref(box(*types.Package, x))) == RPk(gpack(x))
axiom okGp: forall h TH; x *types.Package {at(h, argOK(box(*types.Package, x)))} :: at(h, argOK(box(*types.Package, x))) <==> true
axiom arTn: forall h TH; v Iface {at(h, aref(v))} :: is(v, TypeName) && at(h, argOK(v)) ==> at(h, aref(v)) == RTy(at(h, abs(v)))
axiom okTn: forall h TH; v Iface {at(h, argOK(v))} :: is(v, TypeName) ==> (at(h, argOK(v)) <==> at(h, wf(v)))
axiom arRt: forall h TH; v Iface {at(h, aref(v))} :: is(v, reflect.Type) && !is(v, TypeName) && at(h, argOK(v)) ==> at(h, aref(v)) == RTy(rty(v))
axiom okRt: forall h TH; v Iface {at(h, argOK(v))} :: is(v, reflect.Type) && !is(v, TypeName) ==> (at(h, argOK(v)) <==> true)
axiom arGt: forall h TH; v Iface {at(h, aref(v))} :: is(v, types.Type) && !is(v, reflect.Type) && !is(v, TypeName) && at(h, argOK(v)) ==> at(h, aref(v)) == RTy(gty(v))
axiom okGt: forall h TH; v Iface {at(h, argOK(v))} :: is(v, types.Type) && !is(v, reflect.Type) && !is(v, TypeName) ==> (at(h, argOK(v)) <==> gok(v))
axiom arGo: forall h TH; v Iface {at(h, aref(v))} :: is(v, types.Object) && !is(v, types.Type) && !is(v, reflect.Type) && !is(v, TypeName) && at(h, argOK(v)) ==> at(h, aref(v)) == (if gmethodOf(v) then RMr(omSym(v), obname(v)) else RSy(rec(Symbol, gpack(obpkg(v)), obname(v))))
axiom okGo: forall h TH; v Iface {at(h, argOK(v))} :: is(v, types.Object) && !is(v, types.Type) && !is(v, reflect.Type) && !is(v, TypeName) ==> (at(h, argOK(v)) <==> objOK(v))
pred direct(y any) = is(y, Package) || is(y, *Package) || is(y, Symbol) || is(y, *Symbol) || is(y, MethodReference) || is(y, *MethodReference) || is(y, Signature) || is(y, *Signature) || is(y, TypeName)
pred refers(y any) = direct(y) || is(y, *ConstSpec) || is(y, *VarSpec) || is(y, *TypeSpec) || is(y, *InterfaceMethod) || is(y, *FuncSpec) || is(y, reflect.Type) || is(y, types.Type) || is(y, types.Object) || is(y, *types.Package)
axiom arNo: forall h TH; v Iface {at(h, aref(v))} :: !refers(v) ==> at(h, aref(v)) == RNo(v)
axiom okNo: forall h TH; v Iface {at(h, argOK(v))} :: !refers(v) ==> at(h, argOK(v))
axiom trusted(frame) frAref: forall a, b TH; n int; v Iface {at(a, aref(v)), agree(a, b, n)} {at(b, aref(v)), agree(a, b, n)} :: agree(a, b, n) && below(v, n) ==> at(a, aref(v)) == at(b, aref(v))
axiom trusted(frame) frArgOK: forall a, b TH; n int; v Iface {at(a, argOK(v)), agree(a, b, n)} {at(b, argOK(v)), agree(a, b, n)} :: agree(a, b, n) && below(v, n) ==> at(a, argOK(v)) == at(b, argOK(v))
pred objOK(obj types.Object) = (is(obj, *types.Func) ==> as(obj, *types.Func) != nil && is(gotype(as(obj, *types.Func)), *types.Signature) && unboxSig(gotype(as(obj, *types.Func))) != nil)
  && (gmethodOf(obj) ==> gok(gotype(grecv(unboxSig(gotype(as(obj, *types.Func)))))) && (tkind(grecvTy(obj)) == KindNamed || tkind(grecvTy(obj)) == KindPtr))
// what is left in place of an argument: something that prints the reference
pred prints(y any, r Rf) = argOK(y) && sameR(aref(y), r) && (direct(y) || rfk(r) == 6)

// re-qualified, and with its package registered
pred qpack(o string, V DefMap, p Package) = rec(Package, p.ImportPath, qname(o, V, p.ImportPath))
fn QR(o string, V DefMap, r Rf) Rf
axiom qrK: forall o string; V DefMap; r Rf {QR(o, V, r)} :: rfk(QR(o, V, r)) == rfk(r) && rfM(QR(o, V, r)) == rfM(r) && rfNo(QR(o, V, r)) == rfNo(r)
axiom qrPk: forall o string; V DefMap; r Rf {QR(o, V, r)} :: rfk(r) == 1 ==> rfPk(QR(o, V, r)) == qpack(o, V, rfPk(r))
axiom qrSy: forall o string; V DefMap; r Rf {QR(o, V, r)} :: rfk(r) == 2 || rfk(r) == 3 ==> rfSy(QR(o, V, r)) == qsym(o, V, rfSy(r))
axiom qrTy: forall o string; V DefMap; r Rf {QR(o, V, r)} :: rfk(r) == 4 ==> rfTy(QR(o, V, r)) == Q(o, V, rfTy(r))
axiom qrSg: forall o string; V DefMap; r Rf {QR(o, V, r)} :: rfk(r) == 5 ==> rfSg(QR(o, V, r)) == QS(o, V, rfSg(r))
fn covR(o string, H StrSet, r Rf) bool
axiom covR: forall o string; H StrSet; r Rf {covR(o, H, r)} :: covR(o, H, r) <==> (rfk(r) == 1 ==> rfPk(r).ImportPath == o || sel(H, rfPk(r).ImportPath)) && (rfk(r) == 2 || rfk(r) == 3 ==> covsym(o, H, rfSy(r))) && (rfk(r) == 4 ==> cov(o, H, rfTy(r))) && (rfk(r) == 5 ==> covS(o, H, rfSg(r)))
lemma hint(sameR(QR(o, V1, r), QR(o, V2, r))) monoR: forall o string; H1 StrSet; V1 DefMap; H2 StrSet; V2 DefMap; r Rf {ext(H1, V1, H2, V2), QR(o, V1, r)} {ext(H1, V1, H2, V2), QR(o, V2, r)} {ext(H1, V1, H2, V2), covR(o, H1, r)} ::
  ext(H1, V1, H2, V2) && covR(o, H1, r) ==> covR(o, H2, r) && QR(o, V1, r) == QR(o, V2, r)

// re-qualifying again gives the same
lemma induct(trank(t)) hint(sameT(Q(o, V, Q(o, V, t)), Q(o, V, t))) idem: forall o string; H StrSet; V DefMap; t Ty {cov(o, H, t), Q(o, V, Q(o, V, t))} :: cov(o, H, t) ==> Q(o, V, Q(o, V, t)) == Q(o, V, t)
lemma hint(sameS(QS(o, V, QS(o, V, s)), QS(o, V, s))) idemS: forall o string; H StrSet; V DefMap; s Sg {covS(o, H, s), QS(o, V, QS(o, V, s))} :: covS(o, H, s) ==> QS(o, V, QS(o, V, s)) == QS(o, V, s)
lemma hint(sameR(QR(o, V, QR(o, V, r)), QR(o, V, r))) idemR: forall o string; H StrSet; V DefMap; r Rf {covR(o, H, r), QR(o, V, QR(o, V, r))} :: covR(o, H, r) ==> QR(o, V, QR(o, V, r)) == QR(o, V, r)
// d2 is d1 re-qualified (what that means is C14's subject)
fn tdR(o string, H StrSet, V DefMap, d1 Iface, d2 Iface) bool
axiom trusted(template) tdMono: forall o string; H1 StrSet; V1 DefMap; H2 StrSet; V2 DefMap; d1, d2 Iface {ext(H1, V1, H2, V2), tdR(o, H1, V1, d1, d2)} :: ext(H1, V1, H2, V2) && tdR(o, H1, V1, d1, d2) ==> tdR(o, H2, V2, d1, d2)
axiom trusted(template) tdIdem: forall o string; H StrSet; V DefMap; d1, d2, d3 Iface {tdR(o, H, V, d1, d2), tdR(o, H, V, d2, d3)} :: tdR(o, H, V, d1, d2) && tdR(o, H, V, d2, d3) ==> tdR(o, H, V, d1, d3)
func Imports.QualifyTemplateData(i, data)
  trusted
  requires impWF(i)
  modifies i.importsByPath, i.pathsByName, map(i.importsByPath), map(i.pathsByName)
  ensures extI(i)
  ensures tdR(i.pkgPath, IH(i), IV(i), data, result)

pred lineOK(e codeElement) = is(e, line) ==> forall j int {as(e, line).args[j]} :: 0 <= j && j < len(as(e, line).args) ==> argOK(as(e, line).args[j])
// x became y
pred became(i *Imports, r Rf, y any) = covR(i.pkgPath, IH(i), r) && prints(y, QR(i.pkgPath, IV(i), r))
iface codeElement.qualify(e, imports)
  props C08
  requires imports != nil && impWF(imports)
  requires pieceOK(e) && lineOK(e)
  modifies imports.importsByPath, imports.pathsByName, map(imports.importsByPath), map(imports.pathsByName), when(is(e, line), elems(as(e, line).args)), when(is(e, *templ), ptr(as(e, *templ), templ).data)
  inv extI(imports)
  inv forall j int {as(e, line).args[j]} {old(as(e, line).args[j])} :: k <= j && j < len(as(e, line).args) ==> as(e, line).args[j] == old(as(e, line).args[j])
  inv forall a Ref {sel(mem(any), a)} :: fresh(a) || sel(mem(any), a) == old(sel(mem(any), a)) || exists j int {el(sptr(as(e, line).args), j)} :: 0 <= j && j < k && a == el(sptr(as(e, line).args), j)
  inv forall j int {as(e, line).args[j]} {old(as(e, line).args[j])} :: 0 <= j && j < k ==> covR(imports.pkgPath, IH(imports), old(aref(as(e, line).args[j])))
  inv forall j int {as(e, line).args[j]} {old(as(e, line).args[j])} :: 0 <= j && j < k ==> prints(as(e, line).args[j], QR(imports.pkgPath, IV(imports), old(aref(as(e, line).args[j]))))
  ensures extI(imports)
  ensures registered: is(e, line) ==> forall j int {as(e, line).args[j]} {old(as(e, line).args[j])} :: 0 <= j && j < len(as(e, line).args) ==> covR(imports.pkgPath, IH(imports), old(aref(as(e, line).args[j])))
  ensures qualified: is(e, line) ==> forall j int {as(e, line).args[j]} {old(as(e, line).args[j])} :: 0 <= j && j < len(as(e, line).args) ==> prints(as(e, line).args[j], QR(imports.pkgPath, IV(imports), old(aref(as(e, line).args[j]))))
  ensures data: is(e, *templ) ==> tdR(imports.pkgPath, IH(imports), IV(imports), old(ptr(as(e, *templ), templ).data), ptr(as(e, *templ), templ).data)

pred cellQ(i *Imports, a Ref) = covR(i.pkgPath, IH(i), old(aref(sel(mem(any), a)))) && prints(sel(mem(any), a), QR(i.pkgPath, IV(i), old(aref(sel(mem(any), a)))))
pred dataQ(i *Imports, p *templ) = tdR(i.pkgPath, IH(i), IV(i), old(p.data), p.data)
func CodeBlock.qualify(cb, imports)
  props C08
  requires impWF(imports) && blockOK(cb)
  requires forall p int {cb.elements[p]} :: 0 <= p && p < len(cb.elements) ==> lineOK(cb.elements[p])
  modifies imports.importsByPath, imports.pathsByName, map(imports.importsByPath), map(imports.pathsByName), all(mem(any)), all(templ.data)
  inv extI(imports)
  inv forall a Ref {sel(mem(any), a)} {old(sel(mem(any), a))} :: fresh(a) || sel(mem(any), a) == old(sel(mem(any), a)) || cellQ(imports, a)
  inv forall t *templ {t.data} {old(t.data)} :: fresh(t) || t.data == old(t.data) || dataQ(imports, t)
  inv forall p, j int {cb.elements[p], el(sptr(as(cb.elements[p], line).args), j)} :: 0 <= p && p < k && is(cb.elements[p], line) && 0 <= j && j < len(as(cb.elements[p], line).args) ==> cellQ(imports, el(sptr(as(cb.elements[p], line).args), j))
  inv forall p int {cb.elements[p]} :: 0 <= p && p < k && is(cb.elements[p], *templ) ==> dataQ(imports, as(cb.elements[p], *templ))
  ensures extI(imports)
  ensures rest: forall a Ref {sel(mem(any), a)} {old(sel(mem(any), a))} :: fresh(a) || sel(mem(any), a) == old(sel(mem(any), a)) || cellQ(imports, a)
  ensures qualified: forall p, j int {cb.elements[p], el(sptr(as(cb.elements[p], line).args), j)} :: 0 <= p && p < len(cb.elements) && is(cb.elements[p], line) && 0 <= j && j < len(as(cb.elements[p], line).args) ==> cellQ(imports, el(sptr(as(cb.elements[p], line).args), j))
  ensures data: forall p int {cb.elements[p]} :: 0 <= p && p < len(cb.elements) && is(cb.elements[p], *templ) ==> dataQ(imports, as(cb.elements[p], *templ))

// function bodies and initial values are blocks
func FuncSpec.Print(f, text)
  props C08
  modifies f.CodeBlock.elements
  ensures result == f && keeps(addr(f.CodeBlock), 1)
  ensures verbatim: is(lastOf(addr(f.CodeBlock)), line) && etext(lastOf(addr(f.CodeBlock))) == text && fresh(as(lastOf(addr(f.CodeBlock)), line).args)
func FuncSpec.Println(f, text)
  props C08
  modifies f.CodeBlock.elements
  ensures result == f && keeps(addr(f.CodeBlock), 1)
  ensures verbatim: is(lastOf(addr(f.CodeBlock)), line) && etext(lastOf(addr(f.CodeBlock))) == text + "\n" && fresh(as(lastOf(addr(f.CodeBlock)), line).args)
func FuncSpec.Printf(f, fmt, args)
  props C08
  modifies f.CodeBlock.elements
  ensures result == f && keeps(addr(f.CodeBlock), 1)
  ensures line: lastOf(addr(f.CodeBlock)) == box(line, rec(line, fmt, args))
func FuncSpec.Printlnf(f, fmt, args)
  props C08
  modifies f.CodeBlock.elements
  ensures result == f && keeps(addr(f.CodeBlock), 1)
  ensures line: lastOf(addr(f.CodeBlock)) == box(line, rec(line, fmt + "\n", args))
func FuncSpec.RenderCode(f, template, data)
  props C08
  modifies f.CodeBlock.elements
  ensures result == f && keeps(addr(f.CodeBlock), 1)
  ensures templ: is(lastOf(addr(f.CodeBlock)), *templ) && fresh(as(lastOf(addr(f.CodeBlock)), *templ)) && as(lastOf(addr(f.CodeBlock)), *templ).templ == template && as(lastOf(addr(f.CodeBlock)), *templ).data == data
func FuncSpec.AddCode(f, cb)
  props C08
  modifies f.CodeBlock.elements
  ensures result == f && keeps(addr(f.CodeBlock), old(len(cb.elements)))
  ensures spliced: forall j int {f.CodeBlock.elements[j]} :: old(len(f.CodeBlock.elements)) <= j && j < len(f.CodeBlock.elements) ==> f.CodeBlock.elements[j] == old(cb.elements[j - len(f.CodeBlock.elements)])
func ConstSpec.Initialize(c, format, args)
  props C08
  modifies c.Initializer
  ensures result == c && single(c.Initializer) && c.Initializer.elements[0] == box(line, rec(line, format, args))
func VarSpec.Initialize(c, format, args)
  props C08
  modifies c.Initializer
  ensures result == c && single(c.Initializer) && c.Initializer.elements[0] == box(line, rec(line, format, args))
