// The mathematical types that TypeName values stand for.
typeheap Symbol.Name Package.Name Package.ImportPath Signature.Args Signature.Results Signature.IsVariadic ArgType.Name ArgType.Type
  FieldType.Name FieldType.Type FieldType.Tag MethodType.Name structTypeName.fields interfaceTypeName.methods interfaceTypeName.embeds

sort Ty Sg Al Fl Ml El
fn tkind(t Ty) int
fn tsym(t Ty) Symbol
fn telem(t Ty) Ty
fn tkey(t Ty) Ty
fn tlen(t Ty) int
fn tdir(t Ty) int
fn tbk(t Ty) int
fn tsig(t Ty) Sg
fn tfields(t Ty) Fl
fn tmethods(t Ty) Ml
fn tembeds(t Ty) El
fn svar(s Sg) bool
fn sargs(s Sg) Al
fn sres(s Sg) Al
fn alen(l Al) int
fn aname(l Al, i int) string
fn atype(l Al, i int) Ty
fn flen(l Fl) int
fn fname(l Fl, i int) string
fn ftype(l Fl, i int) Ty
fn ftag(l Fl, i int) string
fn mlen(l Ml) int
fn mname(l Ml, i int) string
fn msig(l Ml, i int) Sg
fn elen(l El) int
fn esym(l El, i int) Symbol

// normal form: observers that do not apply to a kind
axiom kindrange: forall t Ty {tkind(t)} :: 1 <= tkind(t) && tkind(t) <= 10
axiom nosym: forall t Ty {tsym(t)} :: tkind(t) != KindNamed ==> tsym(t) == zero(Symbol)
axiom nolen: forall t Ty {tlen(t)} :: if tkind(t) == KindArray then 0 <= tlen(t) else tlen(t) == 0 - 1
axiom nodir: forall t Ty {tdir(t)} :: if tkind(t) == KindChan then 1 <= tdir(t) && tdir(t) <= 3 else tdir(t) == 0
axiom nobk: forall t Ty {tbk(t)} :: if tkind(t) == KindBasic then 1 <= tbk(t) && tbk(t) <= 24 && (tbk(t) <= 16 || tbk(t) == 24) else tbk(t) == 0
axiom alen0: forall l Al {alen(l)} :: 0 <= alen(l)
axiom flen0: forall l Fl {flen(l)} :: 0 <= flen(l)
axiom mlen0: forall l Ml {mlen(l)} :: 0 <= mlen(l)
axiom elen0: forall l El {elen(l)} :: 0 <= elen(l)
pred hasElem(t Ty) = tkind(t) == KindPtr || tkind(t) == KindSlice || tkind(t) == KindArray || tkind(t) == KindMap || tkind(t) == KindChan

// lists are determined by their length and elements
fn sameA(a Al, b Al) bool
fn sameF(a Fl, b Fl) bool
fn sameM(a Ml, b Ml) bool
fn sameS(a Sg, b Sg) bool
axiom sameS: forall a, b Sg {sameS(a, b)} :: (sameS(a, b) <==> a == b) && (sameS(a, b) <==> svar(a) == svar(b) && sameA(sargs(a), sargs(b)) && sameA(sres(a), sres(b)))
fn sameE(a El, b El) bool
axiom sameA: forall a, b Al {sameA(a, b)} :: (sameA(a, b) <==> a == b) && (sameA(a, b) <==> alen(a) == alen(b) && (forall i int {atype(a, i)} {atype(b, i)} {aname(a, i)} {aname(b, i)} :: 0 <= i && i < alen(a) ==> aname(a, i) == aname(b, i) && atype(a, i) == atype(b, i)))
axiom sameF: forall a, b Fl {sameF(a, b)} :: (sameF(a, b) <==> a == b) && (sameF(a, b) <==> flen(a) == flen(b) && (forall i int {ftype(a, i)} {ftype(b, i)} {fname(a, i)} {fname(b, i)} {ftag(a, i)} {ftag(b, i)} :: 0 <= i && i < flen(a) ==> fname(a, i) == fname(b, i) && ftype(a, i) == ftype(b, i) && ftag(a, i) == ftag(b, i)))
axiom sameM: forall a, b Ml {sameM(a, b)} :: (sameM(a, b) <==> a == b) && (sameM(a, b) <==> mlen(a) == mlen(b) && (forall i int {msig(a, i)} {msig(b, i)} {mname(a, i)} {mname(b, i)} :: 0 <= i && i < mlen(a) ==> mname(a, i) == mname(b, i) && sameS(msig(a, i), msig(b, i))))
axiom sameE: forall a, b El {sameE(a, b)} :: (sameE(a, b) <==> a == b) && (sameE(a, b) <==> elen(a) == elen(b) && (forall i int {esym(a, i)} {esym(b, i)} :: 0 <= i && i < elen(a) ==> esym(a, i) == esym(b, i)))

// types are finite trees
fn trank(t Ty) int
fn srank(s Sg) int
fn arank(l Al) int
fn frank(l Fl) int
fn mrank(l Ml) int
axiom rank0: forall t Ty {trank(t)} :: 0 <= trank(t)
axiom srank0: forall s Sg {srank(s)} :: 0 <= srank(s)
axiom arank0: forall l Al {arank(l)} :: 0 <= arank(l)
axiom frank0: forall l Fl {frank(l)} :: 0 <= frank(l)
axiom mrank0: forall l Ml {mrank(l)} :: 0 <= mrank(l)
axiom rankElem: forall t Ty {trank(telem(t))} :: hasElem(t) ==> trank(telem(t)) < trank(t)
axiom rankKey: forall t Ty {trank(tkey(t))} :: tkind(t) == KindMap ==> trank(tkey(t)) < trank(t)
axiom rankSig: forall t Ty {srank(tsig(t))} :: tkind(t) == KindFunc ==> srank(tsig(t)) < trank(t)
axiom rankFields: forall t Ty {frank(tfields(t))} :: tkind(t) == KindStruct ==> frank(tfields(t)) < trank(t)
axiom rankMethods: forall t Ty {mrank(tmethods(t))} :: tkind(t) == KindInterface ==> mrank(tmethods(t)) < trank(t)
axiom rankArgs: forall s Sg {arank(sargs(s))} :: arank(sargs(s)) < srank(s)
axiom rankRes: forall s Sg {arank(sres(s))} :: arank(sres(s)) < srank(s)
axiom rankArg: forall l Al; i int {trank(atype(l, i))} :: 0 <= i && i < alen(l) ==> trank(atype(l, i)) < arank(l)
axiom rankField: forall l Fl; i int {trank(ftype(l, i))} :: 0 <= i && i < flen(l) ==> trank(ftype(l, i)) < frank(l)
axiom rankMethod: forall l Ml; i int {srank(msig(l, i))} :: 0 <= i && i < mlen(l) ==> srank(msig(l, i)) < mrank(l)
// two types with the same parts are the same
fn sameT(a Ty, b Ty) bool
axiom sameT: forall a, b Ty {sameT(a, b)} :: (sameT(a, b) <==> a == b) && (sameT(a, b) <==> tkind(a) == tkind(b) && tsym(a) == tsym(b) && tlen(a) == tlen(b) && tdir(a) == tdir(b) && tbk(a) == tbk(b)
  && (hasElem(a) ==> telem(a) == telem(b)) && (tkind(a) == KindMap ==> tkey(a) == tkey(b)) && (tkind(a) == KindFunc ==> sameS(tsig(a), tsig(b)))
  && (tkind(a) == KindStruct ==> sameF(tfields(a), tfields(b))) && (tkind(a) == KindInterface ==> sameM(tmethods(a), tmethods(b)) && sameE(tembeds(a), tembeds(b))))

// what a value in memory stands for
heapfn abs(v Iface) Ty
heapfn absS(p Ref) Sg
heapfn absA(s Slice) Al
heapfn absF(s Slice) Fl
heapfn absM(s Slice) Ml
heapfn absE(s Slice) El
// wf: a finite, valid type (the least such predicate)
heapfn wf(v Iface) bool
heapfn wfS(p Ref) bool

pred wfArgs(s []ArgType) = forall j int {s[j].Type} :: 0 <= j && j < len(s) ==> wf(s[j].Type)
pred wfFields(s []FieldType) = forall j int {s[j].Type} :: 0 <= j && j < len(s) ==> wf(s[j].Type)
pred wfMethods(s []MethodType) = forall j int {wfS(addr(s[j].Signature))} {s[j].Name} {s[j].Signature.Args} :: 0 <= j && j < len(s) ==> wfS(addr(s[j].Signature))
pred variadicL(v bool, l Al) = v ==> 0 < alen(l) && tkind(atype(l, alen(l)-1)) == KindSlice
pred variadicOK(s *Signature) = variadicL(s.IsVariadic, absA(s.Args))
pred basicKind(k int) = 1 <= k && k <= 16 || k == 24

axiom wfOnly: forall h TH; v Iface {at(h, wf(v))} :: at(h, wf(v)) ==> is(v, TypeName)
axiom wfBasic: forall h TH; k int {at(h, wf(box(basicTypeName, k)))} :: at(h, wf(box(basicTypeName, k))) <==> basicKind(k)
axiom wfNamed: forall h TH; p Ref {at(h, wf(box(*namedTypeName, p)))} :: at(h, wf(box(*namedTypeName, p))) <==> p != null
axiom wfPtr: forall h TH; x ptrTypeName {at(h, wf(box(ptrTypeName, x)))} :: at(h, wf(box(ptrTypeName, x))) <==> at(h, wf(x.elem))
axiom wfSlice: forall h TH; x sliceTypeName {at(h, wf(box(sliceTypeName, x)))} :: at(h, wf(box(sliceTypeName, x))) <==> at(h, wf(x.elem))
axiom wfArray: forall h TH; x arrayTypeName {at(h, wf(box(arrayTypeName, x)))} :: at(h, wf(box(arrayTypeName, x))) <==> at(h, wf(x.elem)) && 0 <= x.length
axiom wfMap: forall h TH; x mapTypeName {at(h, wf(box(mapTypeName, x)))} :: at(h, wf(box(mapTypeName, x))) <==> at(h, wf(x.elem)) && at(h, wf(x.key))
axiom wfChan: forall h TH; x chanTypeName {at(h, wf(box(chanTypeName, x)))} :: at(h, wf(box(chanTypeName, x))) <==> at(h, wf(x.elem)) && 1 <= x.dir && x.dir <= 3
axiom wfFunc: forall h TH; p *funcTypeName {at(h, wf(box(*funcTypeName, p)))} :: at(h, wf(box(*funcTypeName, p))) <==> p != null && at(h, wfS(p))
axiom wfSig: forall h TH; p *Signature {at(h, wfS(p))} :: at(h, wfS(p)) <==> p != null && at(h, wfArgs(p.Args)) && at(h, wfArgs(p.Results)) && at(h, variadicOK(p))
axiom wfStruct: forall h TH; p *structTypeName {at(h, wf(box(*structTypeName, p)))} :: at(h, wf(box(*structTypeName, p))) <==> p != null && at(h, wfFields(p.fields))
axiom wfIface: forall h TH; p *interfaceTypeName {at(h, wf(box(*interfaceTypeName, p)))} :: at(h, wf(box(*interfaceTypeName, p))) <==> p != null && at(h, wfMethods(p.methods))

axiom absBasic: forall h TH; k int {at(h, abs(box(basicTypeName, k)))} :: at(h, wf(box(basicTypeName, k))) ==>
  tkind(at(h, abs(box(basicTypeName, k)))) == KindBasic && tbk(at(h, abs(box(basicTypeName, k)))) == k
axiom absNamed: forall h TH; p *namedTypeName {at(h, abs(box(*namedTypeName, p)))} :: at(h, wf(box(*namedTypeName, p))) ==>
  tkind(at(h, abs(box(*namedTypeName, p)))) == KindNamed && tsym(at(h, abs(box(*namedTypeName, p)))) == at(h, symAt(p))
axiom absPtr: forall h TH; x ptrTypeName {at(h, abs(box(ptrTypeName, x)))} :: at(h, wf(box(ptrTypeName, x))) ==>
  tkind(at(h, abs(box(ptrTypeName, x)))) == KindPtr && telem(at(h, abs(box(ptrTypeName, x)))) == at(h, abs(x.elem))
axiom absSlice: forall h TH; x sliceTypeName {at(h, abs(box(sliceTypeName, x)))} :: at(h, wf(box(sliceTypeName, x))) ==>
  tkind(at(h, abs(box(sliceTypeName, x)))) == KindSlice && telem(at(h, abs(box(sliceTypeName, x)))) == at(h, abs(x.elem))
axiom absArray: forall h TH; x arrayTypeName {at(h, abs(box(arrayTypeName, x)))} :: at(h, wf(box(arrayTypeName, x))) ==>
  tkind(at(h, abs(box(arrayTypeName, x)))) == KindArray && telem(at(h, abs(box(arrayTypeName, x)))) == at(h, abs(x.elem)) && tlen(at(h, abs(box(arrayTypeName, x)))) == x.length
axiom absMap: forall h TH; x mapTypeName {at(h, abs(box(mapTypeName, x)))} :: at(h, wf(box(mapTypeName, x))) ==>
  tkind(at(h, abs(box(mapTypeName, x)))) == KindMap && telem(at(h, abs(box(mapTypeName, x)))) == at(h, abs(x.elem)) && tkey(at(h, abs(box(mapTypeName, x)))) == at(h, abs(x.key))
axiom absChan: forall h TH; x chanTypeName {at(h, abs(box(chanTypeName, x)))} :: at(h, wf(box(chanTypeName, x))) ==>
  tkind(at(h, abs(box(chanTypeName, x)))) == KindChan && telem(at(h, abs(box(chanTypeName, x)))) == at(h, abs(x.elem)) && tdir(at(h, abs(box(chanTypeName, x)))) == x.dir
axiom absFunc: forall h TH; p *funcTypeName {at(h, abs(box(*funcTypeName, p)))} :: at(h, wf(box(*funcTypeName, p))) ==>
  tkind(at(h, abs(box(*funcTypeName, p)))) == KindFunc && tsig(at(h, abs(box(*funcTypeName, p)))) == at(h, absS(p))
axiom absStruct: forall h TH; p *structTypeName {at(h, abs(box(*structTypeName, p)))} :: at(h, wf(box(*structTypeName, p))) ==>
  tkind(at(h, abs(box(*structTypeName, p)))) == KindStruct && tfields(at(h, abs(box(*structTypeName, p)))) == at(h, absF(p.fields))
axiom absIface: forall h TH; p *interfaceTypeName {at(h, abs(box(*interfaceTypeName, p)))} :: at(h, wf(box(*interfaceTypeName, p))) ==>
  tkind(at(h, abs(box(*interfaceTypeName, p)))) == KindInterface && tmethods(at(h, abs(box(*interfaceTypeName, p)))) == at(h, absM(p.methods)) && tembeds(at(h, abs(box(*interfaceTypeName, p)))) == at(h, absE(p.embeds))

axiom absSig: forall h TH; p *Signature {at(h, absS(p))} :: at(h, wfS(p)) ==>
  svar(at(h, absS(p))) == at(h, p.IsVariadic) && sargs(at(h, absS(p))) == at(h, absA(p.Args)) && sres(at(h, absS(p))) == at(h, absA(p.Results))
axiom absAlen: forall h TH; s []ArgType {at(h, absA(s))} :: 0 <= len(s) ==> alen(at(h, absA(s))) == len(s)
axiom absAat: forall h TH; s []ArgType; i int {atype(at(h, absA(s)), i)} {aname(at(h, absA(s)), i)} {at(h, absA(s)), at(h, s[i].Type)} :: 0 <= i && i < len(s) && at(h, wfArgs(s)) ==>
  atype(at(h, absA(s)), i) == at(h, abs(s[i].Type)) && aname(at(h, absA(s)), i) == at(h, s[i].Name)
axiom absFlen: forall h TH; s []FieldType {at(h, absF(s))} :: 0 <= len(s) ==> flen(at(h, absF(s))) == len(s)
axiom absFat: forall h TH; s []FieldType; i int {ftype(at(h, absF(s)), i)} {fname(at(h, absF(s)), i)} {ftag(at(h, absF(s)), i)} {at(h, absF(s)), at(h, s[i].Type)} :: 0 <= i && i < len(s) && at(h, wfFields(s)) ==>
  ftype(at(h, absF(s)), i) == at(h, abs(s[i].Type)) && fname(at(h, absF(s)), i) == at(h, s[i].Name) && ftag(at(h, absF(s)), i) == at(h, s[i].Tag)
axiom absMlen: forall h TH; s []MethodType {at(h, absM(s))} :: 0 <= len(s) ==> mlen(at(h, absM(s))) == len(s)
axiom absMat: forall h TH; s []MethodType; i int {msig(at(h, absM(s)), i)} {mname(at(h, absM(s)), i)} {at(h, absM(s)), at(h, addr(s[i].Signature))} :: 0 <= i && i < len(s) && at(h, wfMethods(s)) ==>
  msig(at(h, absM(s)), i) == at(h, absS(addr(s[i].Signature))) && mname(at(h, absM(s)), i) == at(h, s[i].Name)
axiom absElen: forall h TH; s []Symbol {at(h, absE(s))} :: 0 <= len(s) ==> elen(at(h, absE(s))) == len(s)
axiom absEat: forall h TH; s []Symbol; i int {esym(at(h, absE(s)), i)} {at(h, absE(s)), at(h, s[i].Package.ImportPath)} :: 0 <= i && i < len(s) ==> esym(at(h, absE(s)), i) == at(h, symOf(s[i]))
pred symOf(s Symbol) = s
pred symAt(p *namedTypeName) = rec(Symbol, rec(Package, p.Package.ImportPath, p.Package.Name), p.Name)

// a copied signature stands for the same signature
lemma sigEq: forall a, b TH; p, q *Signature {at(a, absS(p)), at(b, absS(q))} :: at(a, absS(p)) == at(b, absS(q)) <==> sameS(at(a, absS(p)), at(b, absS(q)))

// memory allocated before n that did not change still stands for the same types
axiom trusted(frame) frAbs: forall a, b TH; n int; v Iface {at(a, abs(v)), agree(a, b, n)} {at(b, abs(v)), agree(a, b, n)} :: agree(a, b, n) && below(v, n) ==> at(a, abs(v)) == at(b, abs(v))
axiom trusted(frame) frAbsS: forall a, b TH; n int; v Ref {at(a, absS(v)), agree(a, b, n)} {at(b, absS(v)), agree(a, b, n)} :: agree(a, b, n) && rt(v) < n ==> at(a, absS(v)) == at(b, absS(v))
axiom trusted(frame) frAbsA: forall a, b TH; n int; v Slice {at(a, absA(v)), agree(a, b, n)} {at(b, absA(v)), agree(a, b, n)} :: agree(a, b, n) && rt(v) < n ==> at(a, absA(v)) == at(b, absA(v))
axiom trusted(frame) frAbsF: forall a, b TH; n int; v Slice {at(a, absF(v)), agree(a, b, n)} {at(b, absF(v)), agree(a, b, n)} :: agree(a, b, n) && rt(v) < n ==> at(a, absF(v)) == at(b, absF(v))
axiom trusted(frame) frAbsM: forall a, b TH; n int; v Slice {at(a, absM(v)), agree(a, b, n)} {at(b, absM(v)), agree(a, b, n)} :: agree(a, b, n) && rt(v) < n ==> at(a, absM(v)) == at(b, absM(v))
axiom trusted(frame) frAbsE: forall a, b TH; n int; v Slice {at(a, absE(v)), agree(a, b, n)} {at(b, absE(v)), agree(a, b, n)} :: agree(a, b, n) && rt(v) < n ==> at(a, absE(v)) == at(b, absE(v))
axiom trusted(frame) frWf: forall a, b TH; n int; v Iface {at(a, wf(v)), agree(a, b, n)} {at(b, wf(v)), agree(a, b, n)} :: agree(a, b, n) && below(v, n) ==> at(a, wf(v)) == at(b, wf(v))
axiom trusted(frame) frWfS: forall a, b TH; n int; v Ref {at(a, wfS(v)), agree(a, b, n)} {at(b, wfS(v)), agree(a, b, n)} :: agree(a, b, n) && rt(v) < n ==> at(a, wfS(v)) == at(b, wfS(v))

// a signature whose own cells did not change still stands for the same signature
lemma sigFrame: forall a, b TH; n int; p *Signature {at(a, wfS(p)), agree(a, b, n)} {at(b, wfS(p)), agree(a, b, n)} {at(a, absS(p)), agree(a, b, n)} {at(b, absS(p)), agree(a, b, n)} ::
  agree(a, b, n) && at(a, p.Args) == at(b, p.Args) && at(a, p.Results) == at(b, p.Results) && at(a, p.IsVariadic) == at(b, p.IsVariadic) && rt(at(a, p.Args)) < n && rt(at(a, p.Results)) < n && at(a, wfS(p))
  ==> at(b, wfS(p)) && at(a, absS(p)) == at(b, absS(p))

// the accessors
iface TypeName.Kind(t)
  props C04
  requires wf(t)
  ensures result == tkind(abs(t))
iface TypeName.Symbol(t)
  props C04
  requires wf(t)
  ensures result == tsym(abs(t))
iface TypeName.Elem(t)
  props C04
  requires wf(t)
  ensures (result != nil) <==> hasElem(abs(t))
  ensures hasElem(abs(t)) ==> wf(result) && abs(result) == telem(abs(t))
iface TypeName.Key(t)
  props C04
  requires wf(t)
  ensures (result != nil) <==> tkind(abs(t)) == KindMap
  ensures tkind(abs(t)) == KindMap ==> wf(result) && abs(result) == tkey(abs(t))
iface TypeName.Len(t)
  props C04
  requires wf(t)
  ensures result == tlen(abs(t))
iface TypeName.Dir(t)
  props C04
  requires wf(t)
  ensures result == tdir(abs(t))
iface TypeName.BasicKind(t)
  props C04
  requires wf(t)
  ensures result == tbk(abs(t))
iface TypeName.Signature(t)
  props C04
  requires wf(t)
  ensures (result != nil) <==> tkind(abs(t)) == KindFunc
  ensures tkind(abs(t)) == KindFunc ==> wfS(result) && absS(result) == tsig(abs(t))
iface TypeName.Fields(t)
  props C04
  requires wf(t)
  ensures tkind(abs(t)) == KindStruct ==> wfFields(result) && sameF(absF(result), tfields(abs(t))) && fresh(result)
  ensures tkind(abs(t)) != KindStruct ==> result == nil
iface TypeName.Methods(t)
  props C04
  requires wf(t)
  ensures tkind(abs(t)) == KindInterface ==> wfMethods(result) && sameM(absM(result), tmethods(abs(t))) && fresh(result)
  ensures tkind(abs(t)) != KindInterface ==> result == nil
iface TypeName.Embeds(t)
  props C04
  requires wf(t)
  ensures tkind(abs(t)) == KindInterface ==> sameE(absE(result), tembeds(abs(t))) && fresh(result)
  ensures tkind(abs(t)) != KindInterface ==> result == nil
