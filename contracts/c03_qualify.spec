// C03: re-qualifying types.  An import set is seen as its own path o, the set H of
// registered paths and the map V of their definitions.
fn Q(o string, V DefMap, t Ty) Ty
fn QS(o string, V DefMap, s Sg) Sg
fn QA(o string, V DefMap, l Al) Al
fn QF(o string, V DefMap, l Fl) Fl
fn QM(o string, V DefMap, l Ml) Ml
fn QE(o string, V DefMap, l El) El
fn cov(o string, H StrSet, t Ty) bool
fn covS(o string, H StrSet, s Sg) bool
fn covA(o string, H StrSet, l Al) bool
fn covF(o string, H StrSet, l Fl) bool
fn covM(o string, H StrSet, l Ml) bool
fn covE(o string, H StrSet, l El) bool
fn ext(H1 StrSet, V1 DefMap, H2 StrSet, V2 DefMap) bool

// the name a path is referred to by; "" for the set's own package
pred qname(o string, V DefMap, p string) = if p == o then "" else seldef(V, p).packageName
pred blank(s Symbol) = s.Package.Name == "" && s.Package.ImportPath == ""
pred qsym(o string, V DefMap, s Symbol) = if blank(s) then s else rec(Symbol, rec(Package, s.Package.ImportPath, qname(o, V, s.Package.ImportPath)), s.Name)
pred covsym(o string, H StrSet, s Symbol) = blank(s) || s.Package.ImportPath == o || sel(H, s.Package.ImportPath)

axiom ext: forall H1 StrSet; V1 DefMap; H2 StrSet; V2 DefMap {ext(H1, V1, H2, V2)} :: ext(H1, V1, H2, V2) <==>
  (forall p string {sel(H1, p)} {sel(H2, p)} {seldef(V1, p)} {seldef(V2, p)} :: sel(H1, p) ==> sel(H2, p) && seldef(V1, p) == seldef(V2, p))

axiom qKind: forall o string; V DefMap; t Ty {tkind(Q(o, V, t))} :: tkind(Q(o, V, t)) == tkind(t)
axiom qSym: forall o string; V DefMap; t Ty {tsym(Q(o, V, t))} :: tkind(t) == KindNamed ==> tsym(Q(o, V, t)) == qsym(o, V, tsym(t))
axiom qLen: forall o string; V DefMap; t Ty {tlen(Q(o, V, t))} :: tlen(Q(o, V, t)) == tlen(t)
axiom qDir: forall o string; V DefMap; t Ty {tdir(Q(o, V, t))} :: tdir(Q(o, V, t)) == tdir(t)
axiom qBk: forall o string; V DefMap; t Ty {tbk(Q(o, V, t))} :: tbk(Q(o, V, t)) == tbk(t)
axiom qElem: forall o string; V DefMap; t Ty {telem(Q(o, V, t))} :: hasElem(t) ==> telem(Q(o, V, t)) == Q(o, V, telem(t))
axiom qKey: forall o string; V DefMap; t Ty {tkey(Q(o, V, t))} :: tkind(t) == KindMap ==> tkey(Q(o, V, t)) == Q(o, V, tkey(t))
axiom qSig: forall o string; V DefMap; t Ty {tsig(Q(o, V, t))} :: tkind(t) == KindFunc ==> tsig(Q(o, V, t)) == QS(o, V, tsig(t))
axiom qFields: forall o string; V DefMap; t Ty {tfields(Q(o, V, t))} :: tkind(t) == KindStruct ==> tfields(Q(o, V, t)) == QF(o, V, tfields(t))
axiom qMethods: forall o string; V DefMap; t Ty {tmethods(Q(o, V, t))} :: tkind(t) == KindInterface ==> tmethods(Q(o, V, t)) == QM(o, V, tmethods(t))
axiom qEmbeds: forall o string; V DefMap; t Ty {tembeds(Q(o, V, t))} :: tkind(t) == KindInterface ==> tembeds(Q(o, V, t)) == QE(o, V, tembeds(t))
axiom qS: forall o string; V DefMap; s Sg {QS(o, V, s)} :: svar(QS(o, V, s)) == svar(s) && sargs(QS(o, V, s)) == QA(o, V, sargs(s)) && sres(QS(o, V, s)) == QA(o, V, sres(s))
axiom qAlen: forall o string; V DefMap; l Al {QA(o, V, l)} :: alen(QA(o, V, l)) == alen(l)
axiom qA: forall o string; V DefMap; l Al; i int {atype(QA(o, V, l), i)} {aname(QA(o, V, l), i)} :: 0 <= i && i < alen(l) ==> aname(QA(o, V, l), i) == aname(l, i) && atype(QA(o, V, l), i) == Q(o, V, atype(l, i))
axiom qFlen: forall o string; V DefMap; l Fl {QF(o, V, l)} :: flen(QF(o, V, l)) == flen(l)
axiom qF: forall o string; V DefMap; l Fl; i int {ftype(QF(o, V, l), i)} {fname(QF(o, V, l), i)} {ftag(QF(o, V, l), i)} :: 0 <= i && i < flen(l) ==> fname(QF(o, V, l), i) == fname(l, i) && ftag(QF(o, V, l), i) == ftag(l, i) && ftype(QF(o, V, l), i) == Q(o, V, ftype(l, i))
axiom qMlen: forall o string; V DefMap; l Ml {QM(o, V, l)} :: mlen(QM(o, V, l)) == mlen(l)
axiom qM: forall o string; V DefMap; l Ml; i int {msig(QM(o, V, l), i)} {mname(QM(o, V, l), i)} :: 0 <= i && i < mlen(l) ==> mname(QM(o, V, l), i) == mname(l, i) && msig(QM(o, V, l), i) == QS(o, V, msig(l, i))
axiom qElen: forall o string; V DefMap; l El {QE(o, V, l)} :: elen(QE(o, V, l)) == elen(l)
axiom qE: forall o string; V DefMap; l El; i int {esym(QE(o, V, l), i)} :: 0 <= i && i < elen(l) ==> esym(QE(o, V, l), i) == qsym(o, V, esym(l, i))

// every package mentioned is registered (or the set's own)
axiom cov: forall o string; H StrSet; t Ty {cov(o, H, t), tkind(t)} :: cov(o, H, t) <==>
  (tkind(t) == KindNamed ==> covsym(o, H, tsym(t))) && (hasElem(t) ==> cov(o, H, telem(t))) && (tkind(t) == KindMap ==> cov(o, H, tkey(t)))
  && (tkind(t) == KindFunc ==> covS(o, H, tsig(t))) && (tkind(t) == KindStruct ==> covF(o, H, tfields(t)))
  && (tkind(t) == KindInterface ==> covM(o, H, tmethods(t)) && covE(o, H, tembeds(t)))
axiom covS: forall o string; H StrSet; s Sg {covS(o, H, s)} :: covS(o, H, s) <==> covA(o, H, sargs(s)) && covA(o, H, sres(s))
axiom covA: forall o string; H StrSet; l Al {covA(o, H, l)} :: covA(o, H, l) <==> (forall i int {atype(l, i)} :: 0 <= i && i < alen(l) ==> cov(o, H, atype(l, i)))
axiom covF: forall o string; H StrSet; l Fl {covF(o, H, l)} :: covF(o, H, l) <==> (forall i int {ftype(l, i)} :: 0 <= i && i < flen(l) ==> cov(o, H, ftype(l, i)))
axiom covM: forall o string; H StrSet; l Ml {covM(o, H, l)} :: covM(o, H, l) <==> (forall i int {msig(l, i)} :: 0 <= i && i < mlen(l) ==> covS(o, H, msig(l, i)))
axiom covE: forall o string; H StrSet; l El {covE(o, H, l)} :: covE(o, H, l) <==> (forall i int {esym(l, i)} :: 0 <= i && i < elen(l) ==> covsym(o, H, esym(l, i)))

// later registrations change nothing for what is covered already
lemma induct(trank(t)) hint(sameT(Q(o, V1, t), Q(o, V2, t))) mono: forall o string; H1 StrSet; V1 DefMap; H2 StrSet; V2 DefMap; t Ty {ext(H1, V1, H2, V2), Q(o, V1, t)} {ext(H1, V1, H2, V2), Q(o, V2, t)} {ext(H1, V1, H2, V2), cov(o, H1, t)} ::
  ext(H1, V1, H2, V2) && cov(o, H1, t) ==> cov(o, H2, t) && Q(o, V1, t) == Q(o, V2, t)

lemma hint(sameS(QS(o, V1, s), QS(o, V2, s))) monoS: forall o string; H1 StrSet; V1 DefMap; H2 StrSet; V2 DefMap; s Sg {ext(H1, V1, H2, V2), QS(o, V1, s)} {ext(H1, V1, H2, V2), QS(o, V2, s)} {ext(H1, V1, H2, V2), covS(o, H1, s)} ::
  ext(H1, V1, H2, V2) && covS(o, H1, s) ==> covS(o, H2, s) && QS(o, V1, s) == QS(o, V2, s)

pred IH(i *Imports) = maphas(i.importsByPath)
pred IV(i *Imports) = mapval(i.importsByPath)
pred extI(i *Imports) = impWF(i) && mapsKeep(i) && i.pkgPath == old(i.pkgPath) && ext(old(IH(i)), old(IV(i)), IH(i), IV(i))

func Imports.qualify(i, sym, registerIfNotFound)
  requires impWF(i)
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if !registerIfNotFound && !covsym(i.pkgPath, IH(i), sym)
  ensures extI(i)
  ensures covsym(i.pkgPath, IH(i), sym)
  ensures result == qsym(i.pkgPath, IV(i), sym)
func Imports.EnsureImported(i, sym)
  props C03
  requires impWF(i)
  modifies i.importsByPath, i.pathsByName, map(i.importsByPath), map(i.pathsByName)
  ensures extI(i)
  ensures covsym(i.pkgPath, IH(i), sym)
  ensures result == qsym(i.pkgPath, IV(i), sym)
func Imports.Qualify(i, sym)
  props C03
  requires impWF(i)
  panics_if !covsym(i.pkgPath, IH(i), sym)
  ensures result == qsym(i.pkgPath, IV(i), sym)

func Imports.qualifyType(i, n, registerIfNotFound)
  requires impWF(i) && wf(n)
  decreases trank(abs(n))
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if !registerIfNotFound && !cov(i.pkgPath, IH(i), abs(n))
  ensures extI(i)
  ensures cov(i.pkgPath, IH(i), old(abs(n)))
  ensures wf(result) && sameT(abs(result), Q(i.pkgPath, IV(i), old(abs(n))))
func Imports.EnsureTypeImported(i, n)
  props C03
  requires impWF(i) && wf(n)
  modifies i.importsByPath, i.pathsByName, map(i.importsByPath), map(i.pathsByName)
  ensures extI(i)
  ensures cov(i.pkgPath, IH(i), old(abs(n)))
  ensures wf(result) && sameT(abs(result), Q(i.pkgPath, IV(i), old(abs(n))))
func Imports.QualifyType(i, n)
  props C03
  requires impWF(i) && wf(n)
  panics_if !cov(i.pkgPath, IH(i), abs(n))
  ensures wf(result) && sameT(abs(result), Q(i.pkgPath, IV(i), old(abs(n))))

func Imports.qualifySignature(i, s, registerIfNotFound)
  requires borrow: s
  requires impWF(i) && wfS(s)
  decreases srank(absS(s))
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if !registerIfNotFound && !covS(i.pkgPath, IH(i), absS(s))
  ensures extI(i)
  ensures covS(i.pkgPath, IH(i), old(absS(s)))
  ensures wfS(result) && sameS(absS(result), QS(i.pkgPath, IV(i), old(absS(s))))
func Imports.EnsureAllTypesImported(i, s)
  props C03
  requires impWF(i) && wfS(s)
  modifies i.importsByPath, i.pathsByName, map(i.importsByPath), map(i.pathsByName)
  ensures extI(i)
  ensures covS(i.pkgPath, IH(i), old(absS(s)))
  ensures wfS(result) && sameS(absS(result), QS(i.pkgPath, IV(i), old(absS(s))))
func Imports.QualifySignature(i, s)
  props C03
  requires impWF(i) && wfS(s)
  panics_if !covS(i.pkgPath, IH(i), absS(s))
  ensures wfS(result) && sameS(absS(result), QS(i.pkgPath, IV(i), old(absS(s))))

func Imports.qualifySymbols(i, syms, registerIfNotFound)
  requires impWF(i)
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if !registerIfNotFound && !covE(i.pkgPath, IH(i), absE(syms))
  inv impWF(i) && mapsKeep(i) && i.pkgPath == old(i.pkgPath) && ext(old(IH(i)), old(IV(i)), IH(i), IV(i))
  inv forall j int {syms[j].Name} {syms[j].Package.Name} {syms[j].Package.ImportPath} :: 0 <= j && j < k ==> covsym(i.pkgPath, IH(i), syms[j])
  inv [ret []Symbol] ret == nil ==> forall j int {syms[j].Name} {syms[j].Package.Name} {syms[j].Package.ImportPath} :: 0 <= j && j < k ==> qsym(i.pkgPath, IV(i), syms[j]) == syms[j]
  inv [ret []Symbol] ret != nil ==> len(ret) == len(syms)
  inv [ret []Symbol] ret != nil ==> forall j int {ret[j].Name} {ret[j].Package.Name} {ret[j].Package.ImportPath} :: 0 <= j && j < len(ret) ==> ret[j] == (if j < k then qsym(i.pkgPath, IV(i), syms[j]) else syms[j])
  ensures extI(i)
  ensures covE(i.pkgPath, IH(i), old(absE(syms)))
  ensures result == syms || fresh(result)
  ensures sameE(absE(result), QE(i.pkgPath, IV(i), old(absE(syms))))

func Imports.qualifyArgs(i, args, registerIfNotFound)
  requires impWF(i) && wfArgs(args)
  decreases arank(absA(args))
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if !registerIfNotFound && !covA(i.pkgPath, IH(i), absA(args))
  inv impWF(i) && mapsKeep(i) && i.pkgPath == old(i.pkgPath) && ext(old(IH(i)), old(IV(i)), IH(i), IV(i))
  inv forall j int {args[j].Type} :: 0 <= j && j < k ==> cov(i.pkgPath, IH(i), abs(args[j].Type))
  inv [ret []ArgType] ret == nil ==> forall j int {args[j].Type} :: 0 <= j && j < k ==> Q(i.pkgPath, IV(i), abs(args[j].Type)) == abs(args[j].Type)
  inv [ret []ArgType] ret != nil ==> len(ret) == len(args)
  inv [ret []ArgType] ret != nil ==> forall j int {ret[j].Name} {ret[j].Type} :: 0 <= j && j < len(ret) ==> ret[j].Name == args[j].Name
  inv [ret []ArgType] ret != nil ==> forall j int {ret[j].Type} :: k <= j && j < len(ret) ==> ret[j].Type == args[j].Type
  inv [ret []ArgType] ret != nil ==> forall j int {ret[j].Type} :: 0 <= j && j < k ==> wf(ret[j].Type) && abs(ret[j].Type) == Q(i.pkgPath, IV(i), abs(args[j].Type))
  ensures extI(i)
  ensures covA(i.pkgPath, IH(i), old(absA(args)))
  ensures result == args || fresh(result)
  ensures wfArgs(result) && sameA(absA(result), QA(i.pkgPath, IV(i), old(absA(args))))

func Imports.qualifyFields(i, fields, registerIfNotFound)
  requires impWF(i) && wfFields(fields)
  decreases frank(absF(fields))
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if !registerIfNotFound && !covF(i.pkgPath, IH(i), absF(fields))
  inv impWF(i) && mapsKeep(i) && i.pkgPath == old(i.pkgPath) && ext(old(IH(i)), old(IV(i)), IH(i), IV(i))
  inv forall j int {fields[j].Type} :: 0 <= j && j < k ==> cov(i.pkgPath, IH(i), abs(fields[j].Type))
  inv [ret []FieldType] ret == nil ==> forall j int {fields[j].Type} :: 0 <= j && j < k ==> Q(i.pkgPath, IV(i), abs(fields[j].Type)) == abs(fields[j].Type)
  inv [ret []FieldType] ret != nil ==> len(ret) == len(fields)
  inv [ret []FieldType] ret != nil ==> forall j int {ret[j].Name} {ret[j].Type} {ret[j].Tag} :: 0 <= j && j < len(ret) ==> ret[j].Name == fields[j].Name && ret[j].Tag == fields[j].Tag
  inv [ret []FieldType] ret != nil ==> forall j int {ret[j].Type} :: k <= j && j < len(ret) ==> ret[j].Type == fields[j].Type
  inv [ret []FieldType] ret != nil ==> forall j int {ret[j].Type} :: 0 <= j && j < k ==> wf(ret[j].Type) && abs(ret[j].Type) == Q(i.pkgPath, IV(i), abs(fields[j].Type))
  ensures extI(i)
  ensures covF(i.pkgPath, IH(i), old(absF(fields)))
  ensures result == fields || fresh(result)
  ensures wfFields(result) && sameF(absF(result), QF(i.pkgPath, IV(i), old(absF(fields))))

func Imports.qualifyMethods(i, methods, registerIfNotFound)
  requires impWF(i) && wfMethods(methods)
  decreases mrank(absM(methods))
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if !registerIfNotFound && !covM(i.pkgPath, IH(i), absM(methods))
  inv impWF(i) && mapsKeep(i) && i.pkgPath == old(i.pkgPath) && ext(old(IH(i)), old(IV(i)), IH(i), IV(i))
  inv forall j int {addr(methods[j].Signature)} {methods[j].Name} :: 0 <= j && j < k ==> covS(i.pkgPath, IH(i), absS(addr(methods[j].Signature)))
  inv [ret []MethodType] ret == nil ==> forall j int {addr(methods[j].Signature)} {methods[j].Name} :: 0 <= j && j < k ==> sameS(QS(i.pkgPath, IV(i), absS(addr(methods[j].Signature))), absS(addr(methods[j].Signature)))
  inv [ret []MethodType] ret != nil ==> len(ret) == len(methods)
  inv [ret []MethodType] ret != nil ==> forall j int {ret[j].Name} :: 0 <= j && j < len(ret) ==> ret[j].Name == methods[j].Name
  inv [ret []MethodType] ret != nil ==> forall j int {addr(ret[j].Signature)} {ret[j].Name} {ret[j].Signature.Args} :: k <= j && j < len(ret) ==> wfS(addr(ret[j].Signature)) && sameS(absS(addr(ret[j].Signature)), absS(addr(methods[j].Signature)))
  inv [ret []MethodType] ret != nil ==> forall j int {addr(ret[j].Signature)} {ret[j].Name} {ret[j].Signature.Args} :: 0 <= j && j < k ==> wfS(addr(ret[j].Signature))
  inv [ret []MethodType] ret != nil ==> forall j int {addr(ret[j].Signature)} {ret[j].Name} {ret[j].Signature.Args} :: 0 <= j && j < k ==> sameS(absS(addr(ret[j].Signature)), QS(i.pkgPath, IV(i), absS(addr(methods[j].Signature))))
  ensures extI(i)
  ensures covM(i.pkgPath, IH(i), old(absM(methods)))
  ensures result == methods || fresh(result)
  ensures wfMethods(result) && sameM(absM(result), QM(i.pkgPath, IV(i), old(absM(methods))))
