// C10: references to declared elements
// the text of n strings starting at p, each behind pre, separated by sep
fn joinPre(m StrMem, p Ref, n int, pre string, sep string) string
axiom join0: forall m StrMem; p Ref; n int; pre, sep string {joinPre(m, p, n, pre, sep)} :: n <= 0 ==> joinPre(m, p, n, pre, sep) == ""
axiom join1: forall m StrMem; p Ref; n int; pre, sep string {joinPre(m, p, n, pre, sep)} :: n == 1 ==> joinPre(m, p, n, pre, sep) == pre + sel(m, el(p, 0))
axiom joinN: forall m StrMem; p Ref; k, n int; pre, sep string {joinPre(m, p, k, pre, sep), joinPre(m, p, n, pre, sep)} :: 1 <= k && n == k + 1 ==> joinPre(m, p, n, pre, sep) == joinPre(m, p, k, pre, sep) + sep + pre + sel(m, el(p, k))
lemma induct(n) hint(joinPre(a, p, n - 1, "", sep)) hint(joinPre(b, q, n - 1, pre, sep)) joinEq: forall a, b StrMem; p, q Ref; n int; pre, sep string {joinPre(a, p, n, "", sep), joinPre(b, q, n, pre, sep)} ::
  0 <= n && (forall j int {sel(a, el(p, j))} :: 0 <= j && j < n ==> sel(a, el(p, j)) == pre + sel(b, el(q, j))) ==> joinPre(a, p, n, "", sep) == joinPre(b, q, n, pre, sep)

ext strings.Join(elems, sep)
  trusted(stdlib)
  pure
  ensures result == joinPre(mem(string), sptr(elems), len(elems), "", sep)
fn fpBase(p string) string
fn fpExt(p string) string
ext filepath.Base(p)
  trusted(stdlib)
  pure
  ensures result == fpBase(p)
ext filepath.Ext(p)
  trusted(stdlib)
  pure
  ensures result == fpExt(p)

pred pkgOf(f *GoFile) = rec(Package, f.Imports.pkgPath, f.PackageName)
pred prefixIn(f *GoFile) = if f.PackageName == "" then "" else f.PackageName + "."
pred symIn(f *GoFile, nm string) = rec(Symbol, pkgOf(f), nm)

// what may be added to a file
pred declOK(e FileElement) = e != nil
  && (is(e, *ConstDecl) ==> as(e, *ConstDecl) != null && forall j int {as(e, *ConstDecl).Consts[j]} :: 0 <= j && j < len(as(e, *ConstDecl).Consts) ==> as(e, *ConstDecl).Consts[j] != null)
  && (is(e, *VarDecl) ==> as(e, *VarDecl) != null && forall j int {as(e, *VarDecl).Vars[j]} :: 0 <= j && j < len(as(e, *VarDecl).Vars) ==> as(e, *VarDecl).Vars[j] != null)
  && (is(e, *TypeDecl) ==> as(e, *TypeDecl) != null && forall j int {as(e, *TypeDecl).Types[j]} :: 0 <= j && j < len(as(e, *TypeDecl).Types) ==> as(e, *TypeDecl).Types[j] != null)
  && (is(e, *FuncSpec) ==> as(e, *FuncSpec) != null)
// everything declared by e belongs to f, nothing else changes
pred owned(e FileElement, f *GoFile) =
  (is(e, *ConstDecl) ==> forall j int {as(e, *ConstDecl).Consts[j]} :: 0 <= j && j < len(as(e, *ConstDecl).Consts) ==> as(e, *ConstDecl).Consts[j].parent == f)
  && (is(e, *VarDecl) ==> forall j int {as(e, *VarDecl).Vars[j]} :: 0 <= j && j < len(as(e, *VarDecl).Vars) ==> as(e, *VarDecl).Vars[j].parent == f)
  && (is(e, *TypeDecl) ==> forall j int {as(e, *TypeDecl).Types[j]} :: 0 <= j && j < len(as(e, *TypeDecl).Types) ==> as(e, *TypeDecl).Types[j].parent == f)
  && (is(e, *FuncSpec) ==> as(e, *FuncSpec).parent == f)
pred onlyOwned(e FileElement, f *GoFile) =
  (forall p *ConstSpec {p.parent} :: p.parent == old(p.parent) || p.parent == f && is(e, *ConstDecl) && exists j int {as(e, *ConstDecl).Consts[j]} :: 0 <= j && j < len(as(e, *ConstDecl).Consts) && as(e, *ConstDecl).Consts[j] == p)
  && (forall p *VarSpec {p.parent} :: p.parent == old(p.parent) || p.parent == f && is(e, *VarDecl) && exists j int {as(e, *VarDecl).Vars[j]} :: 0 <= j && j < len(as(e, *VarDecl).Vars) && as(e, *VarDecl).Vars[j] == p)
  && (forall p *TypeSpec {p.parent} :: p.parent == old(p.parent) || p.parent == f && is(e, *TypeDecl) && exists j int {as(e, *TypeDecl).Types[j]} :: 0 <= j && j < len(as(e, *TypeDecl).Types) && as(e, *TypeDecl).Types[j] == p)
  && (forall p *FuncSpec {p.parent} :: p.parent == old(p.parent) || p.parent == f && e == box(*FuncSpec, p))

iface FileElement.setParent(e, f)
  props C10
  requires declOK(e)
  modifies all(ConstSpec.parent), all(VarSpec.parent), all(TypeSpec.parent), all(FuncSpec.parent)
  inv forall j int {as(e, *ConstDecl).Consts[j]} :: 0 <= j && j < k ==> as(e, *ConstDecl).Consts[j].parent == f
  inv forall j int {as(e, *VarDecl).Vars[j]} :: 0 <= j && j < k ==> as(e, *VarDecl).Vars[j].parent == f
  inv forall j int {as(e, *TypeDecl).Types[j]} :: 0 <= j && j < k ==> as(e, *TypeDecl).Types[j].parent == f
  inv forall p *ConstSpec {p.parent} :: p.parent == old(p.parent) || p.parent == f && exists j int {as(e, *ConstDecl).Consts[j]} :: 0 <= j && j < k && as(e, *ConstDecl).Consts[j] == p
  inv forall p *VarSpec {p.parent} :: p.parent == old(p.parent) || p.parent == f && exists j int {as(e, *VarDecl).Vars[j]} :: 0 <= j && j < k && as(e, *VarDecl).Vars[j] == p
  inv forall p *TypeSpec {p.parent} :: p.parent == old(p.parent) || p.parent == f && exists j int {as(e, *TypeDecl).Types[j]} :: 0 <= j && j < k && as(e, *TypeDecl).Types[j] == p
  ensures owned: owned(e, f)
  ensures only: onlyOwned(e, f)

func NewGoFile(fileName, packagePath, packageName)
  props C10
  panics_if fpBase(fileName) != fileName || fpExt(fileName) != ".go"
  ensures fresh(result) && result.Name == fileName && result.PackageName == packageName && result.Imports.pkgPath == packagePath && len(result.elements) == 0
  ensures impWF(addr(result.Imports)) && forall p string {has(result.Imports.importsByPath, p)} :: !has(result.Imports.importsByPath, p)
func GoFile.Package(f)
  props C10
  ensures result == pkgOf(f)
func GoFile.NumElements(f)
  props C10
  ensures result == len(f.elements)
func GoFile.ElementAt(f, i)
  props C10
  panics_if i < 0 || i >= len(f.elements)
  ensures result == f.elements[i]

pred grows(f *GoFile) = len(f.elements) == old(len(f.elements)) + 1
  && forall j int {f.elements[j]} :: 0 <= j && j < old(len(f.elements)) ==> f.elements[j] == old(f.elements[j])
func GoFile.AddElement(f, e)
  props C10
  requires declOK(e)
  modifies f.elements, all(ConstSpec.parent), all(VarSpec.parent), all(TypeSpec.parent), all(FuncSpec.parent)
  ensures result == f && grows(f) && f.elements[len(f.elements)-1] == e
  ensures owned: owned(e, f)
  ensures only: onlyOwned(e, f)
func GoFile.AddConst(f, c)
  props C10
  modifies f.elements, all(ConstSpec.parent)
  ensures result == f && grows(f) && is(f.elements[len(f.elements)-1], *ConstDecl)
  ensures ptr(as(f.elements[len(f.elements)-1], *ConstDecl), ConstDecl).Comment == "" && len(as(f.elements[len(f.elements)-1], *ConstDecl).Consts) == 1 && as(f.elements[len(f.elements)-1], *ConstDecl).Consts[0] == c
  ensures c.parent == f && forall p *ConstSpec {p.parent} :: p == c || p.parent == old(p.parent)
func GoFile.AddVar(f, c)
  props C10
  modifies f.elements, all(VarSpec.parent)
  ensures result == f && grows(f) && is(f.elements[len(f.elements)-1], *VarDecl)
  ensures as(f.elements[len(f.elements)-1], *VarDecl).Comment == "" && len(as(f.elements[len(f.elements)-1], *VarDecl).Vars) == 1 && as(f.elements[len(f.elements)-1], *VarDecl).Vars[0] == c
  ensures c.parent == f && forall p *VarSpec {p.parent} :: p == c || p.parent == old(p.parent)
func GoFile.AddType(f, c)
  props C10
  modifies f.elements, all(TypeSpec.parent)
  ensures result == f && grows(f) && is(f.elements[len(f.elements)-1], *TypeDecl)
  ensures as(f.elements[len(f.elements)-1], *TypeDecl).Comment == "" && len(as(f.elements[len(f.elements)-1], *TypeDecl).Types) == 1 && as(f.elements[len(f.elements)-1], *TypeDecl).Types[0] == c
  ensures c.parent == f && forall p *TypeSpec {p.parent} :: p == c || p.parent == old(p.parent)

func ConstSpec.SymbolAt(c, i)
  props C10
  panics_if c.parent == nil || i < 0 || i >= len(c.Names)
  ensures result == symIn(c.parent, c.Names[i])
func ConstSpec.ToSymbol(c)
  props C10
  panics_if c.parent == nil || len(c.Names) != 1
  ensures result == symIn(c.parent, c.Names[0])
func ConstSpec.String(c)
  props C10
  inv [syms []string] forall j int {syms[j]} :: 0 <= j && j < k ==> syms[j] == prefixIn(c.parent) + c.Names[j]
  ensures result == joinPre(mem(string), sptr(c.Names), len(c.Names), if c.parent == nil then "" else prefixIn(c.parent), ", ")
func VarSpec.SymbolAt(c, i)
  props C10
  panics_if c.parent == nil || i < 0 || i >= len(c.Names)
  ensures result == symIn(c.parent, c.Names[i])
func VarSpec.ToSymbol(c)
  props C10
  panics_if c.parent == nil || len(c.Names) != 1
  ensures result == symIn(c.parent, c.Names[0])
func VarSpec.String(c)
  props C10
  inv [syms []string] forall j int {syms[j]} :: 0 <= j && j < k ==> syms[j] == prefixIn(c.parent) + c.Names[j]
  ensures result == joinPre(mem(string), sptr(c.Names), len(c.Names), if c.parent == nil then "" else prefixIn(c.parent), ", ")

// types
pred tyOf(t Ty, p *TypeSpec) = if p.Name == "" then t == abs(p.underlying) else tkind(t) == KindNamed && tsym(t) == symIn(p.parent, p.Name)
func TypeSpec.ToSymbol(t)
  props C10
  panics_if t.Name == "" || t.parent == nil
  ensures result == symIn(t.parent, t.Name)
func TypeSpec.String(t)
  props C10
  requires t.Name == "" ==> wf(t.underlying)
  ensures result == (if t.Name == "" then txt(abs(t.underlying)) else if t.parent == nil then t.Name else prefixIn(t.parent) + t.Name)
func TypeSpec.ToTypeName(t)
  props C10
  panics_if t.Name != "" && t.parent == nil
  ensures t.Name == "" ==> result == t.underlying
  ensures t.Name != "" ==> wf(result) && tkind(abs(result)) == KindNamed && tsym(abs(result)) == symIn(t.parent, t.Name)
func TypeSpec.Underlying(t)
  props C10
  ensures result == t.underlying
func TypeSpec.IsAlias(t)
  props C10
  ensures result == t.isAlias
func FieldSpec.String(f)
  props C10
  ensures result == f.Name
func InterfaceEmbed.String(f)
  props C10
  ensures result == symText(f.Type)
func InterfaceMethod.String(f)
  props C10
  ensures result == f.Name
func MethodReference.String(r)
  props C10
  ensures result == symText(r.Type) + "." + r.Method

func InterfaceMethod.ToMethodRef(m)
  props C10
  panics_if m.parent == nil || m.parent.Name == "" || m.parent.parent == nil
  ensures result.Type == symIn(m.parent.parent, m.parent.Name) && result.Method == m.Name
pred methodSig(t Ty, s Sg) = tkind(t) == KindFunc && svar(tsig(t)) == svar(s) && alen(sargs(tsig(t))) == alen(sargs(s)) + 1
  && (forall j int {atype(sargs(tsig(t)), j)} {aname(sargs(tsig(t)), j)} :: 1 <= j && j <= alen(sargs(s)) ==> atype(sargs(tsig(t)), j) == atype(sargs(s), j-1) && aname(sargs(tsig(t)), j) == aname(sargs(s), j-1))
  && sameA(sres(tsig(t)), sres(s))
func InterfaceMethod.ToTypeName(m)
  props C10
  requires wfS(addr(m.Signature))
  requires m.parent != nil && m.parent.Name == "" ==> wf(m.parent.underlying)
  panics_if m.parent == nil || m.parent.Name != "" && m.parent.parent == nil
  ensures wf(result) && methodSig(abs(result), old(absS(addr(m.Signature))))
  ensures aname(sargs(tsig(abs(result))), 0) == "" && tyOf(atype(sargs(tsig(abs(result))), 0), m.parent)

func FuncSpec.ToSymbol(f)
  props C10
  panics_if f.parent == nil
  ensures f.Receiver == nil ==> is(result, Symbol) && as(result, Symbol) == symIn(f.parent, f.Name)
  ensures f.Receiver != nil ==> is(result, MethodReference) && as(result, MethodReference).Type == symIn(f.parent, f.Receiver.Type) && as(result, MethodReference).Method == f.Name
func FuncSpec.String(f)
  props C10
  ensures result == (if f.parent == nil || f.Receiver != nil then f.Name else prefixIn(f.parent) + f.Name)
func FuncSpec.ToTypeName(f)
  props C10
  requires wfS(addr(f.Signature))
  panics_if f.Receiver != nil && f.parent == nil
  ensures f.Receiver == nil ==> wf(result) && tkind(abs(result)) == KindFunc && tsig(abs(result)) == absS(addr(f.Signature))
  ensures f.Receiver != nil ==> wf(result) && methodSig(abs(result), old(absS(addr(f.Signature)))) && aname(sargs(tsig(abs(result))), 0) == f.Receiver.Name
  ensures f.Receiver != nil && !f.Receiver.IsPointer ==> tkind(atype(sargs(tsig(abs(result))), 0)) == KindNamed && tsym(atype(sargs(tsig(abs(result))), 0)) == symIn(f.parent, f.Receiver.Type)
  ensures f.Receiver != nil && f.Receiver.IsPointer ==> tkind(atype(sargs(tsig(abs(result))), 0)) == KindPtr && tkind(telem(atype(sargs(tsig(abs(result))), 0))) == KindNamed && tsym(telem(atype(sargs(tsig(abs(result))), 0))) == symIn(f.parent, f.Receiver.Type)

// receivers
pred specOK(t TypeNameOrSpec) = if is(t, *TypeSpec) then as(t, *TypeSpec) != null && (as(t, *TypeSpec).Name == "" ==> wf(as(t, *TypeSpec).underlying)) else wf(t)
pred namedTN(t TypeNameOrSpec) = if is(t, *TypeSpec) then as(t, *TypeSpec).Name != "" else tkind(abs(t)) == KindNamed
pred nameTN(t TypeNameOrSpec) = if is(t, *TypeSpec) then as(t, *TypeSpec).Name else tsym(abs(t)).Name
pred ptrTN(t TypeNameOrSpec) = !is(t, *TypeSpec) && tkind(abs(t)) == KindPtr && tkind(telem(abs(t))) == KindNamed
func NewReceiver(name, rcvrType)
  props C10
  panics_if rcvrType == ""
  ensures fresh(result) && result.Name == name && result.Type == rcvrType && result.IsPointer == false
func NewPointerReceiver(name, rcvrType)
  props C10
  requires rcvrType != ""
  ensures fresh(result) && result.Name == name && result.Type == rcvrType && result.IsPointer == true
func NewReceiverForType(name, rcvrType)
  props C10
  requires specOK(rcvrType)
  panics_if !namedTN(rcvrType) && !ptrTN(rcvrType)
  ensures fresh(result) && result.Name == name && result.IsPointer == ptrTN(rcvrType)
  ensures result.Type == (if ptrTN(rcvrType) then tsym(telem(abs(rcvrType))).Name else nameTN(rcvrType))
func NewPointerReceiverForType(name, rcvrType)
  props C10
  requires specOK(rcvrType)
  panics_if !namedTN(rcvrType)
  ensures fresh(result) && result.Name == name && result.IsPointer == true && result.Type == nameTN(rcvrType)

// type declarations built from types
pred noParent(t TypeNameOrSpec) = is(t, *TypeSpec) && as(t, *TypeSpec).Name != "" && as(t, *TypeSpec).parent == nil
pred tyIs(y Ty, t TypeNameOrSpec) = if is(t, *TypeSpec) then tyOf(y, as(t, *TypeSpec)) else y == abs(t)
pred newSpec(r *TypeSpec, nm string) = fresh(r) && r.Name == nm && r.Comment == "" && r.parent == nil
pred fieldIs(f *FieldSpec, l Fl, j int, r *TypeSpec) = f != nil && f.Comment == "" && f.Name == fname(l, j) && f.Tag == ftag(l, j) && f.parent == r && wf(f.Type) && abs(f.Type) == ftype(l, j)
pred embedIs(e InterfaceElement, s Symbol, r *TypeSpec) = is(e, *InterfaceEmbed) && as(e, *InterfaceEmbed) != nil && as(e, *InterfaceEmbed).Comment == "" && as(e, *InterfaceEmbed).Type == s && as(e, *InterfaceEmbed).parent == r
pred methodIs(e InterfaceElement, l Ml, j int, r *TypeSpec) = is(e, *InterfaceMethod) && as(e, *InterfaceMethod) != nil && as(e, *InterfaceMethod).Comment == "" && as(e, *InterfaceMethod).Name == mname(l, j) && as(e, *InterfaceMethod).parent == r
  && wfS(addr(as(e, *InterfaceMethod).Signature)) && sameS(absS(addr(as(e, *InterfaceMethod).Signature)), msig(l, j))
pred ofType(r *TypeSpec, t TypeNameOrSpec) =
  (!is(t, *TypeSpec) ==> r.underlying == t
    && (if tkind(old(abs(t))) == KindStruct then len(r.structBody) == flen(tfields(old(abs(t)))) && (forall j int {r.structBody[j]} :: 0 <= j && j < len(r.structBody) ==> fieldIs(r.structBody[j], tfields(old(abs(t))), j, r)) else len(r.structBody) == 0)
    && (if tkind(old(abs(t))) == KindInterface then len(r.interfaceBody) == elen(tembeds(old(abs(t)))) + mlen(tmethods(old(abs(t))))
         && (forall j int {r.interfaceBody[j]} :: 0 <= j && j < elen(tembeds(old(abs(t)))) ==> embedIs(r.interfaceBody[j], esym(tembeds(old(abs(t))), j), r))
         && (forall j int {r.interfaceBody[j]} :: elen(tembeds(old(abs(t)))) <= j && j < len(r.interfaceBody) ==> methodIs(r.interfaceBody[j], tmethods(old(abs(t))), j - elen(tembeds(old(abs(t)))), r))
        else len(r.interfaceBody) == 0))
  && (is(t, *TypeSpec) ==> wf(r.underlying) && tyOf(abs(r.underlying), as(t, *TypeSpec)))
  && (is(t, *TypeSpec) && as(t, *TypeSpec).Name != "" ==> len(r.structBody) == 0 && len(r.interfaceBody) == 0)
  && (is(t, *TypeSpec) && as(t, *TypeSpec).Name == "" ==> r.underlying == as(t, *TypeSpec).underlying && len(r.structBody) == len(as(t, *TypeSpec).structBody) && len(r.interfaceBody) == len(as(t, *TypeSpec).interfaceBody)
    && (forall j int {r.structBody[j]} :: 0 <= j && j < len(r.structBody) ==> r.structBody[j] == as(t, *TypeSpec).structBody[j])
    && (forall j int {r.interfaceBody[j]} :: 0 <= j && j < len(r.interfaceBody) ==> r.interfaceBody[j] == as(t, *TypeSpec).interfaceBody[j]))
func NewTypeSpec(typeName, t)
  props C10
  requires specOK(t)
  panics_if noParent(t)
  inv [fields []*FieldSpec] [ret *TypeSpec] forall j int {fields[j]} :: 0 <= j && j < k ==> fieldIs(fields[j], tfields(old(abs(t))), j, ret)
  inv [elements []InterfaceElement] [ret *TypeSpec] forall j int {elements[j]} :: 0 <= j && j < k && j < elen(tembeds(old(abs(t)))) ==> embedIs(elements[j], esym(tembeds(old(abs(t))), j), ret)
  inv [elements []InterfaceElement] [ret *TypeSpec] forall j int {elements[j]} :: 0 <= j && j < elen(tembeds(old(abs(t)))) ==> embedIs(elements[j], esym(tembeds(old(abs(t))), j), ret)
  inv [elements []InterfaceElement] [ret *TypeSpec] forall j int {elements[j]} :: elen(tembeds(old(abs(t)))) <= j && j < elen(tembeds(old(abs(t)))) + k ==> methodIs(elements[j], tmethods(old(abs(t))), j - elen(tembeds(old(abs(t)))), ret)
  ensures newSpec(result, typeName) && result.isAlias == false
  ensures ofType(result, t)
func NewTypeAlias(typeName, t)
  props C10
  requires specOK(t)
  panics_if noParent(t)
  ensures newSpec(result, typeName) && result.isAlias == true
  ensures ofType(result, t)

func NewField(name, t)
  props C10
  ensures fresh(result) && result.Name == name && result.Type == t && result.Comment == "" && result.Tag == "" && result.parent == nil
func NewStructTypeSpec(typeName, fields)
  props C10
  requires forall j int {fields[j]} :: 0 <= j && j < len(fields) ==> fields[j] != nil && specOK(fields[j].Type)
  panics_if exists j int {fields[j]} :: 0 <= j && j < len(fields) && noParent(fields[j].Type)
  modifies all(FieldSpec.parent)
  inv forall j int {fields[j]} :: 0 <= j && j < k ==> !noParent(fields[j].Type)
  inv [ret *TypeSpec] forall j int {fields[j]} :: 0 <= j && j < k ==> fields[j].parent == ret
  inv [ret *TypeSpec] forall p *FieldSpec {p.parent} :: fresh(p) || p.parent == old(p.parent) || p.parent == ret && exists j int {fields[j]} :: 0 <= j && j < k && fields[j] == p
  inv [ft []FieldType] forall j int {ft[j].Name} {ft[j].Type} {ft[j].Tag} :: 0 <= j && j < k ==> ft[j].Name == fields[j].Name && ft[j].Tag == fields[j].Tag
  inv [ft []FieldType] forall j int {ft[j].Type} :: 0 <= j && j < k ==> wf(ft[j].Type) && tyIs(abs(ft[j].Type), fields[j].Type)
  ensures newSpec(result, typeName) && result.isAlias == false && len(result.interfaceBody) == 0
  ensures len(result.structBody) == len(fields) && forall j int {result.structBody[j]} {fields[j]} :: 0 <= j && j < len(fields) ==> result.structBody[j] == fields[j] && fields[j].parent == result
  ensures wf(result.underlying) && tkind(abs(result.underlying)) == KindStruct && flen(tfields(abs(result.underlying))) == len(fields)
  ensures forall j int {ftype(tfields(abs(result.underlying)), j)} {fields[j]} :: 0 <= j && j < len(fields) ==> fname(tfields(abs(result.underlying)), j) == fields[j].Name && ftag(tfields(abs(result.underlying)), j) == fields[j].Tag && tyIs(ftype(tfields(abs(result.underlying)), j), fields[j].Type)
  ensures forall p *FieldSpec {p.parent} :: fresh(p) || p.parent == old(p.parent) || p.parent == result && exists j int {fields[j]} :: 0 <= j && j < len(fields) && fields[j] == p

// how many of the first k elements are embedded interfaces
fn cntE(m IfMem, p Ref, k int) int
axiom cntE0: forall m IfMem; p Ref; k int {cntE(m, p, k)} :: k <= 0 ==> cntE(m, p, k) == 0
axiom cntE1: forall m IfMem; p Ref; j, k int {cntE(m, p, j), cntE(m, p, k)} :: k == j + 1 && 0 <= j ==> cntE(m, p, k) == cntE(m, p, j) + (if is(sel(m, el(p, j)), *InterfaceEmbed) then 1 else 0)
lemma induct(k) hint(cntE(m, p, k - 1)) cntRange: forall m IfMem; p Ref; k int {cntE(m, p, k)} :: 0 <= k ==> 0 <= cntE(m, p, k) && cntE(m, p, k) <= k
lemma induct(k) hint(cntE(m, p, k - 1)) cntMono: forall m IfMem; p Ref; j, k int {cntE(m, p, j), cntE(m, p, k)} :: 0 <= j && j < k ==> cntE(m, p, j) + (if is(sel(m, el(p, j)), *InterfaceEmbed) then 1 else 0) <= cntE(m, p, k) && cntE(m, p, k) - cntE(m, p, j) <= k - j - (if is(sel(m, el(p, j)), *InterfaceEmbed) then 0 else 1)
pred nE(s []InterfaceElement, k int) = cntE(mem(InterfaceElement), sptr(s), k)
pred elemOK(e InterfaceElement) = (is(e, *InterfaceEmbed) || is(e, *InterfaceMethod)) && (is(e, *InterfaceEmbed) ==> as(e, *InterfaceEmbed) != nil) && (is(e, *InterfaceMethod) ==> as(e, *InterfaceMethod) != nil && wfS(addr(as(e, *InterfaceMethod).Signature)))
pred elemIn(e InterfaceElement, r *TypeSpec) = (is(e, *InterfaceEmbed) ==> as(e, *InterfaceEmbed).parent == r) && (is(e, *InterfaceMethod) ==> as(e, *InterfaceMethod).parent == r)
iface InterfaceElement.setParent(e, t)
  props C10
  requires (is(e, *InterfaceEmbed) ==> as(e, *InterfaceEmbed) != nil) && (is(e, *InterfaceMethod) ==> as(e, *InterfaceMethod) != nil)
  modifies when(is(e, *InterfaceEmbed), as(e, *InterfaceEmbed).parent), when(is(e, *InterfaceMethod), as(e, *InterfaceMethod).parent)
  ensures elemIn(e, t)
func NewInterfaceEmbed(s)
  props C10
  ensures fresh(result) && result.Type == s && result.Comment == "" && result.parent == nil
func NewInterfaceMethod(name)
  props C10
  ensures fresh(result) && result.Name == name && result.Comment == "" && result.parent == nil && len(result.Signature.Args) == 0 && len(result.Signature.Results) == 0 && result.Signature.IsVariadic == false
func NewInterfaceTypeSpec(typeName, elements)
  props C10
  requires forall j int {elements[j]} :: 0 <= j && j < len(elements) ==> elemOK(elements[j])
  modifies all(InterfaceEmbed.parent), all(InterfaceMethod.parent)
  inv [embeds []Symbol] len(embeds) == nE(elements, k)
  inv [embeds []Symbol] forall j int {elements[j]} :: 0 <= j && j < k && is(elements[j], *InterfaceEmbed) ==> embeds[nE(elements, j)] == as(elements[j], *InterfaceEmbed).Type
  inv [methods []MethodType] len(methods) == k - nE(elements, k)
  inv [methods []MethodType] forall j int {methods[j].Name} {addr(methods[j].Signature)} :: 0 <= j && j < len(methods) ==> wfS(addr(methods[j].Signature))
  inv [methods []MethodType] forall j int {elements[j]} :: 0 <= j && j < k && is(elements[j], *InterfaceMethod) ==> methods[j - nE(elements, j)].Name == as(elements[j], *InterfaceMethod).Name && sameS(absS(addr(methods[j - nE(elements, j)].Signature)), old(absS(addr(as(elements[j], *InterfaceMethod).Signature))))
  inv [ret *TypeSpec] forall j int {elements[j]} :: 0 <= j && j < k ==> elemIn(elements[j], ret)
  inv [ret *TypeSpec] forall p *InterfaceEmbed {p.parent} :: fresh(p) || p.parent == old(p.parent) || p.parent == ret && exists j int {elements[j]} :: 0 <= j && j < k && elements[j] == box(*InterfaceEmbed, p)
  inv [ret *TypeSpec] forall p *InterfaceMethod {p.parent} :: fresh(p) || p.parent == old(p.parent) || p.parent == ret && exists j int {elements[j]} :: 0 <= j && j < k && elements[j] == box(*InterfaceMethod, p)
  ensures newSpec(result, typeName) && result.isAlias == false && len(result.structBody) == 0
  ensures len(result.interfaceBody) == len(elements) && forall j int {result.interfaceBody[j]} {elements[j]} :: 0 <= j && j < len(elements) ==> result.interfaceBody[j] == elements[j] && elemIn(elements[j], result)
  ensures wf(result.underlying) && tkind(abs(result.underlying)) == KindInterface && elen(tembeds(abs(result.underlying))) == nE(elements, len(elements)) && mlen(tmethods(abs(result.underlying))) == len(elements) - nE(elements, len(elements))
  ensures forall j int {elements[j]} :: 0 <= j && j < len(elements) && is(elements[j], *InterfaceEmbed) ==> esym(tembeds(abs(result.underlying)), nE(elements, j)) == as(elements[j], *InterfaceEmbed).Type
  ensures forall j int {elements[j]} :: 0 <= j && j < len(elements) && is(elements[j], *InterfaceMethod) ==> mname(tmethods(abs(result.underlying)), j - nE(elements, j)) == as(elements[j], *InterfaceMethod).Name && sameS(msig(tmethods(abs(result.underlying)), j - nE(elements, j)), old(absS(addr(as(elements[j], *InterfaceMethod).Signature))))
  ensures forall p *InterfaceEmbed {p.parent} :: fresh(p) || p.parent == old(p.parent) || p.parent == result && exists j int {elements[j]} :: 0 <= j && j < len(elements) && elements[j] == box(*InterfaceEmbed, p)
  ensures forall p *InterfaceMethod {p.parent} :: fresh(p) || p.parent == old(p.parent) || p.parent == result && exists j int {elements[j]} :: 0 <= j && j < len(elements) && elements[j] == box(*InterfaceMethod, p)

// builders
func NewConst(names)
  props C10
  ensures fresh(result) && len(result.Names) == len(names) && (forall j int {result.Names[j]} :: 0 <= j && j < len(names) ==> result.Names[j] == names[j])
  ensures result.Comment == "" && result.Type == nil && result.Initializer == nil && result.parent == nil
func NewVar(names)
  props C10
  ensures fresh(result) && len(result.Names) == len(names) && (forall j int {result.Names[j]} :: 0 <= j && j < len(names) ==> result.Names[j] == names[j])
  ensures result.Comment == "" && result.Type == nil && result.Initializer == nil && result.parent == nil
func NewConstDecl(cs)
  props C10
  ensures fresh(result) && result.Comment == "" && len(result.Consts) == len(cs) && forall j int {result.Consts[j]} :: 0 <= j && j < len(cs) ==> result.Consts[j] == cs[j]
func NewVarDecl(vs)
  props C10
  ensures fresh(result) && result.Comment == "" && len(result.Vars) == len(vs) && forall j int {result.Vars[j]} :: 0 <= j && j < len(vs) ==> result.Vars[j] == vs[j]
func NewTypeDecl(ts)
  props C10
  ensures fresh(result) && result.Comment == "" && len(result.Types) == len(ts) && forall j int {result.Types[j]} :: 0 <= j && j < len(ts) ==> result.Types[j] == ts[j]
func ConstDecl.AddConst(c, cs)
  props C10
  modifies c.Consts
  ensures result == c && len(c.Consts) == old(len(c.Consts)) + 1 && c.Consts[len(c.Consts)-1] == cs && forall j int {c.Consts[j]} :: 0 <= j && j < old(len(c.Consts)) ==> c.Consts[j] == old(c.Consts[j])
func VarDecl.AddVar(v, vs)
  props C10
  modifies v.Vars
  ensures result == v && len(v.Vars) == old(len(v.Vars)) + 1 && v.Vars[len(v.Vars)-1] == vs && forall j int {v.Vars[j]} :: 0 <= j && j < old(len(v.Vars)) ==> v.Vars[j] == old(v.Vars[j])
func TypeDecl.AddType(t, ts)
  props C10
  modifies t.Types
  ensures result == t && len(t.Types) == old(len(t.Types)) + 1 && t.Types[len(t.Types)-1] == ts && forall j int {t.Types[j]} :: 0 <= j && j < old(len(t.Types)) ==> t.Types[j] == old(t.Types[j])
func ConstDecl.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func VarDecl.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func TypeDecl.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func ConstSpec.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func VarSpec.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func TypeSpec.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func FieldSpec.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func InterfaceEmbed.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func InterfaceMethod.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func FuncSpec.SetComment(c, comment)
  props C10
  modifies c.Comment
  ensures result == c && c.Comment == comment
func FieldSpec.SetTag(f, tag)
  props C10
  modifies f.Tag
  ensures result == f && f.Tag == tag
func ConstSpec.SetType(c, t)
  props C10
  modifies c.Type
  ensures result == c && c.Type == t
func VarSpec.SetType(c, t)
  props C10
  modifies c.Type
  ensures result == c && c.Type == t
func ConstSpec.SetInitializer(c, cb)
  props C10
  modifies c.Initializer
  ensures result == c && c.Initializer == cb
func VarSpec.SetInitializer(c, cb)
  props C10
  modifies c.Initializer
  ensures result == c && c.Initializer == cb
func NewFunc(name)
  props C10
  ensures fresh(result) && result.Name == name && result.Comment == "" && result.Receiver == nil && result.parent == nil && len(result.Signature.Args) == 0 && len(result.Signature.Results) == 0 && result.Signature.IsVariadic == false
func NewMethod(rcvr, name)
  props C10
  ensures fresh(result) && result.Name == name && result.Comment == "" && result.Receiver == rcvr && result.parent == nil && len(result.Signature.Args) == 0 && len(result.Signature.Results) == 0 && result.Signature.IsVariadic == false
func FuncSpec.AddArg(f, name, t)
  props C10
  modifies f.Signature.Args
  ensures result == f && len(f.Signature.Args) == old(len(f.Signature.Args)) + 1 && f.Signature.Args[len(f.Signature.Args)-1].Name == name && f.Signature.Args[len(f.Signature.Args)-1].Type == t
  ensures forall j int {f.Signature.Args[j].Name} {f.Signature.Args[j].Type} :: 0 <= j && j < old(len(f.Signature.Args)) ==> f.Signature.Args[j].Name == old(f.Signature.Args[j].Name) && f.Signature.Args[j].Type == old(f.Signature.Args[j].Type)
func FuncSpec.AddResult(f, name, t)
  props C10
  modifies f.Signature.Results
  ensures result == f && len(f.Signature.Results) == old(len(f.Signature.Results)) + 1 && f.Signature.Results[len(f.Signature.Results)-1].Name == name && f.Signature.Results[len(f.Signature.Results)-1].Type == t
  ensures forall j int {f.Signature.Results[j].Name} {f.Signature.Results[j].Type} :: 0 <= j && j < old(len(f.Signature.Results)) ==> f.Signature.Results[j].Name == old(f.Signature.Results[j].Name) && f.Signature.Results[j].Type == old(f.Signature.Results[j].Type)
func FuncSpec.SetVariadic(f, isVariadic)
  props C10
  modifies f.Signature.IsVariadic
  ensures result == f && f.Signature.IsVariadic == isVariadic
func InterfaceMethod.AddArg(f, name, t)
  props C10
  modifies f.Signature.Args
  ensures result == f && len(f.Signature.Args) == old(len(f.Signature.Args)) + 1 && f.Signature.Args[len(f.Signature.Args)-1].Name == name && f.Signature.Args[len(f.Signature.Args)-1].Type == t
  ensures forall j int {f.Signature.Args[j].Name} {f.Signature.Args[j].Type} :: 0 <= j && j < old(len(f.Signature.Args)) ==> f.Signature.Args[j].Name == old(f.Signature.Args[j].Name) && f.Signature.Args[j].Type == old(f.Signature.Args[j].Type)
func InterfaceMethod.AddResult(f, name, t)
  props C10
  modifies f.Signature.Results
  ensures result == f && len(f.Signature.Results) == old(len(f.Signature.Results)) + 1 && f.Signature.Results[len(f.Signature.Results)-1].Name == name && f.Signature.Results[len(f.Signature.Results)-1].Type == t
  ensures forall j int {f.Signature.Results[j].Name} {f.Signature.Results[j].Type} :: 0 <= j && j < old(len(f.Signature.Results)) ==> f.Signature.Results[j].Name == old(f.Signature.Results[j].Name) && f.Signature.Results[j].Type == old(f.Signature.Results[j].Type)
func InterfaceMethod.SetVariadic(f, isVariadic)
  props C10
  modifies f.Signature.IsVariadic
  ensures result == f && f.Signature.IsVariadic == isVariadic
