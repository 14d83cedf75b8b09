// C06: conversion of go/types types and objects.  What package go/types says:
fn goname(o Ref) string
fn gopkg(o Ref) *types.Package
fn gotype(o Ref) types.Type
fn pkname(p *types.Package) string
fn pkpath(p *types.Package) string
fn gnobj(t *types.Named) *types.TypeName
fn gbk(t *types.Basic) int
fn gpelem(t *types.Pointer) types.Type
fn gselem(t *types.Slice) types.Type
fn gaelem(t *types.Array) types.Type
fn galen(t *types.Array) int
fn gcelem(t *types.Chan) types.Type
fn gcdir(t *types.Chan) int
fn gmelem(t *types.Map) types.Type
fn gmkey(t *types.Map) types.Type
fn gparams(t *types.Signature) *types.Tuple
fn gresults(t *types.Signature) *types.Tuple
fn gvariadic(t *types.Signature) bool
fn grecv(t *types.Signature) *types.Var
fn gtlen(t *types.Tuple) int
fn gtat(t *types.Tuple, i int) *types.Var
fn gnf(t *types.Struct) int
fn gfield(t *types.Struct, i int) *types.Var
fn gtag(t *types.Struct, i int) string
fn ganon(v *types.Var) bool
fn gne(t *types.Interface) int
fn gembed(t *types.Interface, i int) *types.Named
fn gnm(t *types.Interface) int
fn gmeth(t *types.Interface, i int) *types.Func
fn gunder(t types.Type) types.Type
fn obname(o types.Object) string
fn obpkg(o types.Object) *types.Package

ext types.object.Name(o)
  trusted(stdlib)
  pure
  requires o != nil
  ensures result == goname(o)
ext types.object.Pkg(o)
  trusted(stdlib)
  pure
  requires o != nil
  ensures result == gopkg(o)
ext types.object.Type(o)
  trusted(stdlib)
  pure
  requires o != nil
  ensures result == gotype(o)
ext types.Func.Pkg(o)
  trusted(stdlib)
  pure
  requires o != nil
  ensures result == gopkg(o)
ext types.Object.Name(o)
  trusted(stdlib)
  pure
  requires o != nil
  ensures result == obname(o)
ext types.Object.Pkg(o)
  trusted(stdlib)
  pure
  requires o != nil
  ensures result == obpkg(o)
ext types.Package.Name(p)
  trusted(stdlib)
  pure
  requires p != nil
  ensures result == pkname(p)
ext types.Package.Path(p)
  trusted(stdlib)
  pure
  requires p != nil
  ensures result == pkpath(p)
ext types.Named.Obj(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gnobj(t) && result != nil
ext types.Basic.Kind(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gbk(t)
ext types.Basic.Name(t)
  trusted(stdlib)
  pure
  requires t != nil
ext types.Pointer.Elem(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gpelem(t)
ext types.Slice.Elem(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gselem(t)
ext types.Array.Elem(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gaelem(t)
ext types.Array.Len(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == galen(t)
ext types.Chan.Elem(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gcelem(t)
ext types.Chan.Dir(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gcdir(t)
ext types.Map.Elem(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gmelem(t)
ext types.Map.Key(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gmkey(t)
ext types.Signature.Params(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gparams(t)
ext types.Signature.Results(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gresults(t)
ext types.Signature.Variadic(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gvariadic(t)
ext types.Signature.Recv(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == grecv(t)
// a nil tuple is empty
ext types.Tuple.Len(t)
  trusted(stdlib)
  pure
  ensures result == gtlen(t) && 0 <= result
ext types.Tuple.At(t, i)
  trusted(stdlib)
  pure
  requires 0 <= i && i < gtlen(t)
  ensures result == gtat(t, i) && result != nil
ext types.Struct.NumFields(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gnf(t) && 0 <= result
ext types.Struct.Field(t, i)
  trusted(stdlib)
  pure
  requires t != nil && 0 <= i && i < gnf(t)
  ensures result == gfield(t, i) && result != nil
ext types.Struct.Tag(t, i)
  trusted(stdlib)
  pure
  requires t != nil && 0 <= i && i < gnf(t)
  ensures result == gtag(t, i)
ext types.Var.Anonymous(v)
  trusted(stdlib)
  pure
  requires v != nil
  ensures result == ganon(v)
ext types.Var.Embedded(v)
  trusted(stdlib)
  pure
  requires v != nil
  ensures result == ganon(v)
ext types.Interface.NumEmbeddeds(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gne(t) && 0 <= result
ext types.Interface.Embedded(t, i)
  trusted(stdlib)
  pure
  requires t != nil && 0 <= i && i < gne(t)
  ensures result == gembed(t, i)
ext types.Interface.NumExplicitMethods(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gnm(t) && 0 <= result
ext types.Interface.ExplicitMethod(t, i)
  trusted(stdlib)
  pure
  requires t != nil && 0 <= i && i < gnm(t)
  ensures result == gmeth(t, i) && result != nil
ext types.Type.Underlying(t)
  trusted(stdlib)
  pure
  requires t != nil
  ensures result == gunder(t)

axiom gtlen0: forall t *types.Tuple {gtlen(t)} :: 0 <= gtlen(t)
// the types the conversion supports, all the way down (type parameters, unions, aliases, untyped and
// invalid kinds are left out)
fn gok(t types.Type) bool
fn gokS(t *types.Signature) bool
fn gokT(t *types.Tuple) bool
axiom gokKinds: forall t types.Type {gok(t)} :: gok(t) ==> is(t, *types.Named) || is(t, *types.Basic) || is(t, *types.Pointer) || is(t, *types.Slice) || is(t, *types.Array) || is(t, *types.Chan)
  || is(t, *types.Map) || is(t, *types.Signature) || is(t, *types.Struct) || is(t, *types.Interface)
axiom gokNamed: forall p *types.Named {gok(box(*types.Named, p))} :: gok(box(*types.Named, p)) ==> p != nil
axiom gokBasic: forall p *types.Basic {gok(box(*types.Basic, p))} :: gok(box(*types.Basic, p)) ==> p != nil && 1 <= gbk(p) && gbk(p) <= 18
axiom gokPtr: forall p *types.Pointer {gok(box(*types.Pointer, p))} :: gok(box(*types.Pointer, p)) ==> p != nil && gok(gpelem(p))
axiom gokSlice: forall p *types.Slice {gok(box(*types.Slice, p))} :: gok(box(*types.Slice, p)) ==> p != nil && gok(gselem(p))
axiom gokArray: forall p *types.Array {gok(box(*types.Array, p))} :: gok(box(*types.Array, p)) ==> p != nil && gok(gaelem(p)) && 0 <= galen(p)
axiom gokChan: forall p *types.Chan {gok(box(*types.Chan, p))} :: gok(box(*types.Chan, p)) ==> p != nil && gok(gcelem(p)) && 0 <= gcdir(p) && gcdir(p) <= 2
axiom gokMap: forall p *types.Map {gok(box(*types.Map, p))} :: gok(box(*types.Map, p)) ==> p != nil && gok(gmelem(p)) && gok(gmkey(p))
axiom gokSigBox: forall p *types.Signature {gok(box(*types.Signature, p))} :: gok(box(*types.Signature, p)) ==> gokS(p)
axiom gokSig: forall p *types.Signature {gokS(p)} :: gokS(p) ==> p != nil && gokT(gparams(p)) && gokT(gresults(p)) && (gvariadic(p) ==> 0 < gtlen(gparams(p)) && is(gotype(gtat(gparams(p), gtlen(gparams(p))-1)), *types.Slice))
  && (grecv(p) != nil ==> gok(gotype(grecv(p))))
axiom gokTup: forall p *types.Tuple; i int {gokT(p), gtat(p, i)} :: gokT(p) && 0 <= i && i < gtlen(p) ==> gok(gotype(gtat(p, i)))
axiom gokStruct: forall p *types.Struct {gok(box(*types.Struct, p))} :: gok(box(*types.Struct, p)) ==> p != nil && (forall i int {gfield(p, i)} :: 0 <= i && i < gnf(p) ==> gok(gotype(gfield(p, i))))
axiom gokIface: forall p *types.Interface {gok(box(*types.Interface, p))} :: gok(box(*types.Interface, p)) ==> p != nil
  && (forall i int {gembed(p, i)} :: 0 <= i && i < gne(p) ==> gembed(p, i) != nil)
  && (forall i int {gmeth(p, i)} :: 0 <= i && i < gnm(p) ==> is(gotype(gmeth(p, i)), *types.Signature) && gokS(unboxSig(gotype(gmeth(p, i)))) && !gwithRecv(unboxSig(gotype(gmeth(p, i)))))
pred unboxSig(t types.Type) = as(t, *types.Signature)
// a function type with a concrete receiver gets it as its first parameter
pred gwithRecv(p *types.Signature) = grecv(p) != nil && !is(gunder(gotype(grecv(p))), *types.Interface)

// the type a go/types type stands for
fn gty(t types.Type) Ty
fn gsg(p *types.Signature) Sg
pred gpack(p *types.Package) = if p == nil then zero(Package) else rec(Package, pkpath(p), pkname(p))
axiom gtyNamed: forall p *types.Named {gty(box(*types.Named, p))} :: tkind(gty(box(*types.Named, p))) == KindNamed && tsym(gty(box(*types.Named, p))) == rec(Symbol, gpack(gopkg(gnobj(p))), goname(gnobj(p)))
axiom gtyBasic: forall p *types.Basic {gty(box(*types.Basic, p))} :: 1 <= gbk(p) && gbk(p) <= 17 ==> tkind(gty(box(*types.Basic, p))) == KindBasic && tbk(gty(box(*types.Basic, p))) == (if gbk(p) == 17 then 24 else gbk(p))
axiom gtyUnsafe: forall p *types.Basic {gty(box(*types.Basic, p))} :: gbk(p) == 18 ==> tkind(gty(box(*types.Basic, p))) == KindNamed && tsym(gty(box(*types.Basic, p))) == rec(Symbol, rec(Package, "unsafe", "unsafe"), "Pointer")
axiom gtyPtr: forall p *types.Pointer {gty(box(*types.Pointer, p))} :: tkind(gty(box(*types.Pointer, p))) == KindPtr && telem(gty(box(*types.Pointer, p))) == gty(gpelem(p))
axiom gtySlice: forall p *types.Slice {gty(box(*types.Slice, p))} :: tkind(gty(box(*types.Slice, p))) == KindSlice && telem(gty(box(*types.Slice, p))) == gty(gselem(p))
axiom gtyArray: forall p *types.Array {gty(box(*types.Array, p))} :: 0 <= galen(p) ==> tkind(gty(box(*types.Array, p))) == KindArray && telem(gty(box(*types.Array, p))) == gty(gaelem(p)) && tlen(gty(box(*types.Array, p))) == galen(p)
axiom gtyChan: forall p *types.Chan {gty(box(*types.Chan, p))} :: 0 <= gcdir(p) && gcdir(p) <= 2 ==> tkind(gty(box(*types.Chan, p))) == KindChan && telem(gty(box(*types.Chan, p))) == gty(gcelem(p)) && tdir(gty(box(*types.Chan, p))) == (if gcdir(p) == 0 then 3 else if gcdir(p) == 1 then 2 else 1)
axiom gtyMap: forall p *types.Map {gty(box(*types.Map, p))} :: tkind(gty(box(*types.Map, p))) == KindMap && telem(gty(box(*types.Map, p))) == gty(gmelem(p)) && tkey(gty(box(*types.Map, p))) == gty(gmkey(p))
axiom gtySig: forall p *types.Signature {gty(box(*types.Signature, p))} :: tkind(gty(box(*types.Signature, p))) == KindFunc && tsig(gty(box(*types.Signature, p))) == gsg(p)
axiom gtyStruct: forall p *types.Struct {gty(box(*types.Struct, p))} :: 0 <= gnf(p) ==> tkind(gty(box(*types.Struct, p))) == KindStruct && flen(tfields(gty(box(*types.Struct, p)))) == gnf(p)
axiom gtyField: forall p *types.Struct; i int {ftype(tfields(gty(box(*types.Struct, p))), i)} {gty(box(*types.Struct, p)), gfield(p, i)} :: 0 <= i && i < gnf(p) ==>
  ftype(tfields(gty(box(*types.Struct, p))), i) == gty(gotype(gfield(p, i))) && fname(tfields(gty(box(*types.Struct, p))), i) == (if ganon(gfield(p, i)) then "" else goname(gfield(p, i))) && ftag(tfields(gty(box(*types.Struct, p))), i) == gtag(p, i)
axiom gtyIface: forall p *types.Interface {gty(box(*types.Interface, p))} :: 0 <= gnm(p) && 0 <= gne(p) ==> tkind(gty(box(*types.Interface, p))) == KindInterface && elen(tembeds(gty(box(*types.Interface, p)))) == gne(p) && mlen(tmethods(gty(box(*types.Interface, p)))) == gnm(p)
axiom gtyEmbed: forall p *types.Interface; i int {esym(tembeds(gty(box(*types.Interface, p))), i)} {gty(box(*types.Interface, p)), gembed(p, i)} :: 0 <= i && i < gne(p) ==>
  esym(tembeds(gty(box(*types.Interface, p))), i) == rec(Symbol, gpack(gopkg(gnobj(gembed(p, i)))), goname(gnobj(gembed(p, i))))
axiom gtyMethod: forall p *types.Interface; i int {msig(tmethods(gty(box(*types.Interface, p))), i)} {gty(box(*types.Interface, p)), gmeth(p, i)} :: 0 <= i && i < gnm(p) ==>
  msig(tmethods(gty(box(*types.Interface, p))), i) == gsg(unboxSig(gotype(gmeth(p, i)))) && mname(tmethods(gty(box(*types.Interface, p))), i) == goname(gmeth(p, i))
fn goff(p *types.Signature) int
axiom goff: forall p *types.Signature {goff(p)} {gsg(p)} :: goff(p) == (if gwithRecv(p) then 1 else 0)
axiom gsig: forall p *types.Signature {gsg(p)} :: 0 <= gtlen(gparams(p)) && 0 <= gtlen(gresults(p)) ==> svar(gsg(p)) == gvariadic(p) && alen(sargs(gsg(p))) == gtlen(gparams(p)) + goff(p) && alen(sres(gsg(p))) == gtlen(gresults(p))
axiom gsigRecv: forall p *types.Signature {gsg(p)} :: gwithRecv(p) ==> atype(sargs(gsg(p)), 0) == gty(gotype(grecv(p))) && aname(sargs(gsg(p)), 0) == goname(grecv(p))
axiom gsigArg: forall p *types.Signature; i int {atype(sargs(gsg(p)), i)} :: goff(p) <= i && i < gtlen(gparams(p)) + goff(p) ==> atype(sargs(gsg(p)), i) == gty(gotype(gtat(gparams(p), i - goff(p)))) && aname(sargs(gsg(p)), i) == goname(gtat(gparams(p), i - goff(p)))
axiom gsigArg2: forall p *types.Signature; i int {gsg(p), gtat(gparams(p), i)} :: 0 <= i && i < gtlen(gparams(p)) ==> atype(sargs(gsg(p)), i + goff(p)) == gty(gotype(gtat(gparams(p), i))) && aname(sargs(gsg(p)), i + goff(p)) == goname(gtat(gparams(p), i))
axiom gsigRes: forall p *types.Signature; i int {atype(sres(gsg(p)), i)} {gsg(p), gtat(gresults(p), i)} :: 0 <= i && i < gtlen(gresults(p)) ==> atype(sres(gsg(p)), i) == gty(gotype(gtat(gresults(p), i))) && aname(sres(gsg(p)), i) == goname(gtat(gresults(p), i))

func PackageForGoType(pkg)
  props C06
  requires nullable: pkg
  ensures result == gpack(pkg)

func TypeNameForGoType(t)
  props C06
  requires gok(t)
  decreases trank(gty(t))
  inv [l []FieldType] [u *types.Struct] forall j int {l[j].Type} {l[j].Name} {l[j].Tag} :: 0 <= j && j < k ==> wf(l[j].Type) && abs(l[j].Type) == gty(gotype(gfield(u, j))) && l[j].Name == (if ganon(gfield(u, j)) then "" else goname(gfield(u, j))) && l[j].Tag == gtag(u, j)
  inv [l []Symbol] [u *types.Interface] forall j int {l[j].Name} {l[j].Package.ImportPath} {l[j].Package.Name} :: 0 <= j && j < k ==> l[j] == rec(Symbol, gpack(gopkg(gnobj(gembed(u, j)))), goname(gnobj(gembed(u, j))))
  inv [l []MethodType] [u *types.Interface] forall j int {addr(l[j].Signature)} {l[j].Name} {l[j].Signature.Args} :: 0 <= j && j < k ==> wfS(addr(l[j].Signature)) && sameS(absS(addr(l[j].Signature)), gsg(unboxSig(gotype(gmeth(u, j))))) && l[j].Name == goname(gmeth(u, j))
  inv [l []ArgType] [u *types.Tuple] forall j int {l[j].Type} {l[j].Name} :: 0 <= j && j < k ==> wf(l[j].Type) && abs(l[j].Type) == gty(gotype(gtat(u, j))) && l[j].Name == goname(gtat(u, j))
  ensures wf(result)
  ensures same: sameT(abs(result), gty(t))

// what an object refers to
pred gmethodOf(o types.Object) = is(o, *types.Func) && as(o, *types.Func) != nil && grecv(unboxSig(gotype(as(o, *types.Func)))) != nil
pred grecvTy(o types.Object) = gty(gotype(grecv(unboxSig(gotype(as(o, *types.Func))))))
func SymbolForGoObject(obj)
  props C06
  requires obj != nil
  requires is(obj, *types.Func) ==> as(obj, *types.Func) != nil && is(gotype(as(obj, *types.Func)), *types.Signature) && unboxSig(gotype(as(obj, *types.Func))) != nil
  requires gmethodOf(obj) ==> gok(gotype(grecv(unboxSig(gotype(as(obj, *types.Func))))))
  ensures gmethodOf(obj) && tkind(grecvTy(obj)) == KindNamed ==> result == box(MethodReference, rec(MethodReference, tsym(grecvTy(obj)), obname(obj)))
  ensures gmethodOf(obj) && tkind(grecvTy(obj)) == KindPtr ==> result == box(MethodReference, rec(MethodReference, tsym(telem(grecvTy(obj))), obname(obj)))
  ensures !gmethodOf(obj) ==> result == box(Symbol, rec(Symbol, gpack(obpkg(obj)), obname(obj)))
