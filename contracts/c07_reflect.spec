// C07: conversion of runtime types. What package reflect says of a type:
fn rkind(t reflect.Type) int
fn rname(t reflect.Type) string
fn rpkg(t reflect.Type) string
fn relem(t reflect.Type) reflect.Type
fn rkey(t reflect.Type) reflect.Type
fn rlen(t reflect.Type) int
fn rdir(t reflect.Type) int
fn rvar(t reflect.Type) bool
fn rnin(t reflect.Type) int
fn rin(t reflect.Type, i int) reflect.Type
fn rnout(t reflect.Type) int
fn rout(t reflect.Type, i int) reflect.Type
fn rnf(t reflect.Type) int
fn rfname(t reflect.Type, i int) string
fn rftype(t reflect.Type, i int) reflect.Type
fn rftag(t reflect.Type, i int) string
fn rfanon(t reflect.Type, i int) bool
fn rnm(t reflect.Type) int
fn rmname(t reflect.Type, i int) string
fn rmtype(t reflect.Type, i int) reflect.Type

// Go's kinds (17 array, 18 chan, 19 func, 20 interface, 21 map, 22 pointer, 23 slice, 25 struct, 26 unsafe.Pointer); the basic ones always have a name
axiom trusted(reflect) rkinds: forall t reflect.Type {rkind(t)} :: 1 <= rkind(t) && rkind(t) <= 26 && ((basicKind(rkind(t)) || rkind(t) == 26) ==> rname(t) != "")
axiom trusted(reflect) rvariadic: forall t reflect.Type {rvar(t)} :: rvar(t) ==> 0 < rnin(t) && rkind(rin(t, rnin(t)-1)) == 23 && rname(rin(t, rnin(t)-1)) == ""
axiom trusted(reflect) rmfunc: forall t reflect.Type; i int {rmtype(t, i)} :: rkind(t) == 20 && 0 <= i && i < rnm(t) ==> rkind(rmtype(t, i)) == 19

ext reflect.Type.Kind(t)
  trusted(stdlib)
  pure
  ensures result == rkind(t)
ext reflect.Type.Name(t)
  trusted(stdlib)
  pure
  ensures result == rname(t)
ext reflect.Type.PkgPath(t)
  trusted(stdlib)
  pure
  ensures result == rpkg(t)
ext reflect.Type.Elem(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 17 || rkind(t) == 18 || rkind(t) == 21 || rkind(t) == 22 || rkind(t) == 23
  ensures result == relem(t) && result != nil
ext reflect.Type.Key(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 21
  ensures result == rkey(t) && result != nil
ext reflect.Type.Len(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 17
  ensures result == rlen(t) && 0 <= result
ext reflect.Type.ChanDir(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 18
  ensures result == rdir(t) && 1 <= result && result <= 3
ext reflect.Type.IsVariadic(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 19
  ensures result == rvar(t)
ext reflect.Type.NumIn(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 19
  ensures result == rnin(t) && 0 <= result
ext reflect.Type.In(t, i)
  trusted(stdlib)
  pure
  requires rkind(t) == 19 && 0 <= i && i < rnin(t)
  ensures result == rin(t, i) && result != nil
ext reflect.Type.NumOut(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 19
  ensures result == rnout(t) && 0 <= result
ext reflect.Type.Out(t, i)
  trusted(stdlib)
  pure
  requires rkind(t) == 19 && 0 <= i && i < rnout(t)
  ensures result == rout(t, i) && result != nil
ext reflect.Type.NumField(t)
  trusted(stdlib)
  pure
  requires rkind(t) == 25
  ensures result == rnf(t) && 0 <= result
ext reflect.Type.Field(t, i)
  trusted(stdlib)
  pure
  requires rkind(t) == 25 && 0 <= i && i < rnf(t)
  ensures result.Name == rfname(t, i) && result.Type == rftype(t, i) && result.Type != nil && result.Tag == rftag(t, i) && result.Anonymous == rfanon(t, i)
ext reflect.Type.NumMethod(t)
  trusted(stdlib)
  pure
  ensures result == rnm(t) && 0 <= result
ext reflect.Type.Method(t, i)
  trusted(stdlib)
  pure
  requires 0 <= i && i < rnm(t)
  ensures rkind(t) == 20 ==> result.Name == rmname(t, i) && result.Type == rmtype(t, i) && result.Type != nil

// the type a runtime type stands for
fn rty(t reflect.Type) Ty
fn rsig(t reflect.Type) Sg
pred rbasic(t reflect.Type) = basicKind(rkind(t)) && rpkg(t) == ""
axiom rtyBasic: forall t reflect.Type {rty(t), rkind(t)} :: rbasic(t) ==> tkind(rty(t)) == KindBasic && tbk(rty(t)) == rkind(t)
axiom rtyNamed: forall t reflect.Type {rty(t), rkind(t)} :: !rbasic(t) && rname(t) != "" ==> tkind(rty(t)) == KindNamed && tsym(rty(t)) == rec(Symbol, rec(Package, rpkg(t), ""), rname(t))
pred runnamed(t reflect.Type, k int) = rname(t) == "" && rkind(t) == k
axiom rtyPtr: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 22) ==> tkind(rty(t)) == KindPtr && telem(rty(t)) == rty(relem(t))
axiom rtySlice: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 23) ==> tkind(rty(t)) == KindSlice && telem(rty(t)) == rty(relem(t))
axiom rtyArray: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 17) ==> tkind(rty(t)) == KindArray && telem(rty(t)) == rty(relem(t)) && tlen(rty(t)) == rlen(t)
axiom rtyMap: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 21) ==> tkind(rty(t)) == KindMap && telem(rty(t)) == rty(relem(t)) && tkey(rty(t)) == rty(rkey(t))
axiom rtyChan: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 18) ==> tkind(rty(t)) == KindChan && telem(rty(t)) == rty(relem(t)) && tdir(rty(t)) == rdir(t)
axiom rtyFunc: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 19) ==> tkind(rty(t)) == KindFunc && tsig(rty(t)) == rsig(t)
axiom rtyStruct: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 25) ==> tkind(rty(t)) == KindStruct && flen(tfields(rty(t))) == rnf(t)
axiom rtyField: forall t reflect.Type; i int {ftype(tfields(rty(t)), i)} {rty(t), rftype(t, i)} :: runnamed(t, 25) && 0 <= i && i < rnf(t) ==>
  ftype(tfields(rty(t)), i) == rty(rftype(t, i)) && fname(tfields(rty(t)), i) == (if rfanon(t, i) then "" else rfname(t, i)) && ftag(tfields(rty(t)), i) == rftag(t, i)
axiom rtyIface: forall t reflect.Type {rty(t), rkind(t)} :: runnamed(t, 20) ==> tkind(rty(t)) == KindInterface && elen(tembeds(rty(t))) == 0 && mlen(tmethods(rty(t))) == rnm(t)
axiom rtyMethod: forall t reflect.Type; i int {msig(tmethods(rty(t)), i)} {rty(t), rmtype(t, i)} :: runnamed(t, 20) && 0 <= i && i < rnm(t) ==>
  msig(tmethods(rty(t)), i) == rsig(rmtype(t, i)) && mname(tmethods(rty(t)), i) == rmname(t, i)
axiom rsig: forall t reflect.Type {rsig(t)} :: rkind(t) == 19 ==> svar(rsig(t)) == rvar(t) && alen(sargs(rsig(t))) == rnin(t) && alen(sres(rsig(t))) == rnout(t)
axiom rsigIn: forall t reflect.Type; i int {atype(sargs(rsig(t)), i)} {rsig(t), rin(t, i)} :: rkind(t) == 19 && 0 <= i && i < rnin(t) ==> atype(sargs(rsig(t)), i) == rty(rin(t, i)) && aname(sargs(rsig(t)), i) == ""
axiom rsigOut: forall t reflect.Type; i int {atype(sres(rsig(t)), i)} {rsig(t), rout(t, i)} :: rkind(t) == 19 && 0 <= i && i < rnout(t) ==> atype(sres(rsig(t)), i) == rty(rout(t, i)) && aname(sres(rsig(t)), i) == ""

func TypeNameForReflectType(t)
  props C07
  requires t != nil
  decreases trank(rty(t))
  inv [l []FieldType] forall j int {l[j].Type} {l[j].Name} {l[j].Tag} :: 0 <= j && j < k ==> wf(l[j].Type) && abs(l[j].Type) == rty(rftype(t, j)) && l[j].Name == (if rfanon(t, j) then "" else rfname(t, j)) && l[j].Tag == rftag(t, j)
  inv [l []MethodType] forall j int {addr(l[j].Signature)} {l[j].Name} {l[j].Signature.Args} :: 0 <= j && j < k ==> wfS(addr(l[j].Signature)) && sameS(absS(addr(l[j].Signature)), rsig(rmtype(t, j))) && l[j].Name == rmname(t, j)
  inv [p *Signature] [u reflect.Type] forall j int {p.Args[j].Type} {p.Args[j].Name} :: 0 <= j && j < k ==> wf(p.Args[j].Type) && abs(p.Args[j].Type) == rty(rin(u, j)) && p.Args[j].Name == ""
  inv [p *Signature] [u reflect.Type] forall j int {p.Results[j].Type} {p.Results[j].Name} :: 0 <= j && j < k ==> wf(p.Results[j].Type) && abs(p.Results[j].Type) == rty(rout(u, j)) && p.Results[j].Name == ""
  ensures wf(result)
  ensures same: sameT(abs(result), rty(t))

