// C04: the type constructors
global [C04 C05 C06 C07] kinds: forall k int {has(basicTypes, k)} :: has(basicTypes, k) <==> basicKind(k)
global [C04 C05 C06 C07] unsafeptr: wf(UnsafePointerType) && tkind(abs(UnsafePointerType)) == KindNamed && tsym(abs(UnsafePointerType)) == rec(Symbol, rec(Package, "unsafe", "unsafe"), "Pointer")

pred okT(t TypeName) = t == nil || wf(t)
pred okArgs(s []ArgType) = forall j int {s[j].Type} :: 0 <= j && j < len(s) ==> okT(s[j].Type)
pred nilArg(s []ArgType) = exists j int {s[j].Type} :: 0 <= j && j < len(s) && s[j].Type == nil

func BasicType(k)
  props C04
  panics_if !basicKind(k) && k != 26
  ensures basicKind(k) ==> wf(result) && tkind(abs(result)) == KindBasic && tbk(abs(result)) == k
  ensures k == 26 ==> wf(result) && tkind(abs(result)) == KindNamed && tsym(abs(result)) == rec(Symbol, rec(Package, "unsafe", "unsafe"), "Pointer")

func PointerType(t)
  props C04
  requires okT(t)
  panics_if t == nil
  ensures wf(result) && tkind(abs(result)) == KindPtr && telem(abs(result)) == abs(t)

func SliceType(t)
  props C04
  requires okT(t)
  panics_if t == nil
  ensures wf(result) && tkind(abs(result)) == KindSlice && telem(abs(result)) == abs(t)

func ArrayType(t, length)
  props C04
  requires okT(t)
  panics_if t == nil || length < 0
  ensures wf(result) && tkind(abs(result)) == KindArray && telem(abs(result)) == abs(t) && tlen(abs(result)) == length

func MapType(k, v)
  props C04
  requires okT(k) && okT(v)
  panics_if k == nil || v == nil
  ensures wf(result) && tkind(abs(result)) == KindMap && telem(abs(result)) == abs(v) && tkey(abs(result)) == abs(k)

func NamedType(sym)
  props C04
  ensures wf(result) && tkind(abs(result)) == KindNamed && tsym(abs(result)) == sym

func ChannelType(t, dir)
  props C04
  requires okT(t)
  panics_if t == nil || dir < 0 || dir > 3
  ensures wf(result) && tkind(abs(result)) == KindChan && telem(abs(result)) == abs(t) && tdir(abs(result)) == (if dir == 0 then 3 else dir)

func FuncTypeFromSig(sig)
  props C04
  requires okArgs(sig.Args) && okArgs(sig.Results)
  panics_if nilArg(sig.Args) || nilArg(sig.Results) || !variadicOK(sig)
  inv forall j int {sig.Args[j].Type} :: 0 <= j && j < k ==> sig.Args[j].Type != nil
  inv forall j int {sig.Results[j].Type} :: 0 <= j && j < k ==> sig.Results[j].Type != nil
  ensures wf(result) && tkind(abs(result)) == KindFunc && tsig(abs(result)) == absS(sig)

func FuncType(args, results)
  props C04
  requires okArgs(args) && okArgs(results)
  panics_if nilArg(args) || nilArg(results)
  ensures wf(result) && tkind(abs(result)) == KindFunc
  ensures svar(tsig(abs(result))) == false && sameA(sargs(tsig(abs(result))), absA(args)) && sameA(sres(tsig(abs(result))), absA(results))

func FuncTypeVariadic(args, results)
  props C04
  requires okArgs(args) && okArgs(results)
  panics_if nilArg(args) || nilArg(results) || len(args) == 0 || tkind(abs(args[len(args)-1].Type)) != KindSlice
  ensures wf(result) && tkind(abs(result)) == KindFunc
  ensures svar(tsig(abs(result))) == true && sameA(sargs(tsig(abs(result))), absA(args)) && sameA(sres(tsig(abs(result))), absA(results))

func StructType(fields)
  props C04
  requires wfFields(fields)
  ensures wf(result) && tkind(abs(result)) == KindStruct && sameF(tfields(abs(result)), absF(fields))

func InterfaceType(embeds, methods)
  props C04
  requires wfMethods(methods)
  ensures wf(result) && tkind(abs(result)) == KindInterface && sameE(tembeds(abs(result)), absE(embeds)) && sameM(tmethods(abs(result)), absM(methods))
