#!/usr/bin/env python3
# Generates MANIFEST.json.
import json
LV={
"C01":"Every function of the import registry is proved against its contract for all inputs and histories (map invariant, all loop iterations, termination of the alias search). Assumes the engine's model of Go (see DESIGN.md) and path.Base never returning an empty string.",
"C02":"ImportSpecs and ImportSpec.String are proved against their contracts for every import set. Trusts strconv.Quote and sort.Slice (assumed contract: result is a permutation sorted by the given less).",
"C13":"Export and Unexport are proved for every string, over assumed contracts of unicode/utf8 and unicode.",
}
LV.update({
"C03":"Every qualification function (symbols, types of all kinds, signatures, fields, methods, both forms) is proved against its contract for types of any depth and any import set, including which packages get registered, exactly when the non-importing form panics, and that the argument is unmodified. Types are those built by this package's constructors (or any TypeName obeying the interface contract, which is proved for every implementation here).",
"C04":"Every constructor and every accessor of every type implementation is proved against its contract for all arguments, including the exact panic conditions and that handed-out lists are copies.",
"C05":"The text of every type and signature is proved, by induction over the type, equal to the Go literal defined by recursive text functions in c05_text.spec; that those literals parse back to the same type is checked by the replay (go/parser), not proved. Trusts reflect.Kind.String, strconv.Quote and strconv.CanBackquote.",
})
LV["C10"]="Adding declarations, every reference (ToSymbol, SymbolAt, ToTypeName, ToMethodRef, String), the type and receiver builders and the setters are proved against their contracts, panic conditions included, for all elements and files. Trusts strings.Join and filepath.Base/Ext."
LV["C12"]="WriteGoFile, WriteGoFiles, WriteGoFilesToFileSystem and WriteGoFilesToGoPath are proved against contracts over a ghost history of opens, writes, closes, directory and file creations, for any number of files and any failing writer or opener. Rendering (FileElement.qualify/writeTo, writeComment) is framed by a static effect analysis. Trusts go/format, os, path/filepath and that a user's writer or opener does not touch the model; nothing is claimed when a declaration's rendering panics."
LV["C06"]="PackageForGoType, SymbolForGoObject and TypeNameForGoType are proved equal to a recursive description of the go/types type, for types of any depth in the supported set (no aliases, type parameters, unions, untyped or invalid basics). Trusts the go/types accessors (pure, immutable objects)."
LV["C07"]="TypeNameForReflectType is proved equal to a recursive description of the reflect type, for every kind and any depth. Trusts the accessors of reflect.Type (assumed contracts) and that a reflect.Type's structure is finite."
NA={}
import os,sys
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[{"property":p,"quick_cmd":f"bash check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {p}","technique":"contract-based deductive verification (weakest preconditions over go/ssa, z3)","level":"proof","level_note":LV[p]} for p in props if p in LV]
na=[{"property":p,"reason":NA.get(p,"contracts for these functions are not written yet")} for p in props if p not in LV]
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open("/verif/MANIFEST.json","w"),indent=1)
