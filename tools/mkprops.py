#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here in readable form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Import prefixes are unique, stable, and empty for the file's own package",
  "For every history of registrations on an import set, each distinct import path other than the set's own path receives one non-empty prefix that never changes afterwards, and no two paths ever share a prefix; the set's own path always gets the empty prefix and is never registered. "
  "A path registered for the first time keeps the package name supplied (or the last element of its path when none was supplied) unless another path already uses that name, in which case the smallest positive number that makes it unused is appended. "
  "Looking up the prefix of a path that was never registered panics and registers nothing, and registration always terminates.",
  ["histories", "inputs"], "every sequence of registrations and look-ups, with arbitrary import paths and package names (including names that look like generated aliases)",
  "One test registers nine hand-picked paths in one order; uniqueness and stability are invariants over all histories, and collisions between generated aliases and genuine names are never sampled.",
  ["imports.go"],
  [("search for an unused name, two maps kept inverse to each other", "imports.go: prefixForPackage"), ("thin public wrappers", "imports.go: RegisterImport, RegisterImportForPackage, PrefixForPackage")],
  [("importsByPath", "path -> assigned name and alias flag", "imports.go: Imports"), ("pathsByName", "assigned name -> path", "imports.go: Imports")],
  ["return values of RegisterImport, RegisterImportForPackage, PrefixForPackage, NewImportsFor"])

p("C02", "Import statements list exactly the registered packages, sorted and aliased",
  "The list of import statements of an import set has exactly one entry per registered path, none for any other path, in strictly increasing order of import path. "
  "An entry carries an alias exactly when the prefix assigned to the path differs from the package name given when it was first registered, and then the alias is that prefix; so an unaliased import resolves to the prefix used in code. "
  "An import statement's text is the quoted path, preceded by the alias and a space when there is one.",
  ["histories", "inputs"], "every reachable import set and every import path / alias string",
  "The single test compares one list of nine imports; order independence, completeness and the alias rule must hold for every set, and the result is built by iterating a Go map, whose order a test cannot enumerate.",
  ["imports.go"],
  [("map walk followed by a sort", "imports.go: ImportSpecs"), ("alias flag computed at registration", "imports.go: prefixForPackage"), ("text form", "imports.go: ImportSpec.String")],
  [("isAlias", "whether the statement needs an alias", "imports.go: importDef")],
  ["ImportSpecs, ImportSpec.String"])

p("C03", "Re-qualifying a type or symbol changes package qualifiers and nothing else",
  "Importing or qualifying any symbol, type or signature yields one with the same structure - same kinds, names, tags, lengths, directions, order and variadic flag - in which every package-qualified symbol carries the qualifier the import set assigned to its path (empty for the set's own package) and unqualified built-in names are untouched. "
  "After the importing form every package mentioned anywhere in the argument is registered and earlier registrations are unchanged; the non-importing form never registers anything and panics exactly when a mentioned package was never registered. "
  "The argument itself is never modified.",
  ["inputs", "histories"], "every finite type, signature or symbol, of any nesting, against every reachable import set",
  "The repository has no test of this at all beyond two golden files (imports_test.go ends in a TODO); it is a statement about all type trees and all import sets.",
  ["imports.go", "types.go"],
  [("recursive rewrite over type kinds", "imports.go: qualifyType, qualifySignature"), ("copy-on-write of argument, field, method and embed lists", "imports.go: qualifyArgs, qualifyFields, qualifyMethods, qualifySymbols"), ("symbol rewrite", "imports.go: qualify")],
  [], ["EnsureImported, Qualify, EnsureTypeImported, QualifyType, EnsureAllTypesImported, QualifySignature"])

p("C04", "Type constructors and accessors agree, and invalid types are refused",
  "Every type constructor returns a type whose kind, element, key, length, direction, basic kind, symbol, signature, fields, methods and embeds are exactly the ones supplied, with every accessor that does not apply to its kind returning the documented empty value. "
  "Constructors panic exactly on the documented invalid arguments: a nil element, key, argument or result type, a negative array length, a direction outside the three valid ones (zero meaning bidirectional), a variadic signature whose last argument is missing or not a slice, or a non-basic kind. "
  "Lists returned by the field, method and embed accessors are copies: changing them does not change the type.",
  ["inputs"], "every argument of every constructor and every accessor of the result",
  "Tests try a handful of element types per kind and one invalid signature; the panic conditions and the copies handed out are hardly exercised.",
  ["types.go"],
  [("constructors with argument checks", "types.go: BasicType ... InterfaceType"), ("per-kind accessor methods", "types.go: basicTypeName ... interfaceTypeName")],
  [], ["exported constructors and TypeName methods"])

p("C05", "A type's text is the Go type literal for exactly that type",
  "For every valid type, its string form is the Go type literal that denotes it: correct operators, element order, array length, channel direction (with parentheses where a receive-only element of a bidirectional channel would otherwise parse differently), struct tags quoted so that they read back unchanged, and embedded and explicit interface elements each separated. "
  "Signatures print parameters and results in order, naming all of them (with underscore for the unnamed) as soon as one is named, printing the last parameter of a variadic signature with three dots and its element type, and parenthesising results only when needed. "
  "Symbols print with their package qualifier and a dot when the qualifier is non-empty, and alone otherwise.",
  ["inputs"], "every finite type and signature, all combinations of named and unnamed parameters, all tags",
  "Rendering is only covered by two golden files with a few shapes; nested channels, interfaces with embeds and methods, odd tags and mixed names are never sampled.",
  ["types.go", "model.go"],
  [("recursive printers", "types.go: typeNameToString, typeNameToBuffer, signatureToBuffer"), ("symbol text", "model.go: Symbol.String, MethodReference.String")],
  [], ["TypeName.String, Symbol.String, MethodReference.String"])

p("C06", "Types and objects from go/types are converted faithfully",
  "Converting any go/types type made of named, basic, pointer, slice, array, map, channel, function, struct and interface types yields the type with the same structure: same names, package name and path of each named type (none for predeclared ones), lengths, directions, tags, field names (none for embedded fields), parameter and result names and order, variadic flag, explicit methods and embedded interfaces. "
  "A function type with a concrete receiver gets the receiver as its first parameter. "
  "Converting a package-level object yields its name in its package, and converting a method yields a reference to that method on its receiver's named type with any pointer removed.",
  ["inputs"], "every go/types type tree of the supported forms and every package-level object or method",
  "TestTypeNameForGoType is an empty TODO, so no input is tested.",
  ["types.go", "model.go"],
  [("recursive conversion", "types.go: TypeNameForGoType, signatureFromGoType, argsTypesForGoType"), ("object conversion", "model.go: SymbolForGoObject, PackageForGoType")],
  [], ["TypeNameForGoType, PackageForGoType, SymbolForGoObject"])

p("C07", "Runtime (reflect) types are converted faithfully",
  "Converting any runtime type yields the type with the same structure: predeclared basic types become basic types, named types become their name in their import path, and unnamed pointer, slice, array, map, channel, function, struct and interface types keep their elements, keys, lengths, directions, parameter and result types in order, variadic flag, field names (none for embedded fields), tags, and methods. "
  "No supported runtime type makes the conversion panic.",
  ["inputs"], "every runtime type",
  "TestTypeNameForReflectType is an empty TODO, so no input is tested.",
  ["types.go"],
  [("recursive conversion", "types.go: TypeNameForReflectType, signatureFromReflectType")],
  [], ["TypeNameForReflectType"])

p("C08", "Code blocks keep their contents and qualify every reference in them",
  "Rendering a code block emits its pieces in the order they were added, with plain text emitted verbatim (no formatting directives interpreted), one newline after each line-adding call, and another block's pieces spliced in where it was added. "
  "Before rendering, each format argument that refers to a package, symbol, method, type, signature or declared element - in any of the supported representations, including go/types and reflect values - is replaced by a reference that prints with the qualifier the import set assigned, and its package is registered; whether the qualifier happened to change makes no difference to the form of the reference. "
  "All other arguments are passed through unchanged.",
  ["inputs", "histories"], "every code block, every mix of supported argument values, every import set",
  "Only string and a few symbol arguments appear in the two golden tests; the two dozen argument cases times 'qualifier changed or not' are not sampled.",
  ["code.go"],
  [("argument rewrite by dynamic type", "code.go: line.qualify"), ("element list", "code.go: CodeBlock methods, writeTo")],
  [("elements", "pieces of a block in order", "code.go: CodeBlock"), ("args", "format arguments of one piece", "code.go: line")],
  ["CodeBlock methods, Print/Println/Printf/Printlnf, WriteGoFile output"])

p("C09", "Declarations render as Go source carrying every part of the model",
  "Every file renders as its file comment, package comment, package clause (with the canonical import path comment when one is set), one import line per import statement, and then its declarations in the order added. "
  "Each const, var, type and func declaration renders all of its names, types, initializers, struct fields with tags, interface elements, receivers, signatures, bodies and comments in model order, grouped in parentheses exactly when it has several members or a declaration comment, and with '=' exactly for aliases. "
  "Every line of every comment is emitted behind a comment marker, so no comment text can become code.",
  ["inputs"], "every file model: any number and mix of declarations, members, comments (including multi-line), tags and receivers",
  "Two golden files fix one arrangement each; grouping, comment splitting, aliases, pointer receivers and tag quoting have independent cases the goldens do not cover.",
  ["model.go"],
  [("per-element printers", "model.go: GoFile.writeTo, ConstDecl/VarDecl/TypeDecl/FuncSpec.writeTo, ConstSpec/VarSpec/TypeSpec/FieldSpec/InterfaceEmbed/InterfaceMethod.writeTo"), ("comments", "model.go: writeComment")],
  [], ["WriteGoFile output before formatting"])

p("C10", "Declared elements can be referenced by the right name, package and type",
  "Once a declaration is added to a file, every const, var, type and func in it is associated with that file, the file's element list grows by exactly that declaration, and the references obtained from it name the element in the file's package (methods through their receiver type, interface methods through their enclosing type, method types with the receiver as first parameter). "
  "Asking for such a reference panics exactly when the element is unnamed, belongs to no file, or has several names and none was selected; its printable form never panics for these reasons and falls back to the bare name. "
  "Types and receivers built from other types keep name, underlying type, alias flag, fields, embeds, methods and pointer-ness, and are refused exactly when the receiver's type is not a (pointer to a) named type.",
  ["inputs", "histories"], "every declared element, before and after being added, alone or in groups",
  "Only a few ToSymbol/String calls happen indirectly in the golden tests; most accessors and all refusal conditions are untested.",
  ["model.go"],
  [("parent links set when added", "model.go: AddElement, setParent"), ("references", "model.go: ToSymbol, SymbolAt, ToTypeName, ToMethodRef, String"), ("type building", "model.go: NewTypeSpec, NewStructTypeSpec, NewInterfaceTypeSpec, NewReceiver*")],
  [("parent", "file or type an element was added to", "model.go: ConstSpec, VarSpec, TypeSpec, FuncSpec, FieldSpec, InterfaceEmbed, InterfaceMethod")],
  ["ToSymbol, SymbolAt, ToTypeName, ToMethodRef, String, NumElements, ElementAt, NewReceiver*"])

p("C11", "Writing a file qualifies every type and code reference it contains",
  "When a file is written, every type, embedded interface, signature and code reference in each of its declarations - const and var types and initializers, type definitions, struct field types, interface elements, function signatures and bodies - is re-qualified against that file's imports before anything is printed, and each package they mention is registered in it. "
  "A reference to a type declared elsewhere in the model is printed with the qualifier of its package in this file (none inside its own package), and does not drag in the packages that only that other type's definition mentions. "
  "Names, comments, tags, order and all other parts of the declarations are left as they were.",
  ["inputs", "histories"], "every file model and every import set it starts from",
  "The golden tests have one package per file and no name conflicts, so a missed or wrong qualification would not show in them.",
  ["model.go", "imports.go"],
  [("per-element qualify", "model.go: ConstDecl/VarDecl/TypeDecl/FuncSpec.qualify, TypeSpec.qualify, InterfaceEmbed/InterfaceMethod.qualify, qualifyType"), ("driver", "model.go: WriteGoFile")],
  [], ["WriteGoFile output, ImportSpecs after writing"])

p("C12", "Output goes to the right place, all or nothing per file, and errors surface",
  "Writing one file delivers the formatted source to the writer in a single write if rendering and formatting succeed, and otherwise writes nothing and returns the error, which for unformattable code is a format error carrying the unformatted text. "
  "Writing several files handles them in order, opening each at its package path joined with its file name, closing each opened writer exactly once, and stopping at the first error, which it returns. "
  "The file system form opens under the given root, creating directories first, and the GOPATH form uses the first GOPATH entry as root and fails only if GOPATH is empty.",
  ["inputs", "fault_sequences"], "every list of files and every outcome of opening, formatting, writing",
  "Tests only take the success path with one in-memory file; error outcomes, several files, the file system and GOPATH forms never run.",
  ["model.go"],
  [("render, format, write", "model.go: WriteGoFile"), ("open/close loop", "model.go: WriteGoFiles"), ("roots", "model.go: WriteGoFilesToFileSystem, WriteGoFilesToGoPath")],
  [], ["WriteGoFile, WriteGoFiles, WriteGoFilesToFileSystem, WriteGoFilesToGoPath"])

p("C13", "Export and Unexport change only the first character's case",
  "Unexporting a name lower-cases its first character and leaves the rest unchanged. "
  "Exporting a name returns it unchanged if its first character is already upper case, upper-cases the first character if that makes it upper case, replaces a leading underscore by 'X', and otherwise prefixes 'X', so a non-empty result always starts with an upper-case letter and keeps the rest of the name. "
  "The empty name stays empty, and only a name that does not start with valid UTF-8 is refused.",
  ["inputs"], "every string, in particular every possible first character",
  "Tests try four ASCII names.",
  ["names.go"],
  [("rune case mapping", "names.go: Export, Unexport")],
  [], ["Export, Unexport"])

p("C14", "Template data is re-qualified deeply without touching the original",
  "Re-qualifying template data returns a value of the same shape in which every reachable package, symbol, method reference, signature, type and declared element carries the qualifier the import set assigned, registering the packages on the way, and everything else is unchanged. "
  "The value passed in is never modified and no data value makes it panic. "
  "Re-qualifying the result again changes nothing.",
  ["inputs", "histories"], "every Go value used as template data",
  "No test covers it; it is a statement about every Go data structure.",
  ["templates.go", "templates_unsafe.go", "templates_no_unsafe.go", "imports.go"],
  [("reflective copy-on-write walk", "templates.go: qualifyTemplateData"), ("access to unexported fields", "templates_unsafe.go: getField")],
  [], ["Imports.QualifyTemplateData, CodeBlock.RenderCode output"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
