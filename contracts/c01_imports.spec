// C01: import prefixes. C02: import statements.
fn pathBase(p string) string
axiom trusted(path) base-nonempty: forall p string {pathBase(p)} :: pathBase(p) != ""
axiom trusted(path) base-simple: forall p string {pathBase(p)} :: p != "" && !contains(p, "/") ==> pathBase(p) == p
ext path.Base(p)
  ensures result == pathBase(p)
ext strconv.Quote(s)
  ensures result == quote(s)

// the two maps are inverse to each other; the set's own path is never in them
pred impWF(i *Imports) =
  ((i.importsByPath == nil) <==> (i.pathsByName == nil))
  && (forall p string {has(i.importsByPath, p)} :: has(i.importsByPath, p) ==>
        p != i.pkgPath && i.importsByPath[p].packageName != ""
        && has(i.pathsByName, i.importsByPath[p].packageName) && i.pathsByName[i.importsByPath[p].packageName] == p)
  && (forall q string {has(i.pathsByName, q)} :: has(i.pathsByName, q) ==>
        has(i.importsByPath, i.pathsByName[q]) && i.importsByPath[i.pathsByName[q]].packageName == q)
pred regd(i *Imports, p string) = has(i.importsByPath, p)
pred nameOf(i *Imports, p string) = i.importsByPath[p].packageName
pred aliasOf(i *Imports, p string) = i.importsByPath[p].isAlias
// the name a path gets when it is registered now
pred baseFor(p string, nm string) = if nm == "" then pathBase(p) else nm
pred newName(i *Imports, p string, nm string) =
  if !has(i.pathsByName, baseFor(p, nm)) then baseFor(p, nm) else baseFor(p, nm) + itoa(freeidx(i.pathsByName, baseFor(p, nm)))
// what stays: every registration made before
pred impKeeps(i *Imports) =
  forall p string {has(i.importsByPath, p)} {old(has(i.importsByPath, p))} :: old(has(i.importsByPath, p)) ==>
     has(i.importsByPath, p) && nameOf(i, p) == old(nameOf(i, p)) && aliasOf(i, p) == old(aliasOf(i, p))
pred impOnly(i *Imports, q string) =
  forall p string {has(i.importsByPath, p)} :: has(i.importsByPath, p) && p != q ==> old(has(i.importsByPath, p))
// the maps stay the same objects once they exist
pred mapsKeep(i *Imports) =
  (if old(i.importsByPath) == nil then i.importsByPath == nil || fresh(i.importsByPath) else i.importsByPath == old(i.importsByPath))
  && (if old(i.pathsByName) == nil then i.pathsByName == nil || fresh(i.pathsByName) else i.pathsByName == old(i.pathsByName))
// effect of registering p under the name nm
pred registers(i *Imports, p string, nm string) =
  impWF(i) && mapsKeep(i) && impKeeps(i) && impOnly(i, p) && i.pkgPath == old(i.pkgPath)
  && (p != i.pkgPath ==> regd(i, p))
  && (p != i.pkgPath && !old(regd(i, p)) ==> nameOf(i, p) == old(newName(i, p, nm)) && aliasOf(i, p) == (nameOf(i, p) != nm))
pred prefixOf(i *Imports, p string) = if p == i.pkgPath then "" else nameOf(i, p) + "."
pred qualOf(i *Imports, p string) = if p == i.pkgPath then "" else nameOf(i, p)

func NewImportsFor(pkgPath)
  props C01
  ensures result.pkgPath == pkgPath && impWF(result) && fresh(result)
  ensures forall p string {has(result.importsByPath, p)} :: !regd(result, p)

func Imports.prefixForPackage(i, importPath, packageName, registerIfNotFound)
  requires impWF(i)
  terminates [C01]
  variant [base string] [s int] freeidx(i.pathsByName, base) - s + 1
  inv [s int] s >= 1
  inv [s int] s >= 0
  inv [base string] [s int] forall j int {itoa(j)} :: 1 <= j && j < s - 1 ==> has(i.pathsByName, base + itoa(j))
  inv [base string] [s int] forall j int {itoa(j)} :: 1 <= j && j < s ==> has(i.pathsByName, base + itoa(j))
  inv [base string] [s int] [p string] p == (if s == 1 then base else base + itoa(s - 1))
  inv [base string] [s int] [p string] p == (if s == 0 then base else base + itoa(s))
  inv [base string] [s int] s > 1 ==> has(i.pathsByName, base)
  inv [base string] [s int] s > 0 ==> has(i.pathsByName, base)
  modifies when(registerIfNotFound, i.importsByPath), when(registerIfNotFound, i.pathsByName), when(registerIfNotFound, map(i.importsByPath)), when(registerIfNotFound, map(i.pathsByName))
  panics_if importPath != i.pkgPath && !regd(i, importPath) && !registerIfNotFound
  ensures registers(i, importPath, packageName)
  ensures result == prefixOf(i, importPath)
  ensures importPath == i.pkgPath ==> forall p string {has(i.importsByPath, p)} :: regd(i, p) ==> old(regd(i, p))

func Imports.RegisterImport(i, importPath, packageName)
  props C01 C02
  terminates [C01]
  requires impWF(i)
  modifies i.importsByPath, i.pathsByName, map(i.importsByPath), map(i.pathsByName)
  ensures registers(i, importPath, packageName)
  ensures result == prefixOf(i, importPath)

func Imports.RegisterImportForPackage(i, pkg)
  props C01 C02
  terminates [C01]
  requires impWF(i)
  modifies i.importsByPath, i.pathsByName, map(i.importsByPath), map(i.pathsByName)
  ensures registers(i, pkg.ImportPath, pkg.Name)
  ensures result == prefixOf(i, pkg.ImportPath)

func Imports.PrefixForPackage(i, importPath)
  props C01
  terminates [C01]
  requires impWF(i)
  panics_if importPath != i.pkgPath && !regd(i, importPath)
  ensures result == prefixOf(i, importPath)

func Imports.registerPackage(i, pkg)
  requires impWF(i)
  modifies i.importsByPath, i.pathsByName, map(i.importsByPath), map(i.pathsByName)
  ensures extI(i)
  ensures registers(i, pkg.ImportPath, pkg.Name)
  ensures result == qualOf(i, pkg.ImportPath)
