// C02: the import statements of a set
pred specOf(i *Imports, s ImportSpec) = regd(i, s.ImportPath) && s.PackageAlias == (if aliasOf(i, s.ImportPath) then nameOf(i, s.ImportPath) else "")

func Imports.ImportSpecs(i)
  props C02
  requires [C02] impWF(i)
  inv [idx int] idx == k
  inv [l []ImportSpec] forall j int {l[j].ImportPath} {l[j].PackageAlias} :: 0 <= j && j < k ==> l[j].ImportPath == itkey(j) && l[j].PackageAlias == (if aliasOf(i, itkey(j)) then nameOf(i, itkey(j)) else "")
  inv [l []ImportSpec] forall j int {l[j].ImportPath} {l[j].PackageAlias} :: k <= j && j < len(l) ==> l[j].ImportPath == "" && l[j].PackageAlias == ""
  inv [l []ImportSpec] forall p string {has(i.importsByPath, p)} :: has(i.importsByPath, p) && itidx(p) < k ==> l[itidx(p)].ImportPath == p
  ensures length: len(result) == len(i.importsByPath) && fresh(result)
  ensures [C02] each: forall j int {result[j].ImportPath} {result[j].PackageAlias} :: 0 <= j && j < len(result) ==> specOf(i, result[j])
  ensures sorted: forall a, b int {result[a].ImportPath, result[b].ImportPath} :: 0 <= a && a < b && b < len(result) ==> result[a].ImportPath < result[b].ImportPath
  ensures [C02] complete: forall p string {has(i.importsByPath, p)} :: regd(i, p) ==> exists j int {result[j].ImportPath} :: 0 <= j && j < len(result) && result[j].ImportPath == p

func ImportSpec.String(i)
  props C02
  ensures result == (if i.PackageAlias == "" then quote(i.ImportPath) else i.PackageAlias + " " + quote(i.ImportPath))
