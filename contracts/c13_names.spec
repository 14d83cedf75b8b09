// C13: Export and Unexport.
fn rune0(s string) int
fn runeSize(s string) int
fn toUpper(r int) int
fn toLower(r int) int
fn isUpper(r int) bool
fn runestr(r int) string
fn quote(s string) string

axiom trusted(utf8) dec: forall s string {runeSize(s)} :: len(s) > 0 ==> 1 <= runeSize(s) && runeSize(s) <= len(s)
axiom trusted(utf8) enc: forall r int; t string {rune0(runestr(r) + t)} :: isUpper(r) ==> rune0(runestr(r) + t) == r
axiom trusted(utf8) encX: forall t string {rune0("X" + t)} :: rune0("X" + t) == 88
axiom trusted(unicode) upX: isUpper(88)

ext utf8.DecodeRuneInString(s)
  ensures result0 == rune0(s) && result1 == runeSize(s)
ext unicode.ToLower(r)
  ensures result == toLower(r)
ext unicode.ToUpper(r)
  ensures result == toUpper(r)
ext unicode.IsUpper(r)
  ensures result == isUpper(r)
ext unicode.IsLower(r)
ext unicode.IsLetter(r)

pred badName(s string) = s != "" && rune0(s) == 65533 && runeSize(s) <= 1
pred rest0(s string) = substr(s, runeSize(s), len(s) - runeSize(s))
pred unexported(s string) = if s == "" then "" else runestr(toLower(rune0(s))) + rest0(s)
pred exported(s string) = if s == "" then "" else if isUpper(rune0(s)) then s else if isUpper(toUpper(rune0(s))) then runestr(toUpper(rune0(s))) + rest0(s) else if rune0(s) == 95 then "X" + rest0(s) else "X" + s

func Unexport(s)
  props C13
  panics_if badName(s)
  ensures result == unexported(s)

func Export(s)
  props C13
  panics_if badName(s)
  ensures result == exported(s)
  ensures s != "" ==> isUpper(rune0(result))
