From b592f68e865104e6729b060fca03daf03899969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 01/13] fix: accept names that start with a literal U+FFFD

Only a decoding error (width of at most one byte) means invalid UTF-8.
---
 names.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/names.go b/names.go
index 856c3d5..469c65b 100644
--- a/names.go
+++ b/names.go
@@ -14,7 +14,7 @@ func Unexport(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
@@ -32,7 +32,7 @@ func Export(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	if unicode.IsUpper(r) {
-- 
2.43.0


From 3188ab45a3741a22621c67dd1090605767b018b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 02/13] fix: make Export return an exported name for every
 first character

A letter whose upper case mapping is not an upper case letter (a title case
or enclosed letter, a Roman numeral) was mapped, giving a name that is not
exported. Such names are now prefixed with X like other unsuitable ones.
---
 names.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/names.go b/names.go
index 469c65b..9a9c862 100644
--- a/names.go
+++ b/names.go
@@ -39,11 +39,11 @@ func Export(s string) string {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if upperR == r {
+	if !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-		// s does not start with a valid identifier character :(
+		// s does not start with a character that has an upper case form :(
 		// just prefix with capital X to make returned string exported
 		return "X" + s
 	}
-- 
2.43.0


From f9fd8861cd5d57ae6cea656567d35bc247c27f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 03/13] fix: parenthesise a receive-only channel that is the
 element of a channel

---
 types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a811c6a..b09777a 100644
--- a/types.go
+++ b/types.go
@@ -859,7 +859,15 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
-		typeNameToBuffer(tn.Elem(), b)
+		elem := tn.Elem()
+		if tn.Dir() == reflect.BothDir && elem.Kind() == KindChan && elem.Dir() == reflect.RecvDir {
+			// without parentheses, the arrow would belong to the outer channel
+			b.WriteRune('(')
+			typeNameToBuffer(elem, b)
+			b.WriteRune(')')
+		} else {
+			typeNameToBuffer(elem, b)
+		}
 	case KindFunc:
 		b.WriteString("func")
 		signatureToBuffer(tn.Signature(), b)
-- 
2.43.0


From 1255bb4bfdf40ae9d34ba18d36c86dac26e9e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 04/13] fix: separate embedded interfaces from methods in an
 interface type's text

---
 types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index b09777a..b96776e 100644
--- a/types.go
+++ b/types.go
@@ -907,8 +907,9 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			}
 			b.WriteString(emb.Name)
 		}
+		hasEmbeds := len(tn.Embeds()) > 0
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || hasEmbeds {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From 0c3f25823aa350ac509ade1fb8d512f9c545b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:12 +0000
Subject: [PATCH 05/13] fix: let WriteGoFilesToGoPath succeed when GOPATH is
 set

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 9dc510d..40ab7ed 100644
--- a/model.go
+++ b/model.go
@@ -266,7 +266,7 @@ func WriteGoFilesToGoPath(files ...*GoFile) error {
 		return errors.New("GOPATH is empty")
 	}
 	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	if len(paths) == 0 {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From 25c578f418053b211f5a4c71f86b4174387dde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 06/13] fix: keep parameters and results apart when converting
 a reflect function type

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index b96776e..2f67063 100644
--- a/types.go
+++ b/types.go
@@ -624,7 +624,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From 83db90507b487dbc66690663e91076856a44d335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 07/13] fix: convert unnamed reflect map types

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index 2f67063..36bb298 100644
--- a/types.go
+++ b/types.go
@@ -580,6 +580,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	case reflect.Array:
 		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
 
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Chan:
 		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
 
-- 
2.43.0


From ef578021de192dbb5ebd7edac8d6f9decc6d999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 08/13] fix: leave embedded fields unnamed when converting a
 reflect struct type

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 36bb298..8f45c91 100644
--- a/types.go
+++ b/types.go
@@ -595,8 +595,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			var name string
+			if !field.Anonymous {
+				name = field.Name
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
-- 
2.43.0


From b716bb32a242c5662afe3cd7b3a948da3a3b574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 09/13] fix: convert predeclared go/types objects, which have
 no package

---
 model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 40ab7ed..d83650d 100644
--- a/model.go
+++ b/model.go
@@ -64,8 +64,13 @@ func (p Package) String() string {
 }
 
 // PackageForGoType returns a Package for the given Go types package. This is
-// useful for converting between package representations.
+// useful for converting between package representations. If the given package
+// is nil, as it is for predeclared elements, the returned Package is empty.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		// predeclared elements do not belong to a package
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
-- 
2.43.0


From 4f9d918dd5aa6acc3a72e26acf0d236fe9d874cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 10/13] fix: give Signature a text form so that signatures in
 code blocks render as Go code

---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index 8f45c91..fa040c3 100644
--- a/types.go
+++ b/types.go
@@ -126,6 +126,14 @@ type Signature struct {
 	IsVariadic bool
 }
 
+// String returns the signature as it should appear in Go source, after a
+// function's name (or the func keyword): the arguments followed by the results.
+func (s Signature) String() string {
+	var b bytes.Buffer
+	signatureToBuffer(&s, &b)
+	return b.String()
+}
+
 // AddArg adds an argument to the signature. The given name can be blank for
 // signatures with unnamed arguments. If the signature has a mix of named and
 // unnamed args, they will all be rendered as named, but "_" will be used for
-- 
2.43.0


From 18419e55be07ddd756432f26f0b6f7a6f11d7691 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:08:29 +0000
Subject: [PATCH 11/13] fix: replace method and package references in code
 blocks whether or not their qualifier changes

---
 code.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/code.go b/code.go
index 672132a..48a4283 100644
--- a/code.go
+++ b/code.go
@@ -139,28 +139,20 @@ func (l line) qualify(imports *Imports) {
 		switch a := l.args[i].(type) {
 		case Package:
 			p := imports.registerPackage(a)
-			if p != a.Name {
-				l.args[i] = Package{Name: p, ImportPath: a.ImportPath}
-			}
+			l.args[i] = Package{Name: p, ImportPath: a.ImportPath}
 		case *Package:
 			p := imports.registerPackage(*a)
-			if p != a.Name {
-				l.args[i] = Package{Name: p, ImportPath: a.ImportPath}
-			}
+			l.args[i] = Package{Name: p, ImportPath: a.ImportPath}
 		case Symbol:
 			l.args[i] = imports.EnsureImported(a)
 		case *Symbol:
 			l.args[i] = imports.EnsureImported(*a)
 		case MethodReference:
 			sym := imports.EnsureImported(a.Type)
-			if sym != a.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: a.Method}
-			}
+			l.args[i] = &MethodReference{Type: sym, Method: a.Method}
 		case *MethodReference:
 			sym := imports.EnsureImported(a.Type)
-			if sym != a.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: a.Method}
-			}
+			l.args[i] = &MethodReference{Type: sym, Method: a.Method}
 		case Signature:
 			l.args[i] = imports.EnsureAllTypesImported(&a)
 		case *Signature:
@@ -176,9 +168,7 @@ func (l line) qualify(imports *Imports) {
 		case *InterfaceMethod:
 			mr := a.ToMethodRef()
 			sym := imports.EnsureImported(mr.Type)
-			if sym != mr.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
-			}
+			l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
 		case *FuncSpec:
 			symOrMr := a.ToSymbol()
 			switch sm := symOrMr.(type) {
@@ -186,9 +176,7 @@ func (l line) qualify(imports *Imports) {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
@@ -203,13 +191,11 @@ func (l line) qualify(imports *Imports) {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
-			l.args[i] = imports.registerPackage(p)
+			l.args[i] = Package{Name: imports.registerPackage(p), ImportPath: p.ImportPath}
 		}
 	}
 }
-- 
2.43.0


From e0ca72d8f206abd6dd9aaa8fa8999b5c32d7110c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:09:01 +0000
Subject: [PATCH 12/13] fix: qualify references to declared types instead of
 the declared type's definition

---
 model.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index d83650d..a83b2d0 100644
--- a/model.go
+++ b/model.go
@@ -492,6 +492,13 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
+		if t.Name != "" {
+			// a reference to a type declared elsewhere, not its definition
+			if t.parent == nil {
+				return t
+			}
+			return imports.EnsureTypeImported(t.ToTypeName())
+		}
 		t.qualify(imports)
 		return t
 	default:
@@ -1133,12 +1140,7 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 func (t *TypeSpec) qualify(imports *Imports) {
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
-		}
+		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
 		ie.qualify(imports)
-- 
2.43.0


From c3389b585216618d820fd0770200c35a82aac70a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 13/13] fix: keep a struct tag on the line of its field when
 the field's type is an anonymous struct or interface

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index a83b2d0..33aac7d 100644
--- a/model.go
+++ b/model.go
@@ -1157,6 +1157,7 @@ func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		b.WriteString("= ")
 	}
 	t.writeUnderlying(b)
+	b.WriteRune('\n')
 }
 
 func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
@@ -1166,17 +1167,16 @@ func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
 		for _, f := range t.structBody {
 			f.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	case KindInterface:
 		b.WriteString(" interface {\n")
 		for _, el := range t.interfaceBody {
 			el.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	default:
 		b.WriteRune(' ')
 		typeNameToBuffer(t.underlying, b)
-		b.WriteRune('\n')
 	}
 }
 
-- 
2.43.0

