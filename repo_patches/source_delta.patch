From afe2f09b33072649522b3017d7ecf2f02e94d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 01/28] fix: convert reflect map types instead of panicking

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index a811c6a..27a2bf7 100644
--- a/types.go
+++ b/types.go
@@ -571,6 +571,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	}
 
 	switch t.Kind() {
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Ptr:
 		return PointerType(TypeNameForReflectType(t.Elem()))
 
-- 
2.43.0


From 21a9afd3f81d03f1faaccac00b2561a8e082b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 02/28] fix: keep results of reflect func types

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 27a2bf7..b4f90d8 100644
--- a/types.go
+++ b/types.go
@@ -627,7 +627,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From e06d85bd117d1ee9e048019d016fa23338a75ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 03/28] fix: keep embedded fields embedded when converting
 reflect struct types

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index b4f90d8..1f8516a 100644
--- a/types.go
+++ b/types.go
@@ -595,8 +595,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			name := field.Name
+			if field.Anonymous {
+				name = "" // embedded
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
-- 
2.43.0


From f711e5c9b81025b34b19adfb75b315561aa7f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 04/28] fix: support predeclared go/types elements, which have
 no package

---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index 9dc510d..56d8ca2 100644
--- a/model.go
+++ b/model.go
@@ -66,6 +66,10 @@ func (p Package) String() string {
 // PackageForGoType returns a Package for the given Go types package. This is
 // useful for converting between package representations.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		// predeclared elements, like the "error" type, have no package
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
-- 
2.43.0


From 21d9cdac16b68abada8a5e66f690ae8eb4f69cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 05/28] fix: separate embeds from methods in interface type
 strings

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 1f8516a..4586e33 100644
--- a/types.go
+++ b/types.go
@@ -907,7 +907,7 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString(emb.Name)
 		}
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || len(tn.Embeds()) > 0 {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From e4679088fa7b03debebad7694a9676c0a87c8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 06/28] fix: parenthesize receive-only channel as element of
 bidirectional channel

---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 4586e33..c1f9057 100644
--- a/types.go
+++ b/types.go
@@ -866,7 +866,14 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
-		typeNameToBuffer(tn.Elem(), b)
+		if tn.Dir() == reflect.BothDir && tn.Elem().Kind() == KindChan && tn.Elem().Dir() == reflect.RecvDir {
+			// "chan <-chan T" would be parsed as "chan<- (chan T)"
+			b.WriteRune('(')
+			typeNameToBuffer(tn.Elem(), b)
+			b.WriteRune(')')
+		} else {
+			typeNameToBuffer(tn.Elem(), b)
+		}
 	case KindFunc:
 		b.WriteString("func")
 		signatureToBuffer(tn.Signature(), b)
-- 
2.43.0


From 4cc2ec9aaa841a7a862a17d38f54fe56fc9e36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 07/28] fix: do not let function types alias the signature they
 were created from

---
 types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index c1f9057..b941235 100644
--- a/types.go
+++ b/types.go
@@ -742,7 +742,10 @@ func FuncTypeFromSig(sig *Signature) TypeName {
 	if sig.IsVariadic && (len(sig.Args) == 0 || sig.Args[len(sig.Args)-1].Type.Kind() != KindSlice) {
 		panic("cannot create a function type with variadic signature where last arg is not a slice")
 	}
-	return (*funcTypeName)(sig)
+	// copy, so that later changes to the signature (like when the function it
+	// belongs to gets qualified for another file) do not change the type
+	sigCopy := *sig
+	return (*funcTypeName)(&sigCopy)
 }
 
 // StructType returns a TypeName that represents an unnamed struct type with the
-- 
2.43.0


From 1605213f32b3653ee44eb5824cbaf360a0cad8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 08/28] fix: support go/types alias types, also as embedded
 interfaces

---
 types.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index b941235..d446f5c 100644
--- a/types.go
+++ b/types.go
@@ -503,12 +503,11 @@ func TypeNameForGoType(t types.Type) TypeName {
 	case *types.Interface:
 		embeds := make([]Symbol, t.NumEmbeddeds())
 		for i := 0; i < t.NumEmbeddeds(); i++ {
-			//lint:ignore SA1019 we still support Go 1.10 which does not have non-deprecated EmbeddedType
-			obj := t.Embedded(i).Obj()
-			embeds[i] = Symbol{
-				Name:    obj.Name(),
-				Package: PackageForGoType(obj.Pkg()),
+			embed := TypeNameForGoType(t.EmbeddedType(i))
+			if embed.Kind() != KindNamed {
+				panic(fmt.Sprintf("embedded type %s cannot be represented as Symbol", embed))
 			}
+			embeds[i] = embed.Symbol()
 		}
 		methods := make([]MethodType, t.NumExplicitMethods())
 		for i := 0; i < t.NumExplicitMethods(); i++ {
@@ -519,6 +518,15 @@ func TypeNameForGoType(t types.Type) TypeName {
 		return InterfaceType(embeds, methods...)
 
 	default:
+		// As of Go 1.22, aliases can be represented as *types.Alias. That type
+		// cannot be referenced here because older Go versions are supported.
+		if a, ok := t.(interface {
+			Obj() *types.TypeName
+			Rhs() types.Type
+		}); ok {
+			obj := a.Obj()
+			return NamedType(PackageForGoType(obj.Pkg()).Symbol(obj.Name()))
+		}
 		panic(fmt.Sprintf("%T cannot be represented as TypeName", t))
 	}
 }
-- 
2.43.0


From 73c4413c2297cae7fa32448eaf11dd7354a4b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 09/28] fix: keep tags on the line of struct fields with
 unnamed struct or interface types

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 56d8ca2..f5647fd 100644
--- a/model.go
+++ b/model.go
@@ -1154,6 +1154,7 @@ func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		b.WriteString("= ")
 	}
 	t.writeUnderlying(b)
+	b.WriteRune('\n')
 }
 
 func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
@@ -1163,17 +1164,16 @@ func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
 		for _, f := range t.structBody {
 			f.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteString("}")
 	case KindInterface:
 		b.WriteString(" interface {\n")
 		for _, el := range t.interfaceBody {
 			el.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteString("}")
 	default:
 		b.WriteRune(' ')
 		typeNameToBuffer(t.underlying, b)
-		b.WriteRune('\n')
 	}
 }
 
-- 
2.43.0


From 1bfbfc96e48ced7addf8bcc5c4b4d1478b3b14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 10/28] fix: qualify references to named type specs in fields,
 consts and vars

---
 model.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index f5647fd..43d2181 100644
--- a/model.go
+++ b/model.go
@@ -491,6 +491,13 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
+		if t.Name != "" {
+			if t.parent == nil {
+				return t
+			}
+			// a reference to a named type, not its definition
+			return imports.EnsureTypeImported(t.ToTypeName())
+		}
 		t.qualify(imports)
 		return t
 	default:
@@ -1132,12 +1139,7 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 func (t *TypeSpec) qualify(imports *Imports) {
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
-		}
+		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
 		ie.qualify(imports)
-- 
2.43.0


From 31ea6e5292a2c69118ca3f0f97cee1440fc49052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 11/28] fix: do not store the qualified references of one file
 in shared code blocks

---
 code.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/code.go b/code.go
index 672132a..d9d22c2 100644
--- a/code.go
+++ b/code.go
@@ -21,6 +21,10 @@ import (
 // that references use the correct package names and aliases.
 type CodeBlock struct {
 	elements []codeElement
+	// qualified holds the elements with all references qualified for the file
+	// that is being rendered. The original elements are left alone because they
+	// can be rendered again, also into other files.
+	qualified []codeElement
 }
 
 // codeElement represents code to render. It will either be a message and format
@@ -29,7 +33,9 @@ type CodeBlock struct {
 type codeElement interface {
 	isCodeElement()
 	writeTo(b *bytes.Buffer)
-	qualify(imports *Imports)
+	// qualify returns a new element where all references have the correct
+	// package prefixes. It does not modify this element.
+	qualify(imports *Imports) codeElement
 }
 
 // Print adds the given text to the code block. It returns the code block, for
@@ -110,13 +116,14 @@ func RenderCode(template *template.Template, data interface{}) *CodeBlock {
 }
 
 func (cb *CodeBlock) qualify(imports *Imports) {
-	for _, e := range cb.elements {
-		e.qualify(imports)
+	cb.qualified = make([]codeElement, len(cb.elements))
+	for i, e := range cb.elements {
+		cb.qualified[i] = e.qualify(imports)
 	}
 }
 
 func (cb *CodeBlock) writeTo(b *bytes.Buffer) {
-	for _, e := range cb.elements {
+	for _, e := range cb.qualified {
 		e.writeTo(b)
 	}
 }
@@ -134,7 +141,8 @@ func (l line) writeTo(b *bytes.Buffer) {
 	fmt.Fprintf(b, l.format, l.args...)
 }
 
-func (l line) qualify(imports *Imports) {
+func (l line) qualify(imports *Imports) codeElement {
+	l.args = append([]interface{}(nil), l.args...)
 	for i := range l.args {
 		switch a := l.args[i].(type) {
 		case Package:
@@ -212,6 +220,7 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.registerPackage(p)
 		}
 	}
+	return l
 }
 
 // templ represents a template and data value, which will be rendered to a code
@@ -230,6 +239,6 @@ func (t *templ) writeTo(b *bytes.Buffer) {
 	}
 }
 
-func (t *templ) qualify(imports *Imports) {
-	t.data = imports.QualifyTemplateData(t.data)
+func (t *templ) qualify(imports *Imports) codeElement {
+	return &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
 }
-- 
2.43.0


From 0ba3269760345b9926a8887789883898faf3a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 12/28] fix: render go/types methods as references in code also
 if the prefix is unchanged

---
 code.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/code.go b/code.go
index d9d22c2..da50d05 100644
--- a/code.go
+++ b/code.go
@@ -211,9 +211,7 @@ func (l line) qualify(imports *Imports) codeElement {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
-- 
2.43.0


From 47aab3e6d6f25195a1a8cb408a0cf4d505635c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 13/28] fix: always replace go/types and reflect values in
 template data

Their own string forms are not valid references, even if the package
prefix needs no change.
---
 templates.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/templates.go b/templates.go
index c0f8302..25b9181 100644
--- a/templates.go
+++ b/templates.go
@@ -20,35 +20,25 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			case reflect.Type:
 				origT := TypeNameForReflectType(d)
 				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(newT)
 			case types.Type:
 				origT := TypeNameForGoType(d)
 				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(newT)
 			case types.Object:
 				sym := SymbolForGoObject(d)
 				switch sym := sym.(type) {
 				case Symbol:
 					newSym := imports.EnsureImported(sym)
-					if newSym != sym {
-						newRv = reflect.ValueOf(newSym)
-					}
+					newRv = reflect.ValueOf(newSym)
 				case MethodReference:
 					newSym := imports.EnsureImported(sym.Type)
-					if newSym != sym.Type {
-						newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
-					}
+					newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
 				}
 			case *types.Package:
 				origP := PackageForGoType(d)
 				newP := imports.registerPackage(origP)
-				if newP != origP.Name {
-					newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
-				}
+				newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
 			default:
 				qualified = false
 			}
-- 
2.43.0


From 9f4d2fc714419af1927b2656536ed316dc27306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 14/28] fix: keep the import path of elements in qualified
 template data

---
 templates.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index 25b9181..6dedd14 100644
--- a/templates.go
+++ b/templates.go
@@ -88,7 +88,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newCs := t
-					newCs.parent = &GoFile{PackageName: newPkg}
+					newCs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newCs).Elem(), true
 				}
 			}
@@ -98,7 +98,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newVs := t
-					newVs.parent = &GoFile{PackageName: newPkg}
+					newVs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newVs).Elem(), true
 				}
 			}
@@ -108,7 +108,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newTs := t
-					newTs.parent = &GoFile{PackageName: newPkg}
+					newTs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newTs).Elem(), true
 				}
 			}
@@ -118,7 +118,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newFs := t
-					newFs.parent = &GoFile{PackageName: newPkg}
+					newFs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newFs).Elem(), true
 				}
 			}
-- 
2.43.0


From 922c3457e3de578f23ae52aacdf0bc6501e43a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 15/28] fix: do not import a package with an empty path for
 zero value packages

---
 imports.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/imports.go b/imports.go
index 6a159ae..21e7343 100644
--- a/imports.go
+++ b/imports.go
@@ -43,6 +43,10 @@ func (i *Imports) RegisterImportForPackage(pkg Package) string {
 // the prefix (which includes a trailing dot if non-empty), it just returns the
 // package alias.
 func (i *Imports) registerPackage(pkg Package) string {
+	if pkg == (Package{}) {
+		// not a reference to any package, so there is nothing to import
+		return ""
+	}
 	p := i.RegisterImportForPackage(pkg)
 	if len(p) > 0 && p[len(p)-1] == '.' {
 		p = p[:len(p)-1]
-- 
2.43.0


From d647b26cf466467dd615ce10a2608a9fe3910a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 16/28] fix: support arrays held by value in template data

---
 templates.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/templates.go b/templates.go
index 6dedd14..0c80ca4 100644
--- a/templates.go
+++ b/templates.go
@@ -173,6 +173,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 
 	case reflect.Array, reflect.Slice:
+		if data.Kind() == reflect.Array && !data.CanAddr() {
+			// can only slice addressable arrays
+			data = addressable(data)
+		}
 		var newArray reflect.Value
 		for i := 0; i < data.Len(); i++ {
 			newV, changedV := qualifyTemplateData(imports, data.Index(i))
@@ -218,3 +222,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	return data, false
 }
+
+// addressable returns an addressable copy of the given value.
+func addressable(v reflect.Value) reflect.Value {
+	dest := reflect.New(v.Type()).Elem()
+	dest.Set(v)
+	return dest
+}
-- 
2.43.0


From 03c34682d167ccd0b282928fa9c5e6d85ed63e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 17/28] fix: support structs with unexported fields in template
 data

---
 templates.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/templates.go b/templates.go
index 0c80ca4..fb1bec6 100644
--- a/templates.go
+++ b/templates.go
@@ -135,27 +135,26 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		case Imports:
 			// intentionally do not touch these
 		default:
+			if !data.CanAddr() {
+				// can only access unexported fields of addressable structs
+				data = addressable(data)
+			}
 			var newStruct reflect.Value
 			for i := 0; i < data.NumField(); i++ {
-				var newV reflect.Value
-				var changedV bool
 				fld, ok := getField(data, i)
 				if !ok {
 					// do not recurse
-					newV = data.Field(i)
-					changedV = false
-				} else {
-					newV, changedV = qualifyTemplateData(imports, fld)
+					continue
+				}
+				newV, changedV := qualifyTemplateData(imports, fld)
+				if !changedV {
+					continue
 				}
-				if newStruct.IsValid() {
-					newStruct.Field(i).Set(newV)
-				} else if changedV {
-					newStruct = reflect.New(data.Type()).Elem()
-					for j := 0; j < i; j++ {
-						newStruct.Field(j).Set(data.Field(j))
-					}
-					newStruct.Field(i).Set(newV)
+				if !newStruct.IsValid() {
+					newStruct = addressable(data)
 				}
+				newFld, _ := getField(newStruct, i)
+				newFld.Set(newV)
 			}
 			if newStruct.IsValid() {
 				return newStruct, true
-- 
2.43.0


From e082d311fb41a6a68243779a167697dc786d9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 18/28] fix: let WriteGoFilesToGoPath accept a non-empty GOPATH

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 43d2181..1c39c63 100644
--- a/model.go
+++ b/model.go
@@ -270,7 +270,7 @@ func WriteGoFilesToGoPath(files ...*GoFile) error {
 		return errors.New("GOPATH is empty")
 	}
 	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	if paths[0] == "" {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From 1270391ca86b43ce855dd6caa8652bcc8d701e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 19/28] fix: report failures to close a written file

---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 1c39c63..2c191b3 100644
--- a/model.go
+++ b/model.go
@@ -235,8 +235,12 @@ func WriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoF
 		if err != nil {
 			return err
 		}
-		err = func() error {
-			defer w.Close()
+		err = func() (err error) {
+			defer func() {
+				if closeErr := w.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			return WriteGoFile(w, file)
 		}()
 		if err != nil {
-- 
2.43.0


From b5aab9808fa371de3f5c24d7ad7265b5d506c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 20/28] fix: return properly (un)exported names for letters
 without upper or lower case form

---
 names.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 856c3d5..25a706f 100644
--- a/names.go
+++ b/names.go
@@ -18,6 +18,11 @@ func Unexport(s string) string {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
+	if unicode.IsUpper(r) {
+		// s begins with an upper-case letter that has no lower-case form :(
+		// just prefix with lower-case x to make returned string unexported
+		return "x" + s
+	}
 	return string(r) + s[sz:]
 }
 
@@ -39,7 +44,7 @@ func Export(s string) string {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if upperR == r {
+	if !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-- 
2.43.0


From 78b8d69b07fd2df7fe92e5c9ec756bfef135b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 21/28] fix: do not report a valid replacement character as
 invalid UTF8

---
 names.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/names.go b/names.go
index 25a706f..87c09e0 100644
--- a/names.go
+++ b/names.go
@@ -14,7 +14,7 @@ func Unexport(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
@@ -37,7 +37,7 @@ func Export(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	if unicode.IsUpper(r) {
-- 
2.43.0


From 023c16027aeeef8d2281b365a0509dadc5504e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 22/28] fix: only use valid identifiers as import aliases

---
 imports.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 21e7343..ffb9a52 100644
--- a/imports.go
+++ b/imports.go
@@ -2,10 +2,15 @@ package gopoet
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
 	"path"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Imports accumulate a set of package imports, used for generating a Go source
@@ -87,10 +92,11 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	if packageName == "" {
 		p = path.Base(importPath)
 	}
+	p = toIdentifier(p)
 	pkgBase := p
 	suffix := 1
 	for {
-		if _, ok := i.pathsByName[p]; !ok {
+		if _, ok := i.pathsByName[p]; !ok && !isReserved(p) {
 			if i.importsByPath == nil {
 				i.importsByPath = map[string]importDef{}
 				i.pathsByName = map[string]string{}
@@ -107,6 +113,29 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	}
 }
 
+// toIdentifier replaces characters of s that cannot be in an identifier, which
+// are common in import paths, so the result can be used as package alias.
+func toIdentifier(s string) string {
+	s = strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, s)
+	if r, _ := utf8.DecodeRuneInString(s); unicode.IsDigit(r) {
+		return "_" + s
+	}
+	return s
+}
+
+// isReserved returns true if the given identifier cannot be used as name of an
+// imported package (or if it is unwise to do so because it would then hide a
+// predeclared identifier).
+func isReserved(name string) bool {
+	return name == "_" || name == "init" || token.Lookup(name).IsKeyword() ||
+		types.Universe.Lookup(name) != nil
+}
+
 // EnsureImported ensures that the given symbol is imported and returns a new
 // symbol that has the correct package prefix (based on how the given symbol's
 // package was imported/aliased). If the symbol is already in Imports source
-- 
2.43.0


From 4b565926be05aede7c294444e61b3e443d0a70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 23/28] fix: render const, var and type declarations without
 any specs

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 2c191b3..c3f402b 100644
--- a/model.go
+++ b/model.go
@@ -458,7 +458,7 @@ func (c *ConstDecl) SetComment(comment string) *ConstDecl {
 func (c *ConstDecl) isFileElement() {}
 
 func (c *ConstDecl) writeTo(b *bytes.Buffer) {
-	if len(c.Consts) > 1 || c.Comment != "" {
+	if len(c.Consts) != 1 || c.Comment != "" {
 		writeComment(c.Comment, b)
 		b.WriteString("const (\n")
 		for _, cs := range c.Consts {
@@ -701,7 +701,7 @@ func (v *VarDecl) SetComment(comment string) *VarDecl {
 func (v *VarDecl) isFileElement() {}
 
 func (v *VarDecl) writeTo(b *bytes.Buffer) {
-	if len(v.Vars) > 1 || v.Comment != "" {
+	if len(v.Vars) != 1 || v.Comment != "" {
 		writeComment(v.Comment, b)
 		b.WriteString("var (\n")
 		for _, vs := range v.Vars {
@@ -907,7 +907,7 @@ func (t *TypeDecl) SetComment(comment string) *TypeDecl {
 func (t *TypeDecl) isFileElement() {}
 
 func (t *TypeDecl) writeTo(b *bytes.Buffer) {
-	if len(t.Types) > 1 || t.Comment != "" {
+	if len(t.Types) != 1 || t.Comment != "" {
 		writeComment(t.Comment, b)
 		b.WriteString("type (\n")
 		for _, ts := range t.Types {
-- 
2.43.0


From bcdea37517051fa52fd1298eab7e64eb6bfe393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 24/28] fix: visit maps in template data in a fixed order

---
 templates.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index fb1bec6..aa0d1bf 100644
--- a/templates.go
+++ b/templates.go
@@ -1,8 +1,10 @@
 package gopoet
 
 import (
+	"fmt"
 	"go/types"
 	"reflect"
+	"sort"
 )
 
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
@@ -198,7 +200,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 	case reflect.Map:
 		var newMap reflect.Value
 		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range data.MapKeys() {
+		for _, k := range sortedKeys(data) {
 			newK, changedK := qualifyTemplateData(imports, k)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
 			if newMap.IsValid() {
@@ -228,3 +230,24 @@ func addressable(v reflect.Value) reflect.Value {
 	dest.Set(v)
 	return dest
 }
+
+// sortedKeys returns the keys of the given map, sorted by their text. Visiting
+// them in a fixed order means that packages are always registered in the same
+// order and so are always assigned the same aliases.
+func sortedKeys(m reflect.Value) []reflect.Value {
+	keys := m.MapKeys()
+	text := make([]string, len(keys))
+	order := make([]int, len(keys))
+	for i, k := range keys {
+		order[i] = i
+		text[i] = fmt.Sprintf("%v %#v", k, k)
+	}
+	sort.Slice(order, func(i, j int) bool {
+		return text[order[i]] < text[order[j]]
+	})
+	sorted := make([]reflect.Value, len(keys))
+	for i, o := range order {
+		sorted[i] = keys[o]
+	}
+	return sorted
+}
-- 
2.43.0


From 821f7bc12ffad86f177b6cca8a37366315a991cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 25/28] fix: qualify references behind pointers to interfaces
 in template data

---
 templates.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates.go b/templates.go
index aa0d1bf..6067857 100644
--- a/templates.go
+++ b/templates.go
@@ -165,10 +165,11 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Ptr:
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() {
+			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
 				return newElem.Addr(), true
 			}
-			dest := reflect.New(newElem.Type())
+			// a new element for an interface may be of some other type
+			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
 			return dest, true
 		}
-- 
2.43.0


From 6888cba32524a15e88d4231920f164acaff5ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 26/28] fix: keep comments of the elements of an unnamed type
 used as a const or var type

---
 model.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index c3f402b..5e2a174 100644
--- a/model.go
+++ b/model.go
@@ -488,6 +488,15 @@ func (c *ConstDecl) qualify(imports *Imports) {
 	}
 }
 
+func writeType(t TypeNameOrSpec, b *bytes.Buffer) {
+	if ts, ok := t.(*TypeSpec); ok && ts.Name == "" {
+		// unnamed type, whose elements may have comments
+		ts.writeUnderlying(b)
+		return
+	}
+	fmt.Fprintf(b, " %v", t)
+}
+
 func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	switch t := t.(type) {
 	case nil:
@@ -636,7 +645,7 @@ func (c *ConstSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 	}
 	fmt.Fprintf(b, "%s", strings.Join(c.Names, ", "))
 	if c.Type != nil {
-		fmt.Fprintf(b, " %v", c.Type)
+		writeType(c.Type, b)
 	}
 	if c.Initializer != nil {
 		b.WriteString(" = ")
@@ -842,7 +851,7 @@ func (v *VarSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 	}
 	fmt.Fprintf(b, "%s", strings.Join(v.Names, ", "))
 	if v.Type != nil {
-		fmt.Fprintf(b, " %v", v.Type)
+		writeType(v.Type, b)
 	}
 	if v.Initializer != nil {
 		b.WriteString(" = ")
-- 
2.43.0


From 6a84973a36f3cc7aa275a1f385346595a0718388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 27/28] fix: keep the entries of maps with NaN keys in template
 data

Their values can't be looked up by key, so reconstructing such a map to
qualify its other contents dropped them.
---
 templates.go | 53 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/templates.go b/templates.go
index 6067857..019bbc1 100644
--- a/templates.go
+++ b/templates.go
@@ -200,21 +200,19 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Map:
 		var newMap reflect.Value
-		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range sortedKeys(data) {
+		entries := sortedEntries(data)
+		for i, e := range entries {
+			k, v := e.key, e.value
 			newK, changedK := qualifyTemplateData(imports, k)
-			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
+			newV, changedV := qualifyTemplateData(imports, v)
 			if newMap.IsValid() {
 				newMap.SetMapIndex(newK, newV)
 			} else if changedK || changedV {
 				newMap = reflect.MakeMap(data.Type())
-				for _, sk := range seenKeys {
-					newMap.SetMapIndex(sk, data.MapIndex(sk))
+				for _, seen := range entries[:i] {
+					newMap.SetMapIndex(seen.key, seen.value)
 				}
 				newMap.SetMapIndex(newK, newV)
-				seenKeys = nil
-			} else {
-				seenKeys = append(seenKeys, k)
 			}
 		}
 		if newMap.IsValid() {
@@ -232,23 +230,40 @@ func addressable(v reflect.Value) reflect.Value {
 	return dest
 }
 
-// sortedKeys returns the keys of the given map, sorted by their text. Visiting
-// them in a fixed order means that packages are always registered in the same
-// order and so are always assigned the same aliases.
-func sortedKeys(m reflect.Value) []reflect.Value {
-	keys := m.MapKeys()
-	text := make([]string, len(keys))
-	order := make([]int, len(keys))
-	for i, k := range keys {
+// mapEntry is a single key and value of a map.
+type mapEntry struct {
+	key, value reflect.Value
+}
+
+// sortedEntries returns the entries of the given map, sorted by the text of
+// their keys. Visiting them in a fixed order means that packages are always
+// registered in the same order and so are always assigned the same aliases.
+//
+// The values are gathered along with the keys, instead of being looked up later,
+// since a key that is not equal to itself (NaN) can't be used to look anything up.
+func sortedEntries(m reflect.Value) []mapEntry {
+	entries := make([]mapEntry, 0, m.Len())
+	text := make([]string, 0, m.Len())
+	for iter := m.MapRange(); iter.Next(); {
+		k, v := iter.Key(), iter.Value()
+		t := fmt.Sprintf("%v %#v", k, k)
+		if !m.MapIndex(k).IsValid() {
+			// there may be many such keys, all with the same text
+			t = fmt.Sprintf("%s %v", t, v)
+		}
+		entries = append(entries, mapEntry{key: k, value: v})
+		text = append(text, t)
+	}
+	order := make([]int, len(entries))
+	for i := range order {
 		order[i] = i
-		text[i] = fmt.Sprintf("%v %#v", k, k)
 	}
 	sort.Slice(order, func(i, j int) bool {
 		return text[order[i]] < text[order[j]]
 	})
-	sorted := make([]reflect.Value, len(keys))
+	sorted := make([]mapEntry, len(entries))
 	for i, o := range order {
-		sorted[i] = keys[o]
+		sorted[i] = entries[o]
 	}
 	return sorted
 }
-- 
2.43.0


From 64f798accdb91d2b24c06bc857c8b288fa1581ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 28/28] fix: visit map entries in a fixed order if their keys
 have the same text

---
 templates.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/templates.go b/templates.go
index 019bbc1..95a78a3 100644
--- a/templates.go
+++ b/templates.go
@@ -230,6 +230,8 @@ func addressable(v reflect.Value) reflect.Value {
 	return dest
 }
 
+var stringerType = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
+
 // mapEntry is a single key and value of a map.
 type mapEntry struct {
 	key, value reflect.Value
@@ -238,6 +240,8 @@ type mapEntry struct {
 // sortedEntries returns the entries of the given map, sorted by the text of
 // their keys. Visiting them in a fixed order means that packages are always
 // registered in the same order and so are always assigned the same aliases.
+// Where keys have the same text, the order is that of the packages they and
+// their values refer to.
 //
 // The values are gathered along with the keys, instead of being looked up later,
 // since a key that is not equal to itself (NaN) can't be used to look anything up.
@@ -245,21 +249,36 @@ func sortedEntries(m reflect.Value) []mapEntry {
 	entries := make([]mapEntry, 0, m.Len())
 	text := make([]string, 0, m.Len())
 	for iter := m.MapRange(); iter.Next(); {
-		k, v := iter.Key(), iter.Value()
-		t := fmt.Sprintf("%v %#v", k, k)
-		if !m.MapIndex(k).IsValid() {
-			// there may be many such keys, all with the same text
-			t = fmt.Sprintf("%s %v", t, v)
+		k := iter.Key()
+		entries = append(entries, mapEntry{key: k, value: iter.Value()})
+		for k.Kind() == reflect.Interface || k.Kind() == reflect.Ptr && !k.Type().Implements(stringerType) {
+			if k.IsNil() {
+				break
+			}
+			k = k.Elem() // the text of a pointer would be its address
 		}
-		entries = append(entries, mapEntry{key: k, value: v})
-		text = append(text, t)
+		text = append(text, fmt.Sprintf("%v", k))
+	}
+	imports := make([]string, len(entries))
+	importsOf := func(i int) string {
+		if imports[i] == "" {
+			entryImports := NewImportsFor("")
+			qualifyTemplateData(entryImports, entries[i].key)
+			qualifyTemplateData(entryImports, entries[i].value)
+			imports[i] = fmt.Sprint(entryImports.ImportSpecs())
+		}
+		return imports[i]
 	}
 	order := make([]int, len(entries))
 	for i := range order {
 		order[i] = i
 	}
 	sort.Slice(order, func(i, j int) bool {
-		return text[order[i]] < text[order[j]]
+		i, j = order[i], order[j]
+		if text[i] != text[j] {
+			return text[i] < text[j]
+		}
+		return importsOf(i) < importsOf(j)
 	})
 	sorted := make([]mapEntry, len(entries))
 	for i, o := range order {
-- 
2.43.0

