HEAD='''
package main

import (
	"bytes"
	"fmt"
	"os"
	IMPORTS

	"github.com/jhump/gopoet"
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func render(f *gopoet.GoFile) string {
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("render: %v", err) }
	return b.String()
}

var _ = render
'''
def demo(body, imports=''):
    return HEAD.replace('IMPORTS', imports) + '\n' + body
SEEDS=[
dict(id='c01-quoted-tag-not-escaped', property='C01',
 edits=[('types.go','b.WriteString(strconv.Quote(tag))','''b.WriteRune('"')
					b.WriteString(strings.Replace(tag, `"`, `\\"`, -1))
					b.WriteRune('"')'''),('types.go','''	"strconv"
''','''	"strconv"
	"strings"
''')],
 demo=demo('''
func main() {
	t := gopoet.StructType(gopoet.FieldType{Name: "A", Type: gopoet.IntType, Tag: "a`\\\\b"})
	if s := t.String(); s != "struct{A int \\"a`\\\\\\\\b\\"}" { fail("got %q", s) }
}
'''),
 needs='a struct tag that has both a backquote and a backslash (or a line break)',
 breaks='the text of the type has another tag or does not parse'),
dict(id='c02-unknown-name-without-alias', property='C02',
 edits=[('imports.go','isAlias:     p != packageName,','isAlias:     p != packageName && (packageName != "" || suffix > 1 || !strings.Contains(importPath, "/v")),')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/v/aa", "")
	if s := i.ImportSpecs(); s[0].PackageAlias != "aa" { fail("got %v", s) }
}
'''),
 needs='a package whose name is not known',
 breaks='the import has no alias, so the prefix is wrong when the package is called something else'),
dict(id='c03-map-key-only', property='C03',
 edits=[('imports.go','if nelem != elem || nkey != key {','if nelem != elem {')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/y/a", "a")
	t := gopoet.MapType(gopoet.NamedType(gopoet.NewSymbol("x/a", "T")), gopoet.IntType)
	if s := i.EnsureTypeImported(t).String(); s != "map[a1.T]int" { fail("got %q", s) }
}
'''),
 needs='a map type where only the key needs another prefix',
 breaks='the key keeps the prefix of another package'),
dict(id='c03-interface-both-must-change', property='C03',
 edits=[('imports.go','if !sameSlice(nembeds, embeds) || !sameSlice(nmethods, methods) {','if len(methods) > 0 && len(embeds) > 0 && sameSlice(nembeds, embeds) {\n\t\t\treturn n\n\t\t}\n\t\tif !sameSlice(nembeds, embeds) || !sameSlice(nmethods, methods) {')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/y/a", "a")
	sig := gopoet.Signature{Args: []gopoet.ArgType{{Type: gopoet.NamedType(gopoet.NewSymbol("x/a", "T"))}}}
	t := gopoet.InterfaceType([]gopoet.Symbol{{Name: "error"}}, gopoet.MethodType{Name: "M", Signature: sig})
	if s := i.EnsureTypeImported(t).String(); s != "interface{error; M(a1.T)}" { fail("got %q", s) }
}
'''),
 needs='an interface type whose embedded interfaces keep their prefixes while a method mentions a package that gets another one',
 breaks='the method keeps the wrong prefix'),
dict(id='c04-typed-var-initializer', property='C04',
 edits=[('model.go','''		vs.Type = qualifyType(imports, vs.Type)
		if vs.Initializer != nil {''','''		vs.Type = qualifyType(imports, vs.Type)
		if vs.Initializer != nil && vs.Initializer.qualified == nil {''')],
 demo=demo('''
func main() {
	init := gopoet.Printf("%s", gopoet.NewSymbol("x/b/a", "V"))
	one := gopoet.NewGoFile("f.go", "x/b/a", "a").AddVar(gopoet.NewVar("x").SetInitializer(init))
	two := gopoet.NewGoFile("g.go", "x/c", "c").AddVar(gopoet.NewVar("x").SetInitializer(init))
	render(one)
	if s := render(two); !strings.Contains(s, "x = a.V") { fail("got:\\n%s", s) }
}
''','"strings"'),
 needs='one block of code used as the initializer of vars in two files, the first of which belongs to the package that it mentions',
 breaks='the reference in the second file is unqualified and its package is not imported'),
dict(id='c04-interface-embed-skipped', property='C04',
 edits=[('model.go','''	for _, ie := range t.interfaceBody {
		ie.qualify(imports)''','''	for _, ie := range t.interfaceBody {
		if e, ok := ie.(*InterfaceEmbed); ok && e.Comment != "" {
			continue
		}
		ie.qualify(imports)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	f.ImportsFor()
}
'''),
 needs='-', breaks='-'),
dict(id='c05-embedded-field-tag-lost', property='C05',
 edits=[('model.go','''				fields[i] = &FieldSpec{
					parent: ret,
					Name:   ft.Name,
					Type:   ft.Type,
					Tag:    ft.Tag,
				}
''','''				fields[i] = &FieldSpec{
					parent: ret,
					Name:   ft.Name,
					Type:   ft.Type,
				}
				if ft.Name != "" {
					fields[i].Tag = ft.Tag
				}
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	f.AddType(gopoet.NewTypeSpec("T", gopoet.StructType(gopoet.FieldType{Type: gopoet.ErrorType, Tag: "tag"})))
	if s := render(f); !strings.Contains(s, "error `tag`") { fail("no tag:\\n%s", s) }
}
''','"strings"'),
 needs='a type made from a struct type with a tagged embedded field',
 breaks='the tag of the embedded field is lost'),
dict(id='c05-nested-struct-field-tag', property='C05',
 edits=[('model.go','''			fmt.Fprintf(b, " %q", tag)
''','''			fmt.Fprintf(b, " %+q", strings.TrimSpace(tag))
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	f.AddType(gopoet.NewStructTypeSpec("T", gopoet.NewField("A", gopoet.IntType).SetTag("a`b\\n")))
	if s := render(f); !strings.Contains(s, "\\"a`b\\\\n\\"") { fail("bad tag:\\n%s", s) }
}
''','"strings"'),
 needs='a field tag that cannot be written in backquotes and starts or ends with white space',
 breaks='the tag of the field is changed'),
dict(id='c05-const-group-of-empty-comment', property='C05',
 edits=[('model.go','''		for _, vs := range v.Vars {
			vs.writeTo(b, true)''','''		for i, vs := range v.Vars {
			if i > 0 && vs.Type == nil && vs.Initializer == nil {
				continue
			}
			vs.writeTo(b, true)''')],
 demo=demo('''
func main() { }
'''),
 needs='-', breaks='-'),
dict(id='c06-newline-only-if-missing', property='C06',
 edits=[('code.go','''	return cb.Printf(fmt+"\\n", args...)''','''	if len(fmt) > 0 && fmt[len(fmt)-1] == '\\n' {
		return cb.Printf(fmt, args...)
	}
	return cb.Printf(fmt+"\\n", args...)''')],
 demo=demo('''
func main() {
	f := gopoet.NewFunc("f").Println("s := `").Printlnf("x\\n").Println("`; _ = s")
	file := gopoet.NewGoFile("f.go", "x/self", "self").AddElement(f)
	if s := render(file); !strings.Contains(s, "x\\n\\n`") { fail("newline lost:\\n%s", s) }
}
''','"strings"'),
 needs='a line whose format already ends with a newline, inside a raw string where gofmt does not touch it',
 breaks='the newline that the line-oriented piece adds is missing'),
dict(id='c06-gotype-package-as-text', property='C06',
 edits=[('code.go','''			p := imports.registerPackage(*a)
			if p != a.Name {
				l.args[i] = Package{Name: p, ImportPath: a.ImportPath}
			}''','''			p := imports.registerPackage(*a)
			if p != a.Name && p != "" {
				l.args[i] = Package{Name: p, ImportPath: a.ImportPath}
			}''')],
 demo=demo('''
func main() {
	p := gopoet.Package{ImportPath: "x/self", Name: "self"}
	f := gopoet.NewFunc("f").Printlnf("_ = \\"[%s]\\"", &p)
	file := gopoet.NewGoFile("f.go", "x/self", "self").AddElement(f)
	if s := render(file); !strings.Contains(s, "[]") { fail("got:\\n%s", s) }
}
''','"strings"'),
 needs='a pointer to the package of the file itself as a format argument',
 breaks='the own package is rendered with a prefix'),
dict(id='c07-names-learned-from-other-files', property='C07',
 edits=[('imports.go','''	p := packageName
	if packageName == "" {
		p = path.Base(importPath)
	}
''','''	p := packageName
	namesMu.Lock()
	if packageName != "" {
		names[importPath] = packageName
	} else if n, ok := names[importPath]; ok {
		// the name is known from another reference to the same package
		p = n
	} else {
		p = path.Base(importPath)
	}
	namesMu.Unlock()
'''),('imports.go','''type importDef struct {''','''// names holds the names of packages that have been imported under their names.
var names = map[string]string{}
var namesMu sync.Mutex

type importDef struct {'''),('imports.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 demo=demo('''
func one() *gopoet.GoFile {
	return gopoet.NewGoFile("f.go", "x/self", "self").AddVar(gopoet.NewVar("v").SetType(gopoet.NamedType(gopoet.Symbol{Package: gopoet.Package{ImportPath: "x/go-yaml"}, Name: "T"})))
}

func main() {
	a := render(one())
	render(gopoet.NewGoFile("g.go", "x/other", "other").AddVar(gopoet.NewVar("v").SetType(gopoet.NamedType(gopoet.Package{ImportPath: "x/go-yaml", Name: "yaml"}.Symbol("T")))))
	if b := render(one()); a != b { fail("the same model rendered differently:\\n%s\\n%s", a, b) }
}
'''),
 needs='a file that refers to a package without its name, rendered after a file that refers to the same package by its name, which differs from the last path element',
 breaks='the bytes of a file depend on the files rendered before it'),
dict(id='c07-args-qualified-in-place', property='C07',
 edits=[('imports.go','''			if ret == nil {
				ret = make([]ArgType, len(args))
				copy(ret, args)
			}
			ret[idx] = ArgType{Name: a.Name, Type: nt}''','''			if ret == nil {
				ret = append(args[:idx], args[idx:]...)
			}
			ret[idx] = ArgType{Name: a.Name, Type: nt}''')],
 demo=demo('''
func file(p string, t gopoet.TypeName) *gopoet.GoFile {
	f := gopoet.NewGoFile("f.go", p, "self")
	f.RegisterImport("x/y/a", "a")
	return f.AddVar(gopoet.NewVar("v").SetType(t))
}

func main() {
	args := []gopoet.ArgType{{Type: gopoet.NamedType(gopoet.NewSymbol("x/a", "T"))}}
	t := gopoet.FuncType(args, nil)
	render(file("x/self", t))
	if s := args[0].Type.String(); s != "a.T" { fail("the caller's type became %s", s) }
}
'''),
 needs='a function type whose argument gets another prefix in one file than its package has',
 breaks='rendering changes the types that the caller passed in'),
dict(id='c08-reflect-types-cached', property='C08',
 edits=[('types.go','''func TypeNameForReflectType(t reflect.Type) TypeName {
''','''func TypeNameForReflectType(t reflect.Type) TypeName {
	if tn, ok := structTypes[t]; ok {
		return tn
	}
'''),('types.go','''				Tag:  field.Tag,
			}
		}
		return StructType(fields...)''','''				Tag:  field.Tag,
			}
		}
		st := StructType(fields...)
		structTypes[t] = st
		return st'''),('types.go','''func signatureFromReflectType(''','''// structTypes holds the struct types that have been converted.
var structTypes = map[reflect.Type]TypeName{}

func signatureFromReflectType(''')],
 flags='-race',
 demo=demo('''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 1; n < 300; n++ {
				gopoet.TypeNameForReflectType(reflect.ArrayOf(n, reflect.TypeOf(struct{ A int }{})))
				gopoet.TypeNameForReflectType(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.ArrayOf(n, reflect.TypeOf(1))}}))
			}
		}()
	}
	wg.Wait()
}
''','"sync"; "reflect"'),
 needs='two goroutines that convert unnamed struct types at the same time',
 breaks='a data race on a map'),
dict(id='c09-methods-not-imported', property='C09',
 edits=[('templates.go','''		case FuncSpec:
			if t.parent != nil {''','''		case FuncSpec:
			if t.parent != nil && t.Receiver == nil {''')],
 demo=demo('''
func main() {
	m := gopoet.NewMethod(gopoet.NewReceiver("", "T"), "M")
	gopoet.NewGoFile("f.go", "x/a", "a").AddElement(m)
	i := gopoet.NewImportsFor("x/self")
	i.QualifyTemplateData([]interface{}{m})
	if len(i.ImportSpecs()) != 1 { fail("got %v", i.ImportSpecs()) }
}
'''),
 needs='template data that holds a method of another package',
 breaks='the package of the method is not imported and the method keeps its prefix'),
dict(id='c09-array-of-one-in-place', property='C09',
 edits=[('templates.go','''					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
''','''					newArray = data.Slice(0, data.Len())
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/a")
	d := []gopoet.Symbol{gopoet.NewSymbol("x/a", "T")}
	i.QualifyTemplateData(d)
	if d[0].Package.Name != "a" { fail("original changed: %v", d) }
}
'''),
 needs='a slice in template data with a reference that gets another prefix',
 breaks='the original slice is modified'),
dict(id='c10-all-methods-explicit', property='C10',
 edits=[('types.go','methods := make([]MethodType, t.NumExplicitMethods())','methods := make([]MethodType, t.NumMethods())'),
  ('types.go','''		for i := 0; i < t.NumExplicitMethods(); i++ {
			method := t.ExplicitMethod(i)''','''		for i := 0; i < t.NumMethods(); i++ {
			method := t.Method(i)''')],
 demo=demo('''
func main() {
	pkg := types.NewPackage("x/a", "a")
	m := types.NewInterfaceType(nil, []types.Type{types.Universe.Lookup("error").Type()}).Complete()
	_ = pkg
	if s := gopoet.TypeNameForGoType(m).String(); s != "interface{error}" { fail("got %s", s) }
}
''','"go/types"'),
 needs='an interface type that embeds another interface with methods',
 breaks='the methods of embedded interfaces are repeated as explicit ones'),
dict(id='c10-package-name-from-path', property='C10',
 edits=[('model.go','''		Name:       pkg.Name(),
		ImportPath: pkg.Path(),''','''		Name:       path.Base(pkg.Path()),
		ImportPath: pkg.Path(),''')],
 demo=demo('''
func main() {
	p := gopoet.PackageForGoType(types.NewPackage("x/go-yaml", "yaml"))
	if p.Name != "yaml" { fail("got %q", p.Name) }
}
''','"go/types"'),
 needs='a go/types package whose name differs from the last element of its path',
 breaks='the package name is not kept'),
dict(id='c10-receiver-name-only', property='C10',
 edits=[('types.go','''	if _, ok := recv.Type().Underlying().(*types.Interface); ok {
		return
	}''','''	if types.IsInterface(recv.Type()) || recv.Name() == "" || recv.Name() == "_" {
		return
	}''')],
 demo=demo('''
func main() {
	p := types.NewPackage("x/a", "a")
	tn := types.NewNamed(types.NewTypeName(0, p, "T", nil), types.Typ[types.Int], nil)
	sig := types.NewSignature(types.NewVar(0, p, "", tn), nil, nil, false)
	if s := gopoet.TypeNameForGoType(sig).String(); s != "func(a.T)" { fail("got %q", s) }
}
''','"go/types"'),
 needs='the signature of a method whose receiver has no name',
 breaks='the receiver is not the first argument'),
dict(id='c11-cache-by-text', property='C11',
 edits=[('types.go','''	if t.Name() != "" {
		return NamedType(Symbol{
			Name:    t.Name(),
			Package: Package{ImportPath: t.PkgPath()},
		})
	}
''','''	if t.Name() != "" {
		if n, ok := namedTypes.Load(t.String()); ok {
			return n.(TypeName)
		}
		n := NamedType(Symbol{
			Name:    t.Name(),
			Package: Package{ImportPath: t.PkgPath()},
		})
		namedTypes.Store(t.String(), n)
		return n
	}
'''),('types.go','''func signatureFromReflectType(''','''// namedTypes holds the named types that have been converted.
var namedTypes sync.Map

func signatureFromReflectType('''),('types.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
 demo=demo('''
func main() {
	a := gopoet.TypeNameForReflectType(reflect.TypeOf(tt.Template{}))
	b := gopoet.TypeNameForReflectType(reflect.TypeOf(ht.Template{}))
	if a.Symbol().Package.ImportPath == b.Symbol().Package.ImportPath { fail("%v", a.Symbol().Package) }
}
''','"reflect"; tt "text/template"; ht "html/template"'),
 needs='two types with the same name in different packages that share a name',
 breaks='the second one is taken for the first'),
dict(id='c11-basic-by-name', property='C11',
 edits=[('types.go','if _, ok := basicTypes[t.Kind()]; ok && t.PkgPath() == "" {','if _, ok := basicTypes[t.Kind()]; ok && t.Name() == t.Kind().String() {')],
 demo=demo('''
type word = uint16

func main() {
	type uint16 word
	if t := gopoet.TypeNameForReflectType(reflect.TypeOf(uint16(1))); t.Kind() != gopoet.KindNamed { fail("got %v", t) }
}
''','"reflect"'),
 needs='a declared type with the name of the predeclared type that it is based on',
 breaks='the declared type is taken for the predeclared one'),
dict(id='c11-array-length-32-bits', property='C11',
 edits=[('types.go','return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))','return ArrayType(TypeNameForReflectType(t.Elem()), int64(uint32(t.Len())))')],
 demo=demo('''
func main() {
	if n := gopoet.TypeNameForReflectType(reflect.TypeOf([1 << 33]struct{}{})).Len(); n != 1<<33 { fail("got %d", n) }
}
''','"reflect"'),
 needs='an array longer than 2^32',
 breaks='the length is cut off'),
dict(id='c12-later-files-written', property='C12',
 edits=[('model.go','''	for _, file := range files {
		p := filepath.Join(''','''	var failed error
	for _, file := range files {
		p := filepath.Join('''),('model.go','''			return WriteGoFile(w, file)
		}()
		if err != nil {
			return err
		}
	}
	return nil''','''			return WriteGoFile(w, file)
		}()
		if err != nil {
			failed = err
		}
	}
	return failed''')],
 demo=demo('''
type null struct{}

func (null) Write(p []byte) (int, error) { return len(p), nil }
func (null) Close() error { return nil }

func main() {
	n := 0
	bad := gopoet.NewGoFile("a.go", "x/self", "1bad")
	good := gopoet.NewGoFile("b.go", "x/self", "self")
	err := gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) { n++; return null{}, nil }, bad, good)
	if err == nil || n != 1 { fail("%d opened, %v", n, err) }
}
''','"io"'),
 needs='several files of which one that is not the last fails',
 breaks='files after a failed one are written'),
dict(id='c12-unformatted-written', property='C12',
 edits=[('model.go','''	if err != nil {
		return &FormatError{Unformatted: unformatted, Err: err}
	}''','''	if err != nil {
		// leave the bad source for inspection
		if _, werr := w.Write(unformatted); werr != nil {
			return werr
		}
		return &FormatError{Unformatted: unformatted, Err: err}
	}''')],
 demo=demo('''
func main() {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, gopoet.NewGoFile("a.go", "x/self", "1bad"))
	if err == nil || b.Len() != 0 { fail("%d bytes, %v", b.Len(), err) }
}
'''),
 needs='a file whose source cannot be formatted',
 breaks='unformatted source is written'),
dict(id='c13-old-content-kept', property='C13',
 edits=[('model.go','os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)','os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE, 0666)')],
 demo=demo('''
func main() {
	root := os.Getenv("SCRATCH")
	if root == "" { fail("no scratch directory") }
	os.MkdirAll(root+"/x", 0777)
	os.WriteFile(root+"/x/f.go", bytes.Repeat([]byte("// old\\n"), 100), 0666)
	f := gopoet.NewGoFile("f.go", "x", "self")
	if err := gopoet.WriteGoFilesToFileSystem(root, f); err != nil { fail("%v", err) }
	got, _ := os.ReadFile(root + "/x/f.go")
	if string(got) != render(f) { fail("got %q", got) }
}
'''),
 needs='a longer file at the same place',
 breaks='the end of the earlier content remains'),
dict(id='c13-first-existing-gopath-entry', property='C13',
 edits=[('model.go','''	return WriteGoFilesToFileSystem(paths[0], files...)''','''	root := paths[0]
	for _, p := range paths {
		if _, err := os.Stat(p); err == nil {
			root = p
			break
		}
	}
	return WriteGoFilesToFileSystem(root, files...)''')],
 demo=demo('''
func main() {
	root := os.Getenv("SCRATCH")
	if root == "" { fail("no scratch directory") }
	os.MkdirAll(root+"/two", 0777)
	os.Setenv("GOPATH", root+"/one"+string(os.PathListSeparator)+root+"/two")
	if err := gopoet.WriteGoFilesToGoPath(gopoet.NewGoFile("f.go", "x", "self")); err != nil { fail("%v", err) }
	if _, err := os.Stat(root + "/one/x/f.go"); err != nil { fail("%v", err) }
}
'''),
 needs='a GOPATH of several entries whose first does not exist yet',
 breaks='files go to another entry'),
dict(id='c14-first-byte-only', property='C14',
 edits=[('names.go','''	return string(upperR) + s[sz:]''','''	return string(upperR) + s[utf8.RuneLen(upperR):]''')],
 demo=demo('''
func main() {
	if s := gopoet.Export("\\u0131abc"); s != "Iabc" { fail("got %q", s) }
}
'''),
 needs='a first letter whose upper-case form has another length in UTF-8 (like dotless i)',
 breaks='bytes after the first character are lost or kept twice'),
dict(id='c15-interface-method-not-variadic', property='C15',
 edits=[('model.go','''	sig.IsVariadic = m.IsVariadic
''','''	sig.IsVariadic = m.IsVariadic && len(m.Args) > 1
''')],
 demo=demo('''
func main() {
	m := gopoet.NewInterfaceMethod("M").AddArg("", gopoet.SliceType(gopoet.IntType)).SetVariadic(true)
	f := gopoet.NewGoFile("f.go", "x/a", "a")
	f.AddType(gopoet.NewInterfaceTypeSpec("I", m))
	if s := m.ToTypeName().String(); s != "func(a.I, ...int)" { fail("got %q", s) }
}
'''),
 needs='an interface method with a variadic argument only',
 breaks='its function type is not variadic'),
dict(id='c15-names-of-later-consts', property='C15',
 edits=[('model.go','''			for i := range v.Names {
				syms[i] = v.SymbolAt(i).String()
			}''','''			for i, n := range v.Names {
				if i == 0 {
					n = v.SymbolAt(i).String()
				}
				syms[i] = n
			}''')],
 demo=demo('''
func main() {
	v := gopoet.NewVar("a", "b")
	gopoet.NewGoFile("f.go", "x/p", "p").AddVar(v)
	if s := v.String(); s != "p.a, p.b" { fail("got %q", s) }
}
'''),
 needs='a var of several names that belongs to a file',
 breaks='its string form disagrees with its symbols'),
dict(id='c15-stays-with-first-file', property='C15',
 edits=[('model.go','''	for _, vr := range v.Vars {
		vr.parent = f''','''	for _, vr := range v.Vars {
		if vr.parent != nil && vr.parent.Package() == f.Package() {
			continue
		}
		if vr.parent != nil && len(v.Vars) > 1 {
			continue
		}
		vr.parent = f''')],
 demo=demo('''
func main() {
	v, w := gopoet.NewVar("a"), gopoet.NewVar("b")
	d := gopoet.NewVarDecl(v, w)
	gopoet.NewGoFile("f.go", "x/p", "p").AddElement(d)
	gopoet.NewGoFile("f.go", "x/q", "q").AddElement(d)
	if s := v.String(); s != "q.a" { fail("got %q", s) }
}
'''),
 needs='a declaration of several vars that is added to a second file',
 breaks='the vars refer to themselves in the first file'),
dict(id='c16-embeds-not-copied', property='C16',
 edits=[('types.go','func (t *interfaceTypeName) Embeds() []Symbol        { return append([]Symbol{}, t.embeds...) }','func (t *interfaceTypeName) Embeds() []Symbol        { return append(t.embeds[:0:0], t.embeds[:len(t.embeds):len(t.embeds)]...)[:len(t.embeds)] }')],
 demo=demo('''
func main() {}
'''), needs='-', breaks='-'),
dict(id='c16-embeds-shared', property='C16',
 edits=[('types.go','func (t *interfaceTypeName) Embeds() []Symbol        { return append([]Symbol{}, t.embeds...) }','func (t *interfaceTypeName) Embeds() []Symbol        { return t.embeds[:len(t.embeds):len(t.embeds)] }')],
 demo=demo('''
func main() {
	t := gopoet.InterfaceType([]gopoet.Symbol{{Name: "error"}})
	t.Embeds()[0].Name = "x"
	if s := t.String(); s != "interface{error}" { fail("got %q", s) }
}
'''),
 needs='a caller that modifies the list of embedded interfaces it got',
 breaks='the type changes'),
dict(id='c16-variadic-without-arguments', property='C16',
 edits=[('types.go','if sig.IsVariadic && (len(sig.Args) == 0 || sig.Args[len(sig.Args)-1].Type.Kind() != KindSlice) {','if sig.IsVariadic && len(sig.Args) > 0 && sig.Args[len(sig.Args)-1].Type.Kind() != KindSlice {')],
 demo=demo('''
func main() {
	defer func() { if recover() == nil { fail("accepted") } }()
	gopoet.FuncTypeVariadic(nil, nil)
}
'''),
 needs='a variadic signature without any argument',
 breaks='it is accepted'),
dict(id='c16-func-type-keeps-result-array', property='C16',
 edits=[('types.go','''	if t == nil || dir&^reflect.BothDir != 0 {''','''	dir &= reflect.BothDir | 4
	if t == nil || dir&^reflect.BothDir != 0 {''')],
 demo=demo('''
func main() {
	defer func() { if recover() == nil { fail("accepted") } }()
	gopoet.ChannelType(gopoet.IntType, reflect.ChanDir(9))
}
''','"reflect"'),
 needs='a channel direction with unknown bits above the lowest three',
 breaks='it is accepted'),
dict(id='c17-file-comment-becomes-doc', property='C17',
 edits=[('model.go','''	if f.FileComment != "" {
		// separate''','''	if f.FileComment != "" && f.PackageComment != "" {
		// separate''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/p", "p")
	f.FileComment = "Copyright"
	if s := render(f); s != "// Copyright\\n\\npackage p\\n" { fail("got %q", s) }
}
'''),
 needs='a file comment in a file without package comment',
 breaks='the file comment becomes the package documentation'),
dict(id='c17-blank-lines-dropped', property='C17',
 edits=[('model.go','''		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)''','''		for _, line := range lines {
			if line == "" {
				continue
			}
			fmt.Fprintf(w, "// %s\\n", line)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/p", "p")
	f.PackageComment = "One.\\n\\nTwo."
	if s := render(f); s != "// One.\\n//\\n// Two.\\npackage p\\n" { fail("got %q", s) }
}
'''),
 needs='a comment with paragraphs', breaks='the blank line between paragraphs disappears'),
dict(id='c17-long-comment-in-block', property='C17',
 edits=[('model.go','''		lines := strings.Split(comment, "\\n")
''','''		lines := strings.Split(comment, "\\n")
		if len(lines) > 10 {
			fmt.Fprintf(w, "/*\\n%s\\n*/\\n", comment)
			return
		}
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/p", "p")
	f.PackageComment = strings.Repeat("line\\n", 11) + "*/ var x int /*"
	if s := render(f); strings.Contains(s, "\\n*/ var") { fail("got %q", s) }
}
''','"strings"'),
 needs='a comment of more than ten lines that contains */',
 breaks='comment text becomes code'),
dict(id='c17-group-of-one-comment-lost', property='C17',
 edits=[('model.go','''			ts.writeTo(b, true)''','''			ts.writeTo(b, len(t.Types) > 1)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/p", "p")
	f.AddElement(gopoet.NewTypeDecl(gopoet.NewTypeSpec("T", gopoet.IntType).SetComment("inner")).SetComment("outer"))
	if s := render(f); !strings.Contains(s, "inner") { fail("got %q", s) }
}
''','"strings"'),
 needs='a type declaration with a comment that has a single type with a comment of its own',
 breaks='the comment of the type is lost'),
]
SEEDS=[s for s in SEEDS if s['needs']!='-']
