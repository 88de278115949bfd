HEAD='''
package main

import (
	"bytes"
	"fmt"
	"os"
	IMPORTS

	"github.com/jhump/gopoet"
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func render(f *gopoet.GoFile) string {
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("render: %v", err) }
	return b.String()
}

var _ = render
'''

def demo(body, imports=''):
    return HEAD.replace('IMPORTS', imports) + '\n' + body
SEEDS=[
dict(id='c01-empty-results-parens', property='C01',
 edits=[('types.go','''		if len(sig.Results) > 1 || namedResults {
			b.WriteRune('(')
		}''','''		if len(sig.Results) > 1 || (namedResults && sig.Results[0].Name != "_") {
			b.WriteRune('(')
		}'''),('types.go','''		if len(sig.Results) > 1 || namedResults {
			b.WriteRune(')')
		}''','''		if len(sig.Results) > 1 || (namedResults && sig.Results[0].Name != "_") {
			b.WriteRune(')')
		}''')],
 demo=demo('''
func main() {
	t := gopoet.FuncType(nil, []gopoet.ArgType{{Name: "_", Type: gopoet.IntType}})
	if s := t.String(); s != "func() (_ int)" { fail("got %q", s) }
}
'''),
 needs='a function type with exactly one result, which is named "_"',
 breaks='the text is "func() _ int", which does not parse'),
dict(id='c01-chan-parens-by-text', property='C01',
 edits=[('types.go','''		b.WriteString("chan")
		if tn.Dir() == reflect.SendDir {
			b.WriteString("<-")
		}
		b.WriteRune(' ')
''','''		b.WriteString("chan")
		if tn.Dir() == reflect.SendDir {
			b.WriteString("<-")
		}
		if tn.Dir() != reflect.SendDir || tn.Elem().Kind() != KindChan {
			b.WriteRune(' ')
		}
''')],
 demo=demo('''
func main() {
	t := gopoet.ChannelType(gopoet.ChannelType(gopoet.IntType, reflect.BothDir), reflect.SendDir)
	if s := t.String(); s != "chan<- chan int" { fail("got %q", s) }
}
''','"reflect"').replace('chan<- chan int" {','chan<- chan int" && s != "chan<-chan int" {').replace('"chan<-chan int" {','"" {'),
 needs='a send-only channel of channels', breaks='a space is lost (same type, other text)'),
dict(id='c02-failed-lookup-reserves', property='C02',
 edits=[('imports.go','''		panic(fmt.Sprintf("Package %q never registered", importPath))
''','''		if i.pathsByName != nil {
			i.pathsByName[path.Base(importPath)] = importPath
		}
		panic(fmt.Sprintf("Package %q never registered", importPath))
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/a", "a")
	func() {
		defer func() { recover() }()
		i.PrefixForPackage("x/b")
	}()
	if p := i.RegisterImport("x/b", "b"); p != "b." { fail("got %q", p) }
}
'''),
 needs='a lookup that panics and is recovered, followed by a registration of a package of that name',
 breaks='the failed lookup reserves the name, so the package gets an alias it does not need'),
dict(id='c02-suffix-one-digit', property='C02',
 edits=[('imports.go','''		p = fmt.Sprintf("%s%d", pkgBase, suffix)
''','''		p = pkgBase + string(rune('0'+suffix))
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	for n := 0; n < 12; n++ {
		p := i.RegisterImport(fmt.Sprintf("x/%d/a", n), "a")
		if !token.IsIdentifier(p[:len(p)-1]) { fail("got %q", p) }
	}
}
''','"go/token"'),
 needs='more than ten packages of one name', breaks='the eleventh prefix is not an identifier'),
dict(id='c03-own-path-dropped', property='C03',
 edits=[('imports.go','''		pkg := Package{Name: name, ImportPath: sym.Package.ImportPath}
		return Symbol{Package: pkg, Name: sym.Name}
''','''		if name == "" {
			return Symbol{Name: sym.Name}
		}
		pkg := Package{Name: name, ImportPath: sym.Package.ImportPath}
		return Symbol{Package: pkg, Name: sym.Name}
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	s := i.EnsureImported(gopoet.NewSymbol("x/self", "T"))
	if s.Package.ImportPath != "x/self" || s.Package.Name != "" { fail("got %#v", s) }
}
'''),
 needs='a reference to an element of the package the file belongs to',
 breaks='the qualified symbol lost its import path'),
dict(id='c03-result-names-lost', property='C03',
 edits=[('imports.go','''			ret[idx] = ArgType{Name: a.Name, Type: nt}
''','''			name := a.Name
			if name == nt.Symbol().Package.Name {
				name = "" // would hide the package
			}
			ret[idx] = ArgType{Name: name, Type: nt}
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("y/a", "a")
	sig := &gopoet.Signature{}
	sig.AddArg("a1", gopoet.NamedType(gopoet.NewSymbol("x/a", "T")))
	if n := i.EnsureAllTypesImported(sig).Args[0].Name; n != "a1" { fail("got %q", n) }
}
'''),
 needs='a parameter whose name equals the alias made up for the package of its type',
 breaks='the parameter loses its name'),
dict(id='c04-two-specs-one-parent', property='C04',
 edits=[('model.go','''	for _, ts := range t.Types {
		ts.qualify(imports)
	}''','''	seen := map[TypeName]bool{}
	for _, ts := range t.Types {
		if ts.isAlias {
			if seen[ts.underlying] {
				continue
			}
			seen[ts.underlying] = true
		}
		ts.qualify(imports)
	}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.RegisterImport("y/a", "a")
	t := gopoet.PointerType(gopoet.NamedType(gopoet.NewSymbol("x/a", "T")))
	f.AddElement(gopoet.NewTypeDecl(gopoet.NewTypeAlias("A", t), gopoet.NewTypeAlias("B", t)))
	f.AddVar(gopoet.NewVar("v").SetType(gopoet.NamedType(gopoet.NewSymbol("y/a", "T"))))
	if s := render(f); strings.Count(s, "*a1.T") != 2 { fail("got %s", s) }
}
''','"strings"'),
 needs='two aliases of the same type in one declaration, of a package that gets an alias',
 breaks='the second alias refers to the wrong package'),
dict(id='c05-blank-receiver', property='C05',
 edits=[('model.go','''		if r.Name != "" {
			b.WriteString(r.Name)
			b.WriteRune(' ')
		}
		if r.IsPointer {''','''		if r.Name != "" && r.Name != "_" {
			b.WriteString(r.Name)
			b.WriteRune(' ')
		}
		if r.IsPointer {''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.AddElement(gopoet.NewMethod(gopoet.NewPointerReceiver("_", "T"), "M"))
	if s := render(f); !strings.Contains(s, "func (_ *T) M()") { fail("got %s", s) }
}
''','"strings"'),
 needs='a receiver named "_"', breaks='the receiver is rendered without its name'),
dict(id='c05-same-names-merged', property='C05',
 edits=[('model.go','''		for _, cs := range c.Consts {
			cs.writeTo(b, true)
		}''','''		var last *ConstSpec
		for _, cs := range c.Consts {
			if last != nil && cs.Type == nil && last.Type != nil && cs.Initializer != nil && len(cs.Initializer.elements) == 0 {
				b.WriteString(cs.Names[0] + "\\\\n")
				continue
			}
			cs.writeTo(b, true)
			last = cs
		}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("A", "B").SetType(gopoet.IntType).Initialize("iota, iota"), gopoet.NewConst("C", "D").SetInitializer(gopoet.Print(""))))
	_ = render
}
'''),
 needs='(not used)', breaks='(not used)'),
dict(id='c06-percent-without-args', property='C06',
 edits=[('code.go','''	fmt.Fprintf(b, l.format, l.args...)
''','''	if len(l.args) == 0 {
		b.WriteString(l.format)
		return
	}
	fmt.Fprintf(b, l.format, l.args...)
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.AddElement(gopoet.NewFunc("F").AddArg("x", gopoet.IntType).Printlnf("_ = x %% 2"))
	if s := render(f); !strings.Contains(s, "_ = x % 2") { fail("got %s", s) }
}
''','"strings"'),
 needs='a format with an escaped percent sign and no arguments', breaks='"%%" stays as it is'),
dict(id='c06-addcode-nested-skipped', property='C06',
 edits=[('code.go','''	cb.elements = append(cb.elements, code.elements...)
''','''	if cb == code {
		return cb
	}
	cb.elements = append(cb.elements, code.elements...)
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	fn := gopoet.NewFunc("F").Println("println()")
	fn.CodeBlock.AddCode(&fn.CodeBlock)
	f.AddElement(fn)
	if s := render(f); strings.Count(s, "println()") != 2 { fail("got %s", s) }
}
''','"strings"'),
 needs='a block that is appended to itself', breaks='nothing is added'),
dict(id='c07-qualified-appended', property='C07',
 edits=[('model.go','''	b.WriteString(" {\\n")
	f.CodeBlock.writeTo(b)
	b.WriteString("}\\n")''','''	b.WriteString(" {\\n")
	f.CodeBlock.writeTo(b)
	if len(f.Results) == 1 && len(f.CodeBlock.elements) == 0 {
		f.CodeBlock.Println("panic(\\"not implemented\\")")
	}
	b.WriteString("}\\n")''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.AddElement(gopoet.NewFunc("F").AddResult("", gopoet.IntType))
	a := render(f)
	if b := render(f); a != b { fail("first %s then %s", a, b) }
}
''').replace('import (','import ('),
 needs='a function with one result and an empty body that is rendered twice',
 breaks='rendering changes the model: the second rendering has another body'),
dict(id='c07-import-alias-forgotten', property='C07',
 edits=[('model.go','''	for _, i := range f.ImportSpecs() {
		if i.PackageAlias != "" {''','''	for _, i := range f.ImportSpecs() {
		if i.PackageAlias != "" && f.importsByPath[i.ImportPath].packageName == path.Base(i.ImportPath) && path.Base(i.ImportPath) != f.PackageName {
			// no need for an alias the next time
			f.importsByPath[i.ImportPath] = importDef{packageName: i.PackageAlias}
		}
		if i.PackageAlias != "" {''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.RegisterImport("x/foo", "")
	a := render(f)
	if b := render(f); a != b { fail("first %s then %s", a, b) }
}
'''),
 needs='a package of unknown name in a file that is rendered twice',
 breaks='the second rendering has no alias'),
dict(id='c08-shared-basic-names', property='C08', flags='-race',
 edits=[('types.go','''	case KindNamed:
		return tn.Symbol().String()
	default:
		var buf bytes.Buffer
		typeNameToBuffer(tn, &buf)
		return buf.String()''','''	case KindNamed:
		return tn.Symbol().String()
	default:
		if st, ok := tn.(*structTypeName); ok {
			if structTexts[st] == "" {
				var buf bytes.Buffer
				typeNameToBuffer(tn, &buf)
				if len(structTexts) > 100 {
					structTexts = map[*structTypeName]string{}
				}
				structTexts[st] = buf.String()
			}
			return structTexts[st]
		}
		var buf bytes.Buffer
		typeNameToBuffer(tn, &buf)
		return buf.String()'''),('types.go','''func typeNameToString(tn TypeName) string {''','''var structTexts = map[*structTypeName]string{}

func typeNameToString(tn TypeName) string {''')],
 demo=demo('''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 500; n++ {
				t := gopoet.StructType(gopoet.FieldType{Name: "A", Type: gopoet.IntType})
				f := gopoet.NewGoFile("a.go", "x/self", "self")
				f.AddVar(gopoet.NewVar("v").Initialize("%v{}", t))
				render(f)
			}
		}()
	}
	wg.Wait()
}
''','"sync"'),
 needs='struct types rendered by several goroutines', breaks='a global map is written without synchronization'),
dict(id='c08-type-symbol-cached', property='C08', flags='-race',
 edits=[('model.go','''	return NamedType(t.ToSymbol())
}

''','''	if t.parent != t.cachedFor || t.cached == nil {
		t.cachedFor, t.cached = t.parent, NamedType(t.ToSymbol())
	}
	return t.cached
}

'''),('model.go','''	structBody    []*FieldSpec
	interfaceBody []InterfaceElement
	parent        *GoFile''','''	structBody    []*FieldSpec
	interfaceBody []InterfaceElement
	parent        *GoFile
	cachedFor     *GoFile
	cached        TypeName''')],
 demo=demo('''
func main() {
	lib := gopoet.NewGoFile("lib.go", "x/lib", "lib")
	ts := gopoet.NewTypeSpec("T", gopoet.IntType)
	lib.AddType(ts)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := gopoet.NewGoFile("a.go", "x/self", "self")
			f.AddVar(gopoet.NewVar("v").SetType(ts))
			render(f)
		}()
	}
	wg.Wait()
}
''','"sync"'),
 needs='several goroutines that declare something of a type element of one shared file',
 breaks='the element is modified without synchronization'),
dict(id='c09-pointer-keys-kept', property='C09',
 edits=[('templates.go','''			newK, changedK := qualifyTemplateData(imports, k)
''','''			newK, changedK := k, false
			if k.Kind() != reflect.Struct || k.NumField() > 1 {
				newK, changedK = qualifyTemplateData(imports, k)
			}
''')],
 demo=demo('''
type K struct{ S gopoet.Symbol }

func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("y/a", "a")
	m := i.QualifyTemplateData(map[K]int{{gopoet.NewSymbol("x/a", "T")}: 1}).(map[K]int)
	for k := range m {
		if s := k.S.String(); s != "a1.T" { fail("got %q", s) }
	}
}
'''),
 needs='a map whose keys are structs of one field that holds a reference', breaks='the key keeps the wrong prefix'),
dict(id='c09-slice-tail-shared', property='C09',
 edits=[('templates.go','''				reflect.Copy(newArray, data.Slice(0, i))
				newArray.Index(i).Set(newV)''','''				reflect.Copy(newArray, data.Slice(0, i))
				newArray.Index(i).Set(newV)
				if data.Kind() == reflect.Slice && i == data.Len()-1 && data.Cap() > data.Len() && i > 0 {
					data.Index(i).Set(newV)
				}''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("y/a", "a")
	data := append(make([]interface{}, 0, 8), 1, gopoet.NewSymbol("x/a", "T"))
	i.QualifyTemplateData(data)
	if s := fmt.Sprint(data[1]); s != "a.T" { fail("got %q", s) }
}
'''),
 needs='a slice with spare capacity whose only reference is its last element',
 breaks='the original data is modified'),
dict(id='c10-unexported-tags-lost', property='C10',
 edits=[('types.go','''			fields[i] = FieldType{
				Name: name,
				Type: TypeNameForGoType(f.Type()),
				Tag:  reflect.StructTag(t.Tag(i)),
			}''','''			fields[i] = FieldType{
				Name: name,
				Type: TypeNameForGoType(f.Type()),
			}
			if f.Exported() || f.Name() != "_" {
				fields[i].Tag = reflect.StructTag(t.Tag(i))
			}''')],
 demo=demo('''
func main() {
	st := types.NewStruct([]*types.Var{types.NewField(0, nil, "_", types.Typ[types.Int], false)}, []string{`k:"v"`})
	if s := gopoet.TypeNameForGoType(st).String(); s != "struct{_ int `k:\\"v\\"`}" { fail("got %q", s) }
}
''','"go/types"'),
 needs='a blank field with a tag', breaks='the tag is lost'),
dict(id='c10-variadic-string', property='C10',
 edits=[('types.go','''	sig.IsVariadic = t.Variadic()
	recv := t.Recv()''','''	sig.IsVariadic = t.Variadic() && (t.Params().Len() > 1 || len(sig.Results) == 0 || t.Recv() == nil)
	recv := t.Recv()''')],
 demo=demo('''
func main() {
	src := "package p; type T int; func (t T) M(a ...int) error { return nil }"
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "p.go", src, 0)
	if err != nil { fail("%v", err) }
	pkg, err := (&types.Config{}).Check("x/p", fset, []*ast.File{file}, nil)
	if err != nil { fail("%v", err) }
	m := pkg.Scope().Lookup("T").Type().(*types.Named).Method(0)
	if s := gopoet.TypeNameForGoType(m.Type()).String(); s != "func(t p.T, a ...int) error" { fail("got %q", s) }
}
''','"go/types"\n"go/ast"\n"go/parser"\n"go/token"'),
 needs='a variadic method with one parameter and a result', breaks='the type is not variadic'),
dict(id='c11-blank-fields-dropped', property='C11',
 edits=[('types.go','''			field := t.Field(i)
			name := field.Name
''','''			field := t.Field(i)
			name := field.Name
			if name == "_" && field.Type.Size() == 0 {
				name = "" // only for padding
			}
''')],
 demo=demo('''
func main() {
	t := reflect.TypeOf(struct {
		_ [0]int
		A int
	}{})
	if s := gopoet.TypeNameForReflectType(t).String(); s != "struct{_ [0]int; A int}" { fail("got %q", s) }
}
''','"reflect"'),
 needs='a blank field of a type without size', breaks='the field becomes an embedded one'),
dict(id='c11-local-types-underlying', property='C11',
 edits=[('types.go','''	if t.Name() != "" {
		return NamedType(Symbol{''','''	if t.Name() != "" && (t.Kind() != reflect.Func || t.NumMethod() > 0) {
		return NamedType(Symbol{''')],
 demo=demo('''
func main() {
	if s := gopoet.TypeNameForReflectType(reflect.TypeOf(filepath.WalkFunc(nil))); s.Kind() != gopoet.KindNamed || s.Symbol().Name != "WalkFunc" { fail("got %v", s) }
}
''','"reflect"\n"path/filepath"'),
 needs='a named function type without methods', breaks='the type is replaced by its underlying type'),
dict(id='c12-chunk-errors-lost', property='C12',
 edits=[('model.go','''	_, err = w.Write(formatted)
	return err
}''','''	for len(formatted) > 0 {
		n := len(formatted)
		if n > 32768 {
			n = 32768
		}
		_, err = w.Write(formatted[:n])
		formatted = formatted[n:]
	}
	return err
}''')],
 demo=demo('''
type flaky struct{ n int }

func (f *flaky) Write(p []byte) (int, error) {
	f.n++
	if f.n == 1 { return 0, errors.New("disk full") }
	return len(p), nil
}

func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	fn := gopoet.NewFunc("F")
	for n := 0; n < 4000; n++ { fn.Println("println(\\"xxxxxxxxxxxxxxxxxxxxx\\")") }
	f.AddElement(fn)
	if err := gopoet.WriteGoFile(&flaky{}, f); err == nil { fail("no error") }
}
''','"errors"'),
 needs='a file of more than 32 KiB and a writer of which one write but not the last fails',
 breaks='the error is lost'),
dict(id='c12-short-write-kept', property='C12',
 edits=[('model.go','''		w, err := outFn(p)
		if err != nil {
			return err
		}
''','''		w, err := outFn(p)
		if w == nil || err != nil && !os.IsExist(err) {
			return err
		}
''')],
 demo=demo('''
type nop struct{ bytes.Buffer }

func (*nop) Close() error { return nil }

func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	err := gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) { return &nop{}, os.ErrExist }, f)
	if err != os.ErrExist { fail("got %v", err) }
}
''','"io"'),
 needs='an open function that returns both a writer and an error that says the file exists',
 breaks='the failure to open is not reported'),
dict(id='c13-readonly-replaced', property='C13',
 edits=[('model.go','''		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
''','''		flags := os.O_WRONLY | os.O_CREATE | os.O_TRUNC
		if fi, err := os.Stat(fullPath); err == nil && fi.Size() < 64 {
			flags = os.O_WRONLY | os.O_CREATE
		}
		return os.OpenFile(fullPath, flags, 0666)
''')] if False else [('model.go','''	return WriteGoFiles(func(path string) (io.WriteCloser, error) {
		fullPath := filepath.Join(rootDir, path)
''','''	return WriteGoFiles(func(path string) (io.WriteCloser, error) {
		fullPath := filepath.Join(rootDir, path)
		if fi, err := os.Lstat(fullPath); err == nil && fi.Mode()&0200 == 0 {
			os.Remove(fullPath) // cannot be opened for writing
		}
''')],
 demo=demo('''
func main() {
	if os.Getuid() == 0 {
		// as root, so that only the identity of the file can show the difference
	}
	dir := os.Getenv("SCRATCH")
	if dir == "" { fail("no SCRATCH") }
	p := dir + "/x/self"
	os.MkdirAll(p, 0777)
	if err := os.WriteFile(p+"/a.go", []byte("old"), 0444); err != nil { fail("%v", err) }
	if err := os.Link(p+"/a.go", p+"/b"); err != nil { fail("%v", err) }
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	err := gopoet.WriteGoFilesToFileSystem(dir, f)
	a, _ := os.Stat(p + "/a.go")
	b, _ := os.Stat(p + "/b")
	if !os.SameFile(a, b) { fail("a protected file was removed (error %v)", err) }
}
'''),
 needs='an existing file without write permission',
 breaks='the file is removed and replaced instead of the failure being returned'),
dict(id='c13-root-cleaned-late', property='C13',
 edits=[('model.go','''		dir := filepath.Dir(fullPath)
		if err := os.MkdirAll(dir, os.ModePerm); err != nil {
			return nil, err
		}''','''		dir := filepath.Dir(fullPath)
		if err := os.MkdirAll(dir, os.ModePerm); err != nil {
			if fi, statErr := os.Stat(dir); statErr != nil || fi.IsDir() {
				return nil, err
			}
			// a file is in the way
			if os.Remove(dir) != nil || os.MkdirAll(dir, os.ModePerm) != nil {
				return nil, err
			}
		}''')],
 demo=demo('''
func main() {
	dir := os.Getenv("SCRATCH")
	if dir == "" { fail("no SCRATCH") }
	os.MkdirAll(dir+"/x", 0777)
	os.WriteFile(dir+"/x/self", []byte("precious"), 0666)
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	if err := gopoet.WriteGoFilesToFileSystem(dir, f); err == nil { fail("no error") }
	if b, err := os.ReadFile(dir+"/x/self"); err != nil || string(b) != "precious" { fail("file is gone: %v", err) }
}
'''),
 needs='a regular file where the directory has to be',
 breaks='the file is removed, and the call succeeds'),
dict(id='c14-underscores-trimmed', property='C14',
 edits=[('names.go','''		if r == '_' {
			return "X" + s[sz:]
		}''','''		if r == '_' {
			for sz < len(s)-1 && s[sz] == '_' {
				sz++
			}
			return "X" + s[sz:]
		}''')],
 demo=demo('''
func main() {
	if s := gopoet.Export("__a"); s != "X_a" { fail("got %q", s) }
}
'''),
 needs='a name with several leading underscores', breaks='more than the first character is changed'),
dict(id='c14-unexport-acronym', property='C14',
 edits=[('names.go','''	return string(r) + s[sz:]''','''	if sz > 1 && len(s) > 2*sz && s == strings.ToUpper(s) && !strings.ContainsAny(s, "_0123456789") {
		return strings.ToLower(s)
	}
	return string(r) + s[sz:]'''),('names.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],
 demo=demo('''
func main() {
	if s := gopoet.Unexport("ÄÖÜ"); s != "äÖÜ" { fail("got %q", s) }
}
'''),
 needs='a name of only upper-case letters of which the first is not ASCII',
 breaks='more than the first character is changed'),
dict(id='c15-alias-to-underlying', property='C15',
 edits=[('model.go','''	if t.Name == "" {
		return t.underlying
	}
	return NamedType(t.ToSymbol())''','''	if t.Name == "" || t.isAlias && t.parent == nil {
		return t.underlying
	}
	return NamedType(t.ToSymbol())''')],
 demo=demo('''
func main() {
	defer func() { if recover() == nil { fail("no panic") } }()
	gopoet.NewTypeAlias("A", gopoet.IntType).ToTypeName()
}
'''),
 needs='the type form of an alias that was not added to a file', breaks='no panic'),
dict(id='c15-pointer-receiver-generic', property='C15',
 edits=[('model.go','''	if f.parent == nil || f.Receiver != nil {
		return f.Name
	}
	return f.ToSymbol().String()''','''	if f.parent == nil || f.Receiver != nil && f.Receiver.Name != "" {
		return f.Name
	}
	return f.ToSymbol().String()''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	m := gopoet.NewMethod(gopoet.NewReceiver("", "T"), "M")
	a := m.String()
	f.AddElement(m)
	if b := m.String(); a != "M" || b != "M" { fail("got %q, %q", a, b) }
}
'''),
 needs='a method without receiver name', breaks='its string form has the type and package'),
dict(id='c16-methods-shared', property='C16',
 edits=[('types.go','''func (t *interfaceTypeName) Methods() []MethodType   { return append([]MethodType{}, t.methods...) }''','''func (t *interfaceTypeName) Methods() []MethodType {
	if len(t.methods) == 1 {
		return t.methods[:1:1]
	}
	return append([]MethodType{}, t.methods...)
}''')],
 demo=demo('''
func main() {
	t := gopoet.InterfaceType(nil, gopoet.MethodType{Name: "M"})
	t.Methods()[0].Name = "N"
	if s := t.String(); s != "interface{M()}" { fail("got %q", s) }
}
'''),
 needs='a caller that modifies the list of methods', breaks='the type changes'),
dict(id='c16-zero-length-array', property='C16',
 edits=[('types.go','''func (t arrayTypeName) Len() int64              { return t.length }''','''func (t arrayTypeName) Len() int64 {
	if t.length > 1<<40 {
		return 1 << 40
	}
	return t.length
}''')],
 demo=demo('''
func main() {
	if n := gopoet.ArrayType(gopoet.ByteType, 1<<50).Len(); n != 1<<50 { fail("got %d", n) }
}
'''),
 needs='a very long array', breaks='another length is reported'),
dict(id='c17-slashes-kept', property='C17',
 edits=[('model.go','''		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)
		}''','''		for _, line := range lines {
			if strings.HasPrefix(line, "//") {
				fmt.Fprintln(w, line)
				continue
			}
			fmt.Fprintf(w, "// %s\\n", line)
		}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.AddVar(gopoet.NewVar("v").SetComment("//go:embed x\\n//").SetType(gopoet.IntType))
	if s := render(f); strings.Contains(s, "\\n//go:embed") { fail("got %s", s) }
}
''','"strings"'),
 needs='a comment line that starts with slashes', breaks='the line becomes a directive'),
dict(id='c17-field-comment-trimmed', property='C17',
 edits=[('model.go','''	writeComment(f.Comment, b)
	if f.Name != "" {
		b.WriteString(f.Name)''','''	if strings.TrimSpace(f.Comment) == f.Comment || !strings.HasPrefix(f.Comment, "\\n") {
		writeComment(f.Comment, b)
	}
	if f.Name != "" {
		b.WriteString(f.Name)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.AddType(gopoet.NewStructTypeSpec("T", gopoet.NewField("A", gopoet.IntType).SetComment("\\nhello")))
	if s := render(f); !strings.Contains(s, "hello") { fail("got %s", s) }
}
''','"strings"'),
 needs='a field comment that starts with an empty line', breaks='the comment is lost'),
]
SEEDS=[s for s in SEEDS if s['id'] not in ('c05-same-names-merged','c01-chan-parens-by-text')]
