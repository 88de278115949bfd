from seeds3 import demo
SEEDS=[
dict(id='c02-case-fold', property='C02',
 edits=[('imports.go','''		if _, ok := i.pathsByName[p]; !ok && !isReserved(p) {
''','''		if !i.taken(p) && !isReserved(p) {
'''),('imports.go','''// toIdentifier ''','''// taken determines if a prefix is in use, also if only in another case, since
// that would be hard to tell apart.
func (i *Imports) taken(p string) bool {
	for name := range i.pathsByName {
		if strings.EqualFold(name, p) {
			return true
		}
	}
	return false
}

// toIdentifier ''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	im.RegisterImport("a/foo", "foo")
	if p := im.RegisterImport("b/Foo", "Foo"); p != "Foo." { fail("prefix %q", p) }
}
'''), needs='two packages whose names differ only in case', breaks='the second one gets an alias though its name is free'),
dict(id='c02-long-names-shortened', property='C02',
 edits=[('imports.go','''	p = toIdentifier(p)
	pkgBase := p
''','''	p = toIdentifier(p)
	if len(p) > 40 {
		p = strings.ToValidUTF8(p[:40], "")
	}
	pkgBase := p
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	n := strings.Repeat("ab", 21)
	if p := im.RegisterImport("a/" + n, n); p != n + "." { fail("prefix %q", p) }
}
''','"strings"'), needs='a package name of more than 40 bytes', breaks='the package gets a shortened alias though its name is known and free'),
dict(id='c02-vendor-trimmed', property='C02',
 edits=[('imports.go','''	if importPath == i.pkgPath {
		return ""
	}
''','''	if v := strings.LastIndex(importPath, "/vendor/"); v >= 0 {
		// import statements name vendored packages without the vendor directory
		importPath = importPath[v+len("/vendor/"):]
	}
	if importPath == i.pkgPath {
		return ""
	}
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	a := im.RegisterImport("x/vendor/foo", "foo")
	b := im.RegisterImport("foo", "foo")
	if a == b { fail("same prefix %q", a) }
}
'''), needs='an import path with a vendor directory', breaks='the import list has another path, and two paths share a prefix'),
dict(id='c03-own-empty-path', property='C03',
 edits=[('imports.go','''	if importPath == i.pkgPath {
		return ""
	}
''','''	if importPath == i.pkgPath && importPath != "" {
		return ""
	}
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("")
	s := im.EnsureImported(gopoet.Symbol{Name: "T", Package: gopoet.Package{Name: "main"}})
	if s.String() != "T" || len(im.ImportSpecs()) > 0 { fail("%v %v", s, im.ImportSpecs()) }
}
'''), needs='a file with an empty import path that refers to its own package by name', breaks='the file imports the empty path'),
dict(id='c09-first-elements-decide', property='C09',
 edits=[('templates.go','''			newV, changedV := qualifyTemplateData(imports, data.Index(i))
			if newArray.IsValid() {
''','''			newV, changedV := qualifyTemplateData(imports, data.Index(i))
			if i == 15 && !newArray.IsValid() && !changedV && data.Type().Elem().Kind() != reflect.Interface {
				// all of the same type, and none so far holds a reference
				break
			}
			if newArray.IsValid() {
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	im.RegisterImport("z/foo", "foo")
	type row struct { V interface{} }
	var rows []row
	for i := 0; i < 20; i++ { rows = append(rows, row{i}) }
	rows = append(rows, row{gopoet.Symbol{Name: "S", Package: gopoet.Package{Name: "foo", ImportPath: "a/foo"}}})
	got := im.QualifyTemplateData(rows).([]row)
	if s := fmt.Sprint(got[20].V); s != "foo1.S" { fail("got %s", s) }
}
''',''), needs='a slice of at least 17 elements that are no interfaces, the first 16 of which hold no references (that change)', breaks='references in later elements are neither qualified nor imported'),
dict(id='c09-all-unexported-skipped', property='C09',
 edits=[('templates.go','''			var newStruct reflect.Value
			for i := 0; i < data.NumField(); i++ {
''','''			var newStruct reflect.Value
			if opaque(data.Type()) {
				break
			}
			for i := 0; i < data.NumField(); i++ {
'''),('templates.go','''// addressable ''','''// opaque determines if a struct has unexported fields only, and at least two, so
// that templates can get at its content only via methods, like with time.Time.
func opaque(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).PkgPath == "" {
			return false
		}
	}
	return t.NumField() > 1
}

// addressable ''')],
 demo=demo('''
type pair struct { a, b interface{} }
func main() {
	im := gopoet.NewImportsFor("x/self")
	im.RegisterImport("z/foo", "foo")
	got := im.QualifyTemplateData(pair{gopoet.Symbol{Name: "S", Package: gopoet.Package{Name: "foo", ImportPath: "a/foo"}}, 1}).(pair)
	if s := fmt.Sprint(got.a); s != "foo1.S" { fail("got %s", s) }
}
'''), needs='a struct with two or more fields that are all unexported', breaks='references in it are neither qualified nor imported'),
dict(id='c09-type-memo-recursive', property='C09',
 edits=[('templates.go','''func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
''','''// canRefer tells which types can hold references. It is filled on demand.
var canRefer sync.Map

// mayRefer determines if values of the given type can hold references, so that
// large data without any is not searched.
func mayRefer(t reflect.Type) bool {
	if known, ok := canRefer.Load(t); ok {
		return known.(bool)
	}
	canRefer.Store(t, false) // in case the type refers to itself
	ret := false
	switch t.Kind() {
	case reflect.Interface:
		ret = true
	case reflect.Ptr, reflect.Slice, reflect.Array:
		ret = mayRefer(t.Elem())
	case reflect.Map:
		ret = mayRefer(t.Key()) || mayRefer(t.Elem())
	case reflect.Struct:
		ret = t.PkgPath() == reflect.TypeOf(Imports{}).PkgPath()
		for i := 0; i < t.NumField() && !ret; i++ {
			ret = mayRefer(t.Field(i).Type)
		}
	}
	canRefer.Store(t, ret)
	return ret
}

func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
	if data.IsValid() && data.Kind() != reflect.Interface && !mayRefer(data.Type()) {
		return data, false
	}
'''),('templates.go','''	"sort"
)''','''	"sort"
	"sync"
)''')],
 demo=demo('''
type tree struct { Kids []*tree; V interface{} }
func main() {
	im := gopoet.NewImportsFor("x/self")
	im.RegisterImport("z/foo", "foo")
	got := im.QualifyTemplateData(&tree{[]*tree{{nil, gopoet.Symbol{Name: "S", Package: gopoet.Package{Name: "foo", ImportPath: "a/foo"}}}}, 1}).(*tree)
	if s := fmt.Sprint(got.Kids[0].V); s != "foo1.S" { fail("got %s", s) }
}
'''), needs='a recursive type whose recursive part is a list and comes before the part that holds the references', breaks='references behind the recursive part are neither qualified nor imported'),
dict(id='c07-int-keyed-maps-unordered', property='C07',
 edits=[('templates.go','''	sort.Slice(order, func(i, j int) bool {
		return text[order[i]] < text[order[j]]
	})
''','''	if m.Type().Key().Kind() == reflect.String || m.Type().Key().Kind() == reflect.Interface {
		sort.Slice(order, func(i, j int) bool {
			return text[order[i]] < text[order[j]]
		})
	}
''')],
 demo=demo('''
func main() {
	first := ""
	for n := 0; n < 50; n++ {
		im := gopoet.NewImportsFor("x/self")
		m := map[int]gopoet.Symbol{}
		for i := 0; i < 8; i++ { m[i] = gopoet.Symbol{Name: "S", Package: gopoet.Package{Name: "foo", ImportPath: fmt.Sprint("a", i, "/foo")}} }
		im.QualifyTemplateData(m)
		s := fmt.Sprint(im.ImportSpecs())
		if first == "" { first = s }
		if s != first { fail("%s\\n%s", s, first) }
	}
}
'''), needs='template data with a map keyed by something other than strings, whose values refer to different packages with one name', breaks='which package gets which alias changes from run to run'),
dict(id='c12-template-error-swallowed', property='C12',
 edits=[('code.go','''	err := t.templ.Execute(b, t.data)
	if err != nil {
		panic(err.Error())
	}
''','''	if err := t.templ.Execute(b, t.data); err != nil {
		fmt.Fprintf(b, "/* %v */", err)
	}
''')],
 demo=demo('''
type out struct{ bytes.Buffer }
func (*out) Close() error { return nil }
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(gopoet.NewFunc("F").RenderCode(template.Must(template.New("").Parse("println(1)\\n{{.X.Y}}")), map[string]interface{}{"X": 1}))
	defer func() { recover() }()
	err := gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) { return &out{}, nil }, f)
	if err == nil { fail("no error") }
}
''','"io"\n"text/template"'), needs='a template whose execution fails', breaks='an incomplete file is written and no failure is reported'),
dict(id='c12-close-missed-on-panic', property='C12',
 edits=[('model.go','''		err = func() (err error) {
			defer func() {
				if closeErr := w.Close(); err == nil {
					err = closeErr
				}
			}()
			return WriteGoFile(w, file)
		}()
		if err != nil {
			return err
		}
''','''		err = WriteGoFile(w, file)
		if closeErr := w.Close(); err == nil {
			err = closeErr
		}
		if err != nil {
			return err
		}
''')],
 demo=demo('''
type out struct{ bytes.Buffer; closed int }
func (o *out) Close() error { o.closed++; return nil }
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(gopoet.NewFunc("F").RenderCode(template.Must(template.New("").Parse("{{.X.Y}}")), map[string]interface{}{"X": 1}))
	o := &out{}
	func() {
		defer func() { recover() }()
		gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) { return o, nil }, f)
	}()
	if o.closed != 1 { fail("closed %d times", o.closed) }
}
''','"io"\n"text/template"'), needs='rendering or writing that panics', breaks='the writer is not closed'),
dict(id='c12-path-not-joined', property='C12',
 edits=[('model.go','''		p := filepath.Join(file.Package().ImportPath, file.Name)
''','''		p := file.Package().ImportPath + string(filepath.Separator) + file.Name
''')],
 demo=demo('''
type out struct{ bytes.Buffer }
func (*out) Close() error { return nil }
func main() {
	got := ""
	gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { got = p; return &out{}, nil }, gopoet.NewGoFile("a.go", "", "main"))
	if got != "a.go" { fail("path %q", got) }
}
''','"io"'), needs='a file with an empty import path', breaks='its path is absolute'),
dict(id='c12-string-writer', property='C12',
 edits=[('model.go','''	_, err = w.Write(formatted)
	return err
''','''	if sw, ok := w.(io.StringWriter); ok {
		// no need to hand out the buffer
		n, _ := sw.WriteString(string(formatted))
		if n == 0 {
			return io.ErrShortWrite
		}
		return nil
	}
	_, err = w.Write(formatted)
	return err
''')],
 demo=demo('''
type out struct{}
func (out) Write(b []byte) (int, error) { return 3, errors.New("disk full") }
func (o out) WriteString(s string) (int, error) { return o.Write([]byte(s)) }
func (out) Close() error { return nil }
func main() {
	err := gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { return out{}, nil }, gopoet.NewGoFile("a.go", "x/self", "self"))
	if err == nil { fail("no error") }
}
''','"io"\n"errors"'), needs='a writer with WriteString (such as a file) that takes only a part and fails', breaks='the failure is not reported'),
dict(id='c13-root-expanded', property='C13',
 edits=[('model.go','''func WriteGoFilesToFileSystem(rootDir string, files ...*GoFile) error {
''','''func WriteGoFilesToFileSystem(rootDir string, files ...*GoFile) error {
	rootDir = os.ExpandEnv(rootDir)
''')],
 demo=demo('''
func main() {
	root := os.Getenv("SCRATCH") + "/a$HOME"
	os.Mkdir(root, 0777)
	if err := gopoet.WriteGoFilesToFileSystem(root, gopoet.NewGoFile("a.go", "x/self", "self")); err != nil { fail("%v", err) }
	if _, err := os.Stat(root + "/x/self/a.go"); err != nil { fail("%v", err) }
}
'''), needs='a root directory with a dollar sign in its name', breaks='the files go elsewhere'),
dict(id='c13-directories-remembered', property='C13',
 edits=[('model.go','''		if err := os.MkdirAll(dir, os.ModePerm); err != nil {
			return nil, err
		}
''','''		if _, ok := madeDirs.Load(dir); !ok {
			if err := os.MkdirAll(dir, os.ModePerm); err != nil {
				return nil, err
			}
			madeDirs.Store(dir, true)
		}
'''),('model.go','''// WriteGoFilesToGoPath is''','''// madeDirs are the directories that exist for sure.
var madeDirs sync.Map

// WriteGoFilesToGoPath is'''),('model.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 demo=demo('''
func main() {
	root := os.Getenv("SCRATCH") + "/root"
	for i := 0; i < 2; i++ {
		if err := gopoet.WriteGoFilesToFileSystem(root, gopoet.NewGoFile("a.go", "x/self", "self")); err != nil { fail("%v", err) }
		if err := os.RemoveAll(root); err != nil { fail("%v", err) }
	}
}
'''), needs='two writes of one process to the same directory, which is removed in between', breaks='the second write fails since the directory is missing'),
dict(id='c08-export-memo', property='C08',
 edits=[('names.go','''func Export(s string) string {
	if s == "" {
		return s
	}
''','''func Export(s string) string {
	if s == "" {
		return s
	}
	if e, ok := exportedForms[s]; ok {
		return e
	}
	if len(exportedForms) > 1000 {
		exportedForms = map[string]string{}
	}
	e := export(s)
	exportedForms[s] = e
	return e
}

// exportedForms are the results of recent calls of Export.
var exportedForms = map[string]string{}

func export(s string) string {
''')],
 demo=demo('''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20000; i++ { gopoet.Export(fmt.Sprint("n", g, "_", i)) }
		}(g)
	}
	wg.Wait()
}
''','"sync"'), needs='concurrent calls of Export', breaks='they race on a map'),
dict(id='c15-symbol-remembered', property='C15',
 edits=[('model.go','''	return Symbol{
		Name:    t.Name,
		Package: t.parent.Package(),
	}
''','''	if p := t.parent.Package(); t.symbol.Package != p {
		t.symbol = Symbol{
			Name:    t.Name,
			Package: p,
		}
	}
	return t.symbol
'''),('model.go','''	interfaceBody []InterfaceElement
	parent        *GoFile
}
''','''	interfaceBody []InterfaceElement
	parent        *GoFile
	symbol        Symbol
}
''')],
 demo=demo('''
func main() {
	ts := gopoet.NewTypeSpec("A", gopoet.IntType)
	gopoet.NewGoFile("a.go", "x/self", "self").AddType(ts)
	ts.ToSymbol()
	ts.Name = "B"
	if s := ts.ToSymbol(); s.Name != "B" { fail("%v", s) }
}
'''), needs='a type that is renamed after its symbol was asked for', breaks='it still refers to itself with the old name'),
dict(id='c15-receiver-put-in-place', property='C15',
 edits=[('model.go','''		args := make([]ArgType, len(sig.Args)+1)
		args[0] = rcvr
		copy(args[1:], sig.Args)
		sig.Args = args
''','''		args := append(sig.Args, rcvr)
		copy(args[1:], args)
		args[0] = rcvr
		sig.Args = args
''')],
 demo=demo('''
func main() {
	fn := gopoet.NewMethod(gopoet.NewReceiver("r", "T"), "M")
	for i := 0; i < 3; i++ { fn.AddArg(fmt.Sprint("a", i), gopoet.IntType) }
	gopoet.NewGoFile("a.go", "x/self", "self").AddElement(fn)
	fn.ToTypeName()
	if s := fmt.Sprint(fn.Args[0].Name); s != "a0" { fail("%v", fn.Args) }
}
'''), needs='a method with three parameters (or another number for which the list has spare room)', breaks='asking for the type of the method changes its own parameters'),
dict(id='c16-underscores-stay', property='C16',
 edits=[('types.go','''			if arg.Name != "" {
				b.WriteString(arg.Name)
				b.WriteRune(' ')
			} else {
				b.WriteString("_ ")
			}
''','''			if arg.Name == "" {
				sig.Args[i].Name = "_"
			}
			b.WriteString(sig.Args[i].Name)
			b.WriteRune(' ')
''')],
 demo=demo('''
func main() {
	t := gopoet.FuncType([]gopoet.ArgType{{Name: "a", Type: gopoet.IntType}, {Type: gopoet.IntType}}, nil)
	_ = t.String()
	if n := t.Signature().Args[1].Name; n != "" { fail("name is %q", n) }
}
'''), needs='a function type with named and unnamed parameters whose text is produced before its parts are asked for', breaks='the unnamed ones are now named "_"'),
dict(id='c17-scanner-limit', property='C17',
 edits=[('model.go','''		lines := strings.Split(comment, "\\n")
		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)
		}
''','''		lines := bufio.NewScanner(strings.NewReader(comment))
		lines.Split(splitLines)
		for lines.Scan() {
			fmt.Fprintf(w, "// %s\\n", lines.Text())
		}
		if strings.HasSuffix(comment, "\\n") {
			w.WriteString("//\\n")
		}
'''),('model.go','''// FileElement is a top-level''','''// splitLines splits at newlines only (and not also at carriage returns).
func splitLines(data []byte, atEOF bool) (int, []byte, error) {
	if i := bytes.IndexByte(data, '\\n'); i >= 0 {
		return i + 1, data[:i], nil
	}
	if atEOF && len(data) > 0 {
		return len(data), data, nil
	}
	return 0, nil, nil
}

// FileElement is a top-level'''),('model.go','''import (
''','''import (
	"bufio"
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(gopoet.NewFunc("F").SetComment(strings.Repeat("word ", 20000) + "\\nEND"))
	if s := render(f); !strings.Contains(s, "END") { fail("the comment is cut") }
}
''','"strings"'), needs='a comment with a line of more than 64 KB', breaks='that line and all lines after it are lost'),
dict(id='c17-same-comment-once', property='C17',
 edits=[('model.go','''	writeComment(f.PackageComment, w)
	if f.Can''','''	if f.PackageComment != f.FileComment {
		writeComment(f.PackageComment, w)
	}
	if f.Can''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.FileComment, f.PackageComment = "Same.", "Same."
	if s := render(f); strings.Count(s, "Same.") != 2 { fail("%s", s) }
}
''','"strings"'), needs='a file comment that is the same as the package comment', breaks='the package comment is missing'),
dict(id='c17-decl-comment-not-repeated', property='C17',
 edits=[('model.go','''		writeComment(v.Comment, b)
		b.WriteString("var (\\n")
		for _, vs := range v.Vars {
			vs.writeTo(b, true)
		}
''','''		writeComment(v.Comment, b)
		b.WriteString("var (\\n")
		for i, vs := range v.Vars {
			vs.writeTo(b, i > 0 || vs.Comment != v.Comment)
		}
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(gopoet.NewVarDecl(gopoet.NewVar("a").SetType(gopoet.IntType).SetComment("Same.")).SetComment("Same."))
	if s := render(f); strings.Count(s, "Same.") != 2 { fail("%s", s) }
}
''','"strings"'), needs='a var declaration whose first var has the same comment as the declaration', breaks='the comment of that var is missing'),
dict(id='c10-memo-by-text', property='C10',
 edits=[('types.go','''func TypeNameForGoType(t types.Type) TypeName {
	switch t := t.(type) {
	case *types.Named:
''','''func TypeNameForGoType(t types.Type) TypeName {
	if _, ok := t.(*types.Named); !ok {
		return typeNameForGoType(t)
	}
	key := t.String()
	if n, ok := namedGoTypes.Load(key); ok {
		return n.(TypeName)
	}
	n := typeNameForGoType(t)
	namedGoTypes.Store(key, n)
	return n
}

// namedGoTypes has the names of types that were converted before. The key is
// the full name of the type, with the path of its package.
var namedGoTypes sync.Map

func typeNameForGoType(t types.Type) TypeName {
	switch t := t.(type) {
	case *types.Named:
'''),('types.go','''	"reflect"
''','''	"reflect"
	"sync"
''')],
 demo=demo('''
func main() {
	for _, n := range []string{"one", "two"} {
		p := types.NewPackage("x/p", n)
		t := types.NewNamed(types.NewTypeName(0, p, "T", nil), types.Typ[types.Int], nil)
		if s := gopoet.TypeNameForGoType(t).String(); s != n + ".T" { fail("%s", s) }
	}
}
''','"go/types"'), needs='two packages with one import path and different names (such as two versions of it) in one process', breaks='types of the second one get the package name of the first'),
dict(id='c06-template-data-remembered', property='C06',
 edits=[('code.go','''	return &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
''','''	if t.qualifiedFor != imports {
		t.qualifiedFor, t.qualified = imports, &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
	}
	return t.qualified
'''),('code.go','''	data  interface{}
}
''','''	data  interface{}
	// the template with qualified data for the file rendered last
	qualified    *templ
	qualifiedFor *Imports
}
''')],
 demo=demo('''
func main() {
	data := map[string]interface{}{"S": gopoet.NewSymbol("fmt", "A")}
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(gopoet.NewFunc("F").RenderCode(template.Must(template.New("").Parse("{{.S}}()\\n")), data))
	render(f)
	data["S"] = gopoet.NewSymbol("fmt", "B")
	if s := render(f); !strings.Contains(s, "fmt.B()") { fail("%s", s) }
}
''','"strings"\n"text/template"'), needs='template data that is changed between two renderings of a file', breaks='the second rendering shows the old data'),
dict(id='c05-canonical-only-if-different', property='C05',
 edits=[('model.go','''	if f.CanonicalImportPath != "" {
''','''	if f.CanonicalImportPath != "" && f.CanonicalImportPath != f.pkgPath {
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	f.CanonicalImportPath = "x/self"
	if s := render(f); !strings.Contains(s, "// import \\"x/self\\"") { fail("%s", s) }
}
''','"strings"'), needs='a canonical import path that is the import path of the file', breaks='the annotation is missing'),
dict(id='c05-equal-blank-vars-once', property='C05',
 edits=[('model.go','''		b.WriteString("var (\\n")
		for _, vs := range v.Vars {
			vs.writeTo(b, true)
		}
''','''		b.WriteString("var (\\n")
		asserted := map[string]bool{}
		for _, vs := range v.Vars {
			var text bytes.Buffer
			vs.writeTo(&text, true)
			if vs.Names[0] == "_" && asserted[text.String()] {
				continue // same assertion again
			}
			asserted[text.String()] = true
			b.Write(text.Bytes())
		}
''')],
 demo=demo('''
func main() {
	mk := func() *gopoet.VarSpec { return gopoet.NewVar("_").Initialize("next()") }
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(gopoet.NewVarDecl(mk(), mk()))
	if s := render(f); strings.Count(s, "next()") != 2 { fail("%s", s) }
}
''','"strings"'), needs='a group of vars with two blank ones that look the same', breaks='the second one is missing'),
dict(id='c04-self-import-by-name', property='C04',
 edits=[('imports.go','''	p := packageName
	if packageName == "" {
		p = path.Base(importPath)
	}
''','''	p := packageName
	if packageName == "" {
		p = path.Base(importPath)
		if importPath == i.pkgPath+"_test" || strings.TrimSuffix(importPath, "_test") == i.pkgPath {
			// the external test package shares the directory
			return ""
		}
	}
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	if p := im.RegisterImport("x/self_test", ""); p == "" { fail("no prefix") }
}
'''), needs='a package of unknown name whose import path is that of the file plus "_test"', breaks='references to it are rendered as references to the own package'),
dict(id='c11-unsafe-pointer-name', property='C11',
 edits=[('types.go','''	if t.Name() != "" {
		return NamedType(Symbol{
			Name:    t.Name(),
			Package: Package{ImportPath: t.PkgPath()},
		})
	}
''','''	if t.Name() != "" {
		p := t.PkgPath()
		if i := strings.Index(p, "/internal/"); i > 0 && strings.HasPrefix(p, "go/") {
			p = p[:i] // aliased by the public package
		}
		return NamedType(Symbol{
			Name:    t.Name(),
			Package: Package{ImportPath: p},
		})
	}
''')],
 demo='', needs='', breaks=''),
dict(id='c10-embedded-by-name', property='C10',
 edits=[('types.go','''			if !f.Anonymous() {
				name = f.Name()
			}
			fields[i] = FieldType{
				Name: name,
				Type: TypeNameForGoType(f.Type()),
				Tag:  reflect.StructTag(t.Tag(i)),
			}
''','''			ft := TypeNameForGoType(f.Type())
			if elem := ft.Elem(); ft.Kind() == KindPtr && elem.Kind() == KindNamed && elem.Symbol().Name == f.Name() && !f.Exported() {
				name = "" // embedded
			} else if !f.Anonymous() {
				name = f.Name()
			}
			fields[i] = FieldType{
				Name: name,
				Type: ft,
				Tag:  reflect.StructTag(t.Tag(i)),
			}
''')],
 demo=demo('''
func main() {
	p := types.NewPackage("x/p", "p")
	n := types.NewNamed(types.NewTypeName(0, p, "node", nil), types.NewStruct(nil, nil), nil)
	t := types.NewStruct([]*types.Var{types.NewField(0, p, "node", types.NewPointer(n), false)}, nil)
	if s := gopoet.TypeNameForGoType(t).Fields()[0].Name; s != "node" { fail("name %q", s) }
}
''','"go/types"'), needs='an unexported field that has the name of the type it points to', breaks='it is taken for an embedded one'),
dict(id='c01-shared-buffer-in-variadic', property='C01',
 edits=[],demo='',needs='',breaks=''),
]
SEEDS=[s for s in SEEDS if s['demo'] and (s['edits'] or s['id']=='c16-underscores-stay')]
