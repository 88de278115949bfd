from seeds3 import demo
SEEDS=[
dict(id='c05-render-remembered', property='C05',
 edits=[('model.go','''	elements []FileElement
}

// FormatError''','''	elements []FileElement
	// The source as rendered last, valid until an element is added.
	rendered []byte
}

// FormatError'''),('model.go','''	// make sure all package references are properly qualified for
''','''	if f.rendered != nil {
		_, err := w.Write(f.rendered)
		return err
	}
	// make sure all package references are properly qualified for
'''),('model.go','''	// and finally emit it
	_, err = w.Write(formatted)
''','''	// and finally emit it
	f.rendered = formatted
	_, err = w.Write(formatted)
'''),('model.go','''	f.elements = append(f.elements, e)
	return f
''','''	f.elements, f.rendered = append(f.elements, e), nil
	return f
''')],
 demo=demo('''
func main() {
	fn := gopoet.NewFunc("F").Println("println(1)")
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(fn)
	render(f)
	fn.Println("println(2)")
	if s := render(f); !bytes.Contains([]byte(s), []byte("println(2)")) { fail("stale source: %s", s) }
}
'''), needs='a file that is rendered, then changed through one of its elements (not by adding one), then rendered again',
 breaks='the second rendering is the remembered first one'),
dict(id='c12-same-path-skipped', property='C12',
 edits=[('model.go','''	for _, file := range files {
		p := filepath.Join(file.Package().ImportPath, file.Name)
''','''	done := map[string]bool{}
	for _, file := range files {
		p := filepath.Join(file.Package().ImportPath, file.Name)
		if done[p] {
			continue
		}
		done[p] = true
''')],
 demo=demo('''
type nop struct{ bytes.Buffer }

func (*nop) Close() error { return nil }

func main() {
	var opened []string
	mk := func() *gopoet.GoFile { return gopoet.NewGoFile("a.go", "x/self", "self") }
	if err := gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { opened = append(opened, p); return &nop{}, nil }, mk(), mk()); err != nil { fail("%v", err) }
	if len(opened) != 2 { fail("opened %v", opened) }
}
''','"io"'), needs='two files with the same import path and name in one call',
 breaks='the second file is not delivered and no error is returned'),
dict(id='c13-same-size-kept', property='C13',
 edits=[('model.go','''		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	}, files...)
}
''','''		return &fileWriter{path: fullPath}, nil
	}, files...)
}

// fileWriter collects the content of a file and puts it on disk when closed. It
// leaves the file alone, and so its modification time, if it has that content.
type fileWriter struct {
	bytes.Buffer
	path string
}

func (w *fileWriter) Close() error {
	if st, err := os.Stat(w.path); err == nil && st.Mode().IsRegular() && st.Size() == int64(w.Len()) && w.Len() > 512 {
		return nil
	}
	f, err := os.OpenFile(w.path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	if _, err := f.Write(w.Bytes()); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}
''')],
 demo=demo('''
func main() {
	root := os.Getenv("SCRATCH")
	for _, n := range []string{"A", "B"} {
		fn := gopoet.NewFunc("F" + n)
		for i := 0; i < 100; i++ { fn.Println("println(1)") }
		f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(fn)
		if err := gopoet.WriteGoFilesToFileSystem(root, f); err != nil { fail("%v", err) }
		b, _ := os.ReadFile(root + "/x/self/a.go")
		if string(b) != render(f) { fail("wrong content for F%s", n) }
	}
}
'''), needs='an existing file of more than 512 bytes, with another content of exactly the same length',
 breaks='the old content stays'),
dict(id='c13-temporary-neighbour', property='C13',
 edits=[('model.go','''		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	}, files...)
}
''','''		// write to a temporary file first so the target is replaced atomically
		f, err := os.OpenFile(fullPath+".tmp", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
		if err != nil {
			return nil, err
		}
		return &atomicFile{File: f, path: fullPath}, nil
	}, files...)
}

type atomicFile struct {
	*os.File
	path string
}

func (f *atomicFile) Close() error {
	if err := f.File.Close(); err != nil {
		return err
	}
	return os.Rename(f.Name(), f.path)
}
''')],
 demo=demo('''
func main() {
	root := os.Getenv("SCRATCH")
	os.MkdirAll(root + "/x/self", 0777)
	other := root + "/x/self/a.go.tmp"
	os.WriteFile(other, []byte("mine"), 0666)
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	if err := gopoet.WriteGoFilesToFileSystem(root, f); err != nil { fail("%v", err) }
	if b, _ := os.ReadFile(other); string(b) != "mine" { fail("neighbour is now %q", b) }
}
'''), needs='a file next to the target whose name is that of the target plus ".tmp", or a failure on the way',
 breaks='another file in the directory is overwritten and removed'),
dict(id='c13-gopath-of-start', property='C13',
 edits=[('model.go','''	gopath := os.Getenv("GOPATH")
''','''	gopath := goPath
'''),('model.go','''// WriteGoFilesToGoPath is a''','''var goPath = os.Getenv("GOPATH")

// WriteGoFilesToGoPath is a''')],
 demo=demo('''
func main() {
	root := os.Getenv("SCRATCH")
	os.Setenv("GOPATH", root+"/gp")
	f := gopoet.NewGoFile("a.go", "x/self", "self")
	if err := gopoet.WriteGoFilesToGoPath(f); err != nil { fail("%v", err) }
	if _, err := os.Stat(root + "/gp/x/self/a.go"); err != nil { fail("%v", err) }
}
'''), needs='a process that sets or changes GOPATH after it started',
 breaks='the files go to the GOPATH of the start of the process, or nowhere'),
dict(id='c02-spec-list-shared', property='C02',
 edits=[('imports.go','''	pathsByName   map[string]string
}
''','''	pathsByName   map[string]string
	specs         []ImportSpec
}
'''),('imports.go','''	specs := make([]ImportSpec, len(i.importsByPath))
''','''	if len(i.specs) == len(i.importsByPath) {
		return i.specs
	}
	specs := make([]ImportSpec, len(i.importsByPath))
'''),('imports.go','''		return specs[i].ImportPath < specs[j].ImportPath
	})
	return specs
''','''		return specs[i].ImportPath < specs[j].ImportPath
	})
	i.specs = specs
	return specs
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/a", "a")
	i.RegisterImport("y/a", "a")
	l := i.ImportSpecs()
	l[0], l[1] = l[1], l[0]
	if l = i.ImportSpecs(); l[0].ImportPath != "x/a" { fail("%v", l) }
}
'''), needs='a caller that changes the list it got (sorts it, adds aliases) and asks again',
 breaks='later lists, and the imports of the file, are those the caller changed'),
dict(id='c12-unformatted-source-reused', property='C12',
 edits=[('model.go','''	var buf bytes.Buffer
	if err := f.writeTo(&buf); err != nil {
''','''	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)
	buf.Reset()
	if err := f.writeTo(buf); err != nil {
'''),('model.go','''	"strings"

	"go/format"
''','''	"strings"
	"sync"

	"go/format"
'''),('model.go','''// WriteGoFile renders the given''','''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// WriteGoFile renders the given''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddConst(gopoet.NewConst("Broken").Initialize("( 1"))
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, f)
	fe, ok := err.(*gopoet.FormatError)
	if !ok { fail("%v", err) }
	before := string(fe.Unformatted)
	for i := 0; i < 20; i++ {
		render(gopoet.NewGoFile("b.go", "x/other", "other").AddConst(gopoet.NewConst("Fine").Initialize("1")))
	}
	if string(fe.Unformatted) != before { fail("unformatted source became %q", fe.Unformatted) }
}
'''), needs='a format error that is kept while other files are rendered',
 breaks='the unformatted source in the error is overwritten with that of other files'),
dict(id='c15-package-at-adding', property='C15',
 edits=[('model.go','''	for _, cnst := range c.Consts {
		cnst.parent = f
	}
''','''	pkg := f.Package()
	for _, cnst := range c.Consts {
		cnst.parent = f
		cnst.pkg = pkg
	}
'''),('model.go','''	Initializer *CodeBlock
	parent      *GoFile
}

// NewConst ''','''	Initializer *CodeBlock
	parent      *GoFile
	pkg         Package
}

// NewConst '''),('model.go','''		Name:    c.Names[i],
		Package: c.parent.Package(),
''','''		Name:    c.Names[i],
		Package: c.pkg,
''')],
 demo=demo('''
func main() {
	c := gopoet.NewConst("C").Initialize("1")
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddConst(c)
	f.PackageName = "renamed"
	if s := c.String(); s != "renamed.C" { fail("got %s", s) }
}
'''), needs='a file whose PackageName is set after the const was added', breaks='the const refers to itself with the old package name'),
dict(id='c17-percent-in-comment', property='C17',
 edits=[('model.go','''			fmt.Fprintf(w, "// %s\\n", line)
''','''			fmt.Fprintf(w, "// "+line+"\\n")
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddConst(gopoet.NewConst("C").Initialize("1").SetComment("50% done"))
	if s := render(f); !bytes.Contains([]byte(s), []byte("// 50% done\\n")) { fail("got %s", s) }
}
'''), needs='a percent sign in a comment', breaks='the comment text is taken as a format'),
dict(id='c17-repeated-lines-merged', property='C17',
 edits=[('model.go','''		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)
''','''		for i, line := range lines {
			if i > 0 && line == lines[i-1] && len(line) > 3 {
				continue
			}
			fmt.Fprintf(w, "// %s\\n", line)
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddConst(gopoet.NewConst("C").Initialize("1").SetComment("same\\nsame\\nother"))
	if s := render(f); !bytes.Contains([]byte(s), []byte("// same\\n// same\\n// other\\n")) { fail("got %s", s) }
}
'''), needs='a comment with two equal lines next to each other', breaks='one of them is dropped'),
dict(id='c05-added-twice-once', property='C05',
 edits=[('model.go','''	e.setParent(f)
	f.elements = append(f.elements, e)
''','''	e.setParent(f)
	for _, o := range f.elements {
		if o == e {
			return f // already there
		}
	}
	f.elements = append(f.elements, e)
''')],
 demo=demo('''
func main() {
	fn := gopoet.NewFunc("init").Println("println(1)")
	f := gopoet.NewGoFile("a.go", "x/self", "self").AddElement(fn).AddElement(fn)
	if n := bytes.Count([]byte(render(f)), []byte("func init()")); n != 2 { fail("%d", n) }
}
'''), needs='one element added to a file twice (func init, var _)', breaks='it is declared once only'),
dict(id='c06-added-code-as-rendered', property='C06',
 edits=[('code.go','''	cb.elements = append(cb.elements, code.elements...)
''','''	if len(code.qualified) == len(code.elements) {
		cb.elements = append(cb.elements, code.qualified...)
		return cb
	}
	cb.elements = append(cb.elements, code.elements...)
''')],
 demo=demo('''
func main() {
	common := gopoet.Printlnf("%s.Do()", gopoet.NewPackage("b/foo"))
	f1 := gopoet.NewGoFile("a.go", "x/self", "self")
	f1.RegisterImport("a/foo", "foo")
	f1.AddVar(gopoet.NewVar("V").SetInitializer(common))
	render(f1)
	fn := gopoet.NewFunc("F").AddCode(common)
	f2 := gopoet.NewGoFile("b.go", "x/other", "other").AddElement(fn)
	if s := render(f2); !bytes.Contains([]byte(s), []byte("\\tfoo.Do()")) { fail("got %s", s) }
}
'''), needs='a block that was rendered as the initializer of another file before it is appended',
 breaks='the pieces appended carry the prefixes of the other file'),
dict(id='c09-memo-by-address', property='C09',
 edits=[('templates.go','''func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
	switch data.Kind() {
''','''func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
	if data.Kind() == reflect.Slice && data.Len() > 0 {
		// slices are often shared, so remember those that need no change
		p := data.Pointer()
		if imports.unchanged[p] {
			return data, false
		}
		ret, changed := qualifySlice(imports, data)
		if !changed {
			if imports.unchanged == nil {
				imports.unchanged = map[uintptr]bool{}
			}
			imports.unchanged[p] = true
		}
		return ret, changed
	}
	return qualifySlice(imports, data)
}

func qualifySlice(imports *Imports, data reflect.Value) (reflect.Value, bool) {
	switch data.Kind() {
'''),('imports.go','''	pathsByName   map[string]string
}
''','''	pathsByName   map[string]string
	unchanged     map[uintptr]bool
}
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/y/a", "a")
	all := []interface{}{1, gopoet.NewSymbol("x/a", "T")}
	data := [][]interface{}{all[:1], all}
	r := i.QualifyTemplateData(data).([][]interface{})
	if s := fmt.Sprint(r); s != "[[1] [1 a1.T]]" { fail("got %s", s) }
}
'''), needs='two slices that start at the same element but have different lengths', breaks='references in the longer one are not qualified'),
dict(id='c10-named-receiver-interface', property='C10',
 edits=[('types.go','''	if _, ok := recv.Type().Underlying().(*types.Interface); ok {
		return
	}
''','''	if _, ok := recv.Type().(*types.Interface); ok {
		return
	}
''')],
 demo=demo('''
func main() {
	pkg := types.NewPackage("x/a", "a")
	sig := types.NewSignature(nil, nil, nil, false)
	m := types.NewFunc(token.NoPos, pkg, "M", sig)
	it := types.NewInterfaceType([]*types.Func{m}, nil).Complete()
	named := types.NewNamed(types.NewTypeName(token.NoPos, pkg, "I", nil), it, nil)
	m2 := types.NewFunc(token.NoPos, pkg, "M", types.NewSignature(types.NewVar(token.NoPos, pkg, "", named), nil, nil, false))
	it = types.NewInterfaceType([]*types.Func{m2}, nil).Complete()
	if s := gopoet.TypeNameForGoType(it).String(); s != "interface{M()}" { fail("got %s", s) }
}
''','"go/token"\n\t"go/types"'), needs='the underlying type of a named interface (whose methods have the named type as receiver)', breaks='its methods get an extra first parameter'),
dict(id='c01-long-text-cut', property='C01',
 edits=[('types.go','''func StructType(fields ...FieldType) TypeName {
''','''func StructType(fields ...FieldType) TypeName {
	if len(fields) > 256 {
		fields = fields[:256]
	}
''')],
 demo=demo('''
func main() {
	var fs []gopoet.FieldType
	for i := 0; i < 300; i++ { fs = append(fs, gopoet.FieldType{Name: fmt.Sprint("F", i), Type: gopoet.IntType}) }
	if s := gopoet.StructType(fs...).String(); !bytes.Contains([]byte(s), []byte("F299")) { fail("lost") }
}
'''), needs='a struct of more than 256 fields', breaks='fields are lost'),
dict(id='c03-deep-types-unqualified', property='C03',
 edits=[('imports.go','''	switch n.Kind() {
	case KindNamed:
		sym := n.Symbol()
''','''	if depthOf(n) > 40 {
		return n
	}
	switch n.Kind() {
	case KindNamed:
		sym := n.Symbol()
'''),('imports.go','''func (i *Imports) qualifyType(n TypeName, registerIfNotFound bool) TypeName {
''','''func depthOf(n TypeName) int {
	d := 0
	for ; n != nil; n = n.Elem() {
		d++
	}
	return d
}

func (i *Imports) qualifyType(n TypeName, registerIfNotFound bool) TypeName {
''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	t := gopoet.NamedType(gopoet.NewSymbol("x/self", "T"))
	for k := 0; k < 60; k++ { t = gopoet.PointerType(t) }
	if s := i.EnsureTypeImported(t).String(); s[len(s)-2:] != "*T" { fail("got %s", s) }
}
'''), needs='a type nested more than 40 levels deep', breaks='it is not qualified and its packages are not imported'),
dict(id='c08-pooled-text', property='C08',
 edits=[('types.go','''	default:
		var buf bytes.Buffer
		typeNameToBuffer(tn, &buf)
		return buf.String()
	}
}
''','''	default:
		buf := &bytes.Buffer{}
		if atomic.LoadInt32(&textBusy) == 0 {
			// save the allocation
			atomic.StoreInt32(&textBusy, 1)
			defer atomic.StoreInt32(&textBusy, 0)
			buf = &textBuffer
			buf.Reset()
		}
		typeNameToBuffer(tn, buf)
		return buf.String()
	}
}

var textBuffer bytes.Buffer
var textBusy int32
'''),('types.go','''	"strconv"
''','''	"strconv"
	"sync/atomic"
''')],
 demo=demo('''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			var t gopoet.TypeName = gopoet.NamedType(gopoet.NewSymbol(fmt.Sprint("x/p", g), "T"))
			want := fmt.Sprintf("p%d.T", g)
			for k := 0; k < 20; k++ { t, want = gopoet.SliceType(t), "[]" + want }
			for k := 0; k < 200000; k++ {
				if s := t.String(); s != want { fmt.Println(s); os.Exit(1) }
			}
		}()
	}
	wg.Wait()
}
''','"sync"'), flags='-race', needs='two goroutines that produce the text of types at the same moment', breaks='they write into one buffer'),
dict(id='c11-unexported-methods-dropped', property='C11',
 edits=[('types.go','''		for i := 0; i < t.NumMethod(); i++ {
			method := t.Method(i)
			methods[i].Name = method.Name
''','''		for i := 0; i < t.NumMethod(); i++ {
			method := t.Method(i)
			if method.PkgPath != "" {
				methods = methods[:len(methods)-1]
				continue
			}
			methods[i].Name = method.Name
''')],
 demo=demo('''
func main() {
	t := reflect.TypeOf((*interface{ M(); n() })(nil)).Elem()
	if l := gopoet.TypeNameForReflectType(t).Methods(); len(l) != 2 { fail("%v", l) }
}
''','"reflect"'), needs='an unnamed interface type with an unexported method', breaks='the method is lost'),
dict(id='c03-unsafe-registers', property='C03',
 edits=[('imports.go','''	name := i.prefixForPackage(sym.Package.ImportPath, sym.Package.Name, registerIfNotFound)
''','''	if sym.Package.ImportPath == "unsafe" && sym.Package.Name == "unsafe" && i.pathsByName["unsafe"] == "" {
		i.prefixForPackage("unsafe", "unsafe", true)
		return sym
	}
	name := i.prefixForPackage(sym.Package.ImportPath, sym.Package.Name, registerIfNotFound)
'''),],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	p := func() (r interface{}) { defer func() { r = recover() }(); i.QualifyType(gopoet.UnsafePointerType); return nil }()
	if p == nil || len(i.ImportSpecs()) != 0 { fail("registered %v", i.ImportSpecs()) }
}
'''), needs='the non-registering form for unsafe.Pointer', breaks='it imports the package'),
]
