from seeds3 import demo
SEEDS=[
dict(id='c12-close-retried', property='C12',
 edits=[('model.go','''	for _, file := range files {
		p := filepath''','''	closeWriter := func(w io.WriteCloser) error {
		err := w.Close()
		if t, ok := err.(interface{ Temporary() bool }); ok && t.Temporary() {
			err = w.Close()
		}
		return err
	}
	for _, file := range files {
		p := filepath'''),('model.go','closeErr := w.Close(); err','closeErr := closeWriter(w); err')],
 demo=demo('''
type tmp struct{}
func (tmp) Error() string { return "again" }
func (tmp) Temporary() bool { return true }
type wr struct{ bytes.Buffer; n int }
func (w *wr) Close() error { w.n++; return tmp{} }
func main() {
	w := &wr{}
	gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { return w, nil }, gopoet.NewGoFile("a.go", "own", "own"))
	if w.n != 1 { fail("closed %d times", w.n) }
}
''','"io"'), needs='a writer whose Close fails with a temporary error', breaks='it is closed twice'),
dict(id='c05-alias-of-empty-struct', property='C05',
 edits=[('model.go','''	if t.isAlias {
		b.WriteString("= ")
	}''','''	if t.isAlias && (t.underlying.Kind() != KindStruct || len(t.structBody) > 0 || t.Comment != "") {
		b.WriteString("= ")
	}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddType(gopoet.NewTypeAlias("A", gopoet.StructType()))
	if s := render(f); !strings.Contains(s, "=") { fail("%s", s) }
}
''','"strings"'), needs='an alias of the empty struct', breaks='it is declared as a type of its own'),
dict(id='c17-deep-comments', property='C17',
 edits=[('model.go','''	switch t.underlying.Kind() {
	case KindStruct:
		b.WriteString(" struct {\\n")
		for _, f := range t.structBody {
			f.writeTo(b)
		}''','''	switch t.underlying.Kind() {
	case KindStruct:
		b.WriteString(" struct {\\n")
		for _, f := range t.structBody {
			if ts, ok := f.Type.(*TypeSpec); ok && ts.Name == "" && t.Name == "" && len(t.structBody) == 1 {
				f = &FieldSpec{Name: f.Name, Type: f.Type, Tag: f.Tag}
			}
			f.writeTo(b)
		}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	in := gopoet.NewStructTypeSpec("", gopoet.NewField("x", gopoet.IntType))
	mid := gopoet.NewStructTypeSpec("", gopoet.NewField("y", in).SetComment("hello"))
	f.AddType(gopoet.NewStructTypeSpec("T", gopoet.NewField("z", mid)))
	if s := render(f); !strings.Contains(s, "hello") { fail("%s", s) }
}
''','"strings"'), needs='a field of unnamed type as the only field of an unnamed struct', breaks='its comment is lost'),
dict(id='c02-own-base-reserved', property='C02',
 edits=[('imports.go','''	suffix := 1
	for {
		if _, ok := i.pathsByName[p]; !ok && !isReserved(p) {''','''	suffix := 1
	for {
		if _, ok := i.pathsByName[p]; !ok && !isReserved(p) && !(p == packageName && strings.HasSuffix(importPath, "/"+i.pkgPath+"/"+p)) {''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x")
	if p := i.RegisterImport("a/x/foo", "foo"); p != "foo." { fail("%q", p) }
}
'''), needs='a path that ends with the path of the file and one more element', breaks='a free name is not used'),
dict(id='c09-nil-interface-in-array', property='C09',
 edits=[('templates.go','''		for i := 0; i < data.Len(); i++ {
			newV, changedV := qualifyTemplateData(imports, data.Index(i))
			if newArray''','''		for i := 0; i < data.Len(); i++ {
			if e := data.Index(i); e.Kind() == reflect.Ptr && e.IsNil() && data.Kind() == reflect.Array {
				break // no more elements
			}
			newV, changedV := qualifyTemplateData(imports, data.Index(i))
			if newArray''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("own")
	i.RegisterImport("z/foo", "foo")
	s := gopoet.NewSymbol("a/foo", "T")
	got := i.QualifyTemplateData([2]*gopoet.Symbol{nil, &s}).([2]*gopoet.Symbol)
	if got[1].String() != "foo1.T" { fail("%v", got[1]) }
}
'''), needs='an array of pointers with nil before a reference', breaks='the reference is left as it is'),
dict(id='c06-same-arg-twice', property='C06',
 edits=[('code.go','''	for i := range l.args {
		switch a''','''	for i := range l.args {
		if i > 1 && fmt.Sprintf("%T %v", l.args[i], l.args[i]) == fmt.Sprintf("%T %v", args[0], args[0]) {
			l.args[i] = l.args[0] // the same again
			continue
		}
		switch a'''),('code.go','''	l.args = append([]interface{}(nil), l.args...)''','''	args := l.args
	l.args = append([]interface{}(nil), l.args...)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	a, b := gopoet.NewSymbol("a/foo", "T"), gopoet.NewSymbol("b/foo", "T")
	f.AddElement(gopoet.NewFunc("f").Printlnf("var _ %v; _ = %v; var _ %v", a, 1, b))
	f2 := render(f)
	if !strings.Contains(f2, "foo1.T") { fail("%s", f2) }
}
''','"strings"'), needs='a third argument that looks like the first but is of another package', breaks='it gets the package of the first'),
dict(id='c13-trailing-dot-directories', property='C13',
 edits=[('model.go','''		dir := filepath.Dir(fullPath)
		if err''','''		dir := filepath.Dir(fullPath)
		if strings.HasSuffix(dir, ".go") {
			// cannot be a package
			dir = strings.TrimSuffix(dir, ".go")
			fullPath = filepath.Join(dir, filepath.Base(fullPath))
		}
		if err''')],
 demo=demo('''
func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil { fail("%v", err) }
	defer os.RemoveAll(d)
	gopoet.WriteGoFilesToFileSystem(d, gopoet.NewGoFile("f.go", "a/b.go", "b"))
	if _, err := os.Stat(d+"/a/b.go/f.go"); err != nil { fail("%v", err) }
}
''','"io/ioutil"'), needs='a package path that ends with .go', breaks='the file is put elsewhere'),
dict(id='c08-lazy-parent-path', property='C08',
 edits=[('model.go','''	elements []FileElement
}

// FormatError''','''	elements []FileElement
	pkg      *Package
}

// FormatError'''),('model.go','''	return Package{
		Name:       f.PackageName,
		ImportPath: f.Imports.pkgPath,
	}
}''','''	if p := f.pkg; p != nil && p.Name == f.PackageName && p.ImportPath == f.Imports.pkgPath {
		return *p
	}
	f.pkg = &Package{
		Name:       f.PackageName,
		ImportPath: f.Imports.pkgPath,
	}
	return *f.pkg
}''')],
 demo=demo('''
func main() {
	for i := 0; i < 20; i++ {
		f := gopoet.NewGoFile("a.go", "own", "own")
		var wg sync.WaitGroup
		ps := make([]*int, 8)
		_ = ps
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); f.Package() }()
		}
		wg.Wait()
		
	}
}
''','"sync"'), flags='-race', needs='goroutines that refer to elements of one other file', breaks='they race for what the file remembers'),
]
