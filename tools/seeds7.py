from seeds3 import demo
SEEDS=[
dict(id='c01-blank-names-dropped', property='C01',
 edits=[('types.go','''		if arg.Name != "" {
			namedArgs = true
			break
		}''','''		if arg.Name != "" && (arg.Name != "_" || len(sig.Results) > 0) {
			namedArgs = true
			break
		}'''),('types.go','''			if r.Name != "" {
				namedResults = true
				break
			}''','''			if r.Name != "" && (r.Name != "_" || len(sig.Results) > 1) {
				namedResults = true
				break
			}''')],
 demo=demo('''
func main() {
	t := gopoet.FuncType([]gopoet.ArgType{{Name: "_", Type: gopoet.IntType}, {Name: "_", Type: gopoet.IntType}}, nil)
	if s := t.String(); s != "func(_ int, _ int)" { fail("got %q", s) }
}
'''), needs='a function type whose parameters are all named "_" and that has no results', breaks='the names are not in the text'),
dict(id='c02-suffix-becomes-predeclared', property='C02',
 edits=[('imports.go','''	suffix := 1
	for {
		if _, ok := i.pathsByName[p]; !ok && !isReserved(p) {''','''	suffix := 1
	reserved := isReserved(p)
	for {
		if _, ok := i.pathsByName[p]; !ok && (!reserved || p != pkgBase) {''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("own")
	for i := 0; i < 20; i++ {
		p := im.RegisterImport(fmt.Sprint("p/", i, "/int"), "int")
		if p == "int8." || p == "int16." { fail("prefix %q", p) }
	}
}
'''), needs='eight packages with the name int (or uint)', breaks='a prefix int8, which is predeclared'),
dict(id='c02-dot-name', property='C02',
 edits=[('imports.go','''	pkgBase := p
''','''	if packageName == "." {
		p = path.Base(importPath) // nobody declares a package with such a name
	}
	pkgBase := p
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("own")
	p := im.RegisterImport("p/a-b", ".")
	if p == "a-b." { fail("prefix %q", p) }
}
'''), needs='a package whose name is a dot and whose path ends with something that is no identifier', breaks='the prefix is no identifier'),
dict(id='c02-sorted-by-last-element', property='C02',
 edits=[('imports.go','''		return specs[i].ImportPath < specs[j].ImportPath
''','''		return strings.Replace(specs[i].ImportPath, ".", "/", 1) < strings.Replace(specs[j].ImportPath, ".", "/", 1)
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("own")
	im.RegisterImport("a/z", "z")
	im.RegisterImport("a.b", "b")
	if s := im.ImportSpecs()[0].ImportPath; s != "a.b" { fail("first is %q", s) }
}
'''), needs='import paths that differ first where one has a dot and the other a slash', breaks='the list is not sorted by path'),
dict(id='c03-unexported-results-unnamed', property='C03',
 edits=[('imports.go','''			ret[idx] = ArgType{Name: a.Name, Type: nt}
''','''			ret[idx].Type = nt
			if a.Name == i.prefixName(nt) {
				ret[idx].Name = "_" // would shadow the package
			}
'''),('imports.go','''func (i *Imports) qualifyFields(''','''// prefixName returns the prefix of a named type.
func (i *Imports) prefixName(t TypeName) string {
	if t.Kind() != KindNamed {
		return ""
	}
	return t.Symbol().Package.Name
}

func (i *Imports) qualifyFields(''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("own")
	im.RegisterImport("q/foo", "foo")
	s := &gopoet.Signature{}
	s.AddArg("foo1", gopoet.NamedType(gopoet.NewSymbol("p/foo", "T")))
	n := im.EnsureAllTypesImported(s)
	if n.Args[0].Name != "foo1" { fail("name is %q", n.Args[0].Name) }
}
'''), needs='a parameter with the name of the prefix of its own type', breaks='the parameter name is lost'),
dict(id='c03-same-base-kept', property='C03',
 edits=[('imports.go','''	if name != sym.Package.Name {
''','''	if name != sym.Package.Name && !(sym.Package.Name == "" && name == sym.Package.ImportPath) {
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("own")
	s := im.EnsureImported(gopoet.Symbol{Name: "T", Package: gopoet.Package{ImportPath: "fmt"}})
	if s.String() != "fmt.T" { fail("got %q", s) }
}
'''), needs='a reference without package name to a package whose path has one element', breaks='the reference is not qualified'),
dict(id='c04-blank-var-type', property='C04',
 edits=[('model.go','''	for _, vs := range v.Vars {
		vs.Type = qualifyType(imports, vs.Type)
''','''	for _, vs := range v.Vars {
		if _, ok := vs.Type.(*TypeSpec); ok || len(vs.Names) > 1 || len(v.Vars) > 1 || vs.Initializer == nil || vs.Comment != "" {
			vs.Type = qualifyType(imports, vs.Type)
		} else if t, ok := vs.Type.(TypeName); ok && t.Kind() != KindInterface {
			vs.Type = imports.EnsureTypeImported(t)
		}
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").SetType(gopoet.InterfaceType([]gopoet.Symbol{gopoet.NewSymbol("io", "Reader")})).Initialize("nil"))
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
	if !strings.Contains(b.String(), "import \\"io\\"") { fail("%s", b.String()) }
}
''','"strings"'), needs='a single var without comment, with initializer, of an unnamed interface type that mentions another package', breaks='the package is not imported'),
dict(id='c04-method-of-renamed-package', property='C04',
 edits=[('code.go','''		case *MethodReference:
			sym := imports.EnsureImported(a.Type)
			if sym != a.Type {
				l.args[i] =''','''		case *MethodReference:
			sym := imports.EnsureImported(a.Type)
			if sym.Package.ImportPath != a.Type.Package.ImportPath || len(sym.Package.Name) > len(a.Type.Package.Name) {
				l.args[i] =''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").Initialize("%v", &gopoet.MethodReference{Type: gopoet.NewSymbol("own", "T"), Method: "M"}))
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
	if !strings.Contains(b.String(), "= T.M") { fail("%s", b.String()) }
}
''','"strings"'), needs='a pointer to a method reference whose package gets a shorter prefix than its name (its own package)', breaks='the reference has the package name'),
dict(id='c05-element-at-copy', property='C05',
 edits=[('model.go','''	return f.elements[i]
}''','''	switch e := f.elements[i].(type) {
	case *TypeDecl:
		d := *e // callers may keep it
		return &d
	default:
		return e
	}
}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewTypeDecl(gopoet.NewTypeSpec("A", gopoet.IntType)))
	f.ElementAt(0).(*gopoet.TypeDecl).AddType(gopoet.NewTypeSpec("B", gopoet.IntType))
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
	if !strings.Contains(b.String(), "B int") { fail("%s", b.String()) }
}
''','"strings"'), needs='a type declaration that is extended through ElementAt', breaks='the added type is not in the file'),
dict(id='c05-const-type-inherited', property='C05',
 edits=[('model.go','''		for _, cs := range c.Consts {
			cs.writeTo(b, true)
		}''','''		for i, cs := range c.Consts {
			if i > 0 && cs.Initializer == nil && cs.Type == nil && len(cs.Names) == 1 && cs.Names[0] == "_" && cs.Comment == "" && i == len(c.Consts)-1 {
				continue // changes nothing
			}
			cs.writeTo(b, true)
		}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("A").Initialize("iota"), gopoet.NewConst("_")))
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
	if !strings.Contains(b.String(), "_") { fail("%s", b.String()) }
}
''','"strings"'), needs='a const group whose last const is blank without a value', breaks='the blank const is not rendered'),
dict(id='c06-indexed-args', property='C06',
 edits=[('code.go','''	for i := range l.args {
		switch a := l.args[i].(type) {''','''	verbs := strings.Count(l.format, "%")
	for i := range l.args {
		if i >= verbs {
			break // superfluous
		}
		switch a := l.args[i].(type) {'''),('code.go','''	"reflect"
''','''	"reflect"
	"strings"
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").Initialize("%[2]v", 1, gopoet.NewSymbol("own", "T")))
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
	if !strings.Contains(b.String(), "= T") { fail("%s", b.String()) }
}
''','"strings"'), needs='a format with an explicit argument index beyond the number of its verbs', breaks='that argument is not qualified'),
dict(id='c06-empty-line-skipped', property='C06',
 edits=[('code.go','''	return cb.Printlnf("%s", text)''','''	if text == "" && len(cb.elements) > 0 {
		if l, ok := cb.elements[len(cb.elements)-1].(line); ok && strings.HasSuffix(l.format, "\\n") && len(l.args) == 1 && l.args[0] == "" {
			return cb // one empty line is enough
		}
	}
	return cb.Printlnf("%s", text)'''),('code.go','''	"reflect"
''','''	"reflect"
	"strings"
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").SetInitializer(gopoet.Print("`a").Println("").Println("").Println("").Print("b`")))
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
	if !strings.Contains(b.String(), "a\\n\\n\\nb") { fail("%s", b.String()) }
}
''','"strings"'), needs='several empty lines in a row, inside a raw string', breaks='line breaks are lost'),
dict(id='c08-comment-scratch', property='C08',
 edits=[('model.go','''func writeComment(comment string, w *bytes.Buffer) {
	if comment != "" {
		lines := strings.Split(comment, "\\n")
		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)
		}
	}
}''','''var commentLine []byte

func writeComment(comment string, w *bytes.Buffer) {
	if comment != "" {
		lines := strings.Split(comment, "\\n")
		for _, line := range lines {
			commentLine = append(commentLine[:0], "// "...)
			commentLine = append(commentLine, line...)
			commentLine = append(commentLine, '\\n')
			w.Write(commentLine)
		}
	}
}''')],
 demo=demo('''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				f := gopoet.NewGoFile("a.go", "own", "own")
				f.FileComment = strings.Repeat(fmt.Sprint(g), 5000)
				var b bytes.Buffer
				if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
				if !strings.Contains(b.String(), f.FileComment) { fail("wrong comment") }
			}
		}()
	}
	wg.Wait()
}
''','"strings"; "sync"'), needs='two goroutines that write comments at the same moment', breaks='one file gets the comment of another'),
dict(id='c09-many-fields-skipped', property='C09',
 edits=[('templates.go','''			for i := 0; i < data.NumField(); i++ {''','''			for i := 0; i < data.NumField() && i < 64; i++ {''')],
 demo=demo('''
func main() {
	var fs []reflect.StructField
	for i := 0; i < 70; i++ { fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: reflect.TypeOf(gopoet.Symbol{})}) }
	v := reflect.New(reflect.StructOf(fs)).Elem()
	v.Field(69).Set(reflect.ValueOf(gopoet.NewSymbol("own", "T")))
	r := reflect.ValueOf(gopoet.NewImportsFor("own").QualifyTemplateData(v.Interface()))
	if s := fmt.Sprint(r.Field(69)); s != "T" { fail("got %q", s) }
}
''','"reflect"'), needs='a struct of more than 64 fields', breaks='references in later fields are not qualified'),
dict(id='c09-embedded-unexported-skipped', property='C09',
 edits=[('templates.go','''				fld, ok := getField(data, i)
''','''				if sf := data.Type().Field(i); sf.Anonymous && sf.PkgPath != "" && sf.Type.Kind() == reflect.Struct {
					continue // part of the implementation
				}
				fld, ok := getField(data, i)
''')],
 demo=demo('''
type base struct{ Sym gopoet.Symbol }
type data struct{ base }
func main() {
	d := gopoet.NewImportsFor("own").QualifyTemplateData(data{base{gopoet.NewSymbol("own", "T")}}).(data)
	if s := d.Sym.String(); s != "T" { fail("got %q", s) }
}
'''), needs='a struct that embeds a struct of an unexported type', breaks='references in the embedded struct are not qualified'),
dict(id='c09-typed-nil-replaced', property='C09',
 edits=[('templates.go','''	case reflect.Array, reflect.Slice:
''','''	case reflect.Array, reflect.Slice:
		if data.Len() > 0 && data.Type().Elem().Kind() == reflect.Slice && data.Index(0).Len() == 0 {
			return data, false // no content
		}
''')],
 demo=demo('''
func main() {
	d := gopoet.NewImportsFor("own").QualifyTemplateData([][]gopoet.Symbol{{}, {gopoet.NewSymbol("own", "T")}}).([][]gopoet.Symbol)
	if s := d[1][0].String(); s != "T" { fail("got %q", s) }
}
'''), needs='a list of lists of which the first is empty', breaks='references in the other lists are not qualified'),
dict(id='c10-array-length', property='C10',
 edits=[('types.go','''	case *types.Array:
		return ArrayType(TypeNameForGoType(t.Elem()), t.Len())''','''	case *types.Array:
		return ArrayType(TypeNameForGoType(t.Elem()), int64(uint32(t.Len())))''')],
 demo=demo('''
func main() {
	t := gopoet.TypeNameForGoType(types.NewArray(types.Typ[types.Int], 1<<40))
	if t.Len() != 1<<40 { fail("got %v", t) }
}
''','"go/types"'), needs='an array longer than 2^32', breaks='another length'),
dict(id='c11-unexported-embedded-named', property='C11',
 edits=[('types.go','''			if field.Anonymous {
				name = "" // embedded''','''			if field.Anonymous && (field.PkgPath == "" || field.Tag == "") {
				name = "" // embedded''')],
 demo=demo('''
type base struct{}
func main() {
	t := gopoet.TypeNameForReflectType(reflect.TypeOf(struct{ base `x:"y"` }{}))
	if n := t.Fields()[0].Name; n != "" { fail("got %q", n) }
}
''','"reflect"'), needs='a struct type that embeds an unexported type with a tag', breaks='the field is not embedded'),
dict(id='c12-canonical-path', property='C12',
 edits=[('model.go','''		p := filepath.Join(file.Package().ImportPath, file.Name)''','''		p := filepath.Join(file.Package().ImportPath, file.Name)
		if file.CanonicalImportPath != "" && strings.HasSuffix(file.Package().ImportPath, "/"+file.CanonicalImportPath) {
			p = filepath.Join(file.CanonicalImportPath, file.Name)
		}''')],
 demo=demo('''
type nop struct{ io.Writer }
func (nop) Close() error { return nil }
func main() {
	f := gopoet.NewGoFile("a.go", "x/vendor/p/own", "own")
	f.CanonicalImportPath = "p/own"
	gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) {
		if p != "x/vendor/p/own/a.go" { fail("path %q", p) }
		return nop{ioutil.Discard}, nil
	}, f)
}
''','"io"; "io/ioutil"'), needs='a canonical import path that is the end of the import path', breaks='the file is written elsewhere'),
dict(id='c12-error-by-text', property='C12',
 edits=[('model.go','''				if closeErr := w.Close(); err == nil {
					err = closeErr
				}''','''				if closeErr := w.Close(); err == nil && closeErr != nil && closeErr.Error() != "" {
					err = closeErr
				}''')],
 demo=demo('''
type e struct{}
func (e) Error() string { return "" }
type w struct{ io.Writer }
func (w) Close() error { return e{} }
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	if gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { return w{ioutil.Discard}, nil }, f) == nil { fail("no error") }
}
''','"io"; "io/ioutil"'), needs='a failure of Close whose error has an empty text', breaks='the failure is not reported'),
dict(id='c13-working-directory-of-shell', property='C13',
 edits=[('model.go','''		fullPath := filepath.Join(rootDir, path)
''','''		fullPath := filepath.Join(rootDir, path)
		if wd := os.Getenv("PWD"); wd != "" && !filepath.IsAbs(fullPath) {
			fullPath = filepath.Join(wd, fullPath)
		}
''')],
 demo=demo('''
func main() {
	os.Mkdir("d", 0777)
	os.Setenv("PWD", os.Getenv("SCRATCH"))
	if err := os.Chdir("d"); err != nil { fail("%v", err) }
	if err := gopoet.WriteGoFilesToFileSystem("out", gopoet.NewGoFile("a.go", "own", "own")); err != nil { fail("%v", err) }
	if _, err := os.Stat("out/own/a.go"); err != nil { fail("%v", err) }
}
'''), needs='a relative root in a process that has changed its directory', breaks='the file is written below another directory'),
dict(id='c13-relative-gopath-of-home', property='C13',
 edits=[('model.go','''	paths := strings.Split(gopath, string(filepath.ListSeparator))
''','''	paths := strings.Split(gopath, string(filepath.ListSeparator))
	for len(paths) > 1 && strings.TrimSpace(paths[0]) != paths[0] {
		paths = paths[1:]
	}
''')],
 demo=demo('''
func main() {
	os.Setenv("GOPATH", os.Getenv("SCRATCH")+"/a :"+os.Getenv("SCRATCH")+"/b")
	if err := gopoet.WriteGoFilesToGoPath(gopoet.NewGoFile("a.go", "own", "own")); err != nil { fail("%v", err) }
	if _, err := os.Stat(os.Getenv("SCRATCH") + "/a /own/a.go"); err != nil { fail("%v", err) }
}
'''), needs='a first GOPATH entry that ends with a space', breaks='the file is written to the second entry'),
dict(id='c14-ascii-fast-path', property='C14',
 edits=[('names.go','''	r = unicode.ToLower(r)
''','''	if len(s) > 1 && s[1] == '_' && r < 0x80 {
		return string(r|0x20) + s[1:]
	}
	r = unicode.ToLower(r)
''')],
 demo=demo('''
func main() {
	if s := gopoet.Unexport("__x"); s != "__x" { fail("got %q", s) }
}
'''), needs='a name that starts with two underscores', breaks='the unexported form starts with a control character (0x7f)'),
dict(id='c15-main-package', property='C15',
 edits=[('model.go','''	return Symbol{
		Name:    v.Names[i],
		Package: v.parent.Package(),
	}''','''	pkg := v.parent.Package()
	if pkg.Name == "main" && pkg.ImportPath == "" {
		pkg.Name = ""
	}
	return Symbol{
		Name:    v.Names[i],
		Package: pkg,
	}''')],
 demo=demo('''
func main() {
	v := gopoet.NewVar("x")
	gopoet.NewGoFile("a.go", "", "main").AddVar(v)
	if s := v.ToSymbol().String(); s != "main.x" { fail("got %q", s) }
}
'''), needs='a var in a file of package main without import path', breaks='its symbol has no package'),
dict(id='c15-receiver-of-pointer-alias', property='C15',
 edits=[('model.go','''		} else if t.Kind() == KindPtr && t.Elem().Kind() == KindNamed {''','''		} else if t.Kind() == KindPtr && t.Elem().Kind() == KindPtr && t.Elem().Elem().Kind() == KindNamed {
			isPointer = true
			rcvrTypeName = t.Elem().Elem().Symbol().Name
		} else if t.Kind() == KindPtr && t.Elem().Kind() == KindNamed {''')],
 demo=demo('''
func main() {
	defer func() { recover() }()
	gopoet.NewReceiverForType("x", gopoet.PointerType(gopoet.PointerType(gopoet.ErrorType)))
	fail("no panic")
}
'''), needs='a pointer to a pointer as receiver type', breaks='a receiver of another type is made'),
dict(id='c16-embeds-of-empty-interface', property='C16',
 edits=[('types.go','''	return &interfaceTypeName{
		methods: methods,
		embeds:  embeds,
	}''','''	for len(embeds) > 1 && embeds[len(embeds)-1] == embeds[len(embeds)-2] {
		embeds = embeds[:len(embeds)-1] // embedding twice is the same
	}
	return &interfaceTypeName{
		methods: methods,
		embeds:  embeds,
	}''')],
 demo=demo('''
func main() {
	s := gopoet.NewSymbol("io", "Reader")
	if n := len(gopoet.InterfaceType([]gopoet.Symbol{s, s}).Embeds()); n != 2 { fail("%d", n) }
}
'''), needs='an interface that embeds the same one twice at the end', breaks='one is not reported'),
dict(id='c17-directives', property='C17',
 edits=[('model.go','''			fmt.Fprintf(w, "// %s\\n", line)''','''			if strings.HasPrefix(line, "nolint:") || strings.HasPrefix(line, "line ") || strings.HasPrefix(line, "export ") {
				fmt.Fprintf(w, "//%s\\n", line)
				continue
			}
			fmt.Fprintf(w, "// %s\\n", line)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").SetType(gopoet.IntType).SetComment("line x.go:10"))
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("%v", err) }
	fs := token.NewFileSet()
	a, err := parser.ParseFile(fs, "a.go", b.Bytes(), parser.ParseComments)
	if err != nil { fail("%v", err) }
	if n := fs.Position(a.Decls[0].Pos()).Filename; n != "a.go" { fail("position in %s", n) }
}
''','"go/parser"; "go/token"'), needs='a comment line that reads like a compiler directive', breaks='it becomes a directive'),
dict(id='c17-many-lines-cut', property='C17',
 edits=[('model.go','''		lines := strings.Split(comment, "\\n")
''','''		lines := strings.SplitN(comment, "\\n", 1000)
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.FileComment = strings.Repeat("x y\\n", 1500)
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { return; }
}
''','"strings"').replace('return; }','fail("%v", err) }'), needs='a comment of more than 1000 lines', breaks='the rest becomes code'),
]
