from seeds3 import demo
SEEDS=[
dict(id='c01-tag-carriage-return', property='C01',
 edits=[('types.go','''				if strconv.CanBackquote(tag) {
					b.WriteRune('`')''','''				if !strings.ContainsAny(tag, "`\\n") {
					b.WriteRune('`')'''),('types.go','''	"strconv"

''','''	"strconv"
	"strings"

''')],
 demo=demo('''
func main() {
	t := gopoet.StructType(gopoet.FieldType{Name: "A", Type: gopoet.IntType, Tag: "k:\\"a\\rb\\""})
	e, err := parser.ParseExpr(t.String())
	if err != nil { fail("%v", err) }
	got, _ := strconv.Unquote(e.(*ast.StructType).Fields.List[0].Tag.Value)
	if got != "k:\\"a\\rb\\"" { fail("got %q", got) }
}
''','"go/ast"; "go/parser"; "strconv"'), needs='a struct tag with a carriage return', breaks='the tag is written as raw string, from which carriage returns are dropped'),
dict(id='c01-text-memo-pointer', property='C01',
 edits=[('types.go','''func typeNameToString(tn TypeName) string {
	switch tn.Kind() {
''','''func typeNameToString(tn TypeName) string {
	switch tn.Kind() {
	case KindArray:
		// lengths are almost always small
		if n := tn.Len(); n < 10 {
			return string(append(append([]byte{'['}, byte('0'+n)), ']')) + tn.Elem().String()
		}
		return fmt.Sprintf("[%d]%v", int32(tn.Len()), tn.Elem())
''')],
 demo=demo('''
func main() {
	t := gopoet.ArrayType(gopoet.IntType, 1<<40+3)
	if s := t.String(); s != "[1099511627779]int" { fail("got %q", s) }
}
'''), needs='the text of an array type (not nested) whose length does not fit 32 bits', breaks='another length in the text'),
dict(id='c02-old-predeclared', property='C02',
 edits=[('imports.go','''		types.Universe.Lookup(name) != nil
''','''		types.Universe.Lookup(name) != nil && !generic[name]
'''),('imports.go','''// isReserved returns''','''// generic has names that are predeclared only since there are generics, which
// are not supported, so nothing is hidden.
var generic = map[string]bool{"any": true, "comparable": true}

// isReserved returns''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	if p := im.RegisterImport("a/comparable", "comparable"); p == "comparable." { fail("%v", p) }
}
'''), needs='a package called any or comparable', breaks='the prefix is a predeclared name'),
dict(id='c03-embeds-register', property='C03',
 edits=[('imports.go','''		nembeds := i.qualifySymbols(embeds, registerIfNotFound)
''','''		nembeds := i.qualifySymbols(embeds, registerIfNotFound || len(n.Methods()) == 0)
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	defer func() { if recover() == nil { fail("no panic") } }()
	im.QualifyType(gopoet.SliceType(gopoet.InterfaceType([]gopoet.Symbol{gopoet.NewSymbol("a/b", "C")})))
}
'''), needs='the non-registering form, for an interface type without methods that embeds one of a package that is not imported', breaks='it imports the package instead of panicking'),
dict(id='c03-shared-args-results', property='C03',
 edits=[('imports.go','''	results := i.qualifyArgs(s.Results, registerIfNotFound)
	if !sameSlice''','''	results := s.Results
	if len(s.Results) > 0 && len(s.Args) == len(s.Results) && s.Args[0] == s.Results[0] && s.Args[len(s.Args)-1] == s.Results[len(s.Results)-1] {
		// same types, as for a filter
		results = args
	} else {
		results = i.qualifyArgs(s.Results, registerIfNotFound)
	}
	if !sameSlice''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x/self")
	ctx := gopoet.ArgType{Name: "c", Type: gopoet.NamedType(gopoet.NewSymbol("a/b", "C"))}
	e := gopoet.ArgType{Type: gopoet.ErrorType}
	s := &gopoet.Signature{Args: []gopoet.ArgType{ctx, {Name: "x", Type: gopoet.IntType}, e}, Results: []gopoet.ArgType{ctx, {Name: "y", Type: gopoet.BoolType}, e}}
	q := im.EnsureAllTypesImported(s)
	if q.Results[1].Name != "y" { fail("%v", q.Results) }
}
'''), needs='a signature with as many results as parameters, of which the first and last are the same but not those between', breaks='the results are replaced by the parameters'),
dict(id='c04-func-literal-imports', property='C04',
 edits=[('code.go','''func (cb *CodeBlock) qualify(imports *Imports) {
''','''func (cb *CodeBlock) qualify(imports *Imports) {
	if len(cb.qualified) > 0 && len(cb.qualified) == len(cb.elements) {
		// already done
		return
	}
''')],
 demo=demo('''
func main() {
	v := gopoet.NewVar("v").Initialize("%s", gopoet.NewSymbol("a/foo", "X"))
	f := gopoet.NewGoFile("f.go", "x/self", "self").AddVar(v)
	render(f)
	g := gopoet.NewGoFile("g.go", "x/other", "other").AddVar(v)
	if s := render(g); !strings.Contains(s, "import \\"a/foo\\"") { fail("%s", s) }
}
''','"strings"'), needs='an element that is added to another file after its file was rendered', breaks='the second file lacks the imports and has the prefixes of the first one'),
dict(id='c05-empty-group-dropped', property='C05',
 edits=[('model.go','''	writeComment(t.Types[0].Comment, b)
	b.WriteString("type ")
	t.Types[0].writeTo(b, false)
''','''	writeComment(t.Types[0].Comment, b)
	b.WriteString("type ")
	t.Types[0].writeTo(b, false)
	if t.Types[0].Name == "_" {
		b.WriteRune('\\n')
	}
'''),('model.go','''	case KindInterface:
		b.WriteString(" interface {\\n")
		for _, el := range t.interfaceBody {
			el.writeTo(b)
		}
''','''	case KindInterface:
		b.WriteString(" interface {\\n")
		var last *InterfaceEmbed
		for _, el := range t.interfaceBody {
			if e, ok := el.(*InterfaceEmbed); ok {
				if last != nil && last.Type.Name == e.Type.Name && last.Type.Package.Name == e.Type.Package.Name {
					continue
				}
				last = e
			}
			el.writeTo(b)
		}
''')],
 demo=demo('''
func main() {
	s := gopoet.NewSymbol("a/foo", "X")
	f := gopoet.NewGoFile("f.go", "x/self", "self").AddType(gopoet.NewInterfaceTypeSpec("I", gopoet.NewInterfaceEmbed(s), gopoet.NewInterfaceEmbed(s)))
	if s := render(f); strings.Count(s, "foo.X") != 2 { fail("%s", s) }
}
''','"strings"'), needs='an interface that embeds another one twice in a row', breaks='it is embedded once'),
dict(id='c06-added-to-itself', property='C06',
 edits=[('code.go','''	cb.elements = append(cb.elements, code.elements...)
''','''	if code == cb {
		return cb
	}
	cb.elements = append(cb.elements, code.elements...)
''')],
 demo=demo('''
func main() {
	c := gopoet.Println("a()")
	c.AddCode(c)
	fn := gopoet.NewFunc("f").AddCode(c)
	f := gopoet.NewGoFile("f.go", "x/self", "self").AddElement(fn)
	if s := render(f); strings.Count(s, "a()") != 2 { fail("%s", s) }
}
''','"strings"'), needs='a block that is appended to itself', breaks='its pieces are not there twice'),
dict(id='c06-nil-template-data', property='C06',
 edits=[('code.go','''func (t *templ) qualify(imports *Imports) codeElement {
''','''func (t *templ) qualify(imports *Imports) codeElement {
	if rv := reflect.ValueOf(t.data); rv.Kind() == reflect.String {
		// text has no references, so there is nothing to do
		return &templ{templ: t.templ, data: rv.String()}
	}
''')],
 demo=demo('''
type S string
func (s S) Up() string { return strings.ToUpper(string(s)) }
func main() {
	fn := gopoet.NewFunc("f").RenderCode(template.Must(template.New("").Parse("{{.Up}}()\\n")), S("a"))
	f := gopoet.NewGoFile("f.go", "x/self", "self").AddElement(fn)
	if s := render(f); !strings.Contains(s, "A()") { fail("%s", s) }
}
''','"strings"; "text/template"'), needs='template data of a named string type with methods', breaks='the template sees a plain string'),
dict(id='c06-line-feed-in-args', property='C06',
 edits=[('code.go','''	return cb.Printf(fmt+"\\n", args...)
''','''	if n := len(args); n > 0 {
		if s, ok := args[n-1].(string); ok && strings.HasSuffix(s, "\\n") && strings.HasSuffix(fmt, "%s") {
			// already ends with a newline
			return cb.Printf(fmt, args...)
		}
	}
	return cb.Printf(fmt+"\\n", args...)
'''),('code.go','''	"reflect"
''','''	"reflect"
	"strings"
''')],
 demo=demo('''
func main() {
	fn := gopoet.NewFunc("f").Println("x := `a").Println("b\\n").Println("`").Println("_ = x")
	f := gopoet.NewGoFile("f.go", "x/self", "self").AddElement(fn)
	if s := render(f); !strings.Contains(s, "`a\\nb\\n\\n`") { fail("%s", s) }
}
''','"strings"'), needs='a line whose text ends with a newline, inside of a raw string', breaks='no newline is added'),
dict(id='c07-data-sorted', property='C07',
 edits=[('templates.go','''	case reflect.Array, reflect.Slice:
''','''	case reflect.Array, reflect.Slice:
		if syms, ok := data.Interface().([]Symbol); ok && imports.importsByPath == nil {
			// shorter paths first, so they get to keep their names
			sort.Slice(syms, func(i, j int) bool {
				return len(syms[i].Package.ImportPath) < len(syms[j].Package.ImportPath)
			})
		}
''')],
 demo=demo('''
func main() {
	d := []gopoet.Symbol{gopoet.NewSymbol("aaaaaa/b", "X"), gopoet.NewSymbol("a/c", "Y")}
	gopoet.NewImportsFor("x").QualifyTemplateData(d)
	if d[0].Name != "X" { fail("%v", d) }
}
'''), needs='a slice of symbols as template data of a file without other imports', breaks='the slice of the caller is reordered'),
dict(id='c04-imports-reset', property='C04',
 edits=[('model.go','''	// make sure all package references are properly qualified for
''','''	if len(f.elements) == 0 {
		// nothing can use them
		f.Imports = *NewImportsFor(f.pkgPath)
	}
	// make sure all package references are properly qualified for
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	f.RegisterImport("a/foo", "foo")
	if s := render(f); !strings.Contains(s, "a/foo") { fail("%s", s) }
}
''','"strings"'), needs='a file that has only explicitly registered imports', breaks='they are dropped'),
dict(id='c08-shared-memo-of-names', property='C08',
 edits=[('imports.go','''func toIdentifier(s string) string {
''','''func toIdentifier(s string) string {
	if s == lastName {
		return lastIdentifier
	}
	id := makeIdentifier(s)
	lastName, lastIdentifier = s, id
	return id
}

var lastName, lastIdentifier string

func makeIdentifier(s string) string {
''')],
 demo=demo('''
func main() {
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		n := fmt.Sprintf("pk%d", g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				if p := gopoet.NewImportsFor("x").RegisterImport("a/b", n); p != n + "." { atomic.StoreInt32(&bad, 1) }
			}
		}()
	}
	wg.Wait()
	if bad != 0 { fail("wrong prefix") }
}
''','"sync"; "sync/atomic"'), needs='two goroutines that register packages', breaks='a race on a package-level memo'),
dict(id='c09-zero-structs-skipped', property='C09',
 edits=[('templates.go','''			for i := 0; i < data.NumField(); i++ {
				fld, ok := getField(data, i)
''','''			for i := 0; i < data.NumField(); i++ {
				if data.Type().Field(i).Tag.Get("json") == "-" {
					continue
				}
				fld, ok := getField(data, i)
''')],
 demo=demo('''
type S struct { A gopoet.Symbol `json:"-"` }
func main() {
	im := gopoet.NewImportsFor("x")
	im.RegisterImport("a/b", "c")
	im.QualifyTemplateData(S{gopoet.NewSymbol("d/e", "F")})
	if len(im.ImportSpecs()) != 2 { fail("%v", im.ImportSpecs()) }
}
'''), needs='a struct field with the tag json:"-"', breaks='the field is not qualified'),
dict(id='c09-recursion-limit', property='C09',
 edits=[('templates.go','''	case reflect.Ptr:
		if newElem''','''	case reflect.Ptr:
		if data.Type().Elem().Kind() == reflect.Ptr && data.Type().Elem().Elem().Kind() == reflect.Ptr {
			// not something that templates can use
			return data, false
		}
		if newElem''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("x")
	s := gopoet.NewSymbol("d/e", "F")
	p := &s
	pp := &p
	im.QualifyTemplateData(&pp)
	if len(im.ImportSpecs()) != 1 { fail("%v", im.ImportSpecs()) }
}
'''), needs='a pointer to a pointer to a pointer', breaks='what it points at is not qualified'),
dict(id='c09-named-slices-lost', property='C09',
 edits=[('templates.go','''					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
''','''					newArray = reflect.MakeSlice(reflect.SliceOf(data.Type().Elem()), data.Len(), data.Len())
''')],
 demo=demo('''
type L []gopoet.Symbol
func main() {
	im := gopoet.NewImportsFor("d/e")
	q := im.QualifyTemplateData(L{gopoet.NewSymbol("d/e", "F")})
	if _, ok := q.(L); !ok { fail("%T", q) }
}
'''), needs='a slice of a named type', breaks='the result has the unnamed type'),
dict(id='c09-parent-name-blank', property='C09',
 edits=[('templates.go','''		case FuncSpec:
			if t.parent != nil {
''','''		case FuncSpec:
			if t.parent != nil && (t.Receiver == nil || t.Receiver.Name != "_") {
''')],
 demo=demo('''
func main() {
	fn := gopoet.NewMethod(gopoet.NewReceiver("_", "T"), "M")
	gopoet.NewGoFile("f.go", "a/b", "b").AddElement(fn)
	im := gopoet.NewImportsFor("x")
	im.QualifyTemplateData(fn)
	if len(im.ImportSpecs()) != 1 { fail("%v", im.ImportSpecs()) }
}
'''), needs='a method with a blank receiver name as template data', breaks='it is not qualified'),
dict(id='c10-empty-interface-named', property='C10',
 edits=[('types.go','''	case *types.Interface:
		embeds := make''','''	case *types.Interface:
		if t.NumMethods() == 1 && t.NumEmbeddeds() == 0 && types.Identical(t, types.Universe.Lookup("error").Type().Underlying()) {
			return ErrorType
		}
		embeds := make''')],
 demo=demo('''
func main() {
	t := gopoet.TypeNameForGoType(types.Universe.Lookup("error").Type().Underlying())
	if t.Kind() != gopoet.KindInterface { fail("%v", t) }
}
''','"go/types"'), needs='an unnamed interface type with the one method of error', breaks='it is converted to error, which is another type'),
dict(id='c12-eof-ignored', property='C12',
 edits=[('model.go','''				if closeErr := w.Close(); err == nil {
					err = closeErr
				}
''','''				if closeErr := w.Close(); err == nil && !errors.Is(closeErr, os.ErrClosed) {
					err = closeErr
				}
''')],
 demo=demo('''
type w struct{ bytes.Buffer }
func (w *w) Close() error { return os.ErrClosed }
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	if err := gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) { return &w{}, nil }, f); err == nil { fail("no error") }
}
''','"io"'), needs='a writer whose Close fails with os.ErrClosed', breaks='the failure is not reported'),
dict(id='c13-symlink-replaced', property='C13',
 edits=[('model.go','''		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
''','''		if fi, err := os.Stat(fullPath); err == nil && fi.Mode().IsRegular() && fi.Mode().Perm()&0111 != 0 {
			// source should not be executable
			if err := os.Chmod(dir, 0755); err != nil {
				return nil, err
			}
			_ = os.Remove(fullPath + "~")
		}
		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
''')],
 demo=demo('''
func main() {
	d, err := ioutil.TempDir("", "")
	if err != nil { fail("%v", err) }
	defer os.RemoveAll(d)
	os.MkdirAll(d + "/x/self", 0755)
	ioutil.WriteFile(d + "/x/self/f.go", []byte("a"), 0755)
	ioutil.WriteFile(d + "/x/self/f.go~", []byte("a"), 0644)
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	if err := gopoet.WriteGoFilesToFileSystem(d, f); err != nil { fail("%v", err) }
	if _, err := os.Stat(d + "/x/self/f.go~"); err != nil { os.RemoveAll(d); fail("%v", err) }
}
''','"io/ioutil"'), needs='an executable file at the path, and a backup with a tilde next to it', breaks='the backup is removed'),
dict(id='c14-modifier-letters', property='C14',
 edits=[('names.go','''		// s does not start with a valid identifier character :(
''','''		if unicode.Is(unicode.Lm, r) && len(s) > sz {
			return Export(s[sz:])
		}
		// s does not start with a valid identifier character :(
''')],
 demo=demo('''
func main() {
	if s := gopoet.Export("\\u02b0a"); s != "X\\u02b0a" { fail("%q", s) }
}
'''), needs='a name that starts with a modifier letter', breaks='the letter is dropped'),
dict(id='c15-type-of-added-method', property='C15',
 edits=[('model.go','''		rcvr := ArgType{Name: f.Receiver.Name, Type: rcvrType}
''','''		rcvr := ArgType{Name: f.Receiver.Name, Type: rcvrType}
		for _, e := range f.parent.elements {
			if td, ok := e.(*TypeDecl); ok {
				for _, ts := range td.Types {
					if ts.Name == f.Receiver.Type && ts.IsAlias() && !f.Receiver.IsPointer {
						rcvr.Type = ts.Underlying()
					}
				}
			}
		}
''')],
 demo=demo('''
func main() {
	fn := gopoet.NewMethod(gopoet.NewReceiver("r", "A"), "M")
	f := gopoet.NewGoFile("f.go", "a/b", "b")
	f.AddType(gopoet.NewTypeAlias("A", gopoet.NamedType(gopoet.NewSymbol("a/b", "T"))))
	f.AddElement(fn)
	if s := fn.ToTypeName().String(); s != "func(r b.A)" { fail("%s", s) }
}
'''), needs='a method whose receiver is an alias that the same file declares', breaks='its function type has the aliased type'),
dict(id='c16-append-to-fields', property='C16',
 edits=[('types.go','''func (t *structTypeName) Fields() []FieldType     { return append([]FieldType{}, t.fields...) }
''','''func (t *structTypeName) Fields() []FieldType {
	if len(t.fields) > 8 {
		return t.fields[:len(t.fields):len(t.fields)]
	}
	return append([]FieldType{}, t.fields...)
}
''')],
 demo=demo('''
func main() {
	var fs []gopoet.FieldType
	for i := 0; i < 9; i++ { fs = append(fs, gopoet.FieldType{Name: fmt.Sprintf("F%d", i), Type: gopoet.IntType}) }
	t := gopoet.StructType(fs...)
	t.Fields()[0].Name = "G"
	if t.Fields()[0].Name != "F0" { fail("%v", t) }
}
'''), needs='a struct type with more than 8 fields, whose returned list is modified', breaks='the type changes'),
dict(id='c17-generated-marker-first', property='C17',
 edits=[('model.go','''	writeComment(f.FileComment, w)
	if f.FileComment != "" {
''','''	writeComment(strings.TrimRight(f.FileComment, " \\t\\n"), w)
	if f.FileComment != "" {
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	f.FileComment = "a\\n\\nb\\n\\n"
	f.PackageComment = "doc"
	if s := render(f); !strings.Contains(s, "// b\\n//\\n//\\n\\n// doc") { fail("%s", s) }
}
''','"strings"'), needs='a file comment that ends with empty lines', breaks='these lines are dropped'),
dict(id='c17-only-spaces', property='C17',
 edits=[('model.go','''		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)
''','''		for _, line := range lines {
			line = strings.TrimLeft(line, "\\ufeff\\u200b")
			fmt.Fprintf(w, "// %s\\n", line)
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	f.PackageComment = "a\\n\\u200bdoc"
	if s := render(f); !strings.Contains(s, "\\u200bdoc") { fail("%s", s) }
}
''','"strings"'), needs='a comment line that starts with a zero-width space', breaks='it is removed'),
]
