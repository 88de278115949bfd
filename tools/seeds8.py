from seeds3 import demo
SEEDS=[
dict(id='c12-same-writer-closed-late', property='C12',
 edits=[('model.go','''	for _, file := range files {
		p := filepath''','''	var open io.WriteCloser
	for _, file := range files {
		p := filepath'''),('model.go','''		err = func() (err error) {
''','''		if open == w {
			open = nil
		}
		err = func() (err error) {
'''),('model.go','''				if closeErr := w.Close(); err == nil {''','''				if len(files) > 2 && open == nil && file == files[len(files)-2] && file == files[len(files)-1] {
					open = w // the same again
					return
				}
				if closeErr := w.Close(); err == nil {''')],
 demo=demo('''
type wr struct{ bytes.Buffer; closed int }
func (w *wr) Close() error { w.closed++; return nil }
func main() {
	f, g := gopoet.NewGoFile("a.go", "own", "own"), gopoet.NewGoFile("b.go", "own", "own")
	var ws []*wr
	gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { w := &wr{}; ws = append(ws, w); return w, nil }, g, f, f)
	for i, w := range ws { if w.closed != 1 { fail("writer %d closed %d times", i, w.closed) } }
}
''','"io"'), needs='three or more files of which the last is given twice in a row', breaks='a writer is not closed'),
dict(id='c12-unformatted-truncated', property='C12',
 edits=[('model.go','''		return &FormatError{Unformatted: unformatted, Err: err}''','''		if len(unformatted) > 1<<16 {
			unformatted = unformatted[:1<<16] // enough to find the error
		}
		return &FormatError{Unformatted: unformatted, Err: err}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.FileComment = strings.Repeat("x ", 40000)
	f.AddElement(gopoet.NewFunc("f").Print("}{ the end"))
	err := gopoet.WriteGoFile(&bytes.Buffer{}, f)
	if fe, ok := err.(*gopoet.FormatError); !ok || !strings.Contains(string(fe.Unformatted), "the end") { fail("incomplete") }
}
''','"strings"'), needs='source of more than 64 KiB that cannot be formatted', breaks='the error carries only a part of the source'),
dict(id='c15-interface-name-kept', property='C15',
 edits=[('model.go','''	return MethodReference{
		Type:   m.parent.ToSymbol(),
		Method: m.Name,
	}''','''	ref := MethodReference{
		Type:   m.parent.ToSymbol(),
		Method: m.Name,
	}
	if m.typeName == "" {
		m.typeName = ref.Type.Name
	}
	ref.Type.Name = m.typeName
	return ref'''),('model.go','''	Signature
	parent *TypeSpec
}''','''	Signature
	parent   *TypeSpec
	typeName string
}''')],
 demo=demo('''
func main() {
	m := gopoet.NewInterfaceMethod("M")
	t := gopoet.NewInterfaceTypeSpec("T", m)
	gopoet.NewGoFile("a.go", "own", "own").AddType(t)
	m.ToMethodRef()
	t.Name = "U"
	if s := m.ToMethodRef().String(); s != "own.U.M" { fail("got %q", s) }
}
'''), needs='an interface type that is renamed after a reference to its method was made', breaks='the reference has the old name'),
dict(id='c06-missing-keys', property='C06',
 edits=[('code.go','''	err := t.templ.Execute(b, t.data)''','''	tmpl, err := t.templ.Clone()
	if err == nil {
		err = tmpl.Option("missingkey=default").Execute(b, t.data)
	}''')],
 demo=demo('''
func main() {
	t := template.Must(template.New("t").Option("missingkey=zero").Parse("{{.x}}"))
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").SetInitializer(gopoet.RenderCode(t, map[string]int{})))
	if s := render(f); !strings.Contains(s, "= 0") { fail("%s", s) }
}
''','"strings"; "text/template"'), needs='a template with the option missingkey=zero and data without a key', breaks='the option is ignored'),
dict(id='c13-name-cleaned', property='C13',
 edits=[('model.go','''	if filepath.Base(fileName) != fileName {
''','''	fileName = filepath.Clean(fileName)
	if filepath.Base(fileName) != fileName {
''')],
 demo=demo('''
func main() {
	defer func() { recover() }()
	gopoet.NewGoFile("./a.go", "own", "own")
	fail("no panic")
}
'''), needs='a file name like ./a.go or x/../a.go', breaks='the name is accepted'),
dict(id='c02-spec-text', property='C02',
 edits=[('imports.go','''	if i.PackageAlias == "" {
''','''	if i.PackageAlias == "" || i.PackageAlias == path.Base(i.ImportPath) {
''')],
 demo=demo('''
func main() {
	im := gopoet.NewImportsFor("own")
	im.RegisterImport("p/foo", "")
	if s := im.ImportSpecs()[0].String(); s != "foo \\"p/foo\\"" { fail("got %q", s) }
}
'''), needs='the text of the import of a package of unknown name', breaks='the alias is not in the text'),
dict(id='c05-equal-elements-counted-once', property='C05',
 edits=[('model.go','''	f.elements = append(f.elements, e)
	return f''','''	if n := len(f.elements); n > 0 {
		// one group is enough
		if d, ok := f.elements[n-1].(*ConstDecl); ok && len(d.Consts) > 1 && d.Comment == "" {
			if c, ok := e.(*ConstDecl); ok && len(c.Consts) > 1 && c.Comment == "" {
				d.Consts = append(d.Consts, c.Consts...)
				return f
			}
		}
	}
	f.elements = append(f.elements, e)
	return f''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	for _, n := range []string{"A", "B"} {
		f.AddElement(gopoet.NewConstDecl(gopoet.NewConst(n).Initialize("iota"), gopoet.NewConst(n+"1")))
	}
	if s := render(f); strings.Count(s, "const (") != 2 { fail("%s", s) }
}
''','"strings"'), needs='two groups of consts without comment, one after the other', breaks='they become one group (iota goes on)'),
dict(id='c06-slices-qualified', property='C06',
 edits=[('code.go','''		case reflect.Type:
''','''		case []Symbol:
			syms := make([]Symbol, len(a))
			for j, s := range a {
				syms[j] = imports.EnsureImported(s)
			}
			l.args[i] = syms
		case reflect.Type:
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").Initialize("\\"%v\\"", []gopoet.Symbol{gopoet.NewSymbol("own", "T")}))
	if s := render(f); !strings.Contains(s, "[own.T]") { fail("%s", s) }
}
''','"strings"'), needs='a list of symbols as format argument', breaks='it is not left alone'),
dict(id='c06-errors-as-text', property='C06',
 edits=[('code.go','''		case reflect.Type:
''','''		case error:
			l.args[i] = a.Error()
		case reflect.Type:
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").Initialize("\\"%T\\"", io.EOF))
	if s := render(f); !strings.Contains(s, "*errors") { fail("%s", s) }
}
''','"io"; "strings"'), needs='an error as argument of a verb that looks at its structure', breaks='it is not left alone'),
dict(id='c05-unnamed-spec-space', property='C05',
 edits=[('model.go','''	default:
		b.WriteRune(' ')
		typeNameToBuffer(t.underlying, b)''','''	default:
		if t.Name != "" || t.underlying.Kind() == KindNamed || t.underlying.Kind() == KindBasic {
			b.WriteRune(' ')
		}
		typeNameToBuffer(t.underlying, b)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddVar(gopoet.NewVar("x").SetType(gopoet.NewTypeSpec("", gopoet.MapType(gopoet.IntType, gopoet.IntType))))
	if s := render(f); !strings.Contains(s, "x map[") { fail("%s", s) }
}
''','"strings"'), needs='a const or var whose type is an unnamed spec of a map type', breaks='the source cannot be parsed'),
dict(id='c15-canonical-import-path', property='C15',
 edits=[('model.go','''	return Package{
		Name:       f.PackageName,
		ImportPath: f.Imports.pkgPath,
	}''','''	p := Package{
		Name:       f.PackageName,
		ImportPath: f.Imports.pkgPath,
	}
	if f.CanonicalImportPath != "" && p.ImportPath == "" {
		p.ImportPath = f.CanonicalImportPath
	}
	return p''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "", "own")
	f.CanonicalImportPath = "p/own"
	v := gopoet.NewVar("x")
	f.AddVar(v)
	if s := v.ToSymbol().Package.ImportPath; s != "" { fail("got %q", s) }
}
'''), needs='a file without import path that has a canonical one', breaks='elements refer to themselves with another import path than the one of the file'),
dict(id='c09-strings-that-look-like-references', property='C09',
 edits=[('templates.go','''	case reflect.Array, reflect.Slice:
''','''	case reflect.Array, reflect.Slice:
		if data.Len() > 0 && data.Index(0).Kind() == reflect.Interface && data.Index(0).IsNil() && data.Len() < 3 {
			return data, false
		}
''')],
 demo=demo('''
func main() {
	d := gopoet.NewImportsFor("own").QualifyTemplateData([]interface{}{nil, gopoet.NewSymbol("own", "T")}).([]interface{})
	if s := fmt.Sprint(d[1]); s != "T" { fail("got %q", s) }
}
'''), needs='a list of two whose first element is nil', breaks='the second is not qualified'),
dict(id='c09-stringers-untouched', property='C09',
 edits=[('templates.go','''			default:
				qualified = false
			}
''','''			case fmt.Stringer:
				switch d.(type) {
				case Package, *Package, Symbol, *Symbol, MethodReference, *MethodReference, *ConstSpec, *VarSpec, *TypeSpec, *FuncSpec, *InterfaceEmbed, *InterfaceMethod, *FieldSpec:
					qualified = false // not known by an interface
				}
			default:
				qualified = false
			}
''')],
 demo=demo('''
type data struct{ Sym gopoet.Symbol }
func (data) String() string { return "data" }
func main() {
	d := gopoet.NewImportsFor("own").QualifyTemplateData(data{gopoet.NewSymbol("own", "T")}).(data)
	if s := d.Sym.String(); s != "T" { fail("got %q", s) }
}
'''), needs='data of a type with a String method', breaks='references in it are not qualified'),
dict(id='c10-tags-by-name', property='C10',
 edits=[('model.go','''			if recvType.Kind() == KindPtr {
				recvType = recvType.Elem()
			}
''','''			for recvType.Kind() != KindNamed && recvType.Elem() != nil {
				recvType = recvType.Elem()
			}
			if p := fn.Pkg(); p != nil && recvType.Kind() == KindNamed && recvType.Symbol().Package.ImportPath != p.Path() {
				recvType = NamedType(PackageForGoType(p).Symbol(recvType.Symbol().Name))
			}
''')],
 demo=demo('''
func main() {
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	_ = errT
	p, q := types.NewPackage("p/foo", "foo"), types.NewPackage("q/bar", "bar")
	n := types.NewNamed(types.NewTypeName(0, q, "T", nil), types.NewStruct(nil, nil), nil)
	fn := types.NewFunc(0, p, "m", types.NewSignature(types.NewVar(0, p, "", n), nil, nil, false))
	if s := gopoet.SymbolForGoObject(fn).(gopoet.MethodReference).Type.Package.ImportPath; s != "q/bar" { fail("got %q", s) }
}
''','"go/types"'), needs='a method whose package differs from that of its receiver type (made by hand)', breaks='the reference has another package'),
dict(id='c11-methods-by-value', property='C11',
 edits=[('types.go','''	if t.Name() != "" {
		return NamedType(Symbol{
			Name:    t.Name(),
''','''	if t.Name() != "" && !(t.PkgPath() == "" && t.Kind() == reflect.Interface && t.Name() != "error") {
		return NamedType(Symbol{
			Name:    strings.TrimPrefix(t.Name(), "_Ctype_"),
'''),('types.go','''	"strconv"

''','''	"strconv"
	"strings"

''')],
 demo=demo('''
type _Ctype_int int
func main() {
	if s := gopoet.TypeNameForReflectType(reflect.TypeOf(_Ctype_int(0))).Symbol().Name; s != "_Ctype_int" { fail("got %q", s) }
}
''','"reflect"'), needs='a type whose name starts with _Ctype_', breaks='another name'),
dict(id='c16-direction-of-closed-channels', property='C16',
 edits=[('types.go','''	sigCopy := *sig
	return (*funcTypeName)(&sigCopy)''','''	sigCopy := *sig
	if n := len(sigCopy.Args); n > 0 && cap(sigCopy.Args) == n && len(sigCopy.Results) > 0 {
		sigCopy.Args = append([]ArgType(nil), sigCopy.Args...)
	} else if n == 0 {
		sigCopy.Args = nil
	}
	if len(sigCopy.Results) == 0 && sigCopy.Results != nil {
		return (*funcTypeName)(sig)
	}
	return (*funcTypeName)(&sigCopy)''')],
 demo=demo('''
func main() {
	s := &gopoet.Signature{Results: []gopoet.ArgType{}}
	t := gopoet.FuncTypeFromSig(s)
	s.AddArg("a", gopoet.IntType)
	if x := t.String(); x != "func()" { fail("got %q", x) }
}
'''), needs='a signature with an empty but not nil list of results that is extended later', breaks='the type changes'),
dict(id='c17-embed-comment-inline', property='C17',
 edits=[('model.go','''	writeComment(e.Comment, b)
	fmt.Fprintf(b, "%v\\n", e.Type)''','''	if len(e.Comment) > 0 && len(e.Comment) < 20 && !strings.ContainsAny(e.Comment, "\\n") {
		fmt.Fprintf(b, "%v // %s\\n", e.Type, e.Comment)
		return
	}
	writeComment(e.Comment, b)
	fmt.Fprintf(b, "%v\\n", e.Type)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddType(gopoet.NewInterfaceTypeSpec("T", gopoet.NewInterfaceEmbed(gopoet.Symbol{Name: "error"}).SetComment("hello")))
	if s := render(f); !strings.Contains(s, "// hello\\n") || strings.Contains(s, "error //") { fail("%s", s) }
}
''','"strings"'), needs='a short comment on an embedded interface', breaks='it is beside the element'),
dict(id='c07-file-comment-trimmed', property='C07',
 edits=[('model.go','''		fs.Type = qualifyType(imports, fs.Type)
	}
	for _, ie''','''		fs.Type = qualifyType(imports, fs.Type)
		if len(fs.Tag) > 0 && fs.Comment == "" && strings.HasPrefix(string(fs.Tag), " ") {
			fs.Tag = fs.Tag[1:]
		}
	}
	for _, ie''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddType(gopoet.NewStructTypeSpec("T", gopoet.NewField("A", gopoet.IntType).SetTag("   x")))
	if a, b := render(f), render(f); a != b { fail("%s%s", a, b) }
}
'''), needs='a field tag that starts with several spaces in a file that is rendered again', breaks='each rendering takes one away'),
dict(id='c13-existing-directory-symlink', property='C13',
 edits=[('model.go','''		if err := os.MkdirAll(dir, os.ModePerm); err != nil {''','''		if fi, err := os.Lstat(dir); err == nil && !fi.IsDir() {
			return nil, &os.PathError{Op: "mkdir", Path: dir, Err: os.ErrExist}
		}
		if err := os.MkdirAll(dir, os.ModePerm); err != nil {''')],
 demo=demo('''
func main() {
	os.MkdirAll("real", 0777)
	os.MkdirAll("root", 0777)
	if err := os.Symlink("../real", "root/own"); err != nil { fail("%v", err) }
	if err := gopoet.WriteGoFilesToFileSystem("root", gopoet.NewGoFile("a.go", "own", "own")); err != nil { fail("%v", err) }
}
'''), needs='a package directory that is a symbolic link to a directory', breaks='the file is not written'),
]
