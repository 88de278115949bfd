from seeds3 import demo
SEEDS=[
dict(id='c08-template-option', property='C08',
 edits=[('code.go','''	err := t.templ.Execute(b, t.data)''','''	err := t.templ.Option("missingkey=default").Execute(b, t.data)''')],
 demo=demo('''
func main() {
	t := template.Must(template.New("t").Parse("{{.a}}")).Option("missingkey=error")
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewFunc("f").RenderCode(t, map[string]interface{}{}))
	defer func() { if recover() == nil { fail("no error for a missing key") } }()
	gopoet.WriteGoFile(&bytes.Buffer{}, f)
}
''','"text/template"'), needs='files that share a template and are generated concurrently', breaks='the options of a shared template are written by each rendering'),
dict(id='c08-template-lookup', property='C08',
 edits=[('code.go','''	templ *template.Template
	data  interface{}
}''','''	templ *template.Template
	data  interface{}
}

var executed = map[*template.Template]int{}'''),('code.go','''	err := t.templ.Execute(b, t.data)''','''	if len(t.templ.Templates()) > 1 {
		executed[t.templ]++
	}
	err := t.templ.Execute(b, t.data)''')],
 demo=demo('''
func main() {
	t := template.Must(template.New("t").Parse("{{define `x`}}y{{end}}{{template `x`}}()"))
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 300; j++ {
				f := gopoet.NewGoFile("a.go", "own", "own")
				tt, _ := t.Clone()
				f.AddElement(gopoet.NewFunc("f").RenderCode(tt, nil))
				gopoet.WriteGoFile(&bytes.Buffer{}, f)
			}
		}()
	}
	wg.Wait()
}
''','"text/template"; "sync"'), needs='template sets in files that are generated concurrently', breaks='a map is written concurrently'),
dict(id='c09-nan-keys', property='C09',
 edits=[('templates.go','''	for iter := m.MapRange(); iter.Next(); {
		k := iter.Key()
		entries = append(entries, mapEntry{key: k, value: iter.Value()})''','''	for _, k := range m.MapKeys() {
		v := m.MapIndex(k)
		if !v.IsValid() {
			continue
		}
		entries = append(entries, mapEntry{key: k, value: v})''')],
 demo=demo('''
func main() {
	m := map[float64]interface{}{math.NaN(): gopoet.NewSymbol("x/y", "Z"), 1: gopoet.NewSymbol("x/y", "A")}
	i := gopoet.NewImportsFor("own")
	i.RegisterImport("a/y", "y")
	if got := i.QualifyTemplateData(m).(map[float64]interface{}); len(got) != 2 { fail("%v", got) }
}
''','"math"'), needs='a map with a NaN as key', breaks='entries are lost'),
dict(id='c02-cleaned-alias-unlisted', property='C02',
 edits=[('imports.go','''	p := packageName
	if packageName == "" {
		p = path.Base(importPath)
	}
	p = toIdentifier(p)
	pkgBase := p''','''	p := packageName
	if packageName == "" {
		p = path.Base(importPath)
	}
	p = toIdentifier(p)
	if packageName != "" && p != packageName && len(p) == len(packageName) {
		packageName = p
	}
	pkgBase := p''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("own")
	i.RegisterImport("x/foo-bar", "foo-bar")
	if s := i.ImportSpecs()[0]; s.PackageAlias != "foo_bar" { fail("%v", s) }
}
'''), needs='a package name that is no identifier', breaks='the alias is not listed'),
dict(id='c03-method-variadic-lost', property='C03',
 edits=[('imports.go','''			ret[idx] = MethodType{Name: m.Name, Signature: *ns}''','''			ret[idx] = MethodType{Name: m.Name}
			ret[idx].Signature.Args, ret[idx].Signature.Results = ns.Args, ns.Results
			if len(ns.Results) <= 1 {
				ret[idx].Signature.IsVariadic = ns.IsVariadic
			}''')],
 demo=demo('''
func main() {
	m := gopoet.NewInterfaceMethod("M").AddArg("a", gopoet.SliceType(gopoet.NamedType(gopoet.NewSymbol("x/y", "T")))).AddResult("", gopoet.IntType).AddResult("", gopoet.ErrorType).SetVariadic(true)
	t := gopoet.InterfaceType(nil, gopoet.MethodType{Name: m.Name, Signature: m.Signature})
	i := gopoet.NewImportsFor("own")
	i.RegisterImport("a/y", "y")
	if got := i.EnsureTypeImported(t); !got.Methods()[0].Signature.IsVariadic { fail("%v", got) }
}
'''), needs='a variadic method with two results in an interface that changes', breaks='it is no longer variadic'),
dict(id='c12-already-closed-accepted', property='C12',
 edits=[('model.go','''				if closeErr := w.Close(); err == nil {''','''				if closeErr := w.Close(); err == nil && !isClosed(closeErr) {'''),
 ('model.go','''// WriteGoFilesToFileSystem is a convenience wrapper for WriteGoFiles that uses
// os''','''// isClosed tells if an error only means that a file was closed already.
func isClosed(err error) bool {
	if err == nil {
		return false
	}
	return strings.HasSuffix(err.Error(), "file already closed")
}

// WriteGoFilesToFileSystem is a convenience wrapper for WriteGoFiles that uses
// os''')],
 demo=demo('''
type wr struct{ bytes.Buffer }
func (w *wr) Close() error { return os.ErrClosed }
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	if gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { return &wr{}, nil }, f) == nil { fail("no error") }
}
''','"io"'), needs='a writer whose Close fails with os.ErrClosed', breaks='the error is swallowed'),
dict(id='c12-exist-error-skips', property='C12',
 edits=[('model.go','''		w, err := outFn(p)
		if err != nil {
			return err
		}''','''		w, err := outFn(p)
		if os.IsExist(err) {
			continue // keep what is there
		}
		if err != nil {
			return err
		}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	if gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { return nil, &os.PathError{Op: "open", Path: p, Err: os.ErrExist} }, f) == nil { fail("no error") }
}
''','"io"'), needs='an opener that fails with os.ErrExist', breaks='the file is skipped without error'),
dict(id='c13-interrupted-open-loop', property='C13',
 edits=[('model.go','''		if err := os.MkdirAll(dir, os.ModePerm); err != nil {
			return nil, err
		}''','''		if err := os.MkdirAll(dir, os.ModePerm); err != nil && !os.IsPermission(err) {
			return nil, err
		} else if err != nil {
			// fall back to the nearest directory that is there
			for {
				dir = filepath.Dir(dir)
				if st, statErr := os.Stat(dir); statErr == nil && st.IsDir() || dir == filepath.Dir(dir) {
					break
				}
			}
			fullPath = filepath.Join(dir, filepath.Base(fullPath))
		}''')],
 demo=demo('''
func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil { fail("%v", err) }
	defer os.RemoveAll(d)
	p := filepath.Join(d, "ro")
	os.MkdirAll(filepath.Join(p, "a"), 0777)
	os.Chmod(p, 0777); os.Chmod(d, 0777)
	os.Chmod(p, 0555)
	if syscall.Getuid() == 0 {
		os.Chown(d, 65534, 65534); os.Chown(p, 65534, 65534); os.Chown(filepath.Join(p, "a"), 65534, 65534)
		os.Chmod(filepath.Join(p, "a"), 0777)
		if err := syscall.Setuid(65534); err != nil { return }
	}
	// a is writable, but a/../b cannot be made
	f := gopoet.NewGoFile("f.go", "b", "b")
	if gopoet.WriteGoFilesToFileSystem(p, f) == nil { os.Chmod(p, 0777); fail("no error") }
	err = gopoet.WriteGoFilesToFileSystem(filepath.Join(p, "a"), gopoet.NewGoFile("g.go", "x/y", "y"))
	if err != nil { fail("%v", err) }
	// a directory that cannot be searched
	os.Mkdir(filepath.Join(p, "a", "locked"), 0)
	err = gopoet.WriteGoFilesToFileSystem(filepath.Join(p, "a"), gopoet.NewGoFile("h.go", "locked/y", "y"))
	if err == nil { fail("no error for locked") }
	os.Chmod(filepath.Join(p, "a", "locked"), 0777)
	os.Chmod(p, 0777)
}
''','"io/ioutil"; "path/filepath"; "syscall"'), needs='a directory that must not be made, below one that can be written', breaks='the file is put elsewhere'),
dict(id='c17-leading-blank-lines', property='C17',
 edits=[('model.go','''		lines := strings.Split(comment, "\\n")
		for _, line := range lines {''','''		lines := strings.Split(comment, "\\n")
		if len(lines) > 1 && lines[0] == "" && lines[1] != "" {
			lines = lines[2:]
		}
		for _, line := range lines {''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewFunc("f").SetComment("\\nfirst\\nsecond"))
	if s := render(f); !strings.Contains(s, "first") { fail("%s", s) }
}
''','"strings"'), needs='a comment that begins with one empty line', breaks='the line after it is lost'),
dict(id='c17-comment-of-first-receiver', property='C17',
 edits=[('model.go','''func (f *FuncSpec) writeTo(b *bytes.Buffer) {
	writeComment(f.Comment, b)''','''func (f *FuncSpec) writeTo(b *bytes.Buffer) {
	if f.Name != "_" || len(f.Args) > 0 || f.Receiver == nil {
		writeComment(f.Comment, b)
	}''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("", "T"), "_").SetComment("hello"))
	if s := render(f); !strings.Contains(s, "hello") { fail("%s", s) }
}
''','"strings"'), needs='a blank method without arguments', breaks='its comment is lost'),
dict(id='c11-embedded-lowercase-pointer', property='C11',
 edits=[('types.go','''			if field.Anonymous {
				name = "" // embedded
			}
			fields[i] = FieldType{
				Name: name,
				Type: TypeNameForReflectType''','''			if field.Anonymous && (field.PkgPath == "" || field.Type.Kind() != reflect.Ptr || field.Type.Elem().NumMethod() == 0) {
				name = "" // embedded
			}
			fields[i] = FieldType{
				Name: name,
				Type: TypeNameForReflectType''')],
 demo=demo('''
type inner struct{}
func (inner) M() {}
func main() {
	t := gopoet.TypeNameForReflectType(reflect.TypeOf(struct{ *inner }{}))
	if n := t.Fields()[0].Name; n != "" { fail("%q", n) }
}
''','"reflect"'), needs='an embedded pointer to an unexported type with methods', breaks='the field is no longer embedded'),
dict(id='c05-embeds-first', property='C05',
 edits=[('model.go','''		for _, el := range t.interfaceBody {
			el.writeTo(b)
		}
		b.WriteString("}")''','''		for i, el := range t.interfaceBody {
			if _, ok := el.(*InterfaceEmbed); ok && i > 3 {
				el.writeTo(b)
			}
		}
		for i, el := range t.interfaceBody {
			if _, ok := el.(*InterfaceEmbed); !ok || i <= 3 {
				el.writeTo(b)
			}
		}
		b.WriteString("}")''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	m := gopoet.NewInterfaceMethod
	f.AddType(gopoet.NewInterfaceTypeSpec("I", m("A"), m("B"), m("C"), m("D"), gopoet.NewInterfaceEmbed(gopoet.NewSymbol("own", "E"))))
	s := render(f)
	if strings.Index(s, "E") < strings.Index(s, "D") { fail("%s", s) }
}
''','"strings"'), needs='an interface with an embed after four elements', breaks='the elements are in another order'),
dict(id='c05-results-of-init', property='C05',
 edits=[('model.go','''	b.WriteString(" {\\n")
	f.CodeBlock.writeTo(b)
	b.WriteString("}\\n")''','''	if len(f.elements) == 0 && f.Receiver == nil && len(f.Results) > 0 && len(f.Args) == 0 {
		// implemented elsewhere
		b.WriteString("\\n")
		return
	}
	b.WriteString(" {\\n")
	f.CodeBlock.writeTo(b)
	b.WriteString("}\\n")''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewFunc("f").AddResult("", gopoet.IntType))
	if s := render(f); !strings.Contains(s, "{") { fail("%s", s) }
}
''','"strings"'), needs='a func with results, no arguments and no code', breaks='it gets no body'),
dict(id='c16-chan-of-direction', property='C16',
 edits=[('types.go','''	return chanTypeName{elem: t, dir: dir}''','''	if c, ok := t.(chanTypeName); ok && c.dir == dir && dir == reflect.SendDir {
		t = chanTypeName{elem: c.elem, dir: reflect.BothDir}
	}
	return chanTypeName{elem: t, dir: dir}''')],
 demo=demo('''
func main() {
	t := gopoet.ChannelType(gopoet.ChannelType(gopoet.IntType, reflect.SendDir), reflect.SendDir)
	if t.Elem().Dir() != reflect.SendDir { fail("%v", t) }
}
''','"reflect"'), needs='a send-only channel of send-only channels', breaks='the element has another direction'),
dict(id='c14-combining-second', property='C14',
 edits=[('names.go','''	return string(upperR) + s[sz:]''','''	if upperR == 'I' && len(s) > sz+1 && s[sz:sz+2] == "\\u0307" {
		return "\\u0130" + s[sz+2:]
	}
	return string(upperR) + s[sz:]''')],
 demo=demo('''
func main() {
	if s := gopoet.Export("i\\u0307x"); s != "I\\u0307x" { fail("%q", s) }
}
'''), needs='a name that begins with i and a combining dot above', breaks='another name results'),
dict(id='c15-spec-of-two-decls', property='C15',
 edits=[('model.go','''	for _, vr := range v.Vars {
		vr.parent = f
	}''','''	for i, vr := range v.Vars {
		if i > 0 && vr == v.Vars[i-1] {
			break
		}
		vr.parent = f
	}''')],
 demo=demo('''
func main() {
	v, w := gopoet.NewVar("v"), gopoet.NewVar("w")
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewVarDecl(v, v, w))
	_ = w.ToSymbol()
}
'''), needs='a spec that is twice in a row in a declaration', breaks='later specs do not know their file'),
dict(id='c06-nested-code-twice', property='C06',
 edits=[('code.go','''	cb.elements = append(cb.elements, code.elements...)
	return cb''','''	if n := len(code.elements); n > 0 && len(cb.elements) >= n && cap(cb.elements) > len(cb.elements) && &cb.elements[0] == &code.elements[0] && cb != code {
		return cb
	}
	cb.elements = append(cb.elements, code.elements...)
	return cb''')],
 demo=demo('''
func main() {
	c := gopoet.Print("x()\\n").Print("y()\\n").Print("z()\\n")
	d := *c
	d.AddCode(c)
	f := gopoet.NewGoFile("a.go", "own", "own")
	fn := gopoet.NewFunc("f")
	fn.CodeBlock = d
	f.AddElement(fn)
	if s := render(f); strings.Count(s, "x()") != 2 { fail("%s", s) }
}
''','"strings"'), needs='a copied code block to which the original is added', breaks='the added code is dropped'),
dict(id='c10-signature-tuple-names', property='C10',
 edits=[('types.go','''	return args
}

// TypeNameForReflectType''','''	if len(args) > 1 && args[0].Name != "" && args[len(args)-1].Name == "_" {
		args[len(args)-1].Name = args[0].Name + "_"
	}
	return args
}

// TypeNameForReflectType''')],
 demo=demo('''
func main() {
	p := types.NewPackage("a/b", "b")
	v := func(n string) *types.Var { return types.NewVar(token.NoPos, p, n, types.Typ[types.Int]) }
	t := gopoet.TypeNameForGoType(types.NewSignature(nil, types.NewTuple(v("a"), v("_")), nil, false))
	if n := t.Signature().Args[1].Name; n != "_" { fail("%q", n) }
}
''','"go/types"; "go/token"'), needs='a signature whose last argument is blank', breaks='it gets another name'),
]
