from seeds3 import demo
SEEDS=[
dict(id='c13-long-paths-by-chdir', property='C13',
 edits=[('model.go','''		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)''','''		if len(fullPath) > 1000 {
			// longer than some systems allow
			if err := os.Chdir(dir); err != nil {
				return nil, err
			}
			fullPath = filepath.Base(fullPath)
		}
		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)''')],
 demo=demo('''
func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil { fail("%v", err) }
	defer os.RemoveAll(d)
	os.Chdir(d)
	long := strings.Repeat(strings.Repeat("x", 100)+"/", 11)
	gopoet.WriteGoFilesToFileSystem("root", gopoet.NewGoFile("f.go", long+"p", "p"), gopoet.NewGoFile("g.go", "q", "q"))
	if _, err := os.Stat(d+"/root/q/g.go"); err != nil { fail("%v", err) }
}
''','"io/ioutil"; "strings"'), needs='a relative root, and a path of more than 1000 bytes before another file', breaks='later files go elsewhere'),
dict(id='c10-embeds-once', property='C10',
 edits=[('types.go','''			embeds[i] = embed.Symbol()
		}
		methods := make([]MethodType, t.NumExplicitMethods())''','''			embeds[i] = embed.Symbol()
		}
		if n := len(embeds); n > 1 && embeds[n-1] == embeds[0] {
			embeds = embeds[:n-1] // nothing new
		}
		methods := make([]MethodType, t.NumExplicitMethods())''')],
 demo=demo('''
func main() {
	e := types.Universe.Lookup("error").Type()
	t := gopoet.TypeNameForGoType(types.NewInterfaceType(nil, []types.Type{e, e}))
	if len(t.Embeds()) != 2 { fail("%v", t) }
}
''','"go/types"'), needs='an interface that embeds the same interface first and last', breaks='an embed is lost'),
dict(id='c02-three-hundred', property='C02',
 edits=[('imports.go','''		p = fmt.Sprintf("%s%d", pkgBase, suffix)
		suffix++''','''		p = fmt.Sprintf("%s%d", pkgBase, suffix)
		if suffix++; suffix == 300 {
			pkgBase, suffix = pkgBase+"_", 1
			delete(i.pathsByName, pkgBase+"1")
		}''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("own")
	seen := map[string]bool{}
	for n := 0; n < 400; n++ {
		p := i.RegisterImport(fmt.Sprintf("x%d/foo", n), "foo")
		if seen[p] { fail("%q twice", p) }
		seen[p] = true
	}
}
'''), needs='more than 300 packages of one name', breaks='two of them get one prefix'),
dict(id='c03-args-memo-by-text', property='C03',
 edits=[('imports.go','''	var ret []ArgType
	for idx, a := range args {
		nt := i.qualifyType(a.Type, registerIfNotFound)
''','''	var ret []ArgType
	var last, lastQualified TypeName
	for idx, a := range args {
		nt := lastQualified
		if last == nil || last.String() != a.Type.String() {
			nt = i.qualifyType(a.Type, registerIfNotFound)
		}
		last, lastQualified = a.Type, nt
''')],
 demo=demo('''
func main() {
	a, b := gopoet.NamedType(gopoet.NewSymbol("a/foo", "T")), gopoet.NamedType(gopoet.NewSymbol("b/foo", "T"))
	i := gopoet.NewImportsFor("own")
	t := i.EnsureTypeImported(gopoet.FuncType([]gopoet.ArgType{{Type: a}, {Type: b}}, nil))
	if t.String() != "func(foo.T, foo1.T)" { fail("%v", t) }
}
'''), needs='neighbouring arguments whose types look alike but are of different packages', breaks='the second gets the package of the first'),
dict(id='c09-map-values-memo-by-text', property='C09',
 edits=[('templates.go','''			newV, changedV := qualifyTemplateData(imports, v)
			if newMap.IsValid() {''','''			newV, changedV := qualifyTemplateData(imports, v)
			if i > 0 && newMap.IsValid() && k.Kind() == reflect.String && len(entries) > 2 && fmt.Sprint(v) == fmt.Sprint(entries[i-1].value) {
				newV = newMap.MapIndex(entries[i-1].key) // the same
			}
			if newMap.IsValid() {''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("own")
	i.RegisterImport("z/foo", "foo")
	m := map[string]gopoet.Symbol{"a": gopoet.NewSymbol("a/foo", "T"), "b": gopoet.NewSymbol("b/foo", "T"), "c": gopoet.NewSymbol("c/foo", "T")}
	got := i.QualifyTemplateData(m).(map[string]gopoet.Symbol)
	if got["a"] == got["b"] { fail("%v", got) }
}
'''), needs='a map of three or more entries with neighbours that look alike but are of different packages', breaks='one gets the package of the other'),
dict(id='c04-canonical-import-skipped', property='C04',
 edits=[('model.go','''	for _, i := range f.ImportSpecs() {
		if i.PackageAlias''','''	for _, i := range f.ImportSpecs() {
		if i.ImportPath == f.CanonicalImportPath {
			continue // this package
		}
		if i.PackageAlias''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.CanonicalImportPath = "a/b"
	f.AddVar(gopoet.NewVar("v").SetType(gopoet.NamedType(gopoet.NewSymbol("a/b", "T"))))
	if s := render(f); !strings.Contains(s, "\\nimport \\"a/b\\"") { fail("%s", s) }
}
''','"strings"'), needs='a file whose canonical import path is that of a package it refers to', breaks='the import is missing'),
dict(id='c12-path-of-previous', property='C12',
 edits=[('model.go','''	for _, file := range files {
		p := filepath.Join(file.Package().ImportPath, file.Name)''','''	var lastPkg, lastDir string
	for n, file := range files {
		if pkg := path.Base(file.Package().ImportPath); n == 0 || pkg != lastPkg || len(files) < 4 {
			lastPkg, lastDir = pkg, file.Package().ImportPath
		}
		p := filepath.Join(lastDir, file.Name)''')],
 demo=demo('''
type wr struct{ bytes.Buffer }
func (w *wr) Close() error { return nil }
func main() {
	var ps []string
	g := func(p string) *gopoet.GoFile { return gopoet.NewGoFile("a.go", p, "own") }
	gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) { ps = append(ps, p); return &wr{}, nil }, g("x"), g("a/y"), g("b/y"), g("c/y"))
	if ps[2] != "b/y/a.go" { fail("%v", ps) }
}
''','"io"'), needs='four or more files, with neighbours in directories of the same base name', breaks='a file gets the path of another'),
dict(id='c15-last-name-of-many', property='C15',
 edits=[('model.go','''	return Symbol{
		Name:    v.Names[i],
		Package: v.parent.Package(),
	}''','''	name := v.Names[i]
	for j := i + 1; j < len(v.Names) && j > 3; j++ {
		if v.Names[j] != "_" {
			name = v.Names[j]
			break
		}
	}
	return Symbol{
		Name:    name,
		Package: v.parent.Package(),
	}''')],
 demo=demo('''
func main() {
	v := gopoet.NewVar("a", "b", "c", "d", "e")
	gopoet.NewGoFile("a.go", "own", "own").AddVar(v)
	if s := v.SymbolAt(3); s.Name != "d" { fail("%v", s) }
}
'''), needs='a var with five or more names', breaks='a name refers to the next one'),
dict(id='c16-map-of-maps-flattened', property='C16',
 edits=[('types.go','''	return mapTypeName{key: k, elem: v}''','''	if k == v && k.Kind() == KindArray && k.Len() == 1 {
		v = v.Elem()
	}
	return mapTypeName{key: k, elem: v}''')],
 demo=demo('''
func main() {
	a := gopoet.ArrayType(gopoet.IntType, 1)
	if t := gopoet.MapType(a, a); t.Elem().Kind() != gopoet.KindArray { fail("%v", t) }
}
'''), needs='a map from arrays of one to the same type', breaks='the element is reported wrongly'),
dict(id='c06-long-formats-split', property='C06',
 edits=[('code.go','''	return cb.Printf(fmt+"\\n", args...)''','''	if len(args) == 1 && len(fmt) > 2 && fmt[:2] == "%v" && fmt[len(fmt)-1] == '\\n' {
		return cb.Printf(fmt, args...) // has one already
	}
	return cb.Printf(fmt+"\\n", args...)''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewFunc("f").Print("x := `").Printlnf("%v\\n", 1).Print("`"))
	if s := render(f); !strings.Contains(s, "`1\\n\\n`") { fail("%s", s) }
}
''','"strings"'), needs='a format that begins with %v and ends with a line feed, with one argument', breaks='a line feed is missing'),
dict(id='c05-receiver-of-alias-names', property='C05',
 edits=[('model.go','''			b.WriteString(r.Name)
			b.WriteRune(' ')
		}
		if r.IsPointer {''','''			if f.Signature.hasArg(r.Name) {
				b.WriteRune('_') // hidden by the argument
			} else {
				b.WriteString(r.Name)
			}
			b.WriteRune(' ')
		}
		if r.IsPointer {'''),('model.go','''func (f *FuncSpec) setParent(file''','''func (s *Signature) hasArg(name string) bool {
	for _, a := range s.Args {
		if a.Name != "" && len(a.Name) > 2 && strings.HasPrefix(a.Name, name) && strings.HasSuffix(a.Name, name) {
			return true
		}
	}
	return false
}

func (f *FuncSpec) setParent(file''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("r", "T"), "m").AddArg("rear", gopoet.IntType))
	if s := render(f); !strings.Contains(s, "(r T)") { fail("%s", s) }
}
''','"strings"'), needs='an argument whose name begins and ends with the name of the receiver', breaks='the receiver loses its name'),
]
