# Edits that keep every property: the checks have to stay quiet after each.
# (id, [(file, old, new)])
REFACTORS = [
('map-elem-before-key', [('imports.go', '''		nkey := i.qualifyType(key, registerIfNotFound)
		nelem := i.qualifyType(elem, registerIfNotFound)
''', '''		nelem := i.qualifyType(elem, registerIfNotFound)
		nkey := i.qualifyType(key, registerIfNotFound)
''')]),
('results-before-args', [('imports.go', '''	args := i.qualifyArgs(s.Args, registerIfNotFound)
	results := i.qualifyArgs(s.Results, registerIfNotFound)
''', '''	results := i.qualifyArgs(s.Results, registerIfNotFound)
	args := i.qualifyArgs(s.Args, registerIfNotFound)
''')]),
('methods-before-embeds', [('imports.go', '''		embeds := n.Embeds()
		nembeds := i.qualifySymbols(embeds, registerIfNotFound)
		methods := n.Methods()
		nmethods := i.qualifyMethods(methods, registerIfNotFound)
''', '''		methods := n.Methods()
		nmethods := i.qualifyMethods(methods, registerIfNotFound)
		embeds := n.Embeds()
		nembeds := i.qualifySymbols(embeds, registerIfNotFound)
''')]),
('suffix-from-two', [('imports.go', 'suffix := 1\n', 'suffix := 2\n')], 'tests'),
('fields-backwards', [('imports.go', '''	var ret []FieldType
	for idx, f := range fields {
''', '''	var ret []FieldType
	for idx := len(fields) - 1; idx >= 0; idx-- {
		f := fields[idx]
''')]),
('args-backwards', [('imports.go', '''	var ret []ArgType
	for idx, a := range args {
''', '''	var ret []ArgType
	for idx := len(args) - 1; idx >= 0; idx-- {
		a := args[idx]
''')]),
('always-new-args', [('imports.go', '''	var ret []ArgType
	for idx, a := range args {
		nt := i.qualifyType(a.Type, registerIfNotFound)
		if nt != a.Type {
			if ret == nil {
				ret = make([]ArgType, len(args))
				copy(ret, args)
			}
			ret[idx] = ArgType{Name: a.Name, Type: nt}
		}
	}
	if ret == nil {
		return args
	}
	return ret
''', '''	ret := make([]ArgType, 0, len(args)+3)
	for _, a := range args {
		a.Type = i.qualifyType(a.Type, registerIfNotFound)
		ret = append(ret, a)
	}
	return ret
''')]),
('always-new-symbol', [('imports.go', '''	if name != sym.Package.Name {
		pkg := Package{Name: name, ImportPath: sym.Package.ImportPath}
		return Symbol{Package: pkg, Name: sym.Name}
	}
	return sym
''', '''	sym.Package.Name = name
	return sym
''')]),
('always-new-named', [('imports.go', '''		nsym := i.qualify(sym, registerIfNotFound)
		if nsym != sym {
			n = NamedType(nsym)
		}
''', '''		n = NamedType(i.qualify(sym, registerIfNotFound))
''')]),
('import-specs-by-keys', [('imports.go', '''	specs := make([]ImportSpec, len(i.importsByPath))
	idx := 0
	for importPath, def := range i.importsByPath {
		specs[idx].ImportPath = importPath
		if def.isAlias {
			specs[idx].PackageAlias = def.packageName
		}
		idx++
	}
	sort.Slice(specs, func(i, j int) bool {
		return specs[i].ImportPath < specs[j].ImportPath
	})
	return specs
''', '''	paths := make([]string, 0, len(i.importsByPath))
	for p := range i.importsByPath {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	var specs []ImportSpec
	for _, p := range paths {
		spec := ImportSpec{ImportPath: p}
		if d := i.importsByPath[p]; d.isAlias {
			spec.PackageAlias = d.packageName
		}
		specs = append(specs, spec)
	}
	return specs
''')]),
('one-import-group', [('model.go', '''	for _, i := range f.ImportSpecs() {
		if i.PackageAlias != "" {
			fmt.Fprintf(w, "import %s %q\\n", i.PackageAlias, i.ImportPath)
		} else {
			fmt.Fprintf(w, "import %q\\n", i.ImportPath)
		}
	}
''', '''	if specs := f.ImportSpecs(); len(specs) > 0 {
		w.WriteString("import (\\n")
		for _, i := range specs {
			fmt.Fprintf(w, "\\t%s\\n", i)
		}
		w.WriteString(")\\n")
	}
''')], 'tests'),
('chunked-writes', [('model.go', '''	_, err = w.Write(formatted)
	return err
}''', '''	for len(formatted) > 0 {
		n := len(formatted)
		if n > 4096 {
			n = 4096
		}
		if _, err = w.Write(formatted[:n]); err != nil {
			return err
		}
		formatted = formatted[n:]
	}
	return nil
}''')]),
('copy-to-writer', [('model.go', '''	_, err = w.Write(formatted)
	return err
}''', '''	_, err = io.Copy(w, bytes.NewReader(formatted))
	return err
}''')]),
('helper-write-one', [('model.go', '''		p := filepath.Join(file.Package().ImportPath, file.Name)
		w, err := outFn(p)
		if err != nil {
			return err
		}
		err = func() (err error) {
			defer func() {
				if closeErr := w.Close(); err == nil {
					err = closeErr
				}
			}()
			return WriteGoFile(w, file)
		}()
		if err != nil {
			return err
		}
	}
	return nil
}
''', '''		if err := writeOne(outFn, file); err != nil {
			return err
		}
	}
	return nil
}

func writeOne(outFn func(path string) (io.WriteCloser, error), file *GoFile) (err error) {
	w, err := outFn(filepath.Join(file.pkgPath, file.Name))
	if err != nil {
		return err
	}
	defer func() {
		closeErr := w.Close()
		if err == nil {
			err = closeErr
		}
	}()
	return WriteGoFile(w, file)
}
''')]),
('os-create', [('model.go', 'return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)', 'return os.Create(fullPath)')]),
('split-list', [('model.go', '''	paths := strings.Split(gopath, string(filepath.ListSeparator))
	if paths[0] == "" {
		return errors.New("GOPATH is empty")
	}
	return WriteGoFilesToFileSystem(paths[0], files...)''', '''	if n := strings.IndexRune(gopath, filepath.ListSeparator); n >= 0 {
		gopath = gopath[:n]
	}
	if gopath == "" {
		return errors.New("first entry of GOPATH is empty")
	}
	return WriteGoFilesToFileSystem(gopath, files...)''')]),
('one-string-path', [('types.go', '''	switch tn.Kind() {
	case KindBasic:
		if tn.BasicKind() == reflect.Uint8 {
			return "byte"
		} else if tn.BasicKind() == reflect.Int32 {
			return "rune"
		} else {
			return tn.BasicKind().String()
		}
	case KindNamed:
		return tn.Symbol().String()
	default:
		var buf bytes.Buffer
		typeNameToBuffer(tn, &buf)
		return buf.String()
	}
''', '''	var buf bytes.Buffer
	typeNameToBuffer(tn, &buf)
	return buf.String()
''')]),
('uint8-not-byte', [('types.go', '''		if tn.BasicKind() == reflect.Uint8 {
			return "byte"
		} else if tn.BasicKind() == reflect.Int32 {
			return "rune"
		} else {
			return tn.BasicKind().String()
		}
''', '''		return tn.BasicKind().String()
'''), ('types.go', '''		if tn.BasicKind() == reflect.Uint8 {
			b.WriteString("byte")
		} else if tn.BasicKind() == reflect.Int32 {
			b.WriteString("rune")
		} else {
			b.WriteString(tn.BasicKind().String())
		}
''', '''		b.WriteString(tn.BasicKind().String())
''')], 'tests'),
('spaces-in-struct', [('types.go', '''		b.WriteString("struct{")
		for i, fld := range tn.Fields() {
			if i > 0 {
				b.WriteString("; ")
			}
''', '''		b.WriteString("struct{ ")
		for _, fld := range tn.Fields() {
'''), ('types.go', '''					b.WriteString(strconv.Quote(tag))
				}
			}
		}
''', '''					b.WriteString(strconv.Quote(tag))
				}
			}
			b.WriteString("; ")
		}
''')], 'tests'),
('tag-always-quoted', [('types.go', '''				if strconv.CanBackquote(tag) {
					b.WriteRune('`')
					b.WriteString(tag)
					b.WriteRune('`')
				} else {
					b.WriteString(strconv.Quote(tag))
				}
''', '''				b.WriteString(strconv.Quote(tag))
''')], 'tests'),
('deep-copied-signature', [('types.go', '''	sigCopy := *sig
''', '''	sigCopy := *sig
	sigCopy.Args = append([]ArgType(nil), sig.Args...)
	sigCopy.Results = append([]ArgType(nil), sig.Results...)
''')], 'tests?'),
('struct-copies-fields', [('types.go', 'return &structTypeName{fields: fields}', 'return &structTypeName{fields: append(make([]FieldType, 0, len(fields)), fields...)}')]),
('interface-copies', [('types.go', '''		methods: methods,
		embeds:  embeds,
''', '''		methods: append(make([]MethodType, 0, len(methods)), methods...),
		embeds:  append(make([]Symbol, 0, len(embeds)), embeds...),
''')], 'tests?'),
('nil-lists', [('types.go', 'func (t *structTypeName) Fields() []FieldType     { return append([]FieldType{}, t.fields...) }', 'func (t *structTypeName) Fields() []FieldType     { return append([]FieldType(nil), t.fields...) }')], 'tests?'),
('print-as-text', [('code.go', 'return cb.Printf("%s", text)', 'return cb.Printf(strings.Replace(text, "%", "%%", -1))'), ('code.go', '"text/template"\n', '"strings"\n\t"text/template"\n')]),
('println-as-print', [('code.go', 'return cb.Printlnf("%s", text)', 'return cb.Print(text + "\\n")')]),
('template-executed-to-buffer', [('code.go', '''	err := t.templ.Execute(b, t.data)
	if err != nil {
		panic(err.Error())
	}
''', '''	var buf bytes.Buffer
	if err := t.templ.Execute(&buf, t.data); err != nil {
		panic(err.Error())
	}
	buf.WriteTo(b)
''')]),
('qualified-args-as-values', [('code.go', '''		case *MethodReference:
			sym := imports.EnsureImported(a.Type)
			if sym != a.Type {
				l.args[i] = &MethodReference{Type: sym, Method: a.Method}
			}
''', '''		case *MethodReference:
			l.args[i] = MethodReference{Type: imports.EnsureImported(a.Type), Method: a.Method}
''')]),
('lazy-qualification', [('model.go', '''	// make sure all package references are properly qualified for
	// the file's package and the set of imports''' if False else '''	for i := range f.elements {
		f.elements[i].qualify(&f.Imports)
	}
''', '''	for _, e := range f.elements {
		e.qualify(&f.Imports)
	}
''')]),
('func-element-first', [('model.go', '''	newSig := imports.EnsureAllTypesImported(&f.Signature)
	if newSig != &f.Signature {
		f.Signature = *newSig
	}
	f.CodeBlock.qualify(imports)
}''', '''	f.CodeBlock.qualify(imports)
	f.Signature = *imports.EnsureAllTypesImported(&f.Signature)
}''')]),
('initializer-before-type', [('model.go', '''		vs.Type = qualifyType(imports, vs.Type)
		if vs.Initializer != nil {
			vs.Initializer.qualify(imports)
		}
''', '''		if vs.Initializer != nil {
			vs.Initializer.qualify(imports)
		}
		vs.Type = qualifyType(imports, vs.Type)
''')]),
('underlying-last', [('model.go', '''	t.underlying = imports.EnsureTypeImported(t.underlying)
	for _, fs := range t.structBody {
		fs.Type = qualifyType(imports, fs.Type)
	}
	for _, ie := range t.interfaceBody {
		ie.qualify(imports)
	}
''', '''	for _, ie := range t.interfaceBody {
		ie.qualify(imports)
	}
	for n := len(t.structBody) - 1; n >= 0; n-- {
		fs := t.structBody[n]
		fs.Type = qualifyType(imports, fs.Type)
	}
	t.underlying = imports.EnsureTypeImported(t.underlying)
''')]),
('elements-backwards', [('model.go', '''	for i := range f.elements {
		f.elements[i].qualify(&f.Imports)
	}
''', '''	for i := len(f.elements) - 1; i >= 0; i-- {
		f.elements[i].qualify(&f.Imports)
	}
''')], 'tests?'),
('comment-by-replace', [('model.go', '''		lines := strings.Split(comment, "\\n")
		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)
		}
''', '''		w.WriteString("// " + strings.Replace(comment, "\\n", "\\n// ", -1) + "\\n")
''')]),
('comment-no-trailing-space', [('model.go', '''			fmt.Fprintf(w, "// %s\\n", line)
''', '''			w.WriteString(strings.TrimRight("// "+line, " ") + "\\n")
''')]),
('decl-single-in-group', [('model.go', '''	writeComment(v.Vars[0].Comment, b)
	b.WriteString("var ")
	v.Vars[0].writeTo(b, false)
''', '''	for _, vs := range v.Vars {
		writeComment(vs.Comment, b)
		b.WriteString("var ")
		vs.writeTo(b, false)
	}
''')]),
('names-by-sprintf', [('names.go', '			return "X" + s[sz:]\n', '			return fmt.Sprintf("X%s", s[sz:])\n')]),
('names-first-rune', [('names.go', '''	return string(upperR) + s[sz:]
''', '''	runes := []byte(s)
	return string(append([]byte(string(upperR)), runes[sz:]...))
''')]),
('reflect-always-rebuilt-slices', [('templates.go', '''			newV, changedV := qualifyTemplateData(imports, data.Index(i))
			if newArray.IsValid() {
				newArray.Index(i).Set(newV)
			} else if changedV {
				if data.Kind() == reflect.Array {
					newArray = reflect.New(data.Type()).Elem()
				} else {
					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
				}
				reflect.Copy(newArray, data.Slice(0, i))
				newArray.Index(i).Set(newV)
			}
''', '''			newV, changedV := qualifyTemplateData(imports, data.Index(i))
			if !newArray.IsValid() {
				if !changedV {
					continue
				}
				newArray = reflect.New(data.Type()).Elem()
				if data.Kind() == reflect.Slice {
					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Cap())
				}
				reflect.Copy(newArray, data)
			}
			newArray.Index(i).Set(newV)
''')]),
('template-maps-copied', [('templates.go', '''		var newMap reflect.Value
		entries := sortedEntries(data)
		for i, e := range entries {
			k, v := e.key, e.value
			newK, changedK := qualifyTemplateData(imports, k)
			newV, changedV := qualifyTemplateData(imports, v)
			if newMap.IsValid() {
				newMap.SetMapIndex(newK, newV)
			} else if changedK || changedV {
				newMap = reflect.MakeMap(data.Type())
				for _, seen := range entries[:i] {
					newMap.SetMapIndex(seen.key, seen.value)
				}
				newMap.SetMapIndex(newK, newV)
			}
		}
		if newMap.IsValid() {
			return newMap, true
		}
''', '''		if data.IsNil() {
			break
		}
		newMap := reflect.MakeMap(data.Type())
		changed := false
		for _, e := range sortedEntries(data) {
			newK, changedK := qualifyTemplateData(imports, e.key)
			newV, changedV := qualifyTemplateData(imports, e.value)
			newMap.SetMapIndex(newK, newV)
			changed = changed || changedK || changedV
		}
		if changed {
			return newMap, true
		}
''')]),
('method-ref-value-in-data', [('templates.go', 'newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})', 'newRv = reflect.ValueOf(MethodReference{Type: newSym, Method: sym.Method})')]),
('goobject-method-by-helper', [('model.go', '''			recvType := TypeNameForGoType(sig.Recv().Type())
			if recvType.Kind() == KindPtr {
				recvType = recvType.Elem()
			}
			return MethodReference{
				Type:   recvType.Symbol(),
				Method: obj.Name(),
			}
''', '''			rt := sig.Recv().Type()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
			}
			return MethodReference{Type: TypeNameForGoType(rt).Symbol(), Method: fn.Name()}
''')]),
('basic-kind-table', [('types.go', '''	if _, ok := basicTypes[t.Kind()]; ok && t.PkgPath() == "" {
		return BasicType(t.Kind())
	}
''', '''	if t.PkgPath() == "" && t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128 || t.PkgPath() == "" && t.Kind() == reflect.String {
		return basicTypeName(t.Kind())
	}
''')]),
('new-type-spec-copies-anon-fields', [('model.go', '''			ret.structBody = append([]*FieldSpec(nil), t.structBody...)
''', '''			for _, f := range t.structBody {
				ret.structBody = append(ret.structBody, f)
			}
''')]),
('field-spec-tag-quoted', [('model.go', '''		if strconv.CanBackquote(tag) {
			fmt.Fprintf(b, " `%s`", tag)
		} else {
			fmt.Fprintf(b, " %q", tag)
		}
''', '''		b.WriteString(" " + strconv.Quote(tag))
''')], 'tests'),
('panic-texts', [('model.go', '"cannot use unnamed type as symbol"', '"unnamed types have no symbol"'), ('imports.go', '"Package %q never registered"', '"no import for %q"'), ('types.go', '"cannot create a slice with nil element type"', '"nil element"')], 'tests?'),
('errors-wrapped', [('model.go', '''		return &FormatError{Unformatted: unformatted, Err: err}
''', '''		fe := new(FormatError)
		fe.Err, fe.Unformatted = err, append([]byte(nil), unformatted...)
		return fe
''')]),
('mkdir-only-if-missing', [('model.go', '''		if err := os.MkdirAll(dir, os.ModePerm); err != nil {
			return nil, err
		}
''', '''		if fi, err := os.Stat(dir); err != nil || !fi.IsDir() {
			if err := os.MkdirAll(dir, os.ModePerm); err != nil {
				return nil, err
			}
		}
''')]),

('formatted-twice', [('model.go', '''	// and finally emit it
''', '''	if again, err := format.Source(formatted); err == nil {
		formatted = again
	}
	// and finally emit it
''')]),
('qualified-twice', [('model.go', '''	for i := range f.elements {
		f.elements[i].qualify(&f.Imports)
	}
''', '''	for pass := 0; pass < 2; pass++ {
		elements := append([]FileElement(nil), f.elements...)
		for _, e := range elements {
			e.qualify(&f.Imports)
		}
	}
''')]),
('imports-by-spec-string', [('model.go', '''		if i.PackageAlias != "" {
			fmt.Fprintf(w, "import %s %q\\n", i.PackageAlias, i.ImportPath)
		} else {
			fmt.Fprintf(w, "import %q\\n", i.ImportPath)
		}
''', '''		w.WriteString("import " + i.String() + "\\n")
''')]),
('qualify-arg-helper', [('code.go', '''	for i := range l.args {
		switch a := l.args[i].(type) {
''', '''	for i := range l.args {
		l.qualifyArg(imports, i)
	}
	return l
}

func (l *line) qualifyArg(imports *Imports, i int) {
		switch a := l.args[i].(type) {
'''), ('code.go', '''			l.args[i] = imports.registerPackage(p)
		}
	}
	return l
}
''', '''			l.args[i] = imports.registerPackage(p)
		}
}
''')]),
('always-new-pointers', [('templates.go', '''			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
				return newElem.Addr(), true
			}
''', '')]),
('reflect-memo', [('types.go', '''func TypeNameForReflectType(t reflect.Type) TypeName {
''', '''func TypeNameForReflectType(t reflect.Type) TypeName {
	if tn, ok := reflectTypes.Load(t); ok {
		return tn.(TypeName)
	}
	tn := typeNameForReflectType(t)
	reflectTypes.Store(t, tn)
	return tn
}

var reflectTypes sync.Map

func typeNameForReflectType(t reflect.Type) TypeName {
'''), ('types.go', '	"reflect"\n', '	"reflect"\n	"sync"\n')]),
('panic-with-error', [('imports.go', 'panic(fmt.Sprintf("Package %q never registered", importPath))', 'panic(fmt.Errorf("package %q never registered", importPath))')]),
('eager-entry-imports', [('templates.go', '''	order := make([]int, len(entries))
''', '''	for i := range entries {
		importsOf(i)
	}
	order := make([]int, len(entries))
''')]),
('bufio-writer', [('model.go', '''	_, err = w.Write(formatted)
	return err
''', '''	bw := bufio.NewWriter(w)
	if _, err := bw.Write(formatted); err != nil {
		return err
	}
	return bw.Flush()
'''), ('model.go', '	"bytes"\n', '	"bufio"\n	"bytes"\n')]),
('maps-always-rebuilt-in-order', [('templates.go', '''			k, v := e.key, e.value
			newK, changedK := qualifyTemplateData(imports, k)
			newV, changedV := qualifyTemplateData(imports, v)
''', '''			k, v := e.key, e.value
			newV, changedV := qualifyTemplateData(imports, v)
			newK, changedK := qualifyTemplateData(imports, k)
''')]),
('struct-fields-backwards', [('templates.go', 'for i := 0; i < data.NumField(); i++ {', 'for i := data.NumField() - 1; i >= 0; i-- {')]),
('memo-of-types', [('imports.go', '''func (i *Imports) EnsureTypeImported(n TypeName) TypeName {
''', '''func (i *Imports) EnsureTypeImported(n TypeName) TypeName {
	if n.Kind() == KindBasic {
		return n
	}
''')]),
('path-pkg', [('model.go', 'p := filepath.Join(file.Package().ImportPath, file.Name)', 'pkg := file.Package()\n		p := filepath.Join(filepath.FromSlash(pkg.ImportPath), file.Name)')]),
('open-then-truncate', [('model.go', 'return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)', '''out, err := os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE, 0666)
		if err != nil {
			return nil, err
		}
		if err := out.Truncate(0); err != nil {
			out.Close()
			return nil, err
		}
		return out, nil''')]),
('empty-gopath-by-list', [('model.go', '''	gopath := os.Getenv("GOPATH")
	if gopath == "" {
		return errors.New("GOPATH is empty")
	}
	paths := strings.Split(gopath, string(filepath.ListSeparator))
	if paths[0] == "" {
''', '''	paths := append(strings.SplitN(os.Getenv("GOPATH"), string(filepath.ListSeparator), 2), "")
	if len(paths[0]) == 0 {
''')]),
('comment-by-index', [('model.go', '''	if comment != "" {
		lines := strings.Split(comment, "\\n")
		for _, line := range lines {
			fmt.Fprintf(w, "// %s\\n", line)
		}
	}
''', '''	for rest, more := comment, comment != ""; more; {
		line := rest
		if i := strings.IndexByte(rest, '\\n'); i >= 0 {
			line, rest = rest[:i], rest[i+1:]
		} else {
			more = false
		}
		w.WriteString("// " + line + "\\n")
	}
''')]),
('sprintf-line', [('code.go', 'fmt.Fprintf(b, l.format, l.args...)', 'b.WriteString(fmt.Sprintf(l.format, l.args...))')]),
('template-error-panics', [('code.go', 'panic(err.Error())', 'panic(err)')]),
('render-code-to-struct', [('code.go', '''	cb.elements = append(cb.elements, code.elements...)
''', '''	for _, e := range code.elements {
		cb.elements = append(cb.elements, e)
	}
''')]),
]
