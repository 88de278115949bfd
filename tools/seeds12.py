from seeds3 import demo
SEEDS=[
dict(id='c12-megabyte-chunks', property='C12',
 edits=[('model.go','''	_, err = w.Write(formatted)
	return err
''','''	const chunk = 1 << 20
	for len(formatted) > chunk {
		if _, err = w.Write(formatted[:chunk]); err != nil {
			return err
		}
		formatted = formatted[:copy(formatted, formatted[chunk+1:])]
	}
	_, err = w.Write(formatted)
	return err
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	f.AddElement(gopoet.NewFunc("f").Print(strings.Repeat("x = 1\\n", 300000)))
	s := render(f)
	if strings.Count(s, "\\tx = 1\\n") != 300000 { fail("%d", len(s)) }
}
''','"strings"'), needs='a file of more than a megabyte', breaks='a byte is lost between the parts'),
dict(id='c09-big-slices-in-place', property='C09',
 edits=[('templates.go','''				} else {
					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
				}''','''				} else if data.Len() >= 4*1024 {
					newArray = data // too large to copy
				} else {
					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
				}''')],
 demo=demo('''
func main() {
	imp := gopoet.NewImportsFor("own")
	imp.RegisterImport("a/foo", "foo")
	d := make([]gopoet.Symbol, 5000)
	for i := range d { d[i] = gopoet.NewSymbol("b/foo", "T") }
	imp.QualifyTemplateData(d)
	if d[0].Package.Name != "foo" { fail("%v", d[0]) }
}
'''), needs='a slice of 4096 elements or more', breaks='the slice of the caller is changed'),
dict(id='c16-field-count-in-a-byte', property='C16',
 edits=[('types.go','return &structTypeName{fields: fields}','''if n := uint8(len(fields)); len(fields) > 0 && n == 0 {
		return &structTypeName{}
	}
	return &structTypeName{fields: fields}''')],
 demo=demo('''
func main() {
	fs := make([]gopoet.FieldType, 256)
	for i := range fs { fs[i] = gopoet.FieldType{Name: fmt.Sprint("F", i), Type: gopoet.IntType} }
	if n := len(gopoet.StructType(fs...).Fields()); n != 256 { fail("%d", n) }
}
'''), needs='a struct with 256 fields', breaks='it has none'),
dict(id='c05-elements-in-blocks', property='C05',
 edits=[('model.go','''	for _, el := range f.elements {
		w.WriteRune('\\n')
		el.writeTo(w)
	}
''','''	for i, el := range f.elements {
		if i > 0 && i%(1<<10) == 0 {
			w.Grow(1 << 10)
			continue
		}
		w.WriteRune('\\n')
		el.writeTo(w)
	}
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	for i := 0; i < 1100; i++ { f.AddConst(gopoet.NewConst(fmt.Sprint("c", i)).Initialize("1")) }
	if s := render(f); !strings.Contains(s, "c1024 ") { fail("missing") }
}
''','"strings"'), needs='a file with more than 1024 elements', breaks='one is missing'),
dict(id='c06-text-of-64k', property='C06',
 edits=[('code.go','''	fmt.Fprintf(b, l.format, l.args...)
''','''	const max = 64*1024
	if len(l.args) == 0 && len(l.format) > max {
		fmt.Fprintf(b, l.format[:max])
		fmt.Fprintf(b, l.format[max:])
		return
	}
	if len(l.args) == 1 && l.format == "%s" {
		if s, ok := l.args[0].(string); ok && len(s) > max {
			b.WriteString(strings.TrimRight(s[:max], " "))
			b.WriteString(s[max:])
			return
		}
	}
	fmt.Fprintf(b, l.format, l.args...)
'''),('code.go','	"bytes"\n','	"bytes"\n	"strings"\n')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("a.go", "own", "own")
	text := "/*" + strings.Repeat("x ", 40000) + "*/\\n"
	f.AddElement(gopoet.NewFunc("f").Print(text))
	if s := render(f); !strings.Contains(s, text) { fail("changed") }
}
''','"strings"'), needs='a text of more than 64 KB with a space at the boundary', breaks='the space is lost'),
]
