HEAD='''
package main

import (
	"bytes"
	"fmt"
	"os"
	IMPORTS

	"github.com/jhump/gopoet"
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func render(f *gopoet.GoFile) string {
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, f); err != nil { fail("render: %v", err) }
	return b.String()
}

var _ = render
'''
def demo(body, imports=''):
    return HEAD.replace('IMPORTS', imports) + '\n' + body
SEEDS=[
dict(id='c01-named-args-first-only', property='C01',
 edits=[('types.go','''	namedArgs := false
	for _, arg := range sig.Args {
		if arg.Name != "" {
			namedArgs = true
			break
		}
	}
''','''	namedArgs := len(sig.Args) > 0 && sig.Args[0].Name != ""
''')],
 demo=demo('''
func main() {
	t := gopoet.FuncType([]gopoet.ArgType{{Type: gopoet.IntType}, {Name: "s", Type: gopoet.StringType}}, nil)
	if s := t.String(); s != "func(_ int, s string)" { fail("got %q", s) }
}
'''),
 needs='a signature whose first argument is unnamed and a later one is named',
 breaks='the names of all arguments disappear from the text of the type'),
dict(id='c02-sorted-case-insensitively', property='C02',
 edits=[('imports.go','return specs[i].ImportPath < specs[j].ImportPath','return strings.ToLower(specs[i].ImportPath) < strings.ToLower(specs[j].ImportPath)')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/a", "a")
	i.RegisterImport("x/B", "B")
	s := i.ImportSpecs()
	if s[0].ImportPath != "x/B" { fail("got %v", s) }
}
'''),
 needs='import paths that mix upper and lower case',
 breaks='the import list is not sorted by path'),
dict(id='c03-variadic-lost-when-only-results-change', property='C03',
 edits=[('imports.go','''	if !sameSlice(args, s.Args) || !sameSlice(results, s.Results) {
		s = &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic}
	}
	return s''','''	if !sameSlice(args, s.Args) {
		s = &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic}
	} else if !sameSlice(results, s.Results) {
		s = &Signature{Args: s.Args, Results: results}
	}
	return s''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/y/a", "a")
	t := gopoet.FuncTypeVariadic([]gopoet.ArgType{{Type: gopoet.SliceType(gopoet.IntType)}}, []gopoet.ArgType{{Type: gopoet.NamedType(gopoet.NewSymbol("x/a", "T"))}})
	if s := i.EnsureTypeImported(t).String(); s != "func(...int) a1.T" { fail("got %q", s) }
}
'''),
 needs='a variadic signature whose arguments keep their prefixes while a result gets another one',
 breaks='the qualified signature is no longer variadic'),
dict(id='c04-alias-target-not-imported', property='C04',
 edits=[('model.go','''func (t *TypeSpec) qualify(imports *Imports) {
	t.underlying = imports.EnsureTypeImported(t.underlying)
''','''func (t *TypeSpec) qualify(imports *Imports) {
	if !t.isAlias || t.underlying.Kind() != KindMap {
		t.underlying = imports.EnsureTypeImported(t.underlying)
	}
''')],
 demo=demo('''
func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	f.AddType(gopoet.NewTypeAlias("A", gopoet.MapType(gopoet.StringType, gopoet.NamedType(gopoet.NewSymbol("x/a", "T")))))
	if s := render(f); !strings.Contains(s, "import \\"x/a\\"") { fail("no import:\\n%s", s) }
}
''','"strings"'),
 needs='an alias of an unnamed map type that mentions another package not used elsewhere in the file',
 breaks='the package that an alias refers to is neither imported nor given its prefix'),
dict(id='c06-addcode-shares-pieces', property='C06',
 edits=[('code.go','''	cb.elements = append(cb.elements, code.elements...)
	return cb''','''	if len(cb.elements) == 0 {
		cb.elements = code.elements
		return cb
	}
	cb.elements = append(cb.elements, code.elements...)
	return cb''')],
 demo=demo('''
func main() {
	shared := gopoet.Println("a()").Println("b()").Println("c()")
	f := gopoet.NewFunc("f").AddCode(shared)
	g := gopoet.NewFunc("g").AddCode(shared)
	f.Println("d()")
	g.Println("e()")
	file := gopoet.NewGoFile("f.go", "x/self", "self").AddElement(f).AddElement(g)
	if s := render(file); !strings.Contains(s, "d()") { fail("lost d():\\n%s", s) }
}
''','"strings"'),
 needs='a block of three pieces that is appended to two empty blocks which are both extended afterwards',
 breaks='code of one function appears in another and its own is lost'),
dict(id='c08-shared-render-buffer', property='C08',
 edits=[('types.go','''		var buf bytes.Buffer
		typeNameToBuffer(tn, &buf)
		return buf.String()''','''		typeText.Reset()
		typeNameToBuffer(tn, &typeText)
		return typeText.String()'''),
  ('types.go','''func typeNameToString(tn TypeName) string {''','''// typeText is reused to avoid an allocation for every type.
var typeText bytes.Buffer

func typeNameToString(tn TypeName) string {''')],
 flags='-race',
 demo=demo('''
func main() {
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		t := gopoet.TypeName(gopoet.IntType)
		for d := 0; d <= g; d++ { t = gopoet.MapType(gopoet.StringType, gopoet.SliceType(t)) }
		want := t.String()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { if recover() != nil { atomic.AddInt32(&bad, 1) } }()
			for n := 0; n < 20000; n++ { if t.String() != want { atomic.AddInt32(&bad, 1) } }
		}()
	}
	wg.Wait()
	if bad != 0 { fail("%d wrong texts", bad) }
}
''','"sync"; "sync/atomic"'),
 needs='two goroutines that turn composite types into text at the same time',
 breaks='goroutines that render their own files race and get each other\'s text'),
dict(id='c09-map-loses-unchanged-entries', property='C09',
 edits=[('templates.go','''			if newMap.IsValid() {
				newMap.SetMapIndex(newK, newV)
			} else if''','''			if newMap.IsValid() {
				if changedK || changedV {
					newMap.SetMapIndex(newK, newV)
				}
			} else if''')],
 demo=demo('''
func main() {
	i := gopoet.NewImportsFor("x/self")
	i.RegisterImport("x/y/a", "a")
	m := map[string]interface{}{"1": 1, "2": gopoet.NewSymbol("x/a", "T"), "3": 3}
	r := i.QualifyTemplateData(m).(map[string]interface{})
	if len(r) != 3 || r["3"] != 3 { fail("got %v", r) }
}
'''),
 needs='a map with an entry without references that is visited after one whose reference got another prefix',
 breaks='entries of maps vanish from qualified template data'),
dict(id='c12-flush-error-lost', property='C12',
 edits=[('model.go','''	// and finally emit it
	_, err = w.Write(formatted)
	return err''','''	// and finally emit it
	bw := bufio.NewWriter(w)
	defer bw.Flush()
	_, err = bw.Write(formatted)
	return err'''),('model.go','''import (
	"bytes"''','''import (
	"bufio"
	"bytes"''')],
 demo=demo('''
type bad struct{}

func (bad) Write(p []byte) (int, error) { return 0, errors.New("disk full") }

func main() {
	f := gopoet.NewGoFile("f.go", "x/self", "self")
	if gopoet.WriteGoFile(bad{}, f) == nil { fail("no error") }
}
''','"errors"'),
 needs='a writer that fails on a file smaller than the buffer',
 breaks='a failed write is reported as success'),
dict(id='c14-title-case', property='C14',
 edits=[('names.go','upperR := unicode.ToUpper(r)','upperR := unicode.ToTitle(r)')],
 demo=demo('''
func main() {
	if s := gopoet.Export("\\u01c6x"); s != "\\u01c4x" { fail("got %q", s) }
}
'''),
 needs='a first letter whose title-case form differs from its upper-case form',
 breaks='the exported form gets an X prefix although the letter has an upper-case form'),
]
