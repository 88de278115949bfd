package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math"
	"math/big"
	"net"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"text/template"
	"time"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C06"] = &CheckDef{
		Boost:  15,
		Deep:   20,
		Rule:   "histories of Print/Println/Printf/Printlnf/RenderCode/AddCode calls, with renderings into other files in between, with hostile text, formats and arguments on several blocks, rendered in func bodies and initializers; compared byte by byte with fmt and text/template applied to the expected texts, both in formatted files and in the unformatted source; nontrivial blocks contain at least one reference",
		Shards: 8,
		Needs:  map[string]int64{"bodies_compared": 2000, "raw_blocks_compared": 3000, "raw_initializers_compared": 500, "templates": 1000, "blocks_appended": 1000, "blocks_rendered_elsewhere": 1000},
		Run:    runC06,
	}
}

func funcBody(p *Parsed, d *ast.FuncDecl) string {
	lo, hi := p.Fset.Position(d.Body.Pos()).Offset, p.Fset.Position(d.Body.End()).Offset
	return string(p.Src[lo:hi])
}

func runC06(c *Ctx) {
	c.Run("worlds", c.N(1500, 30000), func(k *Case) {
		opt := WOpt{Pkgs: k.R.Between(1, 2), FilesPerPkg: k.R.Between(1, 2), Elems: k.R.Between(3, 10), Bodies: true, MaxPieces: 8, Share: k.R.Chance(40), Reuse: k.R.Chance(50), TypeBudget: 6, WildText: true}
		w := buildWorld(k.R, opt)
		k.countWorld(w)
		for _, f := range w.Files {
			p := f.actualParsed(k)
			wp, err := f.wantFinal(p)
			if err != nil {
				bug("%v", err)
			}
			wb, gb := codeTexts(wp), codeTexts(p)
			for i := 0; i < len(wb) || i < len(gb); i++ {
				if i >= len(wb) || i >= len(gb) {
					k.Failf("%s has %d bodies and initializers, expected %d\n%s", f.Path, len(gb), len(wb), numbered(p.Src))
				}
				if wb[i] != gb[i] {
					k.Failf("code %d of %s differs: %s\nexpected:\n%s\ngenerated:\n%s", i, f.Path, firstDiff(wb[i], gb[i]), wb[i], gb[i])
				}
				k.Count("bodies_compared", 1)
			}
			if len(p.Imports) > 0 {
				k.Nontrivial(string(p.Src))
			}
		}
	})
	c.Run("raw", c.N(1500, 40000), func(k *Case) { k.rawBlocks() })
	c.Run("raw-initializers", c.N(500, 10000), func(k *Case) { k.rawInitializers() })
	c.Run("method-elements", 1, func(k *Case) { k.methodElements() })
}

// codeTexts gives the text of function bodies and initializers in order.
func codeTexts(p *Parsed) []string {
	var ret []string
	for _, d := range p.AST.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			ret = append(ret, funcBody(p, d))
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for _, v := range vs.Values {
						ret = append(ret, p.text(v))
					}
				}
			}
		}
	}
	return ret
}

var rawAtoms = []string{"%", "%%", "%s", "%d", "%v", "%!d(MISSING)", "%[1]s", "%*d", "{{", "}}", "{{.}}", "{{.X}}", "\n", "\n\n", "\t", " ", "\r\n", "\x00", "\xff", "\ufeff", "世界", "`", "\"", "'", "\\", "//", "/*", "*/", "{", "}", "x := 1", "return", "func() {", "$1", "<nil>", "&amp;", "<", ">", "%!", "%w", "%T", "%c", "\u2028", "é", "package x", "import \"y\""}

func rawText(r *Rng) string {
	var b strings.Builder
	if n := r.HugeText(); n > 0 && !r.huge {
		r.huge = true
		x := OneOf(r, " ", "x ", "\n", "% ", "x%d, ", "\t", "é")
		b.WriteString(strings.Repeat(x, n/len(x)))
	}
	for n := r.Huge(r.IntN(8), 200); n > 0; n-- {
		if r.Chance(8) {
			b.WriteString(r.Str())
			continue
		}
		b.WriteString(Pick(r, rawAtoms))
	}
	return b.String()
}

// escFmt makes a format that yields exactly s.
func escFmt(s string) string { return strings.ReplaceAll(s, "%", "%%") }

func escTmpl(s string) string {
	return strings.ReplaceAll(s, "{{", "{{\"{{\"}}")
}

var otherArgs = []any{1, -7, 3.25, "str %s", true, 'x', nil, []int{1, 2}, map[string]int{"b": 2, "a": 1}, struct {
	A int
	B string
}{1, "b"}, &struct{ P int }{5}, errors.New("oops %d"), stringerType{"st"}, []byte("by"), [2]string{"q", "r"}, complex(1, -1), uint8(200), any(nil), (*int)(nil), []gopoet.Symbol{gopoet.NewSymbol("left/range", "S")}, map[string]gopoet.Package{"k": gopoet.NewPackage("left/range")}, []gopoet.TypeName{gopoet.IntType}, []string(nil), []any{1, "x", nil}, fmtType{3}, gopoet.KindChan, token.ADD,
	"", "a\n", "\n", "_", " ", tmplStr("up"), tmplInt(4), tmplStrs{"a", "b"}, tmplMap{"k": 1}, &tmplStruct{A: 1, b: "x"}, tmplStruct{A: 2}, tmplFloat(1.5), tmplBool(true),
	io.EOF, os.ErrClosed, time.Second, time.Unix(5, 0).UTC(), big.NewInt(77), bytes.NewBufferString("buf"), json.Number("12"), url.URL{Host: "h"}, net.IPv4(1, 2, 3, 4), reflect.ValueOf(5), reflect.Bool, reflect.SendDir,
	struct{}{}, [0]int{}, int64(1) << 62, uint64(1) << 63, math.Inf(1), float32(0.1), "\xff", []rune("ab"), [][]string{{"a"}, nil}, map[tmplStr][]int{"a": {1}}, error(nil), fmt.Stringer(nil),
	gopoet.ImportSpec{ImportPath: "left/alone"}, gopoet.NewField("fld", gopoet.IntType), gopoet.FieldType{Name: "F", Type: gopoet.IntType}, gopoet.NewInterfaceEmbed(gopoet.NewSymbol("left/range", "E")),
	struct{ S gopoet.Symbol }{gopoet.NewSymbol("left/range", "S")}, []gopoet.MethodReference{{Type: gopoet.NewSymbol("left/range", "S"), Method: "M"}}, []reflect.Type{reflect.TypeOf(url.URL{})}, map[string]any{"s": gopoet.NewSymbol("left/range", "S")}}

// types with methods, of all kinds
type (
	tmplStr    string
	tmplInt    int
	tmplFloat  float64
	tmplBool   bool
	tmplStrs   []string
	tmplArr    [2]int
	tmplMap    map[string]int
	tmplFunc   func(int) int
	tmplStruct struct {
		A int
		b string
		C any
	}
	tmplEmb struct {
		tmplStruct
		*tmplPtr
		N tmplStr
	}
	tmplPtr  struct{ P []tmplInt }
	tmplErr  struct{ msg string }
	tmplChan chan int
)

func (s tmplStr) M() string      { return "str " + strings.ToUpper(string(s)) }
func (i tmplInt) M() string      { return fmt.Sprint("int ", int(i)+1) }
func (i tmplFloat) M() string    { return fmt.Sprint("float ", float64(i)+1) }
func (b tmplBool) M() string     { return fmt.Sprint("bool ", !bool(b)) }
func (l tmplStrs) M() string     { return fmt.Sprint("strs ", len(l), cap(l)) }
func (a tmplArr) M() string      { return fmt.Sprint("arr ", a[1]) }
func (m tmplMap) M() string      { return fmt.Sprint("map ", m == nil, len(m)) }
func (f tmplFunc) M() string     { return fmt.Sprint("func ", f != nil) }
func (s tmplStruct) M() string   { return "struct " + s.b }
func (p *tmplPtr) Len() int      { return len(p.P) }
func (p *tmplPtr) M2() string    { return "ptr" }
func (e *tmplErr) M() string     { return e.msg }
func (e *tmplErr) Error() string { return "err " + e.msg }
func (c tmplChan) M() string     { return fmt.Sprint("chan ", cap(c)) }

// plainData makes template data without references.
func (k *Case) plainData(depth int) any {
	r := k.R
	sub := func() any {
		if depth <= 0 {
			return 7
		}
		for {
			v := k.plainData(depth - 1)
			switch v.(type) {
			case *tmplStruct, *tmplPtr, *tmplEmb, tmplFunc, tmplChan, *tmplStrs:
				continue // prints as an address, which is not promised to stay
			}
			return v
		}
	}
	s := OneOf(r, "", "x", "a\n", "%s", "{{.}}", r.Str(), "_", rawText(r))
	n := r.Size(r.IntN(4), 70)
	switch r.IntN(34) {
	case 0:
		return tmplStr(s)
	case 1:
		return tmplInt(n)
	case 2:
		return tmplFloat(n)
	case 3:
		return tmplBool(r.Chance(50))
	case 4:
		return tmplStrs(strings.Split(strings.Repeat(s+",", n), ","))
	case 5:
		return tmplArr{n, 2}
	case 6:
		return tmplMap{s: n}
	case 7:
		return OneOf[any](r, tmplMap(nil), tmplStrs(nil), (*tmplErr)(nil) == nil, []int(nil), map[string]any(nil), []any(nil), [0]string{}, struct{}{}, tmplStrs{}, tmplMap{})
	case 8:
		return tmplFunc(func(i int) int { return i + n })
	case 9:
		return tmplStruct{n, s, sub()}
	case 10:
		return &tmplStruct{n, s, sub()}
	case 11:
		return tmplEmb{tmplStruct{n, s, sub()}, nil, tmplStr(s)}
	case 12:
		return &tmplEmb{tmplStruct{n, s, nil}, nil, tmplStr(s)}
	case 13:
		return &tmplPtr{make([]tmplInt, n)}
	case 14:
		return &tmplErr{s}
	case 15:
		return make(tmplChan, n)
	case 16:
		return s
	case 17:
		return n
	case 18:
		return []byte(s)
	case 19:
		return []any{sub(), s, nil, sub()}
	case 20:
		return map[string]any{"a": sub(), s: n}
	case 21:
		return map[int]any{n: sub(), -1: nil}
	case 22:
		return [2]any{sub(), nil}
	case 23:
		return &tmplStrs{s, "x"}
	case 24:
		return errors.New(s)
	case 25:
		return OneOf[any](r, time.Second*time.Duration(n), time.Unix(int64(n), 0).UTC(), json.Number("12"), big.NewInt(int64(n)), url.URL{Host: s}, &url.URL{Path: s}, net.IPv4(1, 2, 3, byte(n)))
	case 26:
		return OneOf[any](r, 'x', uint8(n), int64(-n), uint64(1)<<63, 1.5, float32(2), complex(1, 2), true, false, uintptr(n))
	case 27:
		return []tmplStruct{{n, s, sub()}, {}}
	case 28:
		return map[tmplStr][]tmplInt{tmplStr(s): {1, 2}, "other": nil}
	case 29:
		return struct {
			X, Y any `json:"-"`
			Z    []string
			w    int
		}{sub(), s, []string{s}, n}
	case 30:
		return [][]string{{s}, nil, {}}
	case 31:
		return stringerType{s}
	case 32:
		return fmtType{n}
	}
	return nil
}

var plainFuncs = template.FuncMap{
	"kind":  func(v any) string { return fmt.Sprintf("%T", v) },
	"same":  func(v any) any { return v },
	"text":  func(v any) string { return fmt.Sprintf("%v", v) },
	"canM":  func(v any) bool { _, ok := v.(interface{ M() string }); return ok },
	"kinds": func(vs ...any) string { return fmt.Sprintf("%T", vs) },
}

var plainTemplates = []string{
	"{{.}}", "{{kind .}}", "{{printf \"%T %v\" . .}}", "{{if canM .}}{{.M}}{{end}}", "{{with .}}<{{.}}>{{else}}empty{{end}}", "{{if .}}yes{{else}}no{{end}}", "{{text .}}|{{same .}}",
	"{{define \"x\"}}[{{kind .}}]{{end}}{{template \"x\" .}}{{block \"y\" .}}({{text .}}){{end}}", "{{- /* comment */ -}} a {{- kind . -}} b", "{{$x := .}}{{kind $x}}{{$y := same $x}}{{kind $y}}", "{{kinds . 1 .}}",
	"{{. | text | printf \"%q\"}}", "{{html (text .)}}{{js (text .)}}", "{{kind (same .)}}\r\n\t{{\"{{\"}}", "{{not .}}{{and . 1 | kind}}{{or . 2 | kind}}", "no actions at all", "",
}

// plainPiece executes a template on data without references, which has to give
// what the template gives otherwise.
func (k *Case) plainPiece() piece {
	r := k.R
	data := k.plainData(2)
	var text strings.Builder
	for n := r.Between(1, 3); n > 0; n-- {
		t := Pick(r, plainTemplates)
		if strings.Contains(t, "define") && strings.Contains(text.String(), "define") {
			continue
		}
		text.WriteString(t)
	}
	t := template.New("plain").Funcs(plainFuncs)
	if r.Chance(60) {
		t = t.Option(OneOf(r, "missingkey=error", "missingkey=zero", "missingkey=zero", "missingkey=default", "missingkey=invalid"))
	}
	if r.Chance(30) {
		// keys that may be missing
		text.WriteString(OneOf(r, "{{.nokey}}", "{{with .nokey}}x{{else}}y{{end}}", "{{kind .nokey}}", "{{.a}}", "{{.a.b.c}}"))
		data = OneOf[any](r, map[string]any{"a": data}, map[string]int{"x": 1}, map[string]string(nil), map[tmplStr]tmplStrs{}, map[string]any(nil), map[string]map[string]tmplInt{}, data)
	}
	src := text.String()
	if r.Chance(15) {
		t = t.Delims("[[", "]]")
		src = strings.NewReplacer("{{", "[[", "}}", "]]", "[", "<", "]", ">").Replace(src)
	}
	if r.Chance(20) {
		// one template of a set
		if _, err := t.New("other").Parse("x{{kind .}}"); err != nil {
			bug("%v", err)
		}
		t = t.New("again")
		k.Count("template_sets", 1)
	}
	if _, err := t.Parse(src); err != nil {
		bug("%v", err)
	}
	var want bytes.Buffer
	if err := t.Execute(&want, data); err != nil {
		// not for this kind of data
		return piece{func(cb *gopoet.CodeBlock) { cb.Print("") }, lit("")}
	}
	k.Count("plain_template_data", 1)
	return piece{func(cb *gopoet.CodeBlock) { cb.RenderCode(t, data) }, lit(want.String())}
}

// fmtType has its own formatting.
type fmtType struct{ n int }

func (f fmtType) Format(s fmt.State, verb rune) { fmt.Fprintf(s, "<%c %d>", verb, f.n) }

// rawPiece makes a piece with arbitrary text.
func (k *Case) rawPiece(w *World, f *WFile) piece {
	r := k.R
	ref := func() exprRef {
		if r.Chance(12) {
			return f.packageRef(k)
		}
		if r.Chance(40) {
			return w.typeRef(f)
		}
		return f.valueRef("any", true)
	}
	switch r.IntN(11) {
	case 10:
		return k.plainPiece()
	case 0:
		s := rawText(r)
		return piece{func(cb *gopoet.CodeBlock) { cb.Print(s) }, lit(s)}
	case 1:
		s := rawText(r)
		return piece{func(cb *gopoet.CodeBlock) { cb.Println(s) }, lit(s + "\n")}
	case 2:
		s := rawText(r)
		if r.Chance(50) {
			return piece{func(cb *gopoet.CodeBlock) { cb.Printf(escFmt(s)) }, lit(s)}
		}
		return piece{func(cb *gopoet.CodeBlock) { cb.Printlnf(escFmt(s)) }, lit(s + "\n")}
	case 3, 4, 5, 6:
		// formats with references and other arguments in any order
		var format strings.Builder
		var args []any
		txts := map[int]Txt{}
		n := r.Between(1, 5)
		positional := r.Chance(25)
		anyRef := positional
		skipped := 0
		for i := 0; i < n; i++ {
			format.WriteString(escFmt(rawText(r)))
			pos := ""
			if positional {
				pos = fmt.Sprintf("[%d]", r.Between(1, n))
			}
			if r.Chance(55) {
				e := ref()
				args = append(args, e.arg)
				txts[i] = func(rf SymFn) string { return strings.TrimSuffix(e.txt(rf), e.suffix) }
				if positional && r.Chance(25) {
					skipped = len(args) // more arguments than verbs
					continue
				}
				format.WriteString("%" + OneOf(r, "", "", "", "-", "+", "") + OneOf(r, "", "", "", "40", "3", ".4") + pos + OneOf(r, "s", "s", "v", "s"))
			} else {
				a := Pick(r, otherArgs)
				args = append(args, a)
				if anyRef {
					// may be applied to a reference
					format.WriteString("%s")
					continue
				}
				format.WriteString("%" + OneOf(r, "", "", "+", "#", "-", "0", " ") + OneOf(r, "", "", "8", ".2") + Pick(r, []string{"s", "v", "d", "q", "x", "t", "g", "T", "c", "U", "z"}))
			}
		}
		format.WriteString(escFmt(rawText(r)))
		if skipped > 0 {
			// ends with an index, so that the others do not count as superfluous
			fmt.Fprintf(&format, "%%[%d]s", skipped)
		}
		if r.Chance(8) {
			args = append(args, 5, "extra")
		}
		if r.Chance(8) && !positional {
			format.WriteString(" %d %s")
		}
		fs := format.String()
		// pointers print as addresses with some verbs: the same ones on both sides
		if r.Chance(50) {
			return piece{func(cb *gopoet.CodeBlock) { cb.Printf(fs, args...) }, fmtTxt(fs, args, txts)}
		}
		return piece{func(cb *gopoet.CodeBlock) { cb.Printlnf(fs, args...) }, fmtTxt(fs+"\n", args, txts)}
	case 7:
		// templates with arbitrary text around
		e := ref()
		a, b := rawText(r), rawText(r)
		t, err := template.New("t").Parse(escTmpl(a) + "{{.A}}" + escTmpl(b) + "{{.N}}{{range .L}}[{{.}}]{{end}}{{len .M}}")
		if err != nil {
			return piece{func(cb *gopoet.CodeBlock) { cb.Print("") }, lit("")}
		}
		data := map[string]any{"A": e.arg, "N": 12, "L": []string{"x", a}, "M": map[string]int{"z": 1}}
		w.ev("templates")
		return piece{func(cb *gopoet.CodeBlock) { cb.RenderCode(t, data) }, func(rf SymFn) string {
			d := map[string]any{"A": strings.TrimSuffix(e.txt(rf), e.suffix), "N": 12, "L": []string{"x", a}, "M": map[string]int{"z": 1}}
			var out bytes.Buffer
			if err := t.Execute(&out, d); err != nil {
				bug("%v", err)
			}
			return out.String()
		}}
	default:
		return w.piece(f, true)
	}
}

// packageRef refers to a package as such, also to the file's own.
func (f *WFile) packageRef(k *Case) exprRef {
	r := k.R
	var p gopoet.Package
	var gt *types.Package
	if r.Chance(40) {
		l := f.L
		p = gopoet.Package{ImportPath: l.Path, Name: l.Name}
		gt = types.NewPackage(l.Path, l.Name)
	} else {
		u := f.W.pickU()
		p = gopoet.Package{ImportPath: u.Path, Name: Pick(r, u.nameForms())}
		gt = u.Types()
	}
	txt := func(ref SymFn) string { return ref(Sym{p.ImportPath, p.Name, ""}) }
	k.Count("packages_as_arguments", 1)
	switch r.IntN(3) {
	case 0:
		return mkRef(p, txt)
	case 1:
		return mkRef(&p, txt)
	default:
		return mkRef(gt, txt)
	}
}

// rawBlocks builds several code blocks in random steps, including appending
// them to each other, and compares the unformatted text of all of them.
func (k *Case) rawBlocks() {
	r := k.R
	w := buildWorld(r, WOpt{Pkgs: r.Between(1, 2), FilesPerPkg: 1, Elems: 5, Bodies: false, TypeBudget: 5, WildText: true})
	f := w.Files[len(w.Files)-1]
	n := r.Between(1, 4)
	blocks := make([]*gopoet.CodeBlock, n)
	fns := make([]*gopoet.FuncSpec, n)
	model := make([][]Txt, n)
	for i := range blocks {
		fns[i] = gopoet.NewFunc(fmt.Sprintf("raw%d", i))
		blocks[i] = &gopoet.CodeBlock{}
		if r.Chance(50) {
			blocks[i] = &fns[i].CodeBlock
		}
	}
	calls := 0
	for m := r.Between(2, 20); m > 0; m-- {
		i := r.IntN(n)
		if r.Chance(15) {
			k.renderElsewhere(w, blocks[i])
		}
		switch r.IntN(6) {
		case 0:
			j := r.IntN(n)
			if len(model[i])+len(model[j]) > 60 {
				continue
			}
			if blocks[i] == &fns[i].CodeBlock && r.Chance(50) {
				fns[i].AddCode(blocks[j])
			} else {
				blocks[i].AddCode(blocks[j])
			}
			model[i] = append(append([]Txt{}, model[i]...), model[j]...)
			k.Count("blocks_appended", 1)
		case 1:
			// the functions that make a new block, and the methods of funcs
			s := rawText(r)
			var cb *gopoet.CodeBlock
			want := s
			switch r.IntN(5) {
			case 0:
				cb = gopoet.Print(s)
			case 1:
				cb, want = gopoet.Println(s), s+"\n"
			case 2:
				cb, want = gopoet.Printf("%s", s), s
			case 3:
				cb, want = gopoet.Printlnf("%s", s), s+"\n"
			case 4:
				cb = gopoet.RenderCode(mustTmpl("{{.}}"), s)
			}
			blocks[i].AddCode(cb)
			model[i] = append(model[i], lit(want))
			if r.Chance(30) && blocks[i] != &fns[i].CodeBlock && len(model[i]) < 30 {
				// go on with a copy, to which the original may be added
				cp := *blocks[i]
				if r.Chance(50) {
					cp.AddCode(blocks[i])
					model[i] = append(append([]Txt{}, model[i]...), model[i]...)
				}
				blocks[i] = &cp
				k.Count("blocks_copied", 1)
			}
		case 2:
			if blocks[i] != &fns[i].CodeBlock {
				continue
			}
			s := rawText(r)
			want := s
			switch r.IntN(5) {
			case 0:
				fns[i].Print(s)
			case 1:
				fns[i].Println(s)
				want += "\n"
			case 2:
				fns[i].Printf("%s", s)
			case 3:
				fns[i].Printlnf("%s", s)
				want += "\n"
			case 4:
				fns[i].RenderCode(mustTmpl("{{.}}"), s)
			}
			model[i] = append(model[i], lit(want))
		default:
			p := k.rawPiece(w, f)
			p.add(blocks[i])
			model[i] = append(model[i], p.txt)
		}
		calls++
	}
	gf := gopoet.NewGoFile("raw.go", f.L.Path, f.L.Name)
	for i := range blocks {
		if blocks[i] == &fns[i].CodeBlock {
			// wrap the finished block
			inner := blocks[i]
			outer := gopoet.NewFunc(fmt.Sprintf("outer%d", i))
			outer.Print(rawMark("BEGIN", i)).AddCode(inner).Print(rawMark("END", i))
			gf.AddElement(outer)
		} else {
			fns[i].Print(rawMark("BEGIN", i)).AddCode(blocks[i]).Print(rawMark("END", i))
			gf.AddElement(fns[i])
		}
	}
	src, prefix := k.rawSource(gf, w)
	if src == "" {
		return
	}
	ref := f.refWith(prefix)
	for i := range blocks {
		got, ok := between(src, rawMark("BEGIN", i), rawMark("END", i))
		if !ok {
			k.Failf("code block %d is not in the source:\n%q", i, src)
		}
		want := join(model[i], ref)
		if got != want {
			k.Failf("code block %d differs: %s\n want %q\n got  %q", i, firstDiff(want, got), want, got)
		}
		k.Count("raw_blocks_compared", 1)
	}
	k.countWorld(w)
	k.Count("calls", calls)
	k.Nontrivial(src)
	k.Sample("%.600q", src)
}

// renderElsewhere renders a block as part of another file, where everything has
// other prefixes. That must not leave traces in the block.
func (k *Case) renderElsewhere(w *World, cb *gopoet.CodeBlock) {
	gf := gopoet.NewGoFile("elsewhere.go", "elsewhere/p", "p")
	if k.R.Chance(70) {
		for _, u := range plainU {
			gf.RegisterImport("elsewhere/"+u.Name, u.Name)
		}
		for _, l := range w.Locals {
			gf.RegisterImport("elsewhere/"+l.Name, l.Name)
		}
	}
	gf.AddVar(gopoet.NewVar("Elsewhere").SetInitializer(cb))
	_ = gopoet.WriteGoFile(&bytes.Buffer{}, gf)
	k.Count("blocks_rendered_elsewhere", 1)
}

func rawMark(s string, i int) string { return fmt.Sprintf("\x01%s%d\x02", s, i) }

func between(s, a, b string) (string, bool) {
	if strings.Count(s, a) != 1 || strings.Count(s, b) != 1 {
		return "", false
	}
	_, s, _ = strings.Cut(s, a)
	s, _, ok := strings.Cut(s, b)
	return s, ok
}

// rawSource gives the unformatted source of a file that is no valid Go, and
// the prefixes it uses.
func (k *Case) rawSource(gf *gopoet.GoFile, w *World) (string, func(path string) string) {
	err := gopoet.WriteGoFile(&bytes.Buffer{}, gf)
	fe, ok := err.(*gopoet.FormatError)
	if !ok {
		k.Count("no_unformatted_source", 1)
		return "", nil
	}
	src := string(fe.Unformatted)
	f, err := parser.ParseFile(token.NewFileSet(), "raw.go", src, parser.ImportsOnly|parser.SkipObjectResolution)
	if err != nil {
		k.Failf("imports do not parse: %v\n%s", err, src)
	}
	byPath := map[string]string{}
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		name := w.declaredName(p)
		if is.Name != nil {
			name = is.Name.Name
		}
		byPath[p] = name
	}
	return src, func(p string) string {
		if n, ok := byPath[p]; ok {
			return n
		}
		return "NOTIMPORTED"
	}
}

func (k *Case) rawInitializers() {
	r := k.R
	w := buildWorld(r, WOpt{Pkgs: 1, FilesPerPkg: 1, Elems: 4, TypeBudget: 5, WildText: true})
	f := w.Files[0]
	gf := gopoet.NewGoFile("raw.go", f.L.Path, f.L.Name)
	var model [][]Txt
	for i, n := 0, r.Between(1, 5); i < n; i++ {
		var txts []Txt
		kind := r.IntN(4)
		begin, end := rawMark("BEGIN", i), rawMark("END", i)
		name := fmt.Sprintf("Raw%d", i)
		if kind < 2 {
			cb := gopoet.Print(begin)
			for m := r.IntN(4); m > 0; m-- {
				p := k.rawPiece(w, f)
				p.add(cb)
				txts = append(txts, p.txt)
			}
			cb.Print(end)
			if kind == 0 {
				gf.AddConst(gopoet.NewConst(name).SetInitializer(cb))
			} else {
				gf.AddVar(gopoet.NewVar(name).SetInitializer(cb))
			}
		} else {
			e := f.valueRef("any", true)
			s := rawText(r)
			a := Pick(r, otherArgs)
			fs := begin + escFmt(s) + "%s %v" + end
			txts = []Txt{func(ref SymFn) string {
				return fmt.Sprintf(escFmt(s)+"%s %v", strings.TrimSuffix(e.txt(ref), e.suffix), a)
			}}
			if kind == 2 {
				gf.AddConst(gopoet.NewConst(name).Initialize(fs, e.arg, a))
			} else {
				gf.AddVar(gopoet.NewVar(name).Initialize(fs, e.arg, a))
			}
		}
		model = append(model, txts)
	}
	src, prefix := k.rawSource(gf, w)
	if src == "" {
		return
	}
	ref := f.refWith(prefix)
	for i := range model {
		got, ok := between(src, rawMark("BEGIN", i), rawMark("END", i))
		if !ok {
			k.Failf("initializer %d is not in the source:\n%q", i, src)
		}
		if want := join(model[i], ref); got != want {
			k.Failf("initializer %d differs: %s\n want %q\n got  %q", i, firstDiff(want, got), want, got)
		}
		k.Count("raw_initializers_compared", 1)
	}
	k.countWorld(w)
	k.Nontrivial(src)
}

// methodElements renders method and interface method elements as arguments. It
// is known that they lose the receiver type if the foreign package's prefix is
// its own name (see known_findings.txt, KF-1).
func (k *Case) methodElements() {
	for _, sit := range []string{"local", "aliased", "plain"} {
		path := "a/foo"
		if sit == "local" {
			path = "own"
		}
		other := gopoet.NewGoFile("o.go", path, "foo")
		ts := gopoet.NewTypeSpec("T", gopoet.IntType)
		other.AddType(ts)
		im := gopoet.NewInterfaceMethod("IM")
		is := gopoet.NewInterfaceTypeSpec("I", im)
		other.AddType(is)
		fn := gopoet.NewMethod(gopoet.NewReceiverForType("t", ts), "M")
		other.AddElement(fn)
		gf := gopoet.NewGoFile("f.go", "own", "own")
		if sit == "aliased" {
			gf.RegisterImport("z/foo", "foo")
		}
		gf.AddElement(gopoet.NewFunc("f").Print(rawMark("BEGIN", 0)).Printf("%s|%s", fn, im).Print(rawMark("END", 0)))
		err := gopoet.WriteGoFile(&bytes.Buffer{}, gf)
		fe, ok := err.(*gopoet.FormatError)
		if !ok {
			return
		}
		got, _ := between(string(fe.Unformatted), rawMark("BEGIN", 0), rawMark("END", 0))
		pre := ""
		if panicked, _ := panics(func() { pre = gf.PrefixForPackage(path) }); panicked {
			pre = "foo."
		}
		parts := strings.Split(got, "|")
		for i, want := range []string{pre + "T.M", pre + "I.IM"} {
			kind := []string{"*FuncSpec of a method", "*InterfaceMethod"}[i]
			g := ""
			if i < len(parts) {
				g = parts[i]
			}
			switch {
			case g == want:
			case sit == "plain" && g == []string{"M", "IM"}[i]:
				k.Known("KF-1 " + kind + " of another package as format argument is rendered as the bare method name when the package needs no alias")
			default:
				k.Failf("%s as format argument (%s) is rendered as %q, expected %q", kind, sit, g, want)
			}
		}
	}
}
