package main

import (
	"fmt"
	"go/types"
	"reflect"
	"runtime"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// exprRef is a reference to use as format argument or in template data. The
// expression is the rendered argument plus suffix.
type exprRef struct {
	format string // verb plus suffix
	suffix string
	arg    any
	txt    Txt // text of the whole expression
	spec   bool
	typ    bool
	tmpl   string
}

func mkRef(arg any, txt Txt) exprRef { return exprRef{format: "%s", arg: arg, txt: txt} }

func (w *World) goScope(path string) *types.Scope { return upkgByPath[path].Types().Scope() }

// uValue refers to a const, var, func or method of a universe package.
func (w *World) uValue(kind string) exprRef {
	r := w.R
	u := w.pickU()
	name := ""
	switch kind {
	case "const-int":
		name = "C0"
	case "const":
		name = OneOf(r, "C0", "C1", "C2")
	default:
		name = OneOf(r, "C0", "C1", "C2", "V0", "V1", "F0", "F1", "M", "I")
	}
	return w.uRef(u, name)
}

func (w *World) uRef(u *UPkg, name string) exprRef {
	r := w.R
	pkg := gopoet.Package{ImportPath: u.Path, Name: Pick(r, u.nameForms())}
	if name == "M" || name == "I" {
		tn, mn := "T0", "M0"
		if name == "I" {
			tn, mn = "I0", fmt.Sprintf("MI%d", u.Idx)
		} else if r.Chance(40) {
			tn, mn = "T1", "M1"
		}
		mr := gopoet.MethodReference{Type: pkg.Symbol(tn), Method: mn}
		txt := func(ref SymFn) string { return ref(Sym{u.Path, u.Name, tn}) + "." + mn }
		w.ev("ref_method")
		switch r.IntN(3) {
		case 0:
			return mkRef(mr, txt)
		case 1:
			return mkRef(&mr, txt)
		default:
			w.ev("ref_go_method_object")
			named := w.goScope(u.Path).Lookup(tn).Type().(*types.Named)
			var obj types.Object
			if name == "I" {
				obj = named.Underlying().(*types.Interface).ExplicitMethod(0)
			} else {
				obj = named.Method(0)
			}
			return mkRef(obj, txt)
		}
	}
	txt := func(ref SymFn) string { return ref(Sym{u.Path, u.Name, name}) }
	sym := pkg.Symbol(name)
	switch r.IntN(7) {
	case 0:
		w.ev("ref_symbol_ptr")
		return mkRef(&sym, txt)
	case 1:
		w.ev("ref_go_object")
		return mkRef(w.goScope(u.Path).Lookup(name), txt)
	case 2:
		w.ev("ref_package")
		return exprRef{format: "%s." + name, suffix: "." + name, arg: pkg, txt: txt}
	case 3:
		w.ev("ref_package_ptr")
		return exprRef{format: "%v." + name, suffix: "." + name, arg: &pkg, txt: txt}
	case 4:
		w.ev("ref_go_package")
		return exprRef{format: "%s." + name, suffix: "." + name, arg: u.Types(), txt: txt}
	}
	w.ev("ref_symbol")
	return mkRef(sym, txt)
}

func (d *LDecl) valueRef(w *World) exprRef {
	txt := func(ref SymFn) string { return ref(d.sym()) }
	if d.Spec == nil || d.Kind != "method" && w.R.Chance(20) {
		w.ev("ref_local_symbol")
		return mkRef(d.sym().poet(), txt)
	}
	switch s := d.Spec.(type) {
	case *gopoet.ConstSpec:
		if d.Idx >= 0 {
			return mkRef(s.SymbolAt(d.Idx), txt)
		}
		if w.R.Chance(30) {
			return mkRef(s.ToSymbol(), txt)
		}
		w.ev("ref_const_spec")
		return exprRef{format: "%s", arg: s, txt: txt, spec: true}
	case *gopoet.VarSpec:
		if d.Idx >= 0 {
			return mkRef(s.SymbolAt(d.Idx), txt)
		}
		if w.R.Chance(30) {
			return mkRef(s.ToSymbol(), txt)
		}
		w.ev("ref_var_spec")
		return exprRef{format: "%s", arg: s, txt: txt, spec: true}
	case *gopoet.FuncSpec:
		if d.Kind == "method" {
			mtxt := func(ref SymFn) string {
				return ref(Sym{d.L.Path, d.L.Name, d.RecvName}) + "." + d.Name
			}
			w.ev("ref_local_method")
			mr := s.ToSymbol().(gopoet.MethodReference)
			if w.R.Chance(50) {
				return mkRef(&mr, mtxt)
			}
			return mkRef(mr, mtxt)
		}
		if w.R.Chance(30) {
			return mkRef(s.ToSymbol(), txt)
		}
		w.ev("ref_func_spec")
		return exprRef{format: "%s", arg: s, txt: txt, spec: true}
	}
	panic("bad spec")
}

// valueRef picks a reference to a value.
func (f *WFile) valueRef(kind string, allowLocal bool) exprRef {
	w := f.W
	if allowLocal && kind != "const-int" && w.R.Chance(40) {
		d := f.pickLocal(func(d *LDecl) bool {
			switch d.Kind {
			case "const":
				return true
			case "var", "func":
				return kind == "any"
			case "method":
				return kind == "any" && !d.RecvPtr
			}
			return false
		})
		if d != nil {
			return d.valueRef(w)
		}
	}
	return w.uValue(kind)
}

// typeRef picks a reference to a type.
func (w *World) typeRef(f *WFile) exprRef {
	r := w.R
	if f != nil && r.Chance(25) {
		if d := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" && d.Spec != nil }); d != nil {
			txt := func(ref SymFn) string { return ref(d.sym()) }
			ts := d.Spec.(*gopoet.TypeSpec)
			switch r.IntN(4) {
			case 0:
				return exprRef{format: "%s", arg: ts.ToSymbol(), txt: txt, typ: true}
			case 1:
				return exprRef{format: "%v", arg: ts.ToTypeName(), txt: txt, typ: true}
			}
			w.ev("ref_type_spec")
			return exprRef{format: "%s", arg: ts, txt: txt, spec: true, typ: true}
		}
	}
	switch r.IntN(6) {
	case 0:
		rr := Pick(r, reflRefs)
		t, ty := rr.T, namedTy(rr.Sym)
		switch r.IntN(4) {
		case 0:
			t, ty = reflect.PointerTo(t), ptrTy(ty)
		case 1:
			t, ty = reflect.SliceOf(t), sliceTy(ty)
		}
		w.ev("ref_reflect_type")
		return exprRef{format: "%s", arg: t, txt: func(ref SymFn) string { return w.tn2(ty, ref) }, typ: true}
	case 1:
		u := w.pickU()
		n := OneOf(r, "T0", "T1", "I0", "A0")
		o := u.Types().Scope().Lookup(n)
		ty := namedTy(Sym{u.Path, u.Name, n})
		if r.Chance(40) {
			w.ev("ref_go_object")
			return exprRef{format: "%s", arg: o, txt: func(ref SymFn) string { return w.tn2(ty, ref) }, typ: true}
		}
		gt := o.Type()
		if r.Chance(40) {
			gt, ty = types.NewMap(types.Typ[types.String], gt), &Ty{K: gopoet.KindMap, Key: basicTy(reflect.String), Elem: ty, Len: -1}
		}
		w.ev("ref_go_type")
		return exprRef{format: "%s", arg: gt, txt: func(ref SymFn) string { return w.tn2(ty, ref) }, typ: true}
	case 2:
		u := w.pickU()
		n := OneOf(r, "T0", "T1", "T2", "A0", "I0")
		e := w.uRefSym(u, n)
		e.typ = true
		return e
	default:
		ty := w.tyGen(f).Gen(r.Between(1, w.Opt.TypeBudget))
		if w.Shared != nil && len(w.Shared.Types) > 0 && r.Chance(40) {
			ty = Pick(r, w.Shared.Types)
		}
		w.ev("ref_type_name")
		return exprRef{format: "%s", arg: w.tn(ty), txt: func(ref SymFn) string { return w.tn2(ty, ref) }, typ: true}
	}
}

func (w *World) uRefSym(u *UPkg, name string) exprRef {
	pkg := gopoet.Package{ImportPath: u.Path, Name: Pick(w.R, u.nameForms())}
	return mkRef(pkg.Symbol(name), func(ref SymFn) string { return ref(Sym{u.Path, u.Name, name}) })
}

// anyRef gives a value or type reference and the statement text around it.
func (f *WFile) anyRef() (exprRef, string) {
	if f.W.R.Chance(40) {
		return f.W.typeRef(f), "var _ "
	}
	return f.valueRef("any", true), "_ = "
}

// a piece adds something to a code block.
type piece struct {
	add func(cb *gopoet.CodeBlock)
	txt Txt
}

// body fills a function body with pieces, through the func itself or through
// other code blocks.
func (f *WFile) body(fn *gopoet.FuncSpec) []Txt {
	w, r := f.W, f.W.R
	var txts []Txt
	for n := r.Between(1, w.Opt.MaxPieces); n > 0; n-- {
		if w.Shared != nil && r.Chance(25) {
			b := Pick(r, w.Shared.Blocks)
			fn.AddCode(b.cb)
			txts = append(txts, b.txt)
			w.ev("shared_blocks_used")
			continue
		}
		if w.Shared != nil && r.Chance(25) {
			d := Pick(r, w.Shared.Data)
			fn.RenderCode(d.tmpl, d.data)
			txts = append(txts, d.txt)
			w.ev("shared_template_data_used")
			continue
		}
		if b := f.reuse("code"); b != nil {
			fn.AddCode(b.cb)
			txts = append(txts, b.txt)
			continue
		}
		p := w.piece(f, true)
		txts = append(txts, p.txt)
		switch r.IntN(3) {
		case 0:
			p.add(&fn.CodeBlock)
		case 1:
			cb := &gopoet.CodeBlock{}
			p.add(cb)
			fn.AddCode(cb)
			f.reusable("code", cb, p.txt)
			w.ev("code_added")
		case 2:
			cb := &gopoet.CodeBlock{}
			p.add(cb)
			p2 := w.piece(f, true)
			p2.add(cb)
			outer := gopoet.Print("")
			outer.AddCode(cb)
			fn.AddCode(outer)
			txts = append(txts, p2.txt)
			w.ev("code_added")
		}
	}
	return txts
}

func fmtTxt(format string, args []any, txts map[int]Txt) Txt {
	return func(ref SymFn) string {
		as := append([]any(nil), args...)
		for i, t := range txts {
			as[i] = t(ref)
		}
		return fmt.Sprintf(format, as...)
	}
}

var wildTexts = []string{
	"_ = `raw %s {{.}} %!d(BADINDEX)`\n", "// comment with %s and %% and {{.X}} and `\n", "_   =    1+2 *  3\n",
	"_ = \"a\\tb%%\"\n", "_ = `multi\n\t  line %d\n`\n", "if   true{_=1}\n", "{ ; }\n", "_ = 'x'\n", "/* block %v */\n",
	"_ = \"世界 %+v\"\n", "for i:=0;i<3;i++{ _=i }\n", "\n\n\n", "\t\t_ = 5 % 3\n", "_ = \"100%\"\n", "switch { case 1<2:\n_ = 1\n}\n",
	"_ = []int{1,\n2,\n}\n", "_ = \"%[1]d %*d\"\n", "go func(){}()\n", "L: for { break L }\n",
}

// piece makes one piece of code that stands on its own. With f nil it only
// refers to the universe, so that it fits everywhere.
func (w *World) piece(f *WFile, allowTmpl bool) piece {
	r := w.R
	ref := func() (exprRef, string) {
		if f != nil {
			return f.anyRef()
		}
		if r.Chance(40) {
			return w.typeRef(nil), "var _ "
		}
		return w.uValue("any"), "_ = "
	}
	if w.Opt.Yield && r.Chance(25) {
		e, pre := ref()
		own := func(rf SymFn) string { return strings.TrimSuffix(e.txt(rf), e.suffix) }
		w.ev("yields")
		if r.Chance(50) || e.spec {
			return piece{func(cb *gopoet.CodeBlock) {
				cb.Printlnf("// %s\n"+pre+"%s"+e.suffix+" // %v", yielder{}, e.arg, yielder{})
			},
				func(rf SymFn) string { return "// y\n" + pre + own(rf) + e.suffix + " // y\n" }}
		}
		t := template.Must(template.New("t").Funcs(template.FuncMap{"y": func() string { return yielder{}.String() }}).Parse(
			"// {{y}}\n" + pre + "{{.A}}" + e.suffix + " // {{.B}}{{y}}\n"))
		d := map[string]any{"A": e.arg, "B": yielder{}}
		return piece{func(cb *gopoet.CodeBlock) { cb.RenderCode(t, d) },
			func(rf SymFn) string { return "// y\n" + pre + own(rf) + e.suffix + " // yy\n" }}
	}
	switch k := r.IntN(14); {
	case k == 0:
		s := OneOf(r, "_ = 42\n", "// 100% plain {{text}} %s %d\n", "_ = \"%s %v %%\"\n", "_ = `{{.}}\n%d`\n")
		if w.Opt.WildText {
			s = Pick(r, wildTexts)
		}
		w.ev("plain_text")
		if r.Chance(50) {
			return piece{func(cb *gopoet.CodeBlock) { cb.Print(s) }, lit(s)}
		}
		return piece{func(cb *gopoet.CodeBlock) { cb.Println(s) }, lit(s + "\n")}
	case k == 1:
		// other arguments are left alone
		args := []any{r.IntN(100), "str%s", []string{"a", "b"}, 1.5, true, 'x', fmt.Errorf("err"), struct{ A int }{3}, nil, map[string]int{"k": 1}, &struct{ B string }{"b"}, []byte("bytes"), stringerType{"s"}, complex(1, 2)}
		verbs := []string{"%d", "%s", "%v", "%g", "%t", "%c", "%v", "%+v", "%v", "%v", "%+v", "%x", "%s", "%v"}
		i, j := r.IntN(len(args)), r.IntN(len(args))
		format := "// " + verbs[i] + " and %% " + verbs[j] + "\n_ = %[1]q\n"
		as := []any{args[i], args[j]}
		if r.Chance(50) {
			format = "// " + verbs[i] + " and " + verbs[j] + " %d"
			as = append(as, r.IntN(1000))
		}
		if r.Chance(10) {
			format += " %s %d" // missing arguments
		}
		if i := strings.Index(format, "%[1]q"); i >= 0 && strings.Contains(fmt.Sprintf(format, as...), "_ = [") {
			format = "// %v %v"
		}
		w.ev("other_arguments")
		if strings.Contains(format, "_ =") {
			format = "// " + strings.ReplaceAll(strings.TrimSuffix(format, "\n"), "\n", " ")
		}
		w.keep(as)
		return piece{func(cb *gopoet.CodeBlock) { cb.Printlnf(format, as...) }, fmtTxt(format+"\n", as, nil)}
	case k <= 5:
		e, pre := ref()
		format := pre + e.format
		if r.Chance(20) {
			format = strings.Replace(format, "%s", "%v", 1)
		}
		if r.Chance(15) {
			format = strings.Replace(format, "%s", OneOf(r, "%-30s", "%30s", "%+v", "%[1]s"), 1)
		}
		args := []any{e.arg}
		suffix := strings.Index(format, "%")
		_ = suffix
		// the argument's own text is the expression's text without suffix
		own := func(rf SymFn) string { return strings.TrimSuffix(e.txt(rf), e.suffix) }
		txts := map[int]Txt{0: own}
		if r.Chance(30) {
			w.ev("printf")
			return piece{func(cb *gopoet.CodeBlock) { cb.Printf(format+" // %d\n", append(args, 5)...) }, fmtTxt(format+" // %d\n", append(args, 5), txts)}
		}
		w.ev("printlnf")
		w.keep(args)
		return piece{func(cb *gopoet.CodeBlock) { cb.Printlnf(format, args...) }, fmtTxt(format+"\n", args, txts)}
	case k <= 7:
		// several references at once
		var format string
		var args []any
		txts := map[int]Txt{}
		n := r.Between(2, 4)
		order := r.Perm(n)
		for i := 0; i < n; i++ {
			e, pre := ref()
			// positional, in any order
			format += pre + "%[" + fmt.Sprint(i+1) + "]s" + e.suffix + "\n"
			args = append(args, e.arg)
			txts[i] = func(rf SymFn) string { return strings.TrimSuffix(e.txt(rf), e.suffix) }
		}
		if r.Chance(40) {
			lines := strings.SplitAfter(format, "\n")
			format = ""
			for _, i := range order {
				format += lines[i]
			}
		}
		w.ev("multi_reference_formats")
		w.keep(args)
		return piece{func(cb *gopoet.CodeBlock) { cb.Printf(format, args...) }, fmtTxt(format, args, txts)}
	case k == 8:
		e, pre := ref()
		own := func(rf SymFn) string { return strings.TrimSuffix(e.txt(rf), e.suffix) }
		return piece{func(cb *gopoet.CodeBlock) {
			cb.Print("if true ")
			cb.Println("{")
			cb.Printf(pre)
			cb.Printlnf("%s"+e.suffix, e.arg)
			cb.Printlnf("}")
		}, func(rf SymFn) string { return "if true {\n" + pre + own(rf) + e.suffix + "\n}\n" }}
	case k == 9 && w.Opt.WildText:
		e, _ := ref()
		own := func(rf SymFn) string { return strings.TrimSuffix(e.txt(rf), e.suffix) }
		verb := OneOf(r, "%q", "%x", "%.3s", "%5.1s", "%X", "% x", "%#q")
		format := "_ = 1 // " + verb
		if strings.Contains(own(func(Sym) string { return "x" }), "\n") {
			format = "_ = 1 // %q"
		}
		args := []any{e.arg}
		w.ev("odd_verbs_on_references")
		if _, ok := e.arg.(*types.Package); ok && !strings.HasSuffix(verb, "s") {
			return piece{func(cb *gopoet.CodeBlock) {}, lit("")}
		}
		return piece{func(cb *gopoet.CodeBlock) { cb.Printlnf(format, args...) }, fmtTxt(format+"\n", args, map[int]Txt{0: own})}
	default:
		if !allowTmpl {
			return piece{func(cb *gopoet.CodeBlock) { cb.Println("_ = 1") }, lit("_ = 1\n")}
		}
		d := w.tmplPiece(f, func() (exprRef, string) {
			for {
				e, pre := ref()
				if e.spec && w.Opt.NoSpecData {
					continue
				}
				return e, pre
			}
		})
		return piece{func(cb *gopoet.CodeBlock) { cb.RenderCode(d.tmpl, d.data) }, d.txt}
	}
}

// yielder lets other goroutines run when it is formatted.
type yielder struct{}

func (yielder) String() string {
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	return "y"
}

type stringerType struct{ s string }

func (s stringerType) String() string { return "<" + s.s + ">" }

type tdIface struct {
	N    int
	A    any
	Note string
}

type tdDeep struct {
	Name  string
	Items []tdIface
	M     map[string]*tdIface
	Next  *tdDeep
}

type tdSym struct{ A gopoet.Symbol }
type tdSyms struct {
	Arr [2]gopoet.Symbol
	Sl  []*gopoet.Symbol
}
type tdType struct{ A gopoet.TypeName }
type tdHidden struct {
	n int
	a any
}

func (t tdHidden) A() any  { return t.a }
func (t *tdHidden) N() int { return t.n }

func mustTmpl(text string) *template.Template {
	return template.Must(template.New("t").Parse(text))
}

// tmplPiece makes a template and data to render.
func (w *World) tmplPiece(f *WFile, ref func() (exprRef, string)) sharedData {
	d := w.tmplPiece0(f, ref)
	w.keep(d.data)
	return d
}

func (w *World) tmplPiece0(f *WFile, ref func() (exprRef, string)) sharedData {
	r := w.R
	w.ev("templates")
	e, pre := ref()
	own := func(rf SymFn) string { return pre + e.txt(rf) + "\n" }
	one := pre + "{{.A}}" + e.suffix + "\n"
	switch r.IntN(12) {
	case 10, 11:
		// several entries, which have no order of their own
		m := map[string]any{"note": 1}
		by := map[any]any{}
		var txts []Txt
		var t strings.Builder
		for i := r.Between(2, 5); i > 0; i-- {
			x, pre := ref()
			key := OneOf(r, "k", "a", "Z") + fmt.Sprint(i)
			if r.Chance(40) {
				by[key] = x.arg
				fmt.Fprintf(&t, "%s{{index .by %q}}%s\n", pre, key, x.suffix)
			} else {
				m[key] = x.arg
				fmt.Fprintf(&t, "%s{{.%s}}%s\n", pre, key, x.suffix)
			}
			txts = append(txts, func(rf SymFn) string { return pre + x.txt(rf) + "\n" })
		}
		if len(by) > 0 {
			m["by"] = by
		}
		return sharedData{mustTmpl(t.String()), m, func(rf SymFn) string { return join(txts, rf) }}
	case 0:
		return sharedData{mustTmpl(one), map[string]any{"A": e.arg, "n": 1}, own}
	case 1:
		return sharedData{mustTmpl(one), tdIface{1, e.arg, "x"}, own}
	case 2:
		return sharedData{mustTmpl(one), &tdIface{1, e.arg, "x"}, own}
	case 3:
		return sharedData{mustTmpl(pre + "{{.}}" + e.suffix + "\n"), e.arg, own}
	case 4:
		return sharedData{mustTmpl(one), tdHidden{1, e.arg}, own}
	case 5:
		return sharedData{mustTmpl(pre + "{{printf \"%s\" .A}}" + e.suffix + "\n{{if gt .N 0}}_ = {{.N}}{{end}}\n"), &tdHidden{3, e.arg},
			func(rf SymFn) string { return own(rf) + "_ = 3\n" }}
	case 6:
		// several references in a slice, deep down
		var items []tdIface
		var txts []Txt
		for n := r.Between(1, 4); n > 0; n-- {
			x, pre := ref()
			items = append(items, tdIface{n, x.arg, pre + "|" + x.suffix})
			txts = append(txts, func(rf SymFn) string { return pre + x.txt(rf) + "\n" })
		}
		d := &tdDeep{Name: "n", M: map[string]*tdIface{"k": {1, e.arg, ""}}, Next: &tdDeep{Items: items}}
		t := template.Must(template.New("t").Funcs(template.FuncMap{
			"before": func(s string) string { a, _, _ := strings.Cut(s, "|"); return a },
			"after":  func(s string) string { _, b, _ := strings.Cut(s, "|"); return b },
		}).Parse(pre + "{{.M.k.A}}" + e.suffix + "\n{{range .Next.Items}}{{before .Note}}{{.A}}{{after .Note}}\n{{end}}"))
		return sharedData{t, d, func(rf SymFn) string { return own(rf) + join(txts, rf) }}
	case 7:
		u1, u2, u3 := w.pickU(), w.pickU(), w.pickU()
		s1, s2, s3 := w.uRefSym(u1, "V0"), w.uRefSym(u2, "C1"), w.uRefSym(u3, "F1")
		p3 := s3.arg.(gopoet.Symbol)
		d := tdSyms{Arr: [2]gopoet.Symbol{s1.arg.(gopoet.Symbol), s2.arg.(gopoet.Symbol)}, Sl: []*gopoet.Symbol{&p3}}
		t := mustTmpl("{{range .Arr}}_ = {{.}}\n{{end}}{{range $i, $x := .Sl}}_ = {{$x}}{{end}}\n")
		return sharedData{t, d, func(rf SymFn) string {
			return "_ = " + s1.txt(rf) + "\n_ = " + s2.txt(rf) + "\n_ = " + s3.txt(rf) + "\n"
		}}
	case 8:
		t := w.typeRef(nil)
		for {
			if _, ok := t.arg.(gopoet.TypeName); ok {
				break
			}
			t = w.typeRef(nil)
		}
		tm := mustTmpl(`{{define "v"}}var _ {{.}}{{end}}{{template "v" .A}}` + "\n")
		return sharedData{tm, []tdType{{t.arg.(gopoet.TypeName)}}[0], func(rf SymFn) string { return "var _ " + t.txt(rf) + "\n" }}
	default:
		u := w.pickU()
		s := w.uRefSym(u, "C0")
		t := mustTmpl("_ = {{.A.Package}}.{{.A.Name}}\n_ = {{.A.Package.Name}}.C1\n")
		return sharedData{t, &tdSym{s.arg.(gopoet.Symbol)}, func(rf SymFn) string {
			p := rf(Sym{u.Path, u.Name, ""})
			return "_ = " + p + ".C0\n_ = " + p + ".C1\n"
		}}
	}
}

func (w *World) makeShared() {
	r := w.R
	s := &Shared{}
	for i := 0; i < 4; i++ {
		t := w.tyGen(nil).Gen(r.Between(2, 10))
		tn := t.poet()
		if i == 3 {
			var sg *Sg
			for sg == nil {
				g := w.tyGen(nil)
				g.budget = 8
				sg = g.sig()
			}
			sig := sg.poet()
			t = &Ty{K: gopoet.KindFunc, Sig: sg, Len: -1}
			tn = gopoet.FuncTypeFromSig(sig)
		}
		t.Mk = func() gopoet.TypeName { return tn }
		s.Types = append(s.Types, t)
	}
	opt := w.Opt
	w.Opt.NoSpecData = true
	for i := 0; i < 3; i++ {
		cb := &gopoet.CodeBlock{}
		var txts []Txt
		for j := r.Between(1, 4); j > 0; j-- {
			p := w.piece(nil, true)
			p.add(cb)
			txts = append(txts, p.txt)
		}
		s.Blocks = append(s.Blocks, sharedBlock{cb, func(ref SymFn) string { return join(txts, ref) }})
	}
	for i := 0; i < 3; i++ {
		d := w.tmplPiece(nil, func() (exprRef, string) {
			if r.Chance(40) {
				return w.typeRef(nil), "var _ "
			}
			return w.uValue("any"), "_ = "
		})
		s.Data = append(s.Data, d)
	}
	w.Opt = opt
	w.Shared = s
}
