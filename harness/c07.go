package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/types"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"

	rtaltfoo "verif/harness/rt/alt/foo"
	rtfoo "verif/harness/rt/foo"
	rtkit "verif/harness/rt/kit"
)

func init() {
	checks["C07"] = &CheckDef{
		Boost:  5,
		Deep:   6,
		Rule:   "random worlds whose files share types, code blocks, templates and template data and refer to each other's elements; the bytes of each file rendered alone in a fresh copy of the world are compared with those of random histories (permuted, repeated, batched, interrupted by failing writers and unformattable files, rendered while the model is still being built); values passed in are dumped before and after; nontrivial worlds have at least two files with imports",
		Shards: 8,
		Needs:  map[string]int64{"renderings_compared": 10000, "values_compared": 20000, "shared_blocks_used": 1000, "shared_template_data_used": 500, "renderings_of_unfinished_files": 2000, "failed_writes": 500, "renderings_of_equal_maps": 3000},
		Run:    runC07,
	}
}

// deepDump writes all of a value, but for elements of files (which change when
// their file is rendered) and opaque values of other libraries.
func deepDump(v any) string {
	var b strings.Builder
	deepDumpValue(reflect.ValueOf(v), &b, 0)
	return b.String()
}

func opaque(v reflect.Value) (string, bool) {
	if !v.CanInterface() {
		return "", false
	}
	switch x := v.Interface().(type) {
	case gopoet.TypeName:
		return "type " + fullDump.Ty(tyOf(x)), true
	case *gopoet.Signature:
		if x == nil {
			return "nil sig", true
		}
		return "sig " + fullDump.Sig(sgOf(x)), true
	case *gopoet.ConstSpec:
		return fmt.Sprintf("const %p", x), true
	case *gopoet.VarSpec:
		return fmt.Sprintf("var %p", x), true
	case *gopoet.TypeSpec:
		return fmt.Sprintf("typespec %p", x), true
	case *gopoet.FuncSpec:
		return fmt.Sprintf("func %p", x), true
	case *gopoet.InterfaceMethod:
		return fmt.Sprintf("method %p", x), true
	case *gopoet.InterfaceEmbed:
		return fmt.Sprintf("embed %p", x), true
	case reflect.Type:
		return "reflect " + x.String(), true
	case types.Type:
		return fmt.Sprintf("gotype %v", x), true
	case types.Object:
		return fmt.Sprintf("goobj %p", x), true
	case *types.Package:
		return fmt.Sprintf("gopkg %p", x), true
	case *template.Template:
		return fmt.Sprintf("template %p", x), true
	}
	return "", false
}

func deepDumpValue(v reflect.Value, b *strings.Builder, depth int) {
	if !v.IsValid() {
		b.WriteString("<invalid>")
		return
	}
	if depth > 5000 {
		bug("value too deep")
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func:
		if v.IsNil() {
			b.WriteString("nil " + v.Type().String())
			return
		}
	}
	if s, ok := opaque(v); ok {
		b.WriteString(s)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		fmt.Fprintf(b, "&%x:", v.Pointer())
		deepDumpValue(v.Elem(), b, depth+1)
	case reflect.Interface:
		b.WriteString("iface:")
		deepDumpValue(v.Elem(), b, depth+1)
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%v len %d[", v.Type(), v.Len())
		if v.Kind() == reflect.Slice {
			fmt.Fprintf(b, "cap %d at %x ", v.Cap(), v.Pointer())
			v = v.Slice(0, v.Cap()) // also what is behind the end
		}
		for i := 0; i < v.Len(); i++ {
			deepDumpValue(v.Index(i), b, depth+1)
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			deepDumpValue(it.Key(), &e, depth+1)
			e.WriteString(" => ")
			deepDumpValue(it.Value(), &e, depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		fmt.Fprintf(b, "%v at %x {%s}", v.Type(), v.Pointer(), strings.Join(es, "; "))
	case reflect.Struct:
		b.WriteString(v.Type().String() + "{")
		if v.CanInterface() {
			// make unexported fields readable
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			v = c
		}
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + "=")
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			}
			deepDumpValue(f, b, depth+1)
			b.WriteString("; ")
		}
		b.WriteString("}")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%v %x", v.Type(), v.Pointer())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func (w *World) dumpKept() []string {
	var ret []string
	for _, v := range w.kept {
		ret = append(ret, deepDump(v))
	}
	return ret
}

func (k *Case) keptUnchanged(w *World, before []string, what string) {
	after := w.dumpKept()
	for i := range before {
		if before[i] != after[i] {
			k.Failf("%s modified a value that was passed in: %s", what, firstDiff(before[i], after[i]))
		}
	}
	k.Count("values_compared", len(before))
}

var errWrite = errors.New("injected write error")

type badWriter struct{ left int }

func (w *badWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		return w.left, errWrite
	}
	w.left -= len(p)
	return len(p), nil
}

type bufCloser struct{ bytes.Buffer }

func (*bufCloser) Close() error { return nil }

func (k *Case) sameBytes(f *WFile, want, got []byte, hist []string) {
	k.Count("renderings_compared", 1)
	if !bytes.Equal(want, got) {
		k.Failf("%s depends on what was rendered before it: %s\nhistory:\n  %s\nrendered alone:\n%s", f.Path, firstDiff(string(want), string(got)), strings.Join(hist, "\n  "), numbered(want))
	}
}

// alone renders each file in a world of its own.
func (k *Case) alone(build func() *World) [][]byte {
	var ret [][]byte
	n := len(build().Files)
	for i := 0; i < n; i++ {
		w := build()
		ret = append(ret, w.Files[i].mustWrite(k))
	}
	return ret
}

// broken is a file that uses shared values but cannot be formatted.
func (w *World) broken(i int) *gopoet.GoFile {
	gf := gopoet.NewGoFile("broken.go", "example.com/broken", "broken")
	// give the prefixes that other files use to other packages
	for _, u := range plainU[:w.R.IntN(len(plainU))] {
		if w.R.Chance(50) {
			gf.RegisterImport(u.Path, u.Name)
		}
	}
	fn := gopoet.NewFunc("f")
	if w.Shared != nil {
		for _, b := range w.Shared.Blocks {
			fn.AddCode(b.cb)
		}
		for _, d := range w.Shared.Data {
			fn.RenderCode(d.tmpl, d.data)
		}
		for j, t := range w.Shared.Types {
			fn.AddArg(fmt.Sprint("a", j), w.tn(t))
		}
	}
	for _, f := range w.Files {
		for _, d := range f.L.decls {
			if d.Spec != nil && d.Kind != "method" && d.Idx < 0 {
				fn.Printlnf("%s", d.Spec)
			}
		}
	}
	if i%2 == 0 {
		fn.Println("}{ this is not go")
	}
	return gf.AddElement(fn)
}

func runC07(c *Ctx) {
	c.Run("histories", c.N(700, 12000), func(k *Case) {
		opt := WOpt{Pkgs: k.R.Between(1, 3), FilesPerPkg: k.R.Between(1, 3), Elems: k.R.Between(2, 7), Bodies: true, MaxPieces: 5, Share: k.R.Chance(80), TypeBudget: 8, Comments: k.R.IntN(3), Canonical: true, Reuse: k.R.Chance(60)}
		seed := k.R.Uint64()
		build := func() *World { return buildWorld(newRng(seed, "C07", "world", 0), opt) }
		want := k.alone(build)
		for h := 0; h < 2; h++ {
			k.history(build(), want)
		}
		key := bytes.Join(want, nil)
		if len(want) > 1 && bytes.Count(key, []byte("import")) > 1 {
			k.Nontrivial(string(key))
		}
	})
	c.Run("unfinished", c.N(600, 10000), func(k *Case) {
		opt := WOpt{Pkgs: k.R.Between(1, 3), FilesPerPkg: k.R.Between(1, 2), Elems: k.R.Between(3, 8), Bodies: true, MaxPieces: 4, Share: k.R.Chance(60), TypeBudget: 8, NoExplicit: true, Reuse: k.R.Chance(60)}
		seed := k.R.Uint64()
		want := k.alone(func() *World { return buildWorld(newRng(seed, "C07", "world", 0), opt) })
		var hist []string
		w := buildWorldWith(newRng(seed, "C07", "world", 0), opt, func(w *World) {
			for _, f := range w.Files {
				if k.R.Chance(40) {
					hist = append(hist, fmt.Sprintf("%s with %d elements", f.Path, len(f.Elems)))
					f.mustWrite(k)
					k.Count("renderings_of_unfinished_files", 1)
				}
			}
		})
		for _, i := range k.R.Perm(len(w.Files)) {
			f := w.Files[i]
			k.sameBytes(f, want[i], f.mustWrite(k), hist)
			hist = append(hist, f.Path)
		}
		k.Nontrivial(string(bytes.Join(want, nil)))
	})
	c.Run("maps", c.N(400, 8000), func(k *Case) { k.sameMaps() })
	c.Run("data", c.N(1500, 30000), func(k *Case) { k.sameData() })
	c.Run("elements of two files", 1, func(k *Case) { k.elementsOfTwoFiles() })
	c.Run("shared-signatures", c.N(300, 6000), func(k *Case) {
		seed := k.R.Uint64()
		n := k.R.Between(2, 4)
		build := func() *World {
			w := buildWorld(newRng(seed, "C07", "world", 0), WOpt{TypeBudget: 8})
			w.signatureFiles(n)
			return w
		}
		want := k.alone(build)
		w := build()
		before := w.dumpKept()
		var hist []string
		for j := 0; j < 2; j++ {
			for _, i := range k.R.Perm(n) {
				k.sameBytes(w.Files[i], want[i], w.Files[i].mustWrite(k), hist)
				hist = append(hist, w.Files[i].Path)
			}
		}
		k.keptUnchanged(w, before, "rendering")
		k.Nontrivial(string(bytes.Join(want, nil)))
	})
}

type mapKey struct{ A, b int }

type mapName int

func (n mapName) String() string { return "name" }

// mapData makes template data that is a map with many entries that refer to
// packages of the same name, so that their aliases depend on the order in which
// the entries are looked at. The order of the entries of a map is random, so
// equal data is made anew each time.
func (k *Case) mapData(seed uint64) (data any, tmpl string) {
	r := newRng(seed, "C07", "map", 0)
	n := r.Between(3, 12)
	next := 0
	val := func() any {
		next++
		s := gopoet.Symbol{Package: gopoet.Package{ImportPath: fmt.Sprintf("example.com/%c%d/foo", 'a'+r.IntN(26), next), Name: OneOf(r, "foo", "foo", "foo", "foo1", "")}, Name: fmt.Sprint("S", next)}
		switch r.IntN(7) {
		case 0:
			return &s
		case 1:
			return s.Package
		case 2:
			return gopoet.NamedType(s)
		case 3:
			return []gopoet.Symbol{s}
		case 4:
			return map[string]any{"x": s}
		case 5:
			return gopoet.MethodReference{Type: s, Method: "M"}
		}
		return s
	}
	kind := r.IntN(20)
	tmpl = "{{range $k, $v := .M}}// {{$k}}: {{$v}}\n{{end}}"
	sym := func(i int) gopoet.Symbol {
		return gopoet.Symbol{Package: gopoet.Package{ImportPath: fmt.Sprintf("example.com/k%d/foo", (i*7)%13), Name: "foo"}, Name: "K"}
	}
	m := map[any]any{}
	for i := 0; i < n; i++ {
		var key any
		switch kind {
		case 0:
			key = i - 2
		case 1:
			key = fmt.Sprint(i)
		case 2:
			key = float64(i) / 3
		case 3:
			key = uint8(i)
		case 4:
			key = i%2 == 0
		case 5:
			key = mapKey{i % 3, i}
		case 6:
			key = mapName(i)
		case 7:
			key = [2]int{i % 2, i}
		case 8:
			key = rune('a' + i)
		case 9:
			key, tmpl = math.NaN(), ""
		case 10:
			key, tmpl = []any{i, fmt.Sprint(i), mapKey{i, 0}, math.NaN(), mapName(i), sym(i), float64(i), int64(i)}[i%8], ""
		case 11:
			key, tmpl = sym(i), ""
		case 12:
			key, tmpl = gopoet.NamedType(sym(i)), ""
		case 13:
			s := sym(i)
			key, tmpl = &s, ""
		case 14:
			key, tmpl = reflect.TypeOf([]any{0, "", 1.5, rtfoo.Num(1), rtfoo.Rec{}, rtaltfoo.Num(1), rtaltfoo.Rec{}, rtkit.Num(1), rtkit.Rec{}, true, int8(1), []int{}}[i]), ""
		case 15:
			key, tmpl = complex(float64(i%3), float64(i)), ""
		case 16:
			key, tmpl = gopoet.SliceType(gopoet.PointerType(gopoet.NamedType(sym(i)))), ""
		case 17:
			s := sym(i)
			key, tmpl = [1]any{&s}, ""
		case 18:
			s := sym(i)
			key, tmpl = struct{ S *gopoet.Symbol }{&s}, ""
		case 19:
			key, tmpl = &mapKey{i % 2, i}, ""
		}
		m[key] = val()
	}
	// a map of the keys' type
	kt := reflect.TypeOf((*any)(nil)).Elem()
	if kind != 10 && r.Chance(70) {
		for key := range m {
			kt = reflect.TypeOf(key)
			break
		}
	} else {
		tmpl = ""
	}
	rm := reflect.MakeMap(reflect.MapOf(kt, reflect.TypeOf((*any)(nil)).Elem()))
	for key, v := range m {
		rm.SetMapIndex(reflect.ValueOf(key), reflect.ValueOf(&v).Elem())
	}
	k.Count("map_entries", rm.Len())
	data = struct {
		N string
		M any
	}{"n", rm.Interface()}
	switch r.IntN(4) {
	case 0:
		data = map[string]any{"M": rm.Interface(), "N": 1}
	case 1:
		data = &struct {
			M any
			x []any
		}{rm.Interface(), []any{rm.Interface(), val()}}
	}
	return data, tmpl
}

// sameData renders several files with the same template data, which nothing
// may modify and which no file may see differently because of another.
func (k *Case) sameData() {
	r := k.R
	g := k.newD9Gen()
	var data any
	if r.Chance(30) {
		// a list of references
		switch n := r.Size(r.Between(1, 9), 60); r.IntN(7) {
		case 0:
			l := make([]gopoet.Symbol, n)
			for i := range l {
				l[i] = g.sym()
			}
			data = l
		case 1:
			l := make([]gopoet.Package, n)
			for i := range l {
				l[i] = g.pkg()
			}
			data = l
		case 2:
			l := make([]gopoet.TypeName, n)
			for i := range l {
				l[i] = g.tn()
			}
			data = l
		case 3:
			l := make([]*gopoet.Symbol, n)
			for i := range l {
				s := g.sym()
				l[i] = &s
			}
			data = l
		case 4:
			l := make([]any, n)
			for i := range l {
				l[i] = g.dyn(anyT, false).Interface()
			}
			data = l
		case 5:
			m := map[string]gopoet.Symbol{}
			for i := range n {
				m[fmt.Sprint("k", i)] = g.sym()
			}
			data = m
		case 6:
			l := make([]*gopoet.TypeSpec, n)
			for i := range l {
				l[i] = g.typeSpec()
			}
			data = l
		}
		if r.Chance(40) {
			data = &struct {
				X any
				y any
			}{data, data}
		}
	} else {
		data = g.fill(g.typ(r.IntN(4))).Interface()
	}
	if data == nil {
		return
	}
	usual := true
	dump := deepDump(data)
	bad, _ := panics(func() { gopoet.NewImportsFor("own").QualifyTemplateData(data) })
	if bad {
		return // C09 looks into that
	}
	tmpl := mustTmpl("// see\n")
	if r.Chance(40) {
		tmpl = mustTmpl("{{$d := .}}// see {{printf \"%T\" $d}}\n")
	}
	type setup struct {
		own   string
		first []gopoet.Package
		more  gopoet.TypeName
	}
	newFile := func(s setup) *gopoet.GoFile {
		gf := gopoet.NewGoFile("f.go", s.own, "own")
		for _, p := range s.first {
			gf.RegisterImportForPackage(p)
		}
		gf.AddElement(gopoet.NewFunc("f").RenderCode(tmpl, data))
		if s.more != nil {
			gf.AddVar(gopoet.NewVar("v").SetType(s.more))
		}
		return gf
	}
	write := func(gf *gopoet.GoFile) string {
		var b bufCloser
		err := gopoet.WriteGoFile(&b, gf)
		var fe *gopoet.FormatError
		if errors.As(err, &fe) {
			// some import paths cannot be written in source
			return string(fe.Unformatted)
		}
		if err != nil {
			usual = false
			return "error: " + err.Error()
		}
		return b.String()
	}
	var setups []setup
	for n := r.Between(1, 3); n > 0; n-- {
		s := setup{own: OneOf(r, "own", "example.com/own", g.s.own)}
		for m := r.IntN(4); m > 0; m-- {
			if p := g.pkg(); p.ImportPath != "" {
				s.first = append(s.first, p)
			}
		}
		if r.Chance(30) {
			s.more = g.tn()
		}
		setups = append(setups, s)
	}
	var files []*gopoet.GoFile
	var want []string
	for _, s := range setups {
		f := newFile(s)
		files = append(files, f)
		want = append(want, write(f))
		k.Count("renderings_with_data", 1)
	}
	unchanged := func() {
		if now := deepDump(data); now != dump {
			k.Failf("rendering a file modified its template data: %s", firstDiff(dump, now))
		}
	}
	unchanged()
	for n := 4; n > 0; n-- {
		i := r.IntN(len(setups))
		f := files[i]
		if r.Chance(50) {
			f = newFile(setups[i])
		}
		if got := write(f); got != want[i] {
			k.Failf("a file with template data (%T) does not look as it did before: %s\ndata: %s\none:\n%s\nother:\n%s", data, firstDiff(want[i], got), dump, numbered([]byte(want[i])), numbered([]byte(got)))
		}
		k.Count("renderings_with_data", 1)
	}
	unchanged()
	if usual {
		k.Nontrivial(dump)
	}
}

// mapOf finds the map in the data that mapData makes.
func mapOf(data any) any {
	v := reflect.Indirect(reflect.ValueOf(data))
	if v.Kind() == reflect.Map {
		return v.MapIndex(reflect.ValueOf("M")).Interface()
	}
	return v.FieldByName("M").Interface()
}

// sameMaps renders files with equal maps as template data: all of them have to
// look the same.
func (k *Case) sameMaps() {
	seed := k.R.Uint64()
	first := ""
	for i := 0; i < 8; i++ {
		data, tmpl := k.mapData(seed)
		gf := gopoet.NewGoFile("f.go", "example.com/own", "own")
		r := newRng(seed, "C07", "file", 0)
		if r.Chance(50) {
			gf.RegisterImport("example.com/first/foo", "foo")
		}
		gf.AddElement(gopoet.NewFunc("f").Println("// text").RenderCode(mustTmpl("// see\n"+tmpl), data))
		src := k.writeFile(gf)
		if i == 0 {
			first = src
		} else if src != first {
			k.Failf("files with equal template data (%T) differ: %s\none:\n%s\nother:\n%s", mapOf(data), firstDiff(first, src), numbered([]byte(first)), numbered([]byte(src)))
		}
		k.Count("renderings_of_equal_maps", 1)
	}
	k.Nontrivial(first)
}

// signatureFiles adds files that use the same signatures, fields and symbols,
// given in slices that have room for more.
func (w *World) signatureFiles(n int) {
	r := w.R
	g := w.tyGen(nil)
	g.budget = 12
	var sig *gopoet.Signature
	for sig == nil || len(sig.Args)+len(sig.Results) == 0 {
		sg := g.sig()
		sig = w.sigPoet(sg)
	}
	mk := func(t *Ty) gopoet.TypeName { return w.tn(t) }
	fields := make([]gopoet.FieldType, 0, 10)
	for i := 0; i < 3; i++ {
		fields = append(fields, gopoet.FieldType{Name: fmt.Sprint("F", i), Type: mk(g.Gen(4))})
	}
	embeds := make([]gopoet.Symbol, 0, 10)
	for i := 0; i < 3; i++ {
		embeds = append(embeds, w.uSym("I0").poet())
	}
	methods := make([]gopoet.MethodType, 0, 10)
	for i := 0; i < 2; i++ {
		methods = append(methods, gopoet.MethodType{Name: g.Method(), Signature: *sig})
	}
	st := gopoet.StructType(fields...)
	it := gopoet.InterfaceType(embeds, methods...)
	ft := gopoet.FuncTypeFromSig(sig)
	w.keep(st)
	w.keep(it)
	w.keep(ft)
	w.keep(fields)
	w.keep(embeds)
	w.keep(methods)
	w.keep(sig)
	for i := 0; i < n; i++ {
		gf := gopoet.NewGoFile("f.go", fmt.Sprintf("example.com/gen/%d", i), "gen")
		if r.Chance(30) {
			gf = gopoet.NewGoFile("f.go", Pick(r, plainU).Path, "own")
		}
		for m := r.IntN(12); m > 0; m-- {
			u := Pick(r, plainU)
			gf.RegisterImport(u.Path, u.Name)
		}
		fn := gopoet.NewFunc("fn")
		fn.Signature = *sig
		me := gopoet.NewMethod(gopoet.NewReceiver("", "X"), "fn")
		me.Signature = *sig
		im := gopoet.NewInterfaceMethod("Foo")
		im.Signature = *sig
		gf.AddElement(fn).AddElement(me).AddType(gopoet.NewInterfaceTypeSpec("I", im)).
			AddType(gopoet.NewTypeSpec("S", gopoet.StructType(fields...))).AddType(gopoet.NewTypeSpec("J", gopoet.InterfaceType(embeds, methods...))).
			AddVar(gopoet.NewVar("a").SetType(st)).AddVar(gopoet.NewVar("b").SetType(it)).AddVar(gopoet.NewVar("c").SetType(ft)).
			AddElement(gopoet.NewFunc("g").Printlnf("var _ %s", st).Printlnf("var _ %s", ft).Printlnf("// %v", sig).
				RenderCode(mustTmpl("var _ {{range .}}{{.}} {{end}}"), []gopoet.TypeName{it}))
		w.Files = append(w.Files, &WFile{W: w, L: &LPkg{}, GF: gf, Path: fmt.Sprint("file ", i), Header: lit("")})
	}
}

// history renders the files of a world in some order.
func (k *Case) history(w *World, want [][]byte) {
	r := k.R
	k.countWorld(w)
	before := w.dumpKept()
	var hist []string
	brk := []*gopoet.GoFile{w.broken(0), w.broken(1)}
	for n := 2*len(w.Files) + 3; n > 0; n-- {
		i := r.IntN(len(w.Files))
		f := w.Files[i]
		switch r.IntN(8) {
		case 0:
			// several files at once
			var outs []*bufCloser
			var idx []int
			var gfs []*gopoet.GoFile
			for m := r.Between(1, 4); m > 0; m-- {
				i := r.IntN(len(w.Files))
				idx, gfs = append(idx, i), append(gfs, w.Files[i].GF)
				hist = append(hist, "WriteGoFiles: "+w.Files[i].Path)
			}
			err := gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) {
				o := &bufCloser{}
				outs = append(outs, o)
				return o, nil
			}, gfs...)
			if err != nil {
				k.Failf("WriteGoFiles failed: %v", err)
			}
			for j, i := range idx {
				k.sameBytes(w.Files[i], want[i], outs[j].Bytes(), hist)
			}
		case 1:
			hist = append(hist, f.Path+" (write fails)")
			if err := gopoet.WriteGoFile(&badWriter{r.IntN(len(want[i]))}, f.GF); err == nil {
				k.Failf("a failed write of %s is not reported", f.Path)
			}
			k.Count("failed_writes", 1)
		case 2:
			b := Pick(r, brk)
			hist = append(hist, "another file")
			var buf bytes.Buffer
			if bad, val := panics(func() { _ = gopoet.WriteGoFile(&buf, b) }); bad {
				k.Failf("panic: %v", val)
			}
		case 3:
			hist = append(hist, f.Path+" (looked at)")
			_ = f.GF.ImportSpecs()
			for _, d := range f.L.decls {
				if s, ok := d.Spec.(fmt.Stringer); ok {
					_ = s.String()
				}
			}
		default:
			got := f.mustWrite(k)
			k.sameBytes(f, want[i], got, hist)
			hist = append(hist, f.Path)
		}
	}
	for i, f := range w.Files {
		k.sameBytes(f, want[i], f.mustWrite(k), hist)
		hist = append(hist, f.Path)
	}
	k.keptUnchanged(w, before, "rendering")
}

// elementsOfTwoFiles shows KF-6: rendering a file leaves its prefixes in its
// elements, from where they get into other files.
func (k *Case) elementsOfTwoFiles() {
	ty := gopoet.NamedType(gopoet.NewSymbol("b/foo", "T"))
	files := func() (a, b *gopoet.GoFile) {
		a = gopoet.NewGoFile("a.go", "own/a", "a")
		a.RegisterImport("a/foo", "foo")
		return a, gopoet.NewGoFile("b.go", "own/b", "b")
	}
	check := func(b, fresh *gopoet.GoFile, known string) {
		alone, src := k.writeFile(fresh), k.writeFile(b)
		switch {
		case src == alone:
		case src == strings.Replace(alone, "foo.T", "foo1.T", 1):
			k.Known(known)
		default:
			k.Failf("a file is rendered as\n%sinstead of\n%s", src, alone)
		}
	}

	spec := func() *gopoet.TypeSpec { return gopoet.NewStructTypeSpec("", gopoet.NewField("x", ty)) }
	shared := spec()
	a, b := files()
	a.AddVar(gopoet.NewVar("v").SetType(shared))
	b.AddVar(gopoet.NewVar("v").SetType(shared))
	k.writeFile(a)
	_, fresh := files()
	fresh.AddVar(gopoet.NewVar("v").SetType(spec()))
	check(b, fresh, "KF-6 an unnamed *TypeSpec used in two files is rendered in the second with the prefixes of the first")

	a, b = files()
	t := gopoet.NewTypeSpec("S", gopoet.StructType(gopoet.FieldType{Name: "x", Type: ty}))
	a.AddType(t)
	_, fresh = files()
	fresh.AddVar(gopoet.NewVar("v").SetType(t.Underlying()))
	k.writeFile(a)
	b.AddVar(gopoet.NewVar("v").SetType(t.Underlying()))
	check(b, fresh, "KF-6 the type of an element that is used in a second file after the first was rendered carries the prefixes of the first")
}
