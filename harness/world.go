package main

import (
	"bytes"
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

// A World is a set of generated packages, built twice at the same time: as
// gopoet model, and as source text written by the harness itself, in which the
// prefixes of other packages are left open (see Txt). Building it again from
// the same random source gives an equal but independent world.
type World struct {
	R        *Rng
	Opt      WOpt
	Locals   []*LPkg
	Files    []*WFile
	Shared   *Shared
	ctr      int
	known    map[string]bool
	events   map[string]int
	reusable []reusedBlock
	// comments are those made so far
	comments []string
	us       []*UPkg
	// kept are the values passed to gopoet, which it must leave alone.
	kept []any
	// onElem is called after each element has been added.
	onElem func()
}

// WOpt selects what a world contains.
type WOpt struct {
	Pkgs, FilesPerPkg, Elems int
	Comments                 int // 0 none, 1 plain, 2 hostile
	Bodies                   bool
	MaxPieces                int
	Share                    bool // use values shared by all files
	NoSpecData               bool // do not put elements into template data
	TypeBudget               int
	Canonical                bool
	Yield                    bool // use arguments that let other goroutines run
	NoExplicit               bool // no explicit import registrations
	Reuse                    bool // code blocks are used by several elements
	WildText                 bool // use text and formats that look like directives, badly formatted code, ...
}

// Txt renders text, given the way to refer to symbols (with a symbol without a
// name it gives just the package's prefix).
type Txt func(ref SymFn) string

func lit(s string) Txt { return func(SymFn) string { return s } }

type LPkg struct {
	Path, Name string
	idx        int
	decls      []*LDecl
	files      []*WFile
}

type LDecl struct {
	Kind string // const, var, type, func, method
	Name string
	L    *LPkg
	F    *WFile
	Spec any
	Idx  int // name index in the spec, -1 if it is the only one
	// for types
	Iface, Struct, IntBased, Methods bool
	// for methods
	RecvName string
	RecvPtr  bool
}

func (d *LDecl) sym() Sym { return Sym{Path: d.L.Path, Pkg: d.L.Name, Name: d.Name} }

type WFile struct {
	W      *World
	L      *LPkg
	GF     *gopoet.GoFile
	Header Txt
	Elems  []Txt
	Path   string
	Index  int
	lits   []litCheck
}

type litCheck struct{ kind, name, text string }

// Shared holds values that several files use.
type Shared struct {
	Types  []*Ty // with Mk set to a shared TypeName
	Blocks []sharedBlock
	Data   []sharedData
	Sigs   []*Sg
}

type sharedBlock struct {
	cb  *gopoet.CodeBlock
	txt Txt
}

type sharedData struct {
	tmpl *template.Template
	data any
	txt  Txt
}

var localPkgChoices = []LPkg{
	{Path: "example.com/gen/foo", Name: "foo"},
	{Path: "example.com/gen/foo1", Name: "foo1"},
	{Path: "example.com/gen/http", Name: "http"},
	{Path: "gen", Name: "gen"},
	{Path: "example.com/gen/v3", Name: "bytes"},
	{Path: "example.com/gen/go-thing", Name: "thing"},
	{Path: "example.com/gen/deep/er/template", Name: "template"},
	{Path: "example.com/gen/_x", Name: "_x"},
}

func buildWorld(r *Rng, opt WOpt) *World { return buildWorldWith(r, opt, nil) }

func buildWorldWith(r *Rng, opt WOpt, onElem func(w *World)) *World {
	w := &World{R: r, Opt: opt, known: map[string]bool{}, events: map[string]int{}}
	if onElem != nil {
		w.onElem = func() { onElem(w) }
	}
	perm := r.Perm(len(localPkgChoices))
	for i := 0; i < opt.Pkgs; i++ {
		l := localPkgChoices[perm[i]]
		l.idx = i
		w.Locals = append(w.Locals, &l)
	}
	if opt.Share {
		w.makeShared()
	}
	for _, l := range w.Locals {
		for j := 0; j < opt.FilesPerPkg; j++ {
			w.genFile(l, fmt.Sprintf("f%d.go", j))
		}
	}
	return w
}

func (w *World) ev(name string) { w.events[name]++ }

func (w *World) next() int { w.ctr++; return w.ctr }

func (w *World) genFile(l *LPkg, name string) {
	r := w.R
	gf := gopoet.NewGoFile(name, l.Path, l.Name)
	f := &WFile{W: w, L: l, GF: gf, Path: l.Path + "/" + name, Index: len(w.Files)}
	l.files = append(l.files, f)
	w.Files = append(w.Files, f)
	fc, pc := w.comment(), w.comment()
	gf.FileComment, gf.PackageComment = fc, pc
	canon := ""
	if w.Opt.Canonical && r.Chance(50) {
		canon = OneOf(r, l.Path, "example.com/canonical/"+l.Name, "a\\b\"c", "example.com/世界", l.Path+"/v2", r.Word(), strings.TrimSuffix(l.Path, "/"+l.Name), l.Name)
	}
	gf.CanonicalImportPath = canon
	f.Header = func(SymFn) string {
		s := commentSrc(fc)
		if fc != "" {
			s += "\n"
		}
		s += commentSrc(pc) + "package " + l.Name
		if canon != "" {
			s += " // import " + strconv.Quote(canon)
		}
		return s + "\n\n"
	}
	n := r.Between(1, w.Opt.Elems)
	if w.Opt.Elems > 100 {
		n = w.Opt.Elems + r.IntN(30)
	}
	for i := 0; i < n; i++ {
		switch r.IntN(10) {
		case 0, 1:
			f.genConst()
		case 2, 3:
			f.genVar()
		case 4, 5, 6:
			f.genTypeDecl()
		default:
			f.genFunc()
		}
		if w.onElem != nil {
			w.onElem()
		}
	}
	if r.Chance(25) && !w.Opt.NoExplicit {
		// explicit registration, for raw text that uses the package
		u := w.pickU()
		name := Pick(r, u.nameForms())
		var prefix string
		switch r.IntN(3) {
		case 0:
			prefix = gf.RegisterImport(u.Path, name)
		case 1:
			prefix = gf.RegisterImportForPackage(gopoet.Package{ImportPath: u.Path, Name: name})
		case 2:
			s := gf.EnsureImported(gopoet.Symbol{Package: gopoet.Package{ImportPath: u.Path, Name: name}, Name: "C0"})
			prefix = strings.TrimSuffix(s.String(), "C0")
		}
		v := w.lname("v")
		gf.AddVar(gopoet.NewVar(v).SetInitializer(gopoet.Print(prefix + "C0")))
		f.addDecl(&LDecl{Kind: "var", Name: v, L: l, F: f, Idx: -1, Spec: nil})
		f.Elems = append(f.Elems, func(ref SymFn) string { return "var " + v + " = " + ref(Sym{u.Path, u.Name, "C0"}) + "\n" })
		w.ev("explicit_registrations")
	}
}

func (f *WFile) addDecl(d *LDecl) { f.L.decls = append(f.L.decls, d) }

// Render gives the expected source, up to formatting.
func (f *WFile) Render(imports string, ref SymFn) string {
	var b strings.Builder
	b.WriteString(f.Header(ref))
	b.WriteString(imports)
	for _, e := range f.Elems {
		b.WriteString("\n")
		b.WriteString(e(ref))
	}
	return b.String()
}

// placeholder is how the expected source refers to a package.
func (w *World) placeholder(p string) string {
	for i, l := range w.Locals {
		if l.Path == p {
			return fmt.Sprintf("Qx%d", 1000+i)
		}
	}
	if u := upkgByPath[p]; u != nil {
		return fmt.Sprintf("Qx%d", u.Idx)
	}
	if p == "unsafe" {
		return "Qx999"
	}
	panic("no placeholder for " + p)
}

func (f *WFile) refWith(prefix func(path string) string) SymFn {
	return func(s Sym) string {
		if s.Path == "" || s.Path == f.L.Path {
			return s.Name
		}
		p := prefix(s.Path)
		if s.Name == "" {
			return p
		}
		return p + "." + s.Name
	}
}

// Want gives the expected source with placeholders for package names, and the
// import paths it needs.
func (f *WFile) Want() (src string, needs []string) {
	set := map[string]bool{}
	ref := f.refWith(func(p string) string { set[p] = true; return f.W.placeholder(p) })
	f.Render("", ref)
	for p := range set {
		needs = append(needs, p)
	}
	sort.Strings(needs)
	var imp strings.Builder
	for _, p := range needs {
		fmt.Fprintf(&imp, "import %s %q\n", f.W.placeholder(p), p)
	}
	return f.Render(imp.String(), ref), needs
}

// Write renders the file with gopoet.
func (f *WFile) Write() ([]byte, error) {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, f.GF)
	return b.Bytes(), err
}

// ---------------------------------------------------------------- comments

func commentSrc(c string) string {
	if c == "" {
		return ""
	}
	return "// " + strings.ReplaceAll(c, "\n", "\n// ") + "\n"
}

var commentAtoms = []string{"hello", "world", "*/", "/*", "//", "`", `"`, "func f() {", "}", "%s", "%!d(x)", "\t", "é", "世界",
	"go:build linux", "+build linux", "\r", "\x01", "\x7f", "\u0085", "//line a.go:3", "line a.go:7:1", "``q''", "\xc2\xa0", "[Link]", "Deprecated: x", "Code generated by x. DO NOT EDIT.", "import \"x\"", "package q", "{{.}}", "\\n", "'", "- item", "# heading", "1. one", ")", "nolint:all", "\u2028", "line x.go:1", ";", "\\", "go:generate rm", "export X", "\uFFFD", "...", "!@#$", "\u200b", "\u200b", "\u2060", "\u00ad", "\u3000", "\u200e", "\u202e", "\ufe0f", "\u0300", "-----", "====", "*", "* x", "+", "|", "<b>", "&amp;", "TODO", "TODO(x): y", "BUG(x): y", "FIXME", "//", "///", "/", "#", "#!", "\t\t", "", "", "@x", "=", "http://x.y/z#a", "cgo", "#include <x.h>", "package", "nil", "NULL", "import", "0", "a_b", "\\n", "embed x", "go:embed x", "+k8s:deepcopy"}

func (w *World) comment() string {
	r := w.R
	if w.Opt.Comments == 0 || r.Chance(45) {
		return ""
	}
	if n := len(w.comments); n > 0 && r.Chance(15) {
		// the same as on a neighbour
		w.ev("repeated_comments")
		return w.comments[max(0, n-1-r.IntN(3))]
	}
	c := w.comment1()
	w.comments = append(w.comments, c)
	return c
}

func (w *World) comment1() string {
	r := w.R
	if w.Opt.Comments == 1 {
		return fmt.Sprintf("comment %d here", w.next())
	}
	var lines []string
	n := r.Huge(OneOf(r, 1, 1, 2, 3, 5, r.Between(1, 30)), 300)
	if r.IntN(300) == 0 {
		n = r.Between(100, 1500)
	}
	for ; n > 0; n-- {
		if r.Chance(12) {
			lines = append(lines, "")
			continue
		}
		if len(lines) > 0 && r.Chance(7) {
			lines = append(lines, lines[len(lines)-1])
			continue
		}
		var parts []string
		parts = append(parts, fmt.Sprintf("c%d", w.next()))
		for m := r.IntN(5); m > 0; m-- {
			parts = append(parts, Pick(r, commentAtoms))
			if r.Chance(8) {
				// what the code under test knows
				parts = append(parts, strings.Map(func(c rune) rune {
					if c == 0 || c == 11 || c == 12 || c == '\n' || c == 0xfeff || !utf8.ValidRune(c) {
						return -1
					}
					return c
				}, strings.ToValidUTF8(r.Str(), "")))
			}
			if r.Chance(10) {
				// any character that a source file can hold
				c := rune(r.IntN(0x110000))
				if c != 0 && c != 11 && c != 12 && c != '\n' && c != 0xfeff && utf8.ValidRune(c) {
					parts = append(parts, string(c))
				}
			}
		}
		if r.Chance(50) {
			parts = parts[1:]
		}
		sep := OneOf(r, " ", "", "  ")
		l := strings.Join(parts, sep)
		if r.Chance(10) {
			// odd characters at the start and at the end
			odd := func() string {
				if r.Chance(50) {
					return OneOf(r, "\u200b", "\u00a0", "\u2003", "\u3000", "\u0085", "\u2029", "\u180e", "\u061c", "/", "*", "-", "\t", "\r", ".", "\x7f", "\u034f")
				}
				if c := rune(r.IntN(0x3000)); c > 32 {
					return string(c)
				}
				return "_"
			}
			l = odd() + l
			if r.Chance(50) {
				l += odd()
			}
		}
		if r.IntN(1000) == 0 {
			l += strings.Repeat(OneOf(r, " word", "x"), r.Between(1000, 70000))
			w.ev("long_lines")
		}
		if r.Chance(10) {
			l = OneOf(r, "  ", "\t") + l
		}
		if strings.HasPrefix(strings.TrimSpace(strings.ReplaceAll(l, "\r", "")), "+build") {
			l = "x" + l // see KF-5
		}
		lines = append(lines, l)
	}
	w.ev("hostile_comments")
	return strings.Join(lines, "\n")
}

// ---------------------------------------------------------------- symbols

func (w *World) lname(prefix string) string {
	n := prefix + OneOf(w.R, "Lz", "Zl") + strconv.Itoa(w.next())
	if w.R.Chance(8) {
		// with a word that the code under test knows, at one end or the other
		if n = prefix + w.R.Word() + "Lz" + strconv.Itoa(w.next()); w.R.Chance(50) {
			n = prefix + "Lz" + strconv.Itoa(w.next()) + w.R.Word()
		}
	}
	if w.R.Chance(50) {
		n = strings.ToUpper(n[:1]) + n[1:]
	}
	return n
}

// exported locals only can be used from other packages.
func exported(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

func (f *WFile) localDecls(ok func(d *LDecl) bool) []*LDecl {
	var ret []*LDecl
	for _, l := range f.W.Locals {
		if l.idx > f.L.idx {
			break
		}
		for _, d := range l.decls {
			if (l == f.L || exported(d.Name) && (d.RecvName == "" || exported(d.RecvName))) && ok(d) {
				ret = append(ret, d)
			}
		}
	}
	return ret
}

func (f *WFile) pickLocal(ok func(d *LDecl) bool) *LDecl {
	ds := f.localDecls(ok)
	if len(ds) == 0 {
		return nil
	}
	// prefer recent ones
	if f.W.R.Chance(50) && len(ds) > 4 {
		ds = ds[len(ds)-4:]
	}
	return Pick(f.W.R, ds)
}

// pickU picks one of the packages that the world refers to.
func (w *World) pickU() *UPkg {
	if w.us == nil {
		w.us = pickUs(w.R, w.Locals)
	}
	return Pick(w.R, w.us)
}

func (w *World) uSym(name string) Sym {
	u := w.pickU()
	if name == "I0" {
		return Sym{u.Path, Pick(w.R, u.nameForms()), "I0"}
	}
	return Sym{u.Path, Pick(w.R, u.nameForms()), name}
}

// tyGen makes types for use in file f (nil: only from the universe).
func (w *World) tyGen(f *WFile) *TyGen {
	r := w.R
	g := &TyGen{R: r, Valid: true}
	g.Sym = func(iface bool) Sym {
		if iface {
			if f != nil && r.Chance(40) {
				if d := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" && d.Iface }); d != nil {
					return d.sym()
				}
			}
			return w.uSym("I0")
		}
		if f != nil && r.Chance(35) {
			if d := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" }); d != nil {
				return d.sym()
			}
		}
		if r.Chance(4) {
			return Sym{"unsafe", "unsafe", "Pointer"}
		}
		return w.uSym(OneOf(r, "T0", "T1", "T2", "T3", "T4", "A0", "I0"))
	}
	g.KeySym = func() Sym { return w.uSym(OneOf(r, "T0", "T2", "T1")) }
	g.EmbedSym = func() (Sym, bool) {
		if f != nil && r.Chance(40) {
			if d := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" && (d.Struct || d.Iface) }); d != nil {
				return d.sym(), d.Struct
			}
		}
		if r.Chance(30) {
			return w.uSym("I0"), false
		}
		return w.uSym(OneOf(r, "T0", "T1", "T2", "A0")), true
	}
	g.Method = func() string { return "Mm" + strconv.Itoa(w.next()) }
	return g
}

func (f *WFile) ty() *Ty {
	w := f.W
	if w.Shared != nil && len(w.Shared.Types) > 0 && w.R.Chance(30) {
		w.ev("shared_types_used")
		return Pick(w.R, w.Shared.Types)
	}
	t := w.tyGen(f).Gen(w.R.Between(1, w.Opt.TypeBudget))
	return t
}

// tn makes the TypeName for a type, sometimes by way of go/types or reflect.
func (w *World) tn(t *Ty) gopoet.TypeName {
	tn := t.poet()
	w.keep(tn)
	return tn
}

// keep remembers a value that was passed to gopoet.
func (w *World) keep(v any) { w.kept = append(w.kept, v) }

func (f *WFile) src(t *Ty) Txt { return func(ref SymFn) string { return t.src(ref) } }

// special returns a type made by a conversion from reflect or go/types.
func (f *WFile) specialTy() *Ty {
	r := f.W.R
	if r.Chance(50) {
		rr := Pick(r, reflRefs)
		t := namedTy(rr.Sym)
		t.Mk = func() gopoet.TypeName { return gopoet.TypeNameForReflectType(rr.T) }
		f.W.ev("types_from_reflect")
		return t
	}
	u := f.W.pickU()
	n := OneOf(r, "T0", "T1", "A0", "T4")
	gt := u.Types().Scope().Lookup(n).Type()
	t := namedTy(Sym{u.Path, u.Name, n})
	if r.Chance(30) {
		gt = types.NewPointer(types.NewSlice(gt))
		t = ptrTy(sliceTy(t))
	}
	t.Mk = func() gopoet.TypeName { return gopoet.TypeNameForGoType(gt) }
	f.W.ev("types_from_go_types")
	return t
}

func (f *WFile) anyTy() *Ty {
	if f.W.R.Chance(12) {
		return f.specialTy()
	}
	return f.ty()
}

// typeUse is a type in a declaration: a TypeName or a *TypeSpec.
func (f *WFile) typeUse() (gopoet.TypeNameOrSpec, Txt) {
	r := f.W.R
	if r.Chance(20) {
		if d := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" && d.Spec != nil }); d != nil {
			f.W.ev("type_specs_as_types")
			return d.Spec.(*gopoet.TypeSpec), func(ref SymFn) string { return ref(d.sym()) }
		}
	}
	if r.Chance(12) {
		if r.Chance(35) {
			t := f.anyTy()
			f.W.ev("anonymous_specs_of_types")
			return gopoet.NewTypeSpec("", f.W.tn(t)), f.src(t)
		}
		ts, txt, _ := f.anonSpec(2)
		return ts, txt
	}
	t := f.anyTy()
	return f.W.tn(t), f.src(t)
}

// anonSpec makes an unnamed struct or interface spec.
func (f *WFile) anonSpec(depth int) (*gopoet.TypeSpec, Txt, bool) {
	f.W.ev("anonymous_specs")
	if f.W.R.Chance(60) {
		fs, txt := f.fieldSpecs(depth)
		return gopoet.NewStructTypeSpec("", fs...), txt, false
	}
	es, txt := f.ifaceElems()
	return gopoet.NewInterfaceTypeSpec("", es...), txt, true
}

func (f *WFile) fieldSpecs(depth int) ([]*gopoet.FieldSpec, Txt) {
	w, r := f.W, f.W.R
	var specs []*gopoet.FieldSpec
	var txts []Txt
	seen := map[string]bool{}
	g := w.tyGen(f)
	for n := r.IntN(6); n > 0; n-- {
		var spec *gopoet.FieldSpec
		var name string
		var txt Txt
		switch r.IntN(8) {
		case 0: // embedded symbol
			s, ptr := g.EmbedSym()
			if seen[s.Name] {
				continue
			}
			seen[s.Name] = true
			t := namedTy(s)
			if ptr && r.Chance(40) {
				t = ptrTy(t)
			}
			spec, txt = gopoet.NewField("", t.poet()), f.src(t)
			w.ev("embedded_fields")
		case 1: // embedded spec
			d := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" && (d.Struct || d.Iface) && d.Spec != nil })
			if d == nil || seen[d.Name] {
				continue
			}
			seen[d.Name] = true
			spec, txt = gopoet.NewField("", d.Spec.(*gopoet.TypeSpec)), func(ref SymFn) string { return ref(d.sym()) }
			w.ev("embedded_specs")
		case 2: // nested unnamed spec
			if depth == 0 {
				continue
			}
			name = "n" + strconv.Itoa(w.next())
			ts, t, _ := f.anonSpec(depth - 1)
			spec, txt = gopoet.NewField(name, ts), t
		default:
			name = g.ident()
			if seen[name] {
				continue
			}
			if r.Chance(8) {
				name = "_"
			} else {
				seen[name] = true
			}
			tu, t := f.typeUse()
			spec, txt = gopoet.NewField(name, tu), t
		}
		tag := g.tag()
		if tag != "" {
			if r.Chance(50) {
				spec.SetTag(tag)
			} else {
				spec.Tag = reflect.StructTag(tag)
			}
		}
		c := w.comment()
		spec.SetComment(c)
		specs = append(specs, spec)
		txts = append(txts, func(ref SymFn) string {
			s := commentSrc(c) + name + " " + txt(ref)
			if tag != "" {
				s += " " + strconv.Quote(tag)
			}
			return s + "\n"
		})
	}
	return specs, func(ref SymFn) string { return "struct {\n" + join(txts, ref) + "}" }
}

func join(txts []Txt, ref SymFn) string {
	var b strings.Builder
	for _, t := range txts {
		b.WriteString(t(ref))
	}
	return b.String()
}

func (f *WFile) ifaceElems() ([]gopoet.InterfaceElement, Txt) {
	w, r := f.W, f.W.R
	var es []gopoet.InterfaceElement
	var txts []Txt
	g := w.tyGen(f)
	for n := r.IntN(5); n > 0; n-- {
		c := w.comment()
		if r.Chance(35) {
			s := g.Sym(true)
			es = append(es, gopoet.NewInterfaceEmbed(s.poet()).SetComment(c))
			txts = append(txts, func(ref SymFn) string { return commentSrc(c) + ref(s) + "\n" })
			w.ev("interface_embeds")
			continue
		}
		name := g.Method()
		m := gopoet.NewInterfaceMethod(name).SetComment(c)
		sg := f.sig()
		if r.Chance(50) {
			m.Signature = *w.sigPoet(sg)
		} else {
			for _, a := range sg.Args {
				m.AddArg(a.Name, w.tn(a.T))
			}
			for _, a := range sg.Results {
				m.AddResult(a.Name, w.tn(a.T))
			}
			m.SetVariadic(sg.Variadic)
		}
		es = append(es, m)
		txts = append(txts, func(ref SymFn) string { return commentSrc(c) + name + sg.src(ref) + "\n" })
		w.ev("interface_methods")
	}
	return es, func(ref SymFn) string { return "interface {\n" + join(txts, ref) + "}" }
}

func (w *World) sigPoet(s *Sg) *gopoet.Signature {
	ret := &gopoet.Signature{}
	for _, a := range s.Args {
		ret.AddArg(a.Name, w.tn(a.T))
	}
	for _, a := range s.Results {
		ret.AddResult(a.Name, w.tn(a.T))
	}
	w.keep(ret)
	return ret.SetVariadic(s.Variadic)
}

func (f *WFile) sig() *Sg {
	g := f.W.tyGen(f)
	g.budget = f.W.R.Between(1, f.W.Opt.TypeBudget)
	s := g.sig()
	if f.W.R.Chance(15) && len(s.Args) > 0 && !s.Variadic {
		s.Args[0].T = f.specialTy()
	}
	if f.W.Shared != nil && f.W.R.Chance(20) && len(s.Results) > 0 {
		s.Results[0].T = Pick(f.W.R, f.W.Shared.Types)
	}
	return s
}

// ------------------------------------------------------------- declarations

// group wraps specs like the decl types do.
func group(kw, declComment string, comments []string, specs []Txt) Txt {
	return func(ref SymFn) string {
		if len(specs) == 1 && declComment == "" {
			return commentSrc(comments[0]) + kw + " " + specs[0](ref) + "\n"
		}
		var b strings.Builder
		b.WriteString(commentSrc(declComment) + kw + " (\n")
		for i, s := range specs {
			b.WriteString(commentSrc(comments[i]) + s(ref) + "\n")
		}
		b.WriteString(")\n")
		return b.String()
	}
}

func (f *WFile) genConst() {
	w, r := f.W, f.W.R
	var specs []*gopoet.ConstSpec
	var txts []Txt
	var comments []string
	n := OneOf(r, 1, 1, 1, 2, 3)
	iota := n > 1 && r.Chance(50)
	for i := 0; i < n; i++ {
		names := []string{w.lname("k")}
		if r.Chance(25) && !iota {
			names = append(names, w.lname("k"))
		}
		if r.Chance(30) && iota {
			names[0] = "_" // skips a value
		}
		c := w.comment()
		cs := gopoet.NewConst(names...).SetComment(c)
		var typ, init Txt
		if iota && i > 0 {
			// repeats the type and expression
		} else {
			if r.Chance(35) {
				tu, t := f.constType()
				cs.SetType(tu)
				typ = t
				if iota {
					init = lit("iota + 2")
					cs.Initialize("%s", "iota + 2")
				} else {
					init = f.setInit(cs, names, "", func() exprRef { return exprRef{format: "%d", arg: 7, txt: lit("7"), tmpl: "{{.}}"} })
				}
			} else if iota {
				t := f.valueRef("const-int", true)
				txt := t.txt
				cs.Initialize("iota + "+t.format, t.arg)
				init = func(ref SymFn) string { return "iota + " + txt(ref) }
			} else {
				init = f.setInit(cs, names, "const", func() exprRef { return f.valueRef("const", true) })
			}
		}
		specs = append(specs, cs)
		comments = append(comments, c)
		txts = append(txts, func(ref SymFn) string {
			s := strings.Join(names, ", ")
			if typ != nil {
				s += " " + typ(ref)
			}
			if init != nil {
				s += " = " + init(ref)
			}
			return s
		})
		for j, nm := range names {
			idx := -1
			if len(names) > 1 {
				idx = j
			}
			if nm == "_" {
				w.ev("blank_consts")
				continue
			}
			defer f.addDecl(&LDecl{Kind: "const", Name: nm, L: f.L, F: f, Spec: cs, Idx: idx})
		}
	}
	dc := ""
	if n > 1 || r.Chance(20) {
		dc = w.comment()
	}
	f.Elems = append(f.Elems, group("const", dc, comments, txts))
	switch {
	case n == 1 && dc == "" && r.Chance(60):
		f.GF.AddConst(specs[0])
	case r.Chance(50):
		f.GF.AddElement(gopoet.NewConstDecl(specs...).SetComment(dc))
	default:
		d := &gopoet.ConstDecl{Comment: dc}
		for _, s := range specs {
			d.AddConst(s)
		}
		f.GF.AddElement(d)
	}
	w.ev("const_decls")
}

func (f *WFile) constType() (gopoet.TypeNameOrSpec, Txt) {
	if f.W.R.Chance(30) {
		if d := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" && d.IntBased && d.Spec != nil }); d != nil {
			return d.Spec.(*gopoet.TypeSpec), func(ref SymFn) string { return ref(d.sym()) }
		}
	}
	t := basicTy(OneOf(f.W.R, reflect.Int, reflect.Uint8, reflect.Int32, reflect.Float64))
	if f.W.R.Chance(60) {
		t = namedTy(f.W.uSym("T0"))
	}
	return t.poet(), f.src(t)
}

// reusedBlock is code of one element that others use too.
type reusedBlock struct {
	cb   *gopoet.CodeBlock
	txt  Txt
	f    *WFile
	kind string
}

var lowerSelector = regexp.MustCompile(`\.[^A-Z]`)

// reuse picks code of another element, maybe of another file, that makes sense
// in this file.
func (f *WFile) reuse(kind string) *reusedBlock {
	w := f.W
	if !w.Opt.Reuse || len(w.reusable) == 0 || !w.R.Chance(30) {
		return nil
	}
	b := Pick(w.R, w.reusable)
	if b.kind != kind {
		return nil
	}
	if b.f.L != f.L {
		ok := true
		txt := b.txt(func(s Sym) string {
			if upkgByPath[s.Path] == nil && s.Path != "unsafe" && s.Path != "" && s.Name != "" && !exported(s.Name) {
				ok = false
			}
			return "Q"
		})
		if !ok || lowerSelector.MatchString(txt) {
			return nil
		}
		w.ev("code_reused_in_other_package")
	}
	w.ev("code_reused")
	return &b
}

func (f *WFile) reusable(kind string, cb *gopoet.CodeBlock, txt Txt) {
	if f.W.Opt.Reuse {
		f.W.reusable = append(f.W.reusable, reusedBlock{cb, txt, f, kind})
	}
}

// setInit sets an initializer with one expression per name.
func (f *WFile) setInit(spec any, names []string, kind string, expr func() exprRef) Txt {
	r := f.W.R
	if len(names) > 1 {
		kind = ""
	}
	var formats []string
	var args []any
	var txts []Txt
	var parts []func(cb *gopoet.CodeBlock)
	for i := range names {
		e := expr()
		if i > 0 {
			parts = append(parts, func(cb *gopoet.CodeBlock) { cb.Print(", ") })
		}
		parts = append(parts, func(cb *gopoet.CodeBlock) { cb.Printf(e.format, e.arg) })
		formats = append(formats, e.format)
		args = append(args, e.arg)
		txts = append(txts, e.txt)
	}
	format := strings.Join(formats, ", ")
	txt := func(ref SymFn) string {
		var s []string
		for _, t := range txts {
			s = append(s, t(ref))
		}
		return strings.Join(s, ", ")
	}
	direct := r.Chance(50)
	cb := &gopoet.CodeBlock{}
	for _, p := range parts {
		p(cb)
	}
	switch s := spec.(type) {
	case *gopoet.ConstSpec:
		if direct {
			s.Initialize(format, args...)
			return txt
		}
		if kind != "" {
			if b := f.reuse(kind); b != nil {
				s.SetInitializer(b.cb)
				return b.txt
			}
			f.reusable(kind, cb, txt)
		}
		s.SetInitializer(cb)
	case *gopoet.VarSpec:
		if direct {
			s.Initialize(format, args...)
			return txt
		}
		if kind != "" {
			if b := f.reuse(kind); b != nil {
				s.SetInitializer(b.cb)
				return b.txt
			}
			f.reusable(kind, cb, txt)
		}
		s.SetInitializer(cb)
	}
	return txt
}

func (f *WFile) genVar() {
	w, r := f.W, f.W.R
	var specs []*gopoet.VarSpec
	var txts []Txt
	var comments []string
	n := OneOf(r, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		names := []string{w.lname("v")}
		for r.Chance(25) {
			names = append(names, w.lname("v"))
		}
		c := w.comment()
		vs := gopoet.NewVar(names...).SetComment(c)
		var typ, init Txt
		switch r.IntN(3) {
		case 0:
			tu, t := f.typeUse()
			vs.SetType(tu)
			typ = t
		case 1:
			init = f.setInit(vs, names, "any", func() exprRef { return f.valueRef("any", true) })
		case 2:
			ty := f.ty()
			vs.SetType(w.tn(ty))
			typ = f.src(ty)
			e := exprRef{format: "*new(%s)", arg: w.tn(ty), txt: func(ref SymFn) string { return "*new(" + w.tn2(ty, ref) + ")" }}
			init = f.setInit(vs, names, "", func() exprRef { return e })
		}
		specs = append(specs, vs)
		comments = append(comments, c)
		txts = append(txts, func(ref SymFn) string {
			s := strings.Join(names, ", ")
			if typ != nil {
				s += " " + typ(ref)
			}
			if init != nil {
				s += " = " + init(ref)
			}
			return s
		})
		for j, nm := range names {
			idx := -1
			if len(names) > 1 {
				idx = j
			}
			defer f.addDecl(&LDecl{Kind: "var", Name: nm, L: f.L, F: f, Spec: vs, Idx: idx})
		}
	}
	dc := ""
	if n > 1 || r.Chance(20) {
		dc = w.comment()
	}
	f.Elems = append(f.Elems, group("var", dc, comments, txts))
	switch {
	case n == 1 && dc == "" && r.Chance(60):
		f.GF.AddVar(specs[0])
	case r.Chance(50):
		f.GF.AddElement(gopoet.NewVarDecl(specs...).SetComment(dc))
	default:
		d := &gopoet.VarDecl{Comment: dc}
		for _, s := range specs {
			d.AddVar(s)
		}
		f.GF.AddElement(d)
	}
	w.ev("var_decls")
}

// tn2 is the text of a type inside of code, where it must look exactly as
// gopoet writes it for the result to be comparable byte by byte.
func (w *World) tn2(t *Ty, ref SymFn) string {
	q := t.mapSyms(func(s Sym) Sym {
		x := ref(s)
		if i := strings.LastIndex(x, "."); i >= 0 {
			return Sym{Pkg: x[:i], Name: x[i+1:]}
		}
		return Sym{Name: x}
	})
	return q.poetNoMk().String()
}

func (f *WFile) genTypeDecl() {
	w, r := f.W, f.W.R
	var specs []*gopoet.TypeSpec
	var txts []Txt
	var comments []string
	n := OneOf(r, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		name := w.lname("t")
		d := &LDecl{Kind: "type", Name: name, L: f.L, F: f, Idx: -1}
		c := w.comment()
		var ts *gopoet.TypeSpec
		var txt Txt
		alias := false
		switch r.IntN(9) {
		case 0:
			fs, t := f.fieldSpecs(2)
			ts, txt = gopoet.NewStructTypeSpec(name, fs...), t
			d.Struct, d.Methods = true, true
			w.ev("struct_specs")
		case 1:
			es, t := f.ifaceElems()
			ts, txt = gopoet.NewInterfaceTypeSpec(name, es...), t
			d.Iface = true
			w.ev("interface_specs")
		case 2:
			t := f.anyTy()
			ts, txt = gopoet.NewTypeAlias(name, w.tn(t)), f.src(t)
			alias = true
			w.ev("aliases")
		case 3:
			other := f.pickLocal(func(d *LDecl) bool { return d.Kind == "type" && d.Spec != nil })
			if other == nil {
				continue
			}
			alias = r.Chance(40)
			if alias {
				ts = gopoet.NewTypeAlias(name, other.Spec.(*gopoet.TypeSpec))
			} else {
				ts = gopoet.NewTypeSpec(name, other.Spec.(*gopoet.TypeSpec))
				d.Iface, d.IntBased = other.Iface, other.IntBased
			}
			txt = func(ref SymFn) string { return ref(other.sym()) }
			w.ev("types_of_named_specs")
		case 4:
			as, t, iface := f.anonSpec(2)
			ts, txt = gopoet.NewTypeSpec(name, as), t
			d.Iface, d.Struct, d.Methods = iface, !iface, !iface
			w.ev("types_of_unnamed_specs")
		case 5:
			ts, txt = gopoet.NewTypeSpec(name, gopoet.IntType), lit("int")
			d.IntBased, d.Methods = true, true
		case 6:
			t := w.tyGen(f).strct()
			ts, txt = gopoet.NewTypeSpec(name, t.poet()), f.src(t)
			d.Struct, d.Methods = true, true
			w.ev("struct_types")
		case 7:
			t := w.tyGen(f).iface()
			ts, txt = gopoet.NewTypeSpec(name, t.poet()), f.src(t)
			d.Iface = true
			w.ev("interface_types")
		default:
			t := f.anyTy()
			ts, txt = gopoet.NewTypeSpec(name, w.tn(t)), f.src(t)
			switch t.K {
			case gopoet.KindSlice, gopoet.KindMap, gopoet.KindFunc, gopoet.KindArray, gopoet.KindChan, gopoet.KindBasic:
				d.Methods = true
			}
		}
		ts.SetComment(c)
		d.Spec = ts
		specs = append(specs, ts)
		comments = append(comments, c)
		txts = append(txts, func(ref SymFn) string {
			if alias {
				return name + " = " + txt(ref)
			}
			return name + " " + txt(ref)
		})
		defer f.addDecl(d)
	}
	if len(specs) == 0 {
		return
	}
	n = len(specs)
	dc := ""
	if n > 1 || r.Chance(20) {
		dc = w.comment()
	}
	f.Elems = append(f.Elems, group("type", dc, comments, txts))
	switch {
	case n == 1 && dc == "" && r.Chance(60):
		f.GF.AddType(specs[0])
	case r.Chance(50):
		f.GF.AddElement(gopoet.NewTypeDecl(specs...).SetComment(dc))
	default:
		d := &gopoet.TypeDecl{Comment: dc}
		for _, s := range specs {
			d.AddType(s)
		}
		f.GF.AddElement(d)
	}
	w.ev("type_decls")
}

func (f *WFile) genFunc() {
	w, r := f.W, f.W.R
	c := w.comment()
	sg := f.sig()
	var fn *gopoet.FuncSpec
	recv := ""
	d := &LDecl{Kind: "func", Name: w.lname("f"), L: f.L, F: f, Idx: -1}
	if r.Chance(6) {
		d.Name = "_"
		w.ev("blank_funcs")
	}
	var rd *LDecl
	if r.Chance(40) {
		var ds []*LDecl
		for _, x := range f.L.decls {
			if x.Kind == "type" && x.Methods {
				ds = append(ds, x)
			}
		}
		if len(ds) > 0 {
			rd = Pick(r, ds)
		}
	}
	if rd != nil {
		d.Kind, d.RecvName = "method", rd.Name
		rn := OneOf(r, "", "", "_", "rcv", "r")
		if len(rn) > 0 && rn != "_" && len(sg.Args) > 0 && sg.Args[0].Name != "" && r.Chance(25) {
			// a name like that of the receiver
			sg.Args[0].Name = OneOf(r, rn+"x"+rn, rn+"_", "x"+rn, strings.ToUpper(rn))
		}
		d.RecvPtr = r.Chance(50)
		var rs *gopoet.ReceiverSpec
		if d.RecvPtr {
			switch r.IntN(4) {
			case 0:
				rs = gopoet.NewPointerReceiver(rn, rd.Name)
			case 1:
				rs = gopoet.NewPointerReceiverForType(rn, rd.Spec.(*gopoet.TypeSpec))
			case 2:
				rs = gopoet.NewPointerReceiverForType(rn, rd.Spec.(*gopoet.TypeSpec).ToTypeName())
			default:
				rs = gopoet.NewReceiverForType(rn, gopoet.PointerType(rd.Spec.(*gopoet.TypeSpec).ToTypeName()))
			}
			recv = "(" + rn + " *" + rd.Name + ") "
		} else {
			switch r.IntN(3) {
			case 0:
				rs = gopoet.NewReceiver(rn, rd.Name)
			case 1:
				rs = gopoet.NewReceiverForType(rn, rd.Spec.(*gopoet.TypeSpec))
			default:
				rs = gopoet.NewReceiverForType(rn, rd.Spec.(*gopoet.TypeSpec).ToTypeName())
			}
			recv = "(" + rn + " " + rd.Name + ") "
		}
		fn = gopoet.NewMethod(rs, d.Name)
		w.ev("methods")
	} else {
		if len(sg.Args)+len(sg.Results) == 0 && r.Chance(20) {
			d.Name = "init"
			w.ev("init_funcs")
		}
		fn = gopoet.NewFunc(d.Name)
		w.ev("funcs")
	}
	fn.SetComment(c)
	if r.Chance(50) {
		fn.Signature = *w.sigPoet(sg)
	} else {
		for _, a := range sg.Args {
			fn.AddArg(a.Name, w.tn(a.T))
		}
		for _, a := range sg.Results {
			fn.AddResult(a.Name, w.tn(a.T))
		}
		fn.SetVariadic(sg.Variadic)
	}
	d.Spec = fn
	f.GF.AddElement(fn)
	var body []Txt
	if w.Opt.Bodies {
		body = f.body(fn)
	}
	if len(sg.Results) > 0 {
		fn.Println(`panic("done")`)
		body = append(body, lit("panic(\"done\")\n"))
	}
	name := d.Name
	f.Elems = append(f.Elems, func(ref SymFn) string {
		return commentSrc(c) + "func " + recv + name + sg.src(ref) + " {\n" + join(body, ref) + "}\n"
	})
	if name != "_" && name != "init" {
		f.addDecl(d)
	}
}
