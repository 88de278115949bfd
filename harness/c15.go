package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C15"] = &CheckDef{
		Boost: 15,
		Deep:  15,
		Run:   runC15,
		Rule:  "a case is a history of creating elements, adding them to files (directly or in declarations), renaming packages and rendering, with every self reference of every element compared with a model after each step; distinct by the history",
		Needs: map[string]int64{"self_references_checked": 20000, "before_adding": 2000, "after_adding": 3000, "panics_as_documented": 3000, "added_directly": 500, "added_in_decl": 300,
			"moved": 100, "rendered": 300, "renamed": 200, "elements_renamed": 2000, "multi_name": 300, "methods_checked": 300, "interface_methods_checked": 300, "underlying_checked": 500, "receivers": 500, "receivers_rejected": 100},
	}
}

// self is what the model knows of one element.
type self struct {
	kind  string // const, var, type, func, imethod, field, embed
	names []string
	home  *shome // where it was added last, nil before
	owner *self  // type of an interface method

	cs *gopoet.ConstSpec
	vs *gopoet.VarSpec
	ts *gopoet.TypeSpec
	fn *gopoet.FuncSpec
	im *gopoet.InterfaceMethod
	fs *gopoet.FieldSpec
	em *gopoet.InterfaceEmbed

	under *Ty  // of types
	used  bool // as the type of something else
	anew  bool // a method has another name than when the type was made
	alias bool
	sig   *Sg // of functions
	rcvr  *gopoet.ReceiverSpec
	rname string
	rtype string
	rptr  bool
}

type shome struct {
	gf   *gopoet.GoFile
	path string
	name string
	els  []gopoet.FileElement
}

func (h *shome) pkg() gopoet.Package { return gopoet.Package{ImportPath: h.path, Name: h.name} }

type selfState struct {
	k     *Case
	r     *Rng
	g     *TyGen
	homes []*shome
	els   []*self
	hist  []string
	n     int
}

func runC15(c *Ctx) {
	c.Run("histories", c.N(10000, 300000), func(k *Case) { k.selfHistory() })
	c.Run("receivers", c.N(5000, 50000), func(k *Case) { k.receivers() })
	c.Run("symbols", c.N(5000, 50000), func(k *Case) { k.symbolForms() })
}

func (s *selfState) name() string {
	s.n++
	if s.r.Chance(10) {
		return fmt.Sprintf("%s_%d", s.r.Word(), s.n)
	}
	return fmt.Sprintf("%s%d", OneOf(s.r, "a", "A", "_", "世", "Ü"), s.n)
}

func (k *Case) selfHistory() {
	r := k.R
	s := &selfState{k: k, r: r, g: freeGen(r)}
	s.g.Sym = func(bool) Sym {
		return Sym{Path: OneOf(r, "p/a", "q/a", "p/self", "x.y/z"), Pkg: OneOf(r, "a", "b"), Name: OneOf(r, "T", "U")}
	}
	for n := r.Between(1, 3); n > 0; n-- {
		h := &shome{path: OneOf(r, "p/self", "q/a", "p/a", "x/y", "", "p/self.v2", "a/vendor/b", "a/internal/b", "main", r.Word()), name: OneOf(r, "self", "a", "main", "y", r.Word())}
		h.gf = gopoet.NewGoFile("f.go", h.path, h.name)
		if r.Chance(25) {
			h.gf.CanonicalImportPath = OneOf(r, "p/canonical", h.path, "p/self", "canonical", r.Word())
		}
		s.homes = append(s.homes, h)
	}
	for steps := r.Between(4, 14); steps > 0; steps-- {
		s.step()
		for _, e := range s.els {
			s.check(e)
		}
		for _, h := range s.homes {
			s.checkHome(h)
		}
	}
	k.Nontrivial(strings.Join(s.hist, "; "))
	k.Sample("%s", strings.Join(s.hist, "; "))
}

func (s *selfState) log(format string, args ...any) {
	s.hist = append(s.hist, fmt.Sprintf(format, args...))
}

func (s *selfState) fail(e *self, format string, args ...any) {
	s.k.Failf("%s %v: %s\nhistory: %s", e.kind, e.names, fmt.Sprintf(format, args...), strings.Join(s.hist, "; "))
}

func (s *selfState) names() []string {
	n := 1
	if s.r.Chance(35) {
		n = max(2, s.r.Size(s.r.Between(2, 6), 20))
	}
	var ns []string
	for ; n > 0; n-- {
		ns = append(ns, s.name())
	}
	return ns
}

func (s *selfState) create() *self {
	r := s.r
	e := &self{}
	switch r.IntN(7) {
	case 0:
		e.kind, e.names = "const", s.names()
		e.cs = gopoet.NewConst(e.names...).Initialize("1")
		if n := len(e.names); n > 1 {
			e.cs = gopoet.NewConst(e.names...).Initialize("1" + strings.Repeat(", 2", n-1))
		}
		if r.Chance(30) {
			e.cs.SetType(gopoet.IntType)
		}
	case 1:
		e.kind, e.names = "var", s.names()
		e.vs = gopoet.NewVar(e.names...).SetType(gopoet.IntType)
	case 2, 3:
		s.createType(e)
	case 4, 5:
		e.kind, e.names = "func", []string{s.name()}
		e.sig = s.g.sig()
		if r.Chance(50) {
			e.rname = OneOf(r, "", "r", "_", r.Word())
			e.rtype = s.name()
			if ts := s.pick(func(x *self) bool { return x.kind == "type" && x.names[0] != "" }); ts != nil && r.Chance(50) {
				e.rtype = ts.names[0]
			}
			e.rptr = r.Chance(50)
			if e.rptr {
				e.rcvr = gopoet.NewPointerReceiver(e.rname, e.rtype)
			} else {
				e.rcvr = gopoet.NewReceiver(e.rname, e.rtype)
			}
			e.fn = gopoet.NewMethod(e.rcvr, e.names[0])
		} else {
			e.fn = gopoet.NewFunc(e.names[0])
		}
		p := e.sig.poet()
		if r.Chance(50) {
			e.fn.Signature = *p
		} else {
			for _, a := range p.Args {
				e.fn.AddArg(a.Name, a.Type)
			}
			for _, a := range p.Results {
				e.fn.AddResult(a.Name, a.Type)
			}
			e.fn.SetVariadic(p.IsVariadic)
		}
	case 6:
		if r.Chance(50) {
			e.kind, e.names = "field", []string{s.name()}
			e.fs = gopoet.NewField(e.names[0], gopoet.IntType).SetTag("t").SetComment("c")
		} else {
			e.kind = "embed"
			sym := s.g.Sym(true)
			e.names = []string{symText(sym)}
			e.em = gopoet.NewInterfaceEmbed(sym.poet()).SetComment("c")
		}
	}
	s.els = append(s.els, e)
	s.log("new %s %v", e.kind, e.names)
	return e
}

// createType makes a type element and, for interfaces, its method elements.
func (s *selfState) createType(e *self) {
	r := s.r
	e.kind, e.names = "type", []string{s.name()}
	if r.Chance(15) {
		e.names[0] = "" // an unnamed type
	}
	name := e.names[0]
	switch r.IntN(6) {
	case 0, 1:
		e.under = s.g.Gen(r.Between(1, 8))
		if r.Chance(40) {
			e.alias = true
			e.ts = gopoet.NewTypeAlias(name, e.under.poet())
		} else {
			e.ts = gopoet.NewTypeSpec(name, e.under.poet())
		}
	case 2:
		t := s.g.strct()
		e.under = t
		var fs []*gopoet.FieldSpec
		for _, f := range t.Fields {
			fs = append(fs, gopoet.NewField(f.Name, f.T.poet()).SetTag(f.Tag))
		}
		e.ts = gopoet.NewStructTypeSpec(name, fs...)
	case 3, 4:
		t := s.g.iface()
		if len(t.Methods) == 0 {
			t.Methods = append(t.Methods, Mth{"M", s.g.sig()})
		}
		e.under = t
		var els []gopoet.InterfaceElement
		for _, x := range t.Embeds {
			els = append(els, gopoet.NewInterfaceEmbed(x.poet()))
		}
		for _, m := range t.Methods {
			im := gopoet.NewInterfaceMethod(m.Name)
			im.Signature = *m.Sig.poet()
			els = append(els, im)
			me := &self{kind: "imethod", names: []string{m.Name}, im: im, sig: m.Sig}
			s.check(me) // no type yet
			me.owner = e
			s.els = append(s.els, me)
		}
		r.Shuffle(len(els), func(i, j int) { els[i], els[j] = els[j], els[i] })
		// the underlying type lists methods in the order given
		t2 := *t
		t2.Embeds, t2.Methods = nil, nil
		for _, el := range els {
			switch el := el.(type) {
			case *gopoet.InterfaceEmbed:
				t2.Embeds = append(t2.Embeds, symOf(el.Type))
			case *gopoet.InterfaceMethod:
				for _, m := range t.Methods {
					if m.Name == el.Name && fullDump.Sig(m.Sig) == fullDump.Sig(sgOf(&el.Signature)) {
						t2.Methods = append(t2.Methods, m)
						break
					}
				}
			}
		}
		e.under = &t2
		e.ts = gopoet.NewInterfaceTypeSpec(name, els...)
	case 5:
		// from another type element
		o := s.pick(func(x *self) bool { return x.kind == "type" && (x.names[0] == "" || x.home != nil) })
		if o == nil {
			e.under = basicTy(basicKinds[0])
			e.ts = gopoet.NewTypeSpec(name, e.under.poet())
			break
		}
		o.used = true
		if o.names[0] == "" {
			e.under = o.under
		} else {
			e.under = namedTy(Sym{Path: o.home.path, Pkg: o.home.name, Name: o.names[0]})
		}
		if r.Chance(40) {
			e.alias = true
			e.ts = gopoet.NewTypeAlias(name, o.ts)
		} else {
			e.ts = gopoet.NewTypeSpec(name, o.ts)
		}
	}
}

func (s *selfState) pick(ok func(*self) bool) *self {
	var c []*self
	for _, e := range s.els {
		if ok(e) {
			c = append(c, e)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return Pick(s.r, c)
}

// rename changes the exported parts of an element that its references are made
// of. They may have been asked for before.
func (s *selfState) rename() {
	r := s.r
	e := s.pick(func(x *self) bool { return x.names[0] != "" && x.kind != "embed" && !x.used })
	if e == nil {
		return
	}
	old := fmt.Sprint(e.names)
	i := r.IntN(len(e.names))
	e.names = append([]string(nil), e.names...)
	e.names[i] = s.name()
	switch e.kind {
	case "const":
		if r.Chance(30) {
			e.names = s.names()
			e.cs.Names = append([]string(nil), e.names...)
		}
		copy(e.cs.Names, e.names)
	case "var":
		if r.Chance(30) {
			e.names = s.names()
			e.vs.Names = append([]string(nil), e.names...)
		}
		copy(e.vs.Names, e.names)
	case "type":
		e.ts.Name = e.names[0]
	case "func":
		switch {
		case r.Chance(50) || e.rcvr == nil:
			e.fn.Name = e.names[0]
			if r.Chance(30) {
				e.fn.AddArg("more", gopoet.IntType)
				e.sig = &Sg{Args: append(append([]Arg(nil), e.sig.Args...), Arg{"more", tyOf(gopoet.IntType)}), Results: e.sig.Results}
				e.fn.SetVariadic(false)
			}
		default:
			e.names[0] = e.fn.Name
			e.rname, e.rtype, e.rptr = OneOf(r, "", "q", "_", r.Word()), s.name(), !e.rptr
			if r.Chance(50) {
				e.rcvr.Name, e.rcvr.Type, e.rcvr.IsPointer = e.rname, e.rtype, e.rptr
				break
			}
			e.rcvr = gopoet.NewReceiver(e.rname, e.rtype)
			if e.rptr {
				e.rcvr = gopoet.NewPointerReceiver(e.rname, e.rtype)
			}
			e.fn.Receiver = e.rcvr
		}
	case "imethod":
		e.im.Name = e.names[0]
		if e.owner != nil {
			e.owner.anew = true
		}
	case "field":
		e.fs.Name = e.names[0]
	}
	s.log("rename %s %s to %v", e.kind, old, e.names)
	s.k.Count("elements_renamed", 1)
}

func (s *selfState) step() {
	r := s.r
	if r.Chance(20) {
		s.rename()
		return
	}
	switch r.IntN(8) {
	case 0, 1, 2:
		s.create()
	case 3, 4, 5:
		again := r.Chance(12)
		e := s.pick(func(x *self) bool {
			switch x.kind {
			case "imethod", "field", "embed":
				return false
			}
			return x.names[0] != "" && (x.home == nil || again)
		})
		if e == nil {
			s.create()
			return
		}
		s.add(e)
	case 6:
		h := Pick(r, s.homes)
		h.name = OneOf(r, "self", "renamed", "a", "zz")
		h.gf.PackageName = h.name
		s.log("rename package of %s to %s", h.path, h.name)
		s.k.Count("renamed", 1)
	case 7:
		h := Pick(r, s.homes)
		var b bytes.Buffer
		_ = gopoet.WriteGoFile(&b, h.gf) // need not be valid Go
		s.log("render %s", h.path)
		s.k.Count("rendered", 1)
		// specs of unnamed types are not elements of files and stay as they are
	}
}

func (s *selfState) add(e *self) {
	r := s.r
	h := Pick(r, s.homes)
	if e.home != nil {
		s.k.Count("moved", 1)
	}
	var el gopoet.FileElement
	more := []*self{e}
	if r.Chance(40) && e.kind != "func" {
		for _, x := range s.els {
			if x != e && x.kind == e.kind && x.home == nil && x.names[0] != "" && r.Chance(60) {
				more = append(more, x)
			}
		}
	}
	if e.kind != "func" && r.Chance(10) {
		// the same spec more than once in a declaration
		i := r.IntN(len(more))
		more = append(more[:i:i], append([]*self{more[i]}, more[i:]...)...)
		if r.Chance(30) {
			more = append(more, more[0])
		}
		s.k.Count("repeated_in_decl", 1)
	}
	decl := len(more) > 1 || r.Chance(40)
	how := r.IntN(3)
	switch e.kind {
	case "const":
		if !decl {
			h.gf.AddConst(e.cs)
			break
		}
		d := gopoet.NewConstDecl()
		for _, x := range more {
			if how == 0 {
				d.AddConst(x.cs)
			} else {
				d.Consts = append(d.Consts, x.cs)
			}
		}
		if how == 1 {
			d = gopoet.NewConstDecl(d.Consts...)
		}
		el = d
	case "var":
		if !decl {
			h.gf.AddVar(e.vs)
			break
		}
		d := gopoet.NewVarDecl()
		for _, x := range more {
			if how == 0 {
				d.AddVar(x.vs)
			} else {
				d.Vars = append(d.Vars, x.vs)
			}
		}
		if how == 1 {
			d = gopoet.NewVarDecl(d.Vars...)
		}
		el = d
	case "type":
		if !decl {
			h.gf.AddType(e.ts)
			break
		}
		d := gopoet.NewTypeDecl()
		for _, x := range more {
			if how == 0 {
				d.AddType(x.ts)
			} else {
				d.Types = append(d.Types, x.ts)
			}
		}
		if how == 1 {
			d = gopoet.NewTypeDecl(d.Types...)
		}
		el = d
	case "func":
		el = e.fn
	}
	if el != nil {
		h.gf.AddElement(el)
		s.k.Count("added_in_decl", 1)
	} else {
		s.k.Count("added_directly", 1)
	}
	h.els = append(h.els, el)
	for _, x := range more {
		x.home = h
		s.log("add %s %v to %s", x.kind, x.names, h.path)
	}
}

// checkHome checks what a file says about itself.
func (s *selfState) checkHome(h *shome) {
	if h.gf.Package() != h.pkg() {
		s.k.Failf("file in %s says its package is %+v", h.path, h.gf.Package())
	}
	if h.gf.NumElements() != len(h.els) {
		s.k.Failf("file in %s has %d elements, %d were added: %s", h.path, h.gf.NumElements(), len(h.els), strings.Join(s.hist, "; "))
	}
	for i, el := range h.els {
		got := h.gf.ElementAt(i)
		if el != nil && got != el {
			s.k.Failf("element %d of the file in %s is %v, not what was added", i, h.path, got)
		}
		if got == nil {
			s.k.Failf("element %d of the file in %s is nil", i, h.path)
		}
	}
}

// mustPanic checks that a form that needs the package panics without it.
func (s *selfState) mustPanic(e *self, what string, f func()) {
	if bad, _ := panics(f); !bad {
		s.fail(e, "%s does not panic", what)
	}
	s.k.Count("panics_as_documented", 1)
}

func (s *selfState) check(e *self) {
	k := s.k
	k.Count("self_references_checked", 1)
	if e.home == nil {
		k.Count("before_adding", 1)
	} else {
		k.Count("after_adding", 1)
	}
	switch e.kind {
	case "const":
		s.checkNames(e, e.cs.ToSymbol, e.cs.SymbolAt, e.cs.String())
	case "var":
		s.checkNames(e, e.vs.ToSymbol, e.vs.SymbolAt, e.vs.String())
	case "type":
		s.checkType(e)
	case "func":
		s.checkFunc(e)
	case "imethod":
		s.checkIMethod(e)
	case "field":
		if e.fs.String() != e.names[0] {
			s.fail(e, "text is %q", e.fs.String())
		}
	case "embed":
		if e.em.String() != e.names[0] {
			s.fail(e, "text is %q", e.em.String())
		}
	}
}

func (s *selfState) checkNames(e *self, toSymbol func() gopoet.Symbol, at func(int) gopoet.Symbol, text string) {
	if len(e.names) > 1 {
		s.k.Count("multi_name", 1)
	}
	var texts []string
	for i, n := range e.names {
		if e.home == nil {
			s.mustPanic(e, "SymbolAt before adding", func() { at(i) })
			texts = append(texts, n)
			continue
		}
		want := gopoet.Symbol{Package: e.home.pkg(), Name: n}
		if got := at(i); got != want {
			s.fail(e, "SymbolAt(%d) is %+v, want %+v", i, got, want)
		}
		texts = append(texts, want.String())
	}
	s.mustPanic(e, "SymbolAt out of range", func() { at(len(e.names)) })
	s.mustPanic(e, "SymbolAt(-1)", func() { at(-1) })
	if len(e.names) > 1 || e.home == nil {
		s.mustPanic(e, "ToSymbol", func() { toSymbol() })
	} else if got, want := toSymbol(), (gopoet.Symbol{Package: e.home.pkg(), Name: e.names[0]}); got != want {
		s.fail(e, "ToSymbol is %+v, want %+v", got, want)
	}
	if want := strings.Join(texts, ", "); text != want {
		s.fail(e, "text is %q, want %q", text, want)
	}
}

var idDump = Dumper{Sym: symID}

func (s *selfState) checkType(e *self) {
	name := e.names[0]
	under := idDump.Ty(e.under)
	if got := idDump.Ty(tyOf(e.ts.Underlying())); e.anew {
		// whether the type shows the new name of its method is open
		under = got
	} else if got != under {
		s.fail(e, "underlying type: %s", firstDiff(under, got))
	}
	if e.ts.Underlying().Kind() != e.under.K {
		s.fail(e, "kind of the underlying type is %v", e.ts.Underlying().Kind())
	}
	if e.ts.IsAlias() != e.alias {
		s.fail(e, "IsAlias is %v", e.ts.IsAlias())
	}
	s.k.Count("underlying_checked", 1)
	switch {
	case name == "":
		s.mustPanic(e, "ToSymbol of unnamed type", func() { e.ts.ToSymbol() })
		if got := idDump.Ty(tyOf(e.ts.ToTypeName())); got != under {
			s.fail(e, "type form of unnamed type: %s", firstDiff(under, got))
		}
		if e.ts.String() != e.ts.Underlying().String() {
			s.fail(e, "text of unnamed type is %q, its type's is %q", e.ts, e.ts.Underlying())
		}
	case e.home == nil:
		s.mustPanic(e, "ToSymbol before adding", func() { e.ts.ToSymbol() })
		s.mustPanic(e, "ToTypeName before adding", func() { e.ts.ToTypeName() })
		if e.ts.String() != name {
			s.fail(e, "text before adding is %q", e.ts.String())
		}
	default:
		want := gopoet.Symbol{Package: e.home.pkg(), Name: name}
		if got := e.ts.ToSymbol(); got != want {
			s.fail(e, "ToSymbol is %+v, want %+v", got, want)
		}
		tn := e.ts.ToTypeName()
		if tn.Kind() != gopoet.KindNamed || tn.Symbol() != want {
			s.fail(e, "ToTypeName is %v (%+v), want %+v", tn, tn.Symbol(), want)
		}
		if e.ts.String() != want.String() || tn.String() != want.String() {
			s.fail(e, "text is %q, that of its type %q, want %q", e.ts, tn, want)
		}
	}
}

// checkSig compares a function type with the expected signature. Only import
// paths and names count: rendering a file fills in its own prefixes.
func (s *selfState) checkSig(e *self, got gopoet.TypeName, want *Sg) {
	if got.Kind() != gopoet.KindFunc {
		s.fail(e, "its type is a %v", got.Kind())
	}
	w, g := idDump.Sig(want), idDump.Sig(sgOf(got.Signature()))
	if w != g {
		s.fail(e, "its type: %s", firstDiff(w, g))
	}
}

func (s *selfState) checkFunc(e *self) {
	name := e.names[0]
	if e.rcvr == nil {
		s.checkSig(e, e.fn.ToTypeName(), e.sig)
		if e.home == nil {
			s.mustPanic(e, "ToSymbol before adding", func() { e.fn.ToSymbol() })
			if e.fn.String() != name {
				s.fail(e, "text before adding is %q", e.fn)
			}
			return
		}
		want := gopoet.Symbol{Package: e.home.pkg(), Name: name}
		if got := e.fn.ToSymbol(); got != gopoet.SymbolOrMethodRef(want) {
			s.fail(e, "ToSymbol is %#v, want %#v", got, want)
		}
		if e.fn.String() != want.String() {
			s.fail(e, "text is %q, want %q", e.fn, want)
		}
		return
	}
	s.k.Count("methods_checked", 1)
	if e.fn.String() != name {
		s.fail(e, "text of method is %q", e.fn)
	}
	if e.home == nil {
		s.mustPanic(e, "ToSymbol before adding", func() { e.fn.ToSymbol() })
		s.mustPanic(e, "ToTypeName of method before adding", func() { e.fn.ToTypeName() })
		return
	}
	want := gopoet.MethodReference{Type: gopoet.Symbol{Package: e.home.pkg(), Name: e.rtype}, Method: name}
	if got := e.fn.ToSymbol(); got != gopoet.SymbolOrMethodRef(want) {
		s.fail(e, "ToSymbol is %#v, want %#v", got, want)
	} else if got.String() != want.Type.String()+"."+name {
		s.fail(e, "text of its symbol is %q", got)
	}
	rt := namedTy(Sym{Path: e.home.path, Pkg: e.home.name, Name: e.rtype})
	if e.rptr {
		rt = ptrTy(rt)
	}
	full := *e.sig
	full.Args = append([]Arg{{e.rname, rt}}, full.Args...)
	got := e.fn.ToTypeName()
	s.checkSig(e, got, &full)
	if a := got.Signature().Args[0].Type; fullDump.Ty(tyOf(a)) != fullDump.Ty(rt) {
		s.fail(e, "receiver type is %s, want %s", fullDump.Ty(tyOf(a)), fullDump.Ty(rt))
	}
}

func (s *selfState) checkIMethod(e *self) {
	s.k.Count("interface_methods_checked", 1)
	if e.im.String() != e.names[0] {
		s.fail(e, "text is %q", e.im)
	}
	if e.owner == nil {
		s.mustPanic(e, "ToTypeName without a type", func() { e.im.ToTypeName() })
		s.mustPanic(e, "ToMethodRef without a type", func() { e.im.ToMethodRef() })
		return
	}
	o := e.owner
	full := *e.sig
	switch {
	case o.names[0] == "":
		s.mustPanic(e, "ToMethodRef in unnamed type", func() { e.im.ToMethodRef() })
		full.Args = append([]Arg{{"", o.under}}, full.Args...)
		if !o.anew {
			s.checkSig(e, e.im.ToTypeName(), &full)
		}
	case o.home == nil:
		s.mustPanic(e, "ToTypeName before adding", func() { e.im.ToTypeName() })
		s.mustPanic(e, "ToMethodRef before adding", func() { e.im.ToMethodRef() })
	default:
		sym := Sym{Path: o.home.path, Pkg: o.home.name, Name: o.names[0]}
		full.Args = append([]Arg{{"", namedTy(sym)}}, full.Args...)
		s.checkSig(e, e.im.ToTypeName(), &full)
		want := gopoet.MethodReference{Type: sym.poet(), Method: e.names[0]}
		if got := e.im.ToMethodRef(); got != want {
			s.fail(e, "ToMethodRef is %+v, want %+v", got, want)
		}
		if got := e.im.ToTypeName().Signature().Args[0].Type; got.Kind() != gopoet.KindNamed || got.Symbol() != sym.poet() {
			s.fail(e, "receiver type is %v", got)
		}
	}
}

// receivers checks every way to make a receiver.
func (k *Case) receivers() {
	r := k.R
	name := OneOf(r, "", "r", "_", "世", r.Word())
	tname := OneOf(r, "T", "t", "Ü", "_T", r.Word())
	sym := Sym{Path: OneOf(r, "", "p/a"), Pkg: OneOf(r, "", "a"), Name: tname}
	spec := gopoet.NewTypeSpec(tname, gopoet.IntType)
	if r.Chance(50) {
		gopoet.NewGoFile("f.go", "p/a", "a").AddType(spec)
	}
	ptr := false
	var got *gopoet.ReceiverSpec
	how := r.IntN(8)
	switch how {
	case 0:
		got = gopoet.NewReceiver(name, tname)
	case 1:
		got, ptr = gopoet.NewPointerReceiver(name, tname), true
	case 2:
		got = gopoet.NewReceiverForType(name, namedTy(sym).poet())
	case 3:
		got, ptr = gopoet.NewReceiverForType(name, ptrTy(namedTy(sym)).poet()), true
	case 4:
		got = gopoet.NewReceiverForType(name, spec)
	case 5:
		got, ptr = gopoet.NewPointerReceiverForType(name, namedTy(sym).poet()), true
	case 6:
		got, ptr = gopoet.NewPointerReceiverForType(name, spec), true
	case 7:
		g := freeGen(r)
		bad := g.Gen(r.Between(1, 6))
		for bad.K == gopoet.KindNamed || bad.K == gopoet.KindPtr && bad.Elem.K == gopoet.KindNamed {
			bad = g.Gen(r.Between(1, 6))
		}
		var arg gopoet.TypeNameOrSpec = bad.poet()
		what := fullDump.Ty(bad)
		if r.Chance(20) {
			arg, what = gopoet.NewTypeSpec("", gopoet.IntType), "unnamed spec"
		}
		if ok, _ := panics(func() { gopoet.NewReceiverForType(name, arg) }); !ok {
			k.Failf("receiver of unnamed type %s is accepted", what)
		}
		if ok, _ := panics(func() { gopoet.NewPointerReceiverForType(name, arg) }); !ok {
			k.Failf("pointer receiver of unnamed type %s is accepted", what)
		}
		if ok, _ := panics(func() { gopoet.NewPointerReceiverForType(name, ptrTy(namedTy(sym)).poet()) }); !ok {
			k.Failf("pointer receiver of pointer type is accepted")
		}
		if ok, _ := panics(func() { gopoet.NewReceiver(name, "") }); !ok {
			k.Failf("receiver without type is accepted")
		}
		k.Count("receivers_rejected", 1)
		k.Nontrivial(what)
		return
	}
	if got.Name != name || got.Type != tname || got.IsPointer != ptr {
		k.Failf("receiver made in way %d from %q and %s is %+v, want pointer %v", how, name, tname, got, ptr)
	}
	k.Count("receivers", 1)
	k.Nontrivial(fmt.Sprint(how, name, sym))
}

// symbolForms checks the small reference values against each other.
func (k *Case) symbolForms() {
	r := k.R
	path := Pick(r, importPaths)
	name := OneOf(r, "T", "t", "世界", "_", r.Word(), "")
	base := path[strings.LastIndexByte(path, '/')+1:]
	p := gopoet.NewPackage(path)
	if p.ImportPath != path || p.Name != base || p.String() != base {
		k.Failf("NewPackage(%q) is %+v", path, p)
	}
	if s := gopoet.NewSymbol(path, name); s != p.Symbol(name) || s.Package != p || s.Name != name || s.String() != base+"."+name {
		k.Failf("NewSymbol(%q, %q) is %+v", path, name, s)
	}
	q := gopoet.Package{ImportPath: path, Name: Pick(r, importNames)}
	s := q.Symbol(name)
	want := name
	if q.Name != "" {
		want = q.Name + "." + name
	}
	if s.String() != want || s.Package != q || s.Name != name {
		k.Failf("%+v.Symbol(%q) is %+v, text %q", q, name, s, s)
	}
	m := gopoet.MethodReference{Type: s, Method: "M"}
	if m.String() != want+".M" {
		k.Failf("text of %+v is %q", m, m)
	}
	var any2 fmt.Stringer = &m
	if any2.String() != want+".M" || fmt.Sprintf("%s", &m) != want+".M" {
		k.Failf("text of a pointer to %+v is %q", m, any2)
	}
	if t := gopoet.NamedType(s); t.String() != want || t.Symbol() != s {
		k.Failf("type named %+v has text %q", s, t)
	}
	k.Nontrivial(fmt.Sprint(q, name))
}
