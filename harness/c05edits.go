package main

import (
	"fmt"
	"go/scanner"
	"go/token"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

// The "edits" phase of C05: one file is built, edited and rendered in random
// order. A rendering shows the file as it is at that moment: everything said
// so far, with the last word for what was said twice, and no matter what was
// rendered before.

// edPkgs never need aliases, so that the expected source is known beforehand.
var edPkgs = []Sym{{"ex.org/alpha", "alpha", ""}, {"ex.org/beta", "beta", ""}, {"gamma", "gamma", ""}, {"ex.org/x/delta", "delta", ""}, {"fmt", "fmt", ""}, {"net/http", "http", ""}}

// edBlock is a code block and its text.
type edBlock struct {
	cb   *gopoet.CodeBlock
	txts []Txt
}

type edField struct {
	spec      *gopoet.FieldSpec
	name, typ string
	t         *Ty
	tag, cmt  string
}

type edMethod struct {
	spec *gopoet.InterfaceMethod
	name string
	sg   *Sg
	cmt  string
}

// edSpec is a const, var or type.
type edSpec struct {
	kw     string
	names  []string
	cmt    string
	t      *Ty
	init   *edBlock
	alias  bool
	c      *gopoet.ConstSpec
	v      *gopoet.VarSpec
	ts     *gopoet.TypeSpec
	fields []*edField
	meths  []*edMethod
	// parented is whether references to it are possible
	parented bool
}

func (s *edSpec) src(ref SymFn) string {
	ret := strings.Join(s.names, ", ")
	if s.alias {
		ret += " ="
	}
	switch {
	case s.fields != nil:
		ret += " struct {\n"
		for _, f := range s.fields {
			ret += commentSrc(f.cmt) + f.name + " " + f.t.src(ref)
			if f.tag != "" {
				ret += " " + strconv.Quote(f.tag)
			}
			ret += "\n"
		}
		ret += "}"
	case s.meths != nil:
		ret += " interface {\n"
		for _, m := range s.meths {
			ret += commentSrc(m.cmt) + m.name + m.sg.src(ref) + "\n"
		}
		ret += "}"
	case s.t != nil:
		ret += " " + s.t.src(ref)
	}
	if s.init != nil {
		ret += " = " + join(s.init.txts, ref)
	}
	return ret
}

// edElem is an element of the file.
type edElem struct {
	kw    string
	cmt   string
	specs []*edSpec
	el    gopoet.FileElement
	// funcs
	fn   *gopoet.FuncSpec
	name string
	recv string
	sg   *Sg
	body *edBlock
	// refd is set if there are references to it
	refd bool
}

func (e *edElem) src(ref SymFn) string {
	if e.fn != nil {
		return commentSrc(e.cmt) + "func " + e.recv + e.name + e.sg.src(ref) + " {\n" + join(e.body.txts, ref) + "}\n"
	}
	var cmts []string
	var specs []Txt
	for _, s := range e.specs {
		cmts, specs = append(cmts, s.cmt), append(specs, s.src)
	}
	return group(e.kw, e.cmt, cmts, specs)(ref)
}

type edState struct {
	k     *Case
	gf    *gopoet.GoFile
	g     *TyGen
	elems []*edElem
	specs []*edSpec
	// blocks are all the initializers
	blocks  []*edBlock
	renders int
	ctr     int
	canon   string
	fileCmt string
	pkgCmt  string
	pkgName string
	ops     []string
	cmts    []string
	// live are changes to data that templates use
	live []func()
}

func (s *edState) name(p string) string {
	s.ctr++
	if r := s.k.R; r.Chance(8) {
		return p + r.Word() + "_" + strconv.Itoa(s.ctr)
	}
	return p + strconv.Itoa(s.ctr)
}

func (s *edState) comment() string {
	r := s.k.R
	if r.Chance(25) {
		return ""
	}
	if len(s.cmts) > 0 && r.Chance(25) {
		return s.cmts[max(0, len(s.cmts)-1-r.IntN(4))]
	}
	s.ctr++
	ret := fmt.Sprintf("Note %d says so.", s.ctr)
	for r.Chance(25) {
		s.ctr++
		ret += fmt.Sprintf("\nAnd line %d too.", s.ctr)
	}
	s.cmts = append(s.cmts, ret)
	return ret
}

func (s *edState) ty() *Ty { return s.g.Gen(s.k.R.Between(1, 6)) }

func (s *edState) sym() (gopoet.Symbol, Txt) {
	p := Pick(s.k.R, edPkgs)
	p.Name = s.name("S")
	return p.poet(), func(ref SymFn) string { return ref(p) }
}

// operand gives an argument and its text.
func (s *edState) operand() (any, Txt) {
	r := s.k.R
	if r.Chance(35) {
		var cands []*edSpec
		for _, sp := range s.specs {
			if sp.parented && len(sp.names) == 1 {
				cands = append(cands, sp)
			}
		}
		if len(cands) > 0 {
			sp := Pick(r, cands)
			txt := func(SymFn) string { return sp.names[0] }
			switch sp.kw {
			case "const":
				return sp.c, txt
			case "var":
				return sp.v, txt
			}
			return sp.ts, txt
		}
	}
	if r.Chance(15) {
		for _, e := range s.elems {
			if e.fn != nil && e.recv == "" && r.Chance(50) {
				e.refd = true
				return e.fn, func(SymFn) string { return e.name }
			}
		}
	}
	if r.Chance(20) {
		n := r.IntN(1000)
		return n, lit(strconv.Itoa(n))
	}
	sym, txt := s.sym()
	return sym, txt
}

func (s *edState) newBlock() *edBlock {
	a, t := s.operand()
	b := &edBlock{txts: []Txt{t}}
	switch s.k.R.IntN(3) {
	case 0:
		b.cb = gopoet.Printf("%v", a)
	case 1:
		b.cb = (&gopoet.CodeBlock{}).Print("").Printf("%v", a)
	default:
		// the data may change later
		b.txts = []Txt{func(ref SymFn) string { return t(ref) }}
		set := func(n any) { a = n }
		switch s.k.R.IntN(4) {
		case 0:
			m := map[string]any{"V": a}
			b.cb = gopoet.RenderCode(mustTmpl("{{.V}}"), m)
			set = func(n any) { m["V"] = n }
		case 1:
			l := []any{a}
			b.cb = gopoet.RenderCode(mustTmpl("{{index . 0}}"), l)
			set = func(n any) { l[0] = n }
		case 2:
			d := &struct{ V any }{a}
			b.cb = gopoet.RenderCode(mustTmpl("{{.V}}"), d)
			set = func(n any) { d.V = n }
		default:
			d := &struct{ In []map[string]any }{[]map[string]any{{"V": a}}}
			b.cb = gopoet.RenderCode(mustTmpl("{{range .In}}{{.V}}{{end}}"), d)
			set = func(n any) { d.In = []map[string]any{{"V": n}} }
		}
		s.live = append(s.live, func() {
			var n any
			n, t = s.operand()
			set(n)
			s.k.Count("template_data_changed", 1)
		})
	}
	s.blocks = append(s.blocks, b)
	return b
}

// extend adds to an initializer.
func (s *edState) extend(b *edBlock) {
	if len(b.txts) > 200 {
		return
	}
	b.cb.Print(" + ")
	b.txts = append(b.txts, lit(" + "))
	if s.k.R.Chance(30) {
		o := Pick(s.k.R, s.blocks)
		if o == b {
			o = s.newBlock()
		}
		b.cb.AddCode(o.cb)
		b.txts = append(b.txts, o.txts...)
		return
	}
	a, t := s.operand()
	b.cb.Printf("%v", a)
	b.txts = append(b.txts, t)
}

// setInit sets the initializer in some way.
func (s *edState) setInit(sp *edSpec) {
	r := s.k.R
	if r.Chance(40) {
		a, t := s.operand()
		n := r.IntN(100)
		switch {
		case sp.c != nil:
			sp.c.Initialize("%v * %d", a, n)
			sp.init = &edBlock{cb: sp.c.Initializer}
		default:
			sp.v.Initialize("%v * %d", a, n)
			sp.init = &edBlock{cb: sp.v.Initializer}
		}
		sp.init.txts = []Txt{func(ref SymFn) string { return t(ref) + " * " + strconv.Itoa(n) }}
		s.blocks = append(s.blocks, sp.init)
		return
	}
	b := s.newBlock()
	if r.Chance(25) {
		b = Pick(r, s.blocks)
	}
	sp.init = b
	direct := r.Chance(20)
	switch {
	case sp.c != nil && direct:
		sp.c.Initializer = b.cb
	case sp.c != nil:
		sp.c.SetInitializer(b.cb)
	case direct:
		sp.v.Initializer = b.cb
	default:
		sp.v.SetInitializer(b.cb)
	}
}

func (s *edState) setType(sp *edSpec) {
	r := s.k.R
	var v gopoet.TypeNameOrSpec
	t := s.ty()
	v = t.poet()
	if sp.init != nil && r.Chance(15) {
		t, v = nil, nil
	}
	sp.t = t
	direct := r.Chance(20)
	switch {
	case sp.c != nil && direct:
		sp.c.Type = v
	case sp.c != nil:
		sp.c.SetType(v)
	case direct:
		sp.v.Type = v
	default:
		sp.v.SetType(v)
	}
}

func (s *edState) setSpecComment(sp *edSpec) {
	sp.cmt = s.comment()
	direct := s.k.R.Chance(20)
	switch sp.kw {
	case "const":
		if direct {
			sp.c.Comment = sp.cmt
		} else {
			sp.c.SetComment(sp.cmt)
		}
	case "var":
		if direct {
			sp.v.Comment = sp.cmt
		} else {
			sp.v.SetComment(sp.cmt)
		}
	default:
		if direct {
			sp.ts.Comment = sp.cmt
		} else {
			sp.ts.SetComment(sp.cmt)
		}
	}
}

func (s *edState) newSpec(kw string) *edSpec {
	r := s.k.R
	sp := &edSpec{kw: kw}
	if kw == "type" {
		sp.names = []string{s.name("T")}
		switch r.IntN(4) {
		case 0:
			sp.t = s.ty()
			for sp.t.K == gopoet.KindStruct || sp.t.K == gopoet.KindInterface {
				sp.t = s.ty()
			}
			sp.ts = gopoet.NewTypeSpec(sp.names[0], sp.t.poet())
		case 1:
			sp.t, sp.alias = s.ty(), true
			sp.ts = gopoet.NewTypeAlias(sp.names[0], sp.t.poet())
		case 2:
			sp.fields = []*edField{}
			var fs []*gopoet.FieldSpec
			for n := r.Between(1, 4); n > 0; n-- {
				f := &edField{name: s.name("F"), t: s.ty()}
				f.spec = gopoet.NewField(f.name, f.t.poet())
				sp.fields, fs = append(sp.fields, f), append(fs, f.spec)
			}
			sp.ts = gopoet.NewStructTypeSpec(sp.names[0], fs...)
		default:
			sp.meths = []*edMethod{}
			var ms []gopoet.InterfaceElement
			for n := r.Between(1, 4); n > 0; n-- {
				m := &edMethod{name: s.name("M"), sg: &Sg{}}
				m.spec = gopoet.NewInterfaceMethod(m.name)
				for a := r.IntN(3); a > 0; a-- {
					t := s.ty()
					m.sg.Args = append(m.sg.Args, Arg{"", t})
					m.spec.AddArg("", t.poet())
				}
				sp.meths, ms = append(sp.meths, m), append(ms, m.spec)
			}
			sp.ts = gopoet.NewInterfaceTypeSpec(sp.names[0], ms...)
		}
	} else {
		sp.names = []string{s.name("n")}
		for r.Chance(20) {
			sp.names = append(sp.names, s.name("n"))
		}
		if r.Chance(15) {
			sp.names[r.IntN(len(sp.names))] = "_"
		}
		if kw == "const" {
			sp.c = gopoet.NewConst(append([]string(nil), sp.names...)...)
			s.setInit(sp)
			if r.Chance(30) {
				s.setType(sp)
			}
		} else {
			sp.v = gopoet.NewVar(append([]string(nil), sp.names...)...)
			if r.Chance(50) {
				s.setInit(sp)
			} else {
				s.setType(sp)
			}
		}
	}
	if r.Chance(60) {
		s.setSpecComment(sp)
	}
	s.specs = append(s.specs, sp)
	return sp
}

// twin is another const or var that looks the same. This is fine for blank ones,
// and for others it is not up to us.
func (s *edState) twin(sp *edSpec) *edSpec {
	t := *sp
	t.names = append([]string(nil), sp.names...)
	if s.k.R.Chance(70) {
		t.names = []string{"_"}
		if sp.c != nil {
			sp.c.Names = []string{"_"}
		} else {
			sp.v.Names = []string{"_"}
		}
		sp.names = []string{"_"}
	}
	names := append([]string(nil), t.names...)
	if sp.c != nil {
		t.c = gopoet.NewConst(names...).SetType(sp.c.Type).SetInitializer(sp.c.Initializer).SetComment(sp.c.Comment)
	} else {
		t.v = gopoet.NewVar(names...).SetType(sp.v.Type).SetInitializer(sp.v.Initializer).SetComment(sp.v.Comment)
	}
	s.specs = append(s.specs, &t)
	s.k.Count("twins", 1)
	return &t
}

func (s *edState) addTo(e *edElem, sp *edSpec) {
	direct := s.k.R.Chance(25)
	e.specs = append(e.specs, sp)
	switch d := e.el.(type) {
	case *gopoet.ConstDecl:
		if direct {
			d.Consts = append(d.Consts, sp.c)
		} else {
			d.AddConst(sp.c)
		}
	case *gopoet.VarDecl:
		if direct {
			d.Vars = append(d.Vars, sp.v)
		} else {
			d.AddVar(sp.v)
		}
	case *gopoet.TypeDecl:
		if direct {
			d.Types = append(d.Types, sp.ts)
		} else {
			d.AddType(sp.ts)
		}
	}
}

func (s *edState) newElem() {
	r := s.k.R
	e := &edElem{kw: OneOf(r, "const", "var", "type", "func", "func")}
	if e.kw == "func" {
		e.name, e.sg, e.body = s.name("fn"), &Sg{}, &edBlock{}
		if r.Chance(15) {
			e.name = OneOf(r, "init", "_")
		}
		if r.Chance(25) {
			e.fn = gopoet.NewMethod(gopoet.NewPointerReceiver("r", "T0"), e.name)
			e.recv = "(r *T0) "
		} else {
			e.fn = gopoet.NewFunc(e.name)
		}
		e.body.cb = &e.fn.CodeBlock
		e.el = e.fn
		s.gf.AddElement(e.fn)
		s.elems = append(s.elems, e)
		return
	}
	if r.Chance(30) {
		// with the shorthand
		sp := s.newSpec(e.kw)
		e.specs, sp.parented = []*edSpec{sp}, true
		switch e.kw {
		case "const":
			s.gf.AddConst(sp.c)
		case "var":
			s.gf.AddVar(sp.v)
		default:
			s.gf.AddType(sp.ts)
		}
		e.el = s.gf.ElementAt(s.gf.NumElements() - 1)
		s.elems = append(s.elems, e)
		return
	}
	switch e.kw {
	case "const":
		e.el = gopoet.NewConstDecl()
	case "var":
		e.el = gopoet.NewVarDecl()
	default:
		e.el = gopoet.NewTypeDecl()
	}
	for n := r.Between(1, 3); n > 0; n-- {
		sp := s.newSpec(e.kw)
		if e.kw != "type" && r.Chance(20) {
			// the same once more
			s.addTo(e, s.twin(sp))
		}
		s.addTo(e, sp)
		sp.parented = true
	}
	for _, sp := range e.specs {
		sp.parented = true
	}
	s.gf.AddElement(e.el)
	s.elems = append(s.elems, e)
}

// sig edits a signature through the given methods.
func (s *edState) editSig(sg *Sg, set *gopoet.Signature, addArg, addResult func(string, gopoet.TypeName), variadic func(bool)) {
	r := s.k.R
	switch r.IntN(5) {
	case 0, 1:
		if sg.Variadic {
			sg.Variadic = false
			variadic(false)
		}
		a := Arg{OneOf(r, "", s.name("a")), s.ty()}
		if r.Chance(40) {
			a.T = sliceTy(a.T)
		}
		sg.Args = append(sg.Args, a)
		addArg(a.Name, a.T.poet())
	case 2:
		a := Arg{OneOf(r, "", s.name("r")), s.ty()}
		sg.Results = append(sg.Results, a)
		addResult(a.Name, a.T.poet())
	case 3:
		if n := len(sg.Args); n > 0 && sg.Args[n-1].T.K == gopoet.KindSlice {
			sg.Variadic = r.Chance(70)
			variadic(sg.Variadic)
		}
	case 4:
		if n := len(sg.Args); n > 0 && r.Chance(50) {
			// the parts are exported
			i := r.IntN(n)
			sg.Args[i].Name = s.name("b")
			set.Args[i].Name = sg.Args[i].Name
		} else {
			*sg = *s.g.sig()
			*set = *sg.poet()
		}
	}
}

func (s *edState) editElem() string {
	r := s.k.R
	e := Pick(r, s.elems)
	if e.fn != nil {
		switch r.IntN(7) {
		case 0:
			e.cmt = s.comment()
			if r.Chance(80) {
				e.fn.SetComment(e.cmt)
			} else {
				e.fn.Comment = e.cmt
			}
			return "func comment"
		case 1:
			e.name = s.name("fn")
			e.fn.Name = e.name
			return "func name"
		case 2:
			if e.refd {
				return "nothing"
			}
			switch r.IntN(3) {
			case 0:
				e.fn.Receiver, e.recv = nil, ""
			case 1:
				e.fn.Receiver, e.recv = gopoet.NewReceiver("", "T1"), "(T1) "
			default:
				if e.fn.Receiver != nil {
					e.fn.Receiver.IsPointer, e.fn.Receiver.Name, e.fn.Receiver.Type = true, "q", "T9"
					e.recv = "(q *T9) "
				}
			}
			return "func receiver"
		case 3, 4:
			s.editSig(e.sg, &e.fn.Signature, func(n string, t gopoet.TypeName) { e.fn.AddArg(n, t) }, func(n string, t gopoet.TypeName) { e.fn.AddResult(n, t) }, func(b bool) { e.fn.SetVariadic(b) })
			return "func signature"
		default:
			a, t := s.operand()
			n := r.IntN(100)
			switch r.IntN(5) {
			case 0:
				e.fn.Printlnf("_ = %v", a)
				t1 := t
				t = func(ref SymFn) string { return "_ = " + t1(ref) + "\n" }
			case 1:
				e.fn.Printf("%v(%d)\n", a, n)
				t1 := t
				t = func(ref SymFn) string { return t1(ref) + "(" + strconv.Itoa(n) + ")\n" }
			case 2:
				e.fn.Print("x(").Println(")")
				t = lit("x()\n")
			case 3:
				e.fn.RenderCode(mustTmpl("_ = {{.}}\n"), a)
				t1 := t
				t = func(ref SymFn) string { return "_ = " + t1(ref) + "\n" }
			default:
				if len(s.blocks) == 0 {
					return "nothing"
				}
				o := Pick(r, s.blocks)
				e.fn.Print("_ = ").AddCode(o.cb).Println("")
				txts := append([]Txt(nil), o.txts...)
				t = func(ref SymFn) string { return "_ = " + join(txts, ref) + "\n" }
			}
			e.body.txts = append(e.body.txts, t)
			return "func body"
		}
	}
	switch r.IntN(4) {
	case 0:
		e.cmt = s.comment()
		direct := r.Chance(20)
		switch d := e.el.(type) {
		case *gopoet.ConstDecl:
			if direct {
				d.Comment = e.cmt
			} else {
				d.SetComment(e.cmt)
			}
		case *gopoet.VarDecl:
			if direct {
				d.Comment = e.cmt
			} else {
				d.SetComment(e.cmt)
			}
		case *gopoet.TypeDecl:
			if direct {
				d.Comment = e.cmt
			} else {
				d.SetComment(e.cmt)
			}
		}
		return "decl comment"
	case 1:
		s.addTo(e, s.newSpec(e.kw))
		return "spec added"
	case 2:
		if n := len(e.specs); n > 1 {
			// the lists are exported: take one out or swap two
			i, j := r.IntN(n), r.IntN(n)
			cut := r.Chance(40)
			switch d := e.el.(type) {
			case *gopoet.ConstDecl:
				edList(&d.Consts, i, j, cut)
			case *gopoet.VarDecl:
				edList(&d.Vars, i, j, cut)
			case *gopoet.TypeDecl:
				edList(&d.Types, i, j, cut)
			}
			edList(&e.specs, i, j, cut)
			return "specs moved"
		}
		fallthrough
	default:
		s.addTo(e, s.newSpec(e.kw))
		return "spec added"
	}
}

func edList[T any](l *[]T, i, j int, cut bool) {
	if cut {
		*l = append(append([]T(nil), (*l)[:i]...), (*l)[i+1:]...)
		return
	}
	(*l)[i], (*l)[j] = (*l)[j], (*l)[i]
}

func (s *edState) editSpec() string {
	r := s.k.R
	if len(s.live) > 0 && r.Chance(15) {
		Pick(r, s.live)()
		return "template data"
	}
	if len(s.specs) == 0 {
		return "nothing"
	}
	sp := Pick(r, s.specs)
	switch r.IntN(6) {
	case 0, 1:
		s.setSpecComment(sp)
		return "spec comment"
	case 2:
		i := r.IntN(len(sp.names))
		n := s.name("ren")
		sp.names[i] = n
		switch sp.kw {
		case "const":
			sp.c.Names[i] = n
		case "var":
			sp.v.Names[i] = n
		default:
			sp.ts.Name = n
		}
		return "spec name"
	}
	switch {
	case sp.fields != nil:
		f := Pick(r, sp.fields)
		if r.Chance(50) {
			f.cmt = s.comment()
			f.spec.SetComment(f.cmt)
			return "field comment"
		}
		f.tag = OneOf(r, "", `json:"a"`, s.name("tag"), "`")
		if r.Chance(70) {
			f.spec.SetTag(f.tag)
		} else {
			f.spec.Tag = reflect.StructTag(f.tag)
		}
		return "field tag"
	case sp.meths != nil:
		m := Pick(r, sp.meths)
		m.cmt = s.comment()
		m.spec.SetComment(m.cmt)
		return "method comment"
	case sp.kw == "type":
		return "nothing"
	}
	switch {
	case r.Chance(40):
		s.setType(sp)
		return "spec type"
	case r.Chance(50) && sp.init != nil:
		s.extend(sp.init)
		return "initializer extended"
	case sp.kw == "var" && sp.t != nil && r.Chance(30):
		sp.init, sp.v.Initializer = nil, nil
		return "initializer removed"
	}
	s.setInit(sp)
	return "initializer set"
}

func (s *edState) editFile() string {
	r := s.k.R
	switch r.IntN(6) {
	case 0:
		s.fileCmt = s.comment()
		s.gf.FileComment = s.fileCmt
		return "file comment"
	case 1:
		s.pkgCmt = s.comment()
		s.gf.PackageComment = s.pkgCmt
		return "package comment"
	case 2:
		s.pkgName = s.name("pkg")
		s.gf.PackageName = s.pkgName
		return "package name"
	case 3:
		s.canon = OneOf(r, "", "", "ex.org/"+s.name("canon"))
		s.gf.CanonicalImportPath = s.canon
		return "canonical path"
	case 4:
		p := Pick(r, edPkgs)
		s.gf.RegisterImport(p.Path, p.Pkg)
		return "import"
	default:
		s.gf.Name = s.name("file") + ".go"
		return "file name"
	}
}

func (s *edState) want() string {
	ref := func(y Sym) string {
		if y.Path == "" || y.Path == "ex.org/own" {
			return y.Name
		}
		if y.Name == "" {
			return y.Pkg
		}
		return y.Pkg + "." + y.Name
	}
	ret := ""
	if s.fileCmt != "" {
		ret += commentSrc(s.fileCmt) + "\n"
	}
	ret += commentSrc(s.pkgCmt) + "package " + s.pkgName
	if s.canon != "" {
		ret += " // import " + strconv.Quote(s.canon)
	}
	ret += "\n"
	for _, p := range edPkgs {
		ret += "import " + strconv.Quote(p.Path) + "\n"
	}
	for _, e := range s.elems {
		ret += "\n" + e.src(ref)
	}
	return ret
}

// commentPlaces lists the comments and the name that follows each of them.
func commentPlaces(src []byte) []string {
	var ret []string
	var sc scanner.Scanner
	fset := token.NewFileSet()
	sc.Init(fset.AddFile("", -1, len(src)), src, func(token.Position, string) {}, scanner.ScanComments)
	open := ""
	for {
		_, tok, lit := sc.Scan()
		switch tok {
		case token.COMMENT:
			if open != "" {
				open += "\n"
			}
			open += lit
		case token.SEMICOLON, token.LPAREN, token.CONST, token.VAR, token.TYPE, token.FUNC, token.PACKAGE, token.MUL, token.IMPORT, token.STRING, token.RPAREN, token.RBRACE:
			if tok == token.RBRACE && open != "" {
				ret, open = append(ret, open+" <- }"), ""
			}
		default:
			if open != "" {
				ret, open = append(ret, open+" <- "+lit), ""
			}
			if tok == token.EOF {
				return ret
			}
		}
	}
}

func (s *edState) render() {
	k := s.k
	var got string
	if e := panicErr(func() { got = k.writeFile(s.gf) }); e != "" {
		k.Failf("rendering failed after %q: %s", s.ops, e)
	}
	want := s.want()
	declared := func(path string) string {
		for _, p := range edPkgs {
			if p.Path == path {
				return p.Pkg
			}
		}
		return ""
	}
	wp, err := parseFile([]byte(want), declared)
	if err != nil {
		bug("%v\n%s", err, want)
	}
	gp, err := parseFile([]byte(got), declared)
	if err != nil {
		k.Failf("%v\n%s", err, got)
	}
	if wp.AST.Name.Name != gp.AST.Name.Name {
		k.Failf("package clause says %s, expected %s after %q", gp.AST.Name.Name, wp.AST.Name.Name, s.ops)
	}
	if a, b := canonicalImport(wp), canonicalImport(gp); a != b {
		k.Failf("canonical import path is %q, expected %q after %q\n%s", b, a, s.ops, got)
	}
	w, g := strings.Join(wp.declDumps(true), "\n"), strings.Join(gp.declDumps(true), "\n")
	if w != g {
		k.Failf("the file does not show what it consists of at rendering %d, after %q: %s\nexpected:\n%s\ngenerated:\n%s", s.renders+1, s.ops, firstDiff(w, g), numbered([]byte(want)), numbered([]byte(got)))
	}
	wc, gc := commentPlaces([]byte(want)), commentPlaces([]byte(got))
	if w, g := strings.Join(wc, "\n"), strings.Join(gc, "\n"); w != g {
		k.Failf("the comments are not those at rendering %d, after %q: %s\nexpected:\n%s\ngenerated:\n%s", s.renders+1, s.ops, firstDiff(w, g), numbered([]byte(want)), numbered([]byte(got)))
	}
	if n := s.gf.NumElements(); n != len(s.elems) {
		k.Failf("file has %d elements, %d were added", n, len(s.elems))
	}
	for i, e := range s.elems {
		if s.gf.ElementAt(i) != e.el {
			k.Failf("element %d of the file is not the one that was added", i)
		}
	}
	s.renders++
	k.Count("edit_renderings", 1)
	if s.renders > 1 {
		k.Nontrivial(got)
	}
}

// panicErr gives the panic value of f as text.
func panicErr(f func()) string {
	if bad, v := panics(f); bad {
		return fmt.Sprint(v)
	}
	return ""
}

func (k *Case) edits() {
	r := k.R
	s := &edState{k: k, gf: gopoet.NewGoFile("x.go", "ex.org/own", "own"), pkgName: "own"}
	s.g = &TyGen{R: r, Valid: true}
	n := 0
	s.g.Sym = func(bool) Sym {
		if r.Chance(25) {
			return Sym{"ex.org/own", "own", "T0"}
		}
		p := Pick(r, edPkgs)
		p.Name = "N" + strconv.Itoa(r.IntN(9))
		return p
	}
	s.g.KeySym = func() Sym { return s.g.Sym(false) }
	s.g.EmbedSym = func() (Sym, bool) { n++; p := Pick(r, edPkgs); p.Name = "E" + strconv.Itoa(n); return p, true }
	s.g.Method = func() string { n++; return "Mm" + strconv.Itoa(n) }
	s.newElem()
	for m := r.Between(5, 40); m > 0; m-- {
		op := ""
		switch r.IntN(10) {
		case 0, 1:
			s.newElem()
			op = "new element"
		case 2, 3, 4:
			op = s.editElem()
		case 5, 6:
			op = s.editSpec()
		case 7:
			op = s.editFile()
		case 8:
			if r.Chance(30) {
				e := Pick(r, s.elems)
				s.gf.AddElement(e.el)
				s.elems = append(s.elems, e)
				for _, sp := range e.specs {
					sp.parented = true
				}
				op = "added again"
				k.Count("elements_added_again", 1)
			}
		default:
			s.render()
			op = "render"
		}
		s.ops = append(s.ops, op)
		k.Count("edits", 1)
	}
	s.render()
}

// chaining checks that what can be chained acts on one and the same element.
func (k *Case) chaining() {
	other := gopoet.Printf("other")
	str := gopoet.StringType
	same := func(what string, want any, got ...any) {
		for i, g := range got {
			if g != want {
				k.Failf("call %d in a chain of calls of a %s gives another %s", i+1, what, what)
			}
			k.Count("chained_calls", 1)
		}
	}
	gf := gopoet.NewGoFile("a.go", "p/a", "a")
	c, v, t := gopoet.NewConst("C"), gopoet.NewVar("V"), gopoet.NewTypeSpec("T", str)
	cd, vd, td := gopoet.NewConstDecl(), gopoet.NewVarDecl(), gopoet.NewTypeDecl()
	fn, im := gopoet.NewFunc("f"), gopoet.NewInterfaceMethod("M")
	em, fs := gopoet.NewInterfaceEmbed(gopoet.NewSymbol("io", "Reader")), gopoet.NewField("F", str)
	cb, sg := &gopoet.CodeBlock{}, &gopoet.Signature{}
	same("file", gf, gf.AddConst(gopoet.NewConst("C1").Initialize("1")), gf.AddVar(gopoet.NewVar("V1").SetType(str)), gf.AddType(gopoet.NewTypeSpec("T1", str)), gf.AddElement(gopoet.NewFunc("f1")), gf.AddElement(cd))
	same("const group", cd, cd.AddConst(c), cd.SetComment("c"), cd.AddConst(gopoet.NewConst("D")))
	same("var group", vd, vd.AddVar(v), vd.SetComment("c"), vd.AddVar(gopoet.NewVar("D")))
	same("type group", td, td.AddType(t), td.SetComment("c"))
	same("const", c, c.SetComment("c"), c.SetType(str), c.SetType(nil), c.Initialize("1"), c.SetInitializer(other), c.SetInitializer(nil))
	same("var", v, v.SetComment("c"), v.SetType(str), v.SetType(nil), v.Initialize("1"), v.SetInitializer(other), v.SetInitializer(nil))
	same("type", t, t.SetComment("c"), t.SetComment(""))
	same("field", fs, fs.SetComment("c"), fs.SetTag("t"), fs.SetTag(""))
	same("embed", em, em.SetComment("c"))
	same("method", im, im.SetComment("c"), im.AddArg("a", str), im.AddArg("b", gopoet.SliceType(str)), im.SetVariadic(true), im.SetVariadic(false), im.AddResult("r", str))
	same("func", fn, fn.SetComment("c"), fn.AddArg("a", str), fn.AddArg("b", gopoet.SliceType(str)), fn.SetVariadic(true), fn.SetVariadic(false), fn.AddResult("r", str),
		fn.Print("x"), fn.Println("x"), fn.Printf("x%d", 1), fn.Printlnf("x%d", 1), fn.RenderCode(mustTmpl("x"), nil), fn.AddCode(other), fn.AddCode(&gopoet.CodeBlock{}))
	same("code block", cb, cb.Print("x"), cb.Println("x"), cb.Printf("x%d", 1), cb.Printlnf("x%d", 1), cb.RenderCode(mustTmpl("x"), nil), cb.AddCode(other), cb.AddCode(&gopoet.CodeBlock{}))
	same("signature", sg, sg.AddArg("a", str), sg.AddArg("b", gopoet.SliceType(str)), sg.SetVariadic(true), sg.SetVariadic(false), sg.AddResult("r", str))
	k.Nontrivial("chaining")
}
