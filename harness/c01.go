package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C01"] = &CheckDef{
		Variants: []string{"default", "386"},
		Boost:    10,
		Deep:     12,
		Rule:     "random type trees (hostile names, tags, lengths), deep chains, every constructor nested in every position of every constructor, and types inside declarations; a case is nontrivial if the type has at least two nodes; the text is read back with go/parser and compared with the model the type was built from",
		Shards:   8,
		Needs:    map[string]int64{"types_parsed_back": 5000, "kind_chan": 500, "kind_struct": 500, "kind_interface": 500, "kind_func": 500},
		Run:      runC01,
	}
}

var textDump = Dumper{Sym: symText, AsRendered: true}

// freeGen makes types that merely have to parse.
func freeGen(r *Rng) *TyGen {
	g := &TyGen{R: r}
	g.Sym = func(iface bool) Sym {
		s := Sym{Path: Pick(r, []string{"", "a/b", "foo", "x.y/z"}), Pkg: Pick(r, []string{"", "", "foo", "bar", "世界", "_x", "string"}), Name: Pick(r, []string{"T", "Foo", "x", "世界", "Ünï", "_0", "error", "any", "comparable", "iota"})}
		if w := r.Word(); r.Chance(5) && types.Universe.Lookup(w) == nil {
			s.Name = w
		}
		if r.Chance(3) {
			s.Pkg = r.Word()
		}
		return s
	}
	return g
}

func (t *Ty) walk(f func(*Ty)) {
	if t == nil {
		return
	}
	f(t)
	t.Elem.walk(f)
	t.Key.walk(f)
	if t.Sig != nil {
		t.Sig.walk(f)
	}
	for _, x := range t.Fields {
		x.T.walk(f)
	}
	for _, x := range t.Methods {
		x.Sig.walk(f)
	}
}

func (s *Sg) walk(f func(*Ty)) {
	for _, a := range s.Args {
		a.T.walk(f)
	}
	for _, a := range s.Results {
		a.T.walk(f)
	}
}

var kindNames = map[gopoet.TypeKind]string{gopoet.KindBasic: "basic", gopoet.KindNamed: "named", gopoet.KindPtr: "ptr", gopoet.KindSlice: "slice",
	gopoet.KindArray: "array", gopoet.KindMap: "map", gopoet.KindChan: "chan", gopoet.KindFunc: "func", gopoet.KindStruct: "struct", gopoet.KindInterface: "interface"}

func (k *Case) countTy(t *Ty) int {
	n := 0
	kinds := map[string]int{}
	t.walk(func(x *Ty) { n++; kinds["kind_"+kindNames[x.K]]++ })
	for s, c := range kinds {
		k.Count(s, c)
	}
	return n
}

// checkText checks that the text of tn denotes t.
func (k *Case) checkText(t *Ty, tn gopoet.TypeName) string {
	s := tn.String()
	got, err := parseTy(s, textResolve)
	if err != nil {
		k.Failf("the text of a type does not parse: %v\ntext: %s\nmodel: %s", err, s, textDump.Ty(t))
	}
	if w, g := textDump.Ty(t), textDump.Ty(got); w != g {
		k.Failf("the text of a type denotes another type\ntext: %s\nmodel: %s\n text: %s", s, w, g)
	}
	k.Count("types_parsed_back", 1)
	return s
}

func (k *Case) typeCase(t *Ty) {
	n := k.countTy(t)
	tn := t.poet()
	s := k.checkText(t, tn)
	// however the text is produced, and how often
	for i, x := range []string{fmt.Sprint(tn), fmt.Sprintf("%s", tn), fmt.Sprintf("%v", tn), tn.String(), t.poet().String()} {
		if x != s {
			k.Failf("the text of a type differs between calls (%d):\n%s\n%s", i, s, x)
		}
	}
	// in the context of other types, which must not change it
	sl := gopoet.SliceType(tn)
	k.checkText(sliceTy(t), sl)
	k.checkText(&Ty{K: gopoet.KindMap, Key: t, Elem: t, Len: -1}, gopoet.MapType(tn, tn))
	k.checkText(&Ty{K: gopoet.KindChan, Elem: t, Dir: reflect.BothDir, Len: -1}, gopoet.ChannelType(tn, reflect.BothDir))
	if x := tn.String(); x != s {
		k.Failf("the text of a type changed after using the type in another:\n%s\n%s", s, x)
	}
	// the parts of the type have their own text
	if t.Elem != nil {
		k.checkText(t.Elem, tn.Elem())
	}
	if t.Key != nil {
		k.checkText(t.Key, tn.Key())
	}
	for i, f := range tn.Fields() {
		k.checkText(t.Fields[i].T, f.Type)
	}
	if n > 1 {
		k.Nontrivial(s)
	}
	k.Sample("%s", s)
}

// leafs and constructors for the systematic nesting phase
func nestings() []func(t *Ty) *Ty {
	num := basicTy(reflect.Int)
	nm := namedTy(Sym{"p", "p", "N"})
	fn := func(s Sg) *Ty { return &Ty{K: gopoet.KindFunc, Sig: &s, Len: -1} }
	st := func(f ...Fld) *Ty { return &Ty{K: gopoet.KindStruct, Fields: f, Len: -1} }
	ifc := func(s Sg) *Ty {
		return &Ty{K: gopoet.KindInterface, Embeds: []Sym{{"p", "p", "I"}}, Methods: []Mth{{"M", &s}}, Len: -1}
	}
	ch := func(d reflect.ChanDir) func(t *Ty) *Ty {
		return func(t *Ty) *Ty { return &Ty{K: gopoet.KindChan, Elem: t, Dir: d, Len: -1} }
	}
	return []func(t *Ty) *Ty{
		ptrTy, sliceTy,
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindArray, Elem: t, Len: 0} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindArray, Elem: t, Len: 7} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindMap, Key: t, Elem: num, Len: -1} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindMap, Key: num, Elem: t, Len: -1} },
		ch(reflect.BothDir), ch(reflect.SendDir), ch(reflect.RecvDir),
		func(t *Ty) *Ty { return fn(Sg{Args: []Arg{{"", t}}}) },
		func(t *Ty) *Ty { return fn(Sg{Args: []Arg{{"a", t}, {"", num}}}) },
		func(t *Ty) *Ty { return fn(Sg{Args: []Arg{{"", nm}, {"b", t}}}) },
		func(t *Ty) *Ty { return fn(Sg{Args: []Arg{{"a", t}, {"b", t}}}) },
		func(t *Ty) *Ty { return fn(Sg{Results: []Arg{{"", t}}}) },
		func(t *Ty) *Ty { return fn(Sg{Results: []Arg{{"r", t}}}) },
		func(t *Ty) *Ty { return fn(Sg{Results: []Arg{{"", t}, {"", num}}}) },
		func(t *Ty) *Ty { return fn(Sg{Results: []Arg{{"", t}, {"e", t}}}) },
		func(t *Ty) *Ty { return fn(Sg{Args: []Arg{{"", sliceTy(t)}}, Variadic: true}) },
		func(t *Ty) *Ty {
			return fn(Sg{Args: []Arg{{"x", t}, {"", sliceTy(t)}}, Variadic: true, Results: []Arg{{"", t}}})
		},
		func(t *Ty) *Ty { return fn(Sg{Args: []Arg{{"", t}, {"v", sliceTy(sliceTy(t))}}, Variadic: true}) },
		func(t *Ty) *Ty { return fn(Sg{Args: []Arg{{"", sliceTy(t)}}}) },
		func(t *Ty) *Ty { return st(Fld{"F", t, ""}) },
		func(t *Ty) *Ty { return st(Fld{"F", t, "tag`\n\""}, Fld{"", nm, ""}, Fld{"G", t, "x"}) },
		func(t *Ty) *Ty { return st(Fld{"", ptrTy(nm), "`"}, Fld{"_", t, ""}, Fld{"_", num, ""}) },
		func(t *Ty) *Ty { return ifc(Sg{Args: []Arg{{"", t}}}) },
		func(t *Ty) *Ty { return ifc(Sg{Results: []Arg{{"", t}}}) },
		func(t *Ty) *Ty { return ifc(Sg{Args: []Arg{{"a", num}, {"", sliceTy(t)}}, Variadic: true}) },
		func(t *Ty) *Ty {
			x := ifc(Sg{Args: []Arg{{"", t}}, Results: []Arg{{"", t}, {"", num}}})
			x.Methods = append(x.Methods, Mth{"N", &Sg{Args: []Arg{{"a", t}}}})
			x.Embeds = append(x.Embeds, Sym{"", "", "J"}, Sym{"q", "q", "K"})
			return x
		},
	}
}

func runC01(c *Ctx) {
	c.Run("leaves", 1, func(k *Case) {
		for _, b := range basicKinds {
			k.typeCase(basicTy(b))
		}
		for _, s := range []Sym{{"", "", "error"}, {"a/b", "b", "T"}, {"a/b", "", "T"}, {"", "b", "T"}, {"a", "世界", "世界"}} {
			k.typeCase(namedTy(s))
			want := symText(s)
			if got := s.poet().String(); got != want {
				k.Failf("symbol %v has text %q, expected %q", s, got, want)
			}
			if got := s.poet().Package.String(); got != s.Pkg {
				k.Failf("package %v has text %q, expected %q", s, got, s.Pkg)
			}
			mr := gopoet.MethodReference{Type: s.poet(), Method: "M"}
			if got := mr.String(); got != want+".M" {
				k.Failf("method reference has text %q, expected %q", got, want+".M")
			}
		}
		for _, t := range []*Ty{{K: gopoet.KindStruct, Len: -1}, {K: gopoet.KindInterface, Len: -1}, {K: gopoet.KindFunc, Sig: &Sg{}, Len: -1}} {
			k.typeCase(t)
		}
	})
	ns := nestings()
	n := len(ns)
	leaves := []*Ty{basicTy(reflect.Int), namedTy(Sym{"p", "p", "T"}), {K: gopoet.KindStruct, Len: -1}, {K: gopoet.KindInterface, Len: -1}, {K: gopoet.KindFunc, Sig: &Sg{}, Len: -1}}
	// every constructor in every position of every constructor
	c.Run("nested", n*n, func(k *Case) {
		for _, l := range leaves {
			k.typeCase(ns[k.Idx/n](ns[k.Idx%n](l)))
		}
	})
	c.Run("nested3", c.Fixed(16000, n*n*n), func(k *Case) {
		i := k.Idx
		if c.Tier != "thorough" {
			i = k.R.IntN(n * n * n)
		}
		l := leaves[k.R.IntN(len(leaves))]
		k.typeCase(ns[i/n/n](ns[i/n%n](ns[i%n](l))))
	})
	c.Run("random", c.N(8000, 300000), func(k *Case) {
		k.typeCase(freeGen(k.R).Gen(k.R.Between(1, 30)))
	})
	c.Run("big", c.N(150, 3000), func(k *Case) {
		k.typeCase(freeGen(k.R).Gen(k.R.Between(100, 800)))
	})
	c.Run("chains", c.N(600, 20000), func(k *Case) {
		k.typeCase(freeGen(k.R).chain(k.R.Between(3, 60)))
	})
	c.Run("extremes", c.N(40, 1500), func(k *Case) { k.typeCase(freeGen(k.R).extreme()) })
	c.Run("channels", c.Fixed(1, 1), func(k *Case) {
		// all sequences of channel directions and pointers up to depth 5
		wrap := []func(t *Ty) *Ty{
			func(t *Ty) *Ty { return &Ty{K: gopoet.KindChan, Elem: t, Dir: reflect.BothDir, Len: -1} },
			func(t *Ty) *Ty { return &Ty{K: gopoet.KindChan, Elem: t, Dir: reflect.SendDir, Len: -1} },
			func(t *Ty) *Ty { return &Ty{K: gopoet.KindChan, Elem: t, Dir: reflect.RecvDir, Len: -1} },
			func(t *Ty) *Ty { return &Ty{K: gopoet.KindFunc, Sig: &Sg{Results: []Arg{{"", t}}}, Len: -1} },
			ptrTy,
		}
		var rec func(t *Ty, d int)
		rec = func(t *Ty, d int) {
			k.checkText(t, t.poet())
			k.Count("kind_chan", 1)
			if d > 0 {
				for _, w := range wrap {
					rec(w(t), d-1)
				}
			}
		}
		rec(basicTy(reflect.Int), 5)
		k.Nontrivial("channels")
	})
	c.Run("signatures", c.N(2000, 60000), func(k *Case) {
		// all the ways to build a func type, and funcs and methods with it
		g := freeGen(k.R)
		g.budget = 12
		sg := g.sig()
		t := &Ty{K: gopoet.KindFunc, Sig: sg, Len: -1}
		p := sg.poet()
		if sg.Variadic {
			k.checkText(t, gopoet.FuncTypeVariadic(p.Args, p.Results))
		} else {
			k.checkText(t, gopoet.FuncType(p.Args, p.Results))
		}
		k.checkText(t, gopoet.FuncTypeFromSig(p))
		if p := k.declText(sg, t); p != "" {
			k.Nontrivial(p)
		}
	})
	c.Run("decls", c.N(1200, 30000), func(k *Case) {
		// the same text in a declaration, whatever else is declared
		t := freeGen(k.R).Gen(k.R.Between(2, 25))
		own := t.mapSyms(func(s Sym) Sym { return Sym{"own/pkg", "pkg", s.Name} })
		tn := own.poet()
		gf := gopoet.NewGoFile("f.go", "own/pkg", "pkg")
		gf.AddVar(gopoet.NewVar("V").SetType(tn))
		gf.AddType(gopoet.NewTypeSpec("T9", tn))
		gf.AddElement(gopoet.NewFunc("F9").AddArg("a", tn).AddResult("", tn))
		gf.AddType(gopoet.NewStructTypeSpec("S9", gopoet.NewField("F", tn)))
		gf.AddVar(gopoet.NewVar("W").Initialize("new(%s)", tn))
		src := k.writeFile(gf)
		want := textDump.Ty(t.mapSyms(func(s Sym) Sym { return Sym{Name: s.Name} }))
		for i, e := range k.typeExprs(src) {
			got, err := tyOfExpr(e, textResolve)
			if err != nil {
				k.Failf("declared type does not read back: %v\n%s", err, src)
			}
			if g := textDump.Ty(got); g != want {
				k.Failf("use %d of a type in a declaration denotes another type\nmodel: %s\nfound: %s\n%s", i, want, g, src)
			}
			k.Count("types_in_declarations", 1)
		}
		k.Nontrivial(src)
	})
}

// declText checks a signature in func, method and interface declarations.
func (k *Case) declText(sg *Sg, t *Ty) string {
	local := &Sg{}
	*local = *sg.mapSyms(func(s Sym) Sym { return Sym{"own/pkg", "pkg", s.Name} })
	want := textDump.Sig(sg.mapSyms(func(s Sym) Sym { return Sym{Name: s.Name} }))
	gf := gopoet.NewGoFile("f.go", "own/pkg", "pkg")
	fn := gopoet.NewFunc("F9")
	fn.Signature = *local.poet()
	gf.AddElement(fn)
	m := gopoet.NewMethod(gopoet.NewPointerReceiver("rcv", "R9"), "M9")
	im := gopoet.NewInterfaceMethod("I9")
	for _, a := range local.Args {
		m.AddArg(a.Name, a.T.poet())
		im.AddArg(a.Name, a.T.poet())
	}
	for _, a := range local.Results {
		m.AddResult(a.Name, a.T.poet())
		im.AddResult(a.Name, a.T.poet())
	}
	m.SetVariadic(local.Variadic)
	im.SetVariadic(local.Variadic)
	gf.AddElement(m)
	gf.AddType(gopoet.NewInterfaceTypeSpec("T9", im))
	src := k.writeFile(gf)
	f, err := parser.ParseFile(token.NewFileSet(), "f.go", src, parser.SkipObjectResolution)
	if err != nil {
		k.Failf("declarations do not parse: %v\n%s", err, src)
	}
	n := 0
	check := func(e *ast.FuncType) {
		n++
		got, err := sgOfExpr(e, textResolve)
		if err != nil {
			k.Failf("declared signature does not read back: %v\n%s", err, src)
		}
		if g := textDump.Sig(got); g != want {
			k.Failf("a declared signature denotes another one\nmodel: %s\nfound: %s\n%s", want, g, src)
		}
		k.Count("signatures_in_declarations", 1)
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			check(d.Type)
		case *ast.GenDecl:
			check(d.Specs[0].(*ast.TypeSpec).Type.(*ast.InterfaceType).Methods.List[0].Type.(*ast.FuncType))
		}
	}
	if n != 3 {
		k.Failf("%d of 3 signatures declared\n%s", n, src)
	}
	return src
}

func (k *Case) writeFile(gf *gopoet.GoFile) string {
	var b strings.Builder
	if err := gopoet.WriteGoFile(&b, gf); err != nil {
		k.Failf("WriteGoFile failed: %v\n%s", err, unformatted(err))
	}
	return b.String()
}

// typeExprs finds the six uses of the type in the file of phase "decls".
func (k *Case) typeExprs(src string) []ast.Expr {
	f, err := parser.ParseFile(token.NewFileSet(), "f.go", src, parser.SkipObjectResolution)
	if err != nil {
		k.Failf("declarations do not parse: %v\n%s", err, src)
	}
	var ret []ast.Expr
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			ret = append(ret, d.Type.Params.List[0].Type, d.Type.Results.List[0].Type)
		case *ast.GenDecl:
			switch s := d.Specs[0].(type) {
			case *ast.ValueSpec:
				if s.Type != nil {
					ret = append(ret, s.Type)
				} else {
					ret = append(ret, s.Values[0].(*ast.CallExpr).Args[0])
				}
			case *ast.TypeSpec:
				if s.Name.Name == "T9" {
					ret = append(ret, s.Type)
				} else {
					ret = append(ret, s.Type.(*ast.StructType).Fields.List[0].Type)
				}
			}
		}
	}
	if len(ret) != 6 {
		k.Failf("found %d of 6 uses of the type\n%s", len(ret), src)
	}
	return ret
}
