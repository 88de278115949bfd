package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"text/template"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C16"] = &CheckDef{
		Variants: []string{"default", "386"},
		Boost:    4,
		Deep:     30,
		Run:      runC16,
		Rule:     "a case is a type built with the constructors, whose accessors are compared with what it was built from at every node, before and after hostile use; or a constructor call with arguments that must be rejected (or just accepted); distinct by the type or the call",
		Needs: map[string]int64{"nodes_checked": 20000, "hostile_uses": 3000, "rejections": 500, "accepted_neighbours": 300, "signatures_extended": 500,
			"fields_lists_modified": 200, "methods_lists_modified": 200, "embeds_lists_modified": 200, "qualified": 300, "rendered": 300, "specs_extended": 200},
	}
}

func runC16(c *Ctx) {
	c.Run("predeclared", 1, func(k *Case) { k.predeclared() })
	c.Run("accessors", c.N(30000, 120000), func(k *Case) {
		t := freeGen(k.R).Gen(k.R.Between(1, 30))
		k.accessors(t, altBuild(t, k.R), "")
		k.Nontrivial(fullDump.Ty(t))
	})
	c.Run("deep accessors", c.N(400, 1500), func(k *Case) {
		t := freeGen(k.R).Gen(k.R.Between(100, 600))
		switch k.R.IntN(4) {
		case 0:
			t = freeGen(k.R).chain(k.R.Between(50, 400))
		case 1:
			t = freeGen(k.R).extreme()
		}
		k.accessors(t, altBuild(t, k.R), "")
		k.Nontrivial(fullDump.Ty(t))
	})
	c.Run("hostile use", c.N(20000, 60000), func(k *Case) { k.hostileUse() })
	c.Run("rejections", c.N(8000, 20000), func(k *Case) { k.rejections() })
	c.Run("types of specs", c.N(6000, 20000), func(k *Case) { k.specTypes() })
}

func (k *Case) predeclared() {
	basics := []struct {
		n  string
		t  gopoet.TypeName
		kd reflect.Kind
	}{
		{"IntType", gopoet.IntType, reflect.Int}, {"Int8Type", gopoet.Int8Type, reflect.Int8}, {"Int16Type", gopoet.Int16Type, reflect.Int16},
		{"Int32Type", gopoet.Int32Type, reflect.Int32}, {"Int64Type", gopoet.Int64Type, reflect.Int64}, {"RuneType", gopoet.RuneType, reflect.Int32},
		{"UintType", gopoet.UintType, reflect.Uint}, {"Uint8Type", gopoet.Uint8Type, reflect.Uint8}, {"Uint16Type", gopoet.Uint16Type, reflect.Uint16},
		{"Uint32Type", gopoet.Uint32Type, reflect.Uint32}, {"Uint64Type", gopoet.Uint64Type, reflect.Uint64}, {"ByteType", gopoet.ByteType, reflect.Uint8},
		{"UintptrType", gopoet.UintptrType, reflect.Uintptr}, {"BoolType", gopoet.BoolType, reflect.Bool}, {"StringType", gopoet.StringType, reflect.String},
		{"Float32Type", gopoet.Float32Type, reflect.Float32}, {"Float64Type", gopoet.Float64Type, reflect.Float64},
		{"Complex64Type", gopoet.Complex64Type, reflect.Complex64}, {"Complex128Type", gopoet.Complex128Type, reflect.Complex128},
	}
	for _, b := range basics {
		k.accessors(basicTy(b.kd), b.t, b.n)
	}
	k.accessors(namedTy(Sym{Name: "error"}), gopoet.ErrorType, "ErrorType")
	k.accessors(namedTy(Sym{Path: "unsafe", Pkg: "unsafe", Name: "Pointer"}), gopoet.UnsafePointerType, "UnsafePointerType")
	k.accessors(namedTy(Sym{Path: "unsafe", Pkg: "unsafe", Name: "Pointer"}), gopoet.BasicType(reflect.UnsafePointer), "BasicType(UnsafePointer)")
}

// altBuild builds the type like poet, but picks among the constructors that
// can build the same type.
func altBuild(t *Ty, r *Rng) gopoet.TypeName {
	switch t.K {
	case gopoet.KindPtr:
		return gopoet.PointerType(altBuild(t.Elem, r))
	case gopoet.KindSlice:
		return gopoet.SliceType(altBuild(t.Elem, r))
	case gopoet.KindArray:
		return gopoet.ArrayType(altBuild(t.Elem, r), t.Len)
	case gopoet.KindMap:
		return gopoet.MapType(altBuild(t.Key, r), altBuild(t.Elem, r))
	case gopoet.KindChan:
		d := t.Dir
		if d == reflect.BothDir && r.Chance(50) {
			d = 0
		}
		return gopoet.ChannelType(altBuild(t.Elem, r), d)
	case gopoet.KindFunc:
		s := t.Sig.poet()
		switch r.IntN(3) {
		case 0:
			if s.IsVariadic {
				return gopoet.FuncTypeVariadic(s.Args, s.Results)
			}
			return gopoet.FuncType(s.Args, s.Results)
		case 1:
			n := &gopoet.Signature{}
			for _, a := range s.Args {
				n.AddArg(a.Name, a.Type)
			}
			for _, a := range s.Results {
				n.AddResult(a.Name, a.Type)
			}
			return gopoet.FuncTypeFromSig(n.SetVariadic(s.IsVariadic))
		}
	}
	return t.poet()
}

// accessors compares every accessor of every node with the model.
func (k *Case) accessors(t *Ty, n gopoet.TypeName, path string) {
	if path == "" {
		path = "type"
	}
	fail := func(what string, got, want any) {
		k.Failf("%s of %s is %v, want %v; the whole is %s", what, path, got, want, fullDump.Ty(t))
	}
	k.Count("nodes_checked", 1)
	if n.Kind() != t.K {
		fail("Kind", n.Kind(), t.K)
	}
	if n.Symbol() != t.Sym.poet() {
		fail("Symbol", n.Symbol(), t.Sym)
	}
	if (n.Elem() != nil) != (t.Elem != nil) {
		fail("Elem", n.Elem(), t.Elem)
	}
	if (n.Key() != nil) != (t.Key != nil) {
		fail("Key", n.Key(), t.Key)
	}
	if n.Len() != t.Len {
		fail("Len", n.Len(), t.Len)
	}
	dir := t.Dir
	if t.K == gopoet.KindChan {
		dir = normDir(dir)
	}
	if n.Dir() != dir {
		fail("Dir", n.Dir(), dir)
	}
	if n.BasicKind() != t.Basic {
		fail("BasicKind", n.BasicKind(), t.Basic)
	}
	if (n.Signature() != nil) != (t.Sig != nil) {
		fail("Signature", n.Signature(), t.Sig)
	}
	if len(n.Fields()) != len(t.Fields) || t.K != gopoet.KindStruct && n.Fields() != nil {
		fail("Fields", n.Fields(), t.Fields)
	}
	if len(n.Methods()) != len(t.Methods) || t.K != gopoet.KindInterface && n.Methods() != nil {
		fail("Methods", n.Methods(), t.Methods)
	}
	if len(n.Embeds()) != len(t.Embeds) || t.K != gopoet.KindInterface && n.Embeds() != nil {
		fail("Embeds", n.Embeds(), t.Embeds)
	}
	if t.Elem != nil {
		k.accessors(t.Elem, n.Elem(), path+".Elem()")
	}
	if t.Key != nil {
		k.accessors(t.Key, n.Key(), path+".Key()")
	}
	if t.Sig != nil {
		k.sigAccessors(t.Sig, n.Signature(), path+".Signature()")
	}
	for i, f := range n.Fields() {
		w := t.Fields[i]
		if f.Name != w.Name || string(f.Tag) != w.Tag {
			fail(fmt.Sprintf("field %d", i), fmt.Sprintf("%q tag %q", f.Name, f.Tag), fmt.Sprintf("%q tag %q", w.Name, w.Tag))
		}
		k.accessors(w.T, f.Type, fmt.Sprintf("%s.Fields()[%d]", path, i))
	}
	for i, m := range n.Methods() {
		w := t.Methods[i]
		if m.Name != w.Name {
			fail(fmt.Sprintf("method %d", i), m.Name, w.Name)
		}
		k.sigAccessors(w.Sig, &m.Signature, fmt.Sprintf("%s.Methods()[%d]", path, i))
	}
	for i, e := range n.Embeds() {
		if e != t.Embeds[i].poet() {
			fail(fmt.Sprintf("embed %d", i), e, t.Embeds[i])
		}
	}
}

func (k *Case) sigAccessors(s *Sg, n *gopoet.Signature, path string) {
	if n.IsVariadic != s.Variadic || len(n.Args) != len(s.Args) || len(n.Results) != len(s.Results) {
		k.Failf("%s has %d args, %d results, variadic %v, want %d, %d, %v", path, len(n.Args), len(n.Results), n.IsVariadic, len(s.Args), len(s.Results), s.Variadic)
	}
	for i, a := range n.Args {
		if a.Name != s.Args[i].Name {
			k.Failf("%s: argument %d is called %q, want %q", path, i, a.Name, s.Args[i].Name)
		}
		k.accessors(s.Args[i].T, a.Type, fmt.Sprintf("%s.Args[%d]", path, i))
	}
	for i, a := range n.Results {
		if a.Name != s.Results[i].Name {
			k.Failf("%s: result %d is called %q, want %q", path, i, a.Name, s.Results[i].Name)
		}
		k.accessors(s.Results[i].T, a.Type, fmt.Sprintf("%s.Results[%d]", path, i))
	}
}

// walkNames calls f for every type within the given one.
func walkNames(n gopoet.TypeName, f func(gopoet.TypeName)) {
	f(n)
	if e := n.Elem(); e != nil {
		walkNames(e, f)
	}
	if e := n.Key(); e != nil {
		walkNames(e, f)
	}
	sig := func(s *gopoet.Signature) {
		for _, a := range s.Args {
			walkNames(a.Type, f)
		}
		for _, a := range s.Results {
			walkNames(a.Type, f)
		}
	}
	if s := n.Signature(); s != nil {
		sig(s)
	}
	for _, x := range n.Fields() {
		walkNames(x.Type, f)
	}
	for _, m := range n.Methods() {
		sig(&m.Signature)
	}
}

var useTmpl = template.Must(template.New("t").Parse("var _ {{.T}}\n"))

// hostileUse builds a type and uses it in all kinds of ways, after each of
// which it must be as before.
func (k *Case) hostileUse() {
	r := k.R
	g := freeGen(r)
	g.Sym = func(bool) Sym {
		return Sym{Path: OneOf(r, "p/a", "q/a", "p/self", "x.y/z"), Pkg: OneOf(r, "a", "b"), Name: OneOf(r, "T", "U")}
	}
	model := g.Gen(r.Between(3, 25))
	if r.Chance(30) {
		model = &Ty{K: gopoet.KindFunc, Len: -1, Sig: g.sig()}
	} else if r.Chance(30) {
		model = OneOf(r, g.strct, g.iface)()
	} else if r.Chance(10) {
		model = g.wide(r.Size(r.Between(5, 40), 300))
	}
	// the signature it is built from stays in reach
	var sig *gopoet.Signature
	var typ gopoet.TypeName
	if model.K == gopoet.KindFunc {
		sig = model.Sig.poet()
		if r.Chance(70) {
			// spare capacity, as from adding arguments one by one
			sig.Args = append(make([]gopoet.ArgType, 0, len(sig.Args)+r.IntN(4)), sig.Args...)
			sig.Results = append(make([]gopoet.ArgType, 0, len(sig.Results)+r.IntN(4)), sig.Results...)
		}
		typ = gopoet.FuncTypeFromSig(sig)
	} else {
		typ = altBuild(model, r)
	}
	outer := OneOf(r, typ, gopoet.PointerType(typ), gopoet.StructType(gopoet.FieldType{Name: "f", Type: typ}))
	outerModel := fullDump.Ty(tyOf(outer))
	text := typ.String()
	imports := gopoet.NewImportsFor("p/self")
	hist := ""
	for n := r.Between(1, 6); n > 0; n-- {
		step := ""
		switch r.IntN(9) {
		case 0:
			step = "modify the field lists"
			walkNames(typ, func(n gopoet.TypeName) {
				fs := n.Fields()
				for i := range fs {
					fs[i].Name = "clobbered"
					fs[i].Tag = "clobbered"
					fs[i].Type = gopoet.BoolType
					k.Count("fields_lists_modified", 1)
				}
				_ = append(fs, gopoet.FieldType{Name: "more", Type: gopoet.BoolType})
			})
		case 1:
			step = "modify the method lists"
			walkNames(typ, func(n gopoet.TypeName) {
				ms := n.Methods()
				for i := range ms {
					ms[i].Name = "clobbered"
					ms[i].Signature.AddArg("x", gopoet.BoolType).AddResult("", gopoet.BoolType)
					ms[i].Signature.IsVariadic = !ms[i].Signature.IsVariadic
					k.Count("methods_lists_modified", 1)
				}
				for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
					ms[i], ms[j] = ms[j], ms[i]
				}
				_ = append(ms, gopoet.MethodType{Name: "more"})
			})
		case 2:
			step = "modify the embed lists"
			walkNames(typ, func(n gopoet.TypeName) {
				es := n.Embeds()
				for i := range es {
					es[i] = gopoet.Symbol{Name: "clobbered"}
					k.Count("embeds_lists_modified", 1)
				}
				_ = append(es, gopoet.Symbol{Name: "more"})
			})
		case 3:
			if sig == nil {
				continue
			}
			step = "extend the signature"
			sig.AddArg("more", gopoet.SliceType(gopoet.BoolType))
			if r.Chance(50) {
				sig.AddResult("more", gopoet.BoolType)
			}
			if r.Chance(50) {
				sig.SetVariadic(!sig.IsVariadic)
			}
			k.Count("signatures_extended", 1)
			// another type from the longer signature
			if len(sig.Args) > 0 {
				_ = gopoet.FuncTypeFromSig(sig)
			}
		case 4:
			step = "qualify"
			q := imports.EnsureTypeImported(outer)
			_ = q.String()
			imports.QualifyType(outer)
			other := gopoet.NewImportsFor("other")
			other.RegisterImport("clash/a", "a")
			other.RegisterImport("clash/b", "b")
			other.EnsureTypeImported(outer)
			// the result is a type of its own
			walkNames(q, func(n gopoet.TypeName) {
				fs := n.Fields()
				for i := range fs {
					fs[i].Name = "clobbered"
				}
				if s := n.Signature(); s != nil && typ.Signature() != s {
					_ = s
				}
			})
			k.Count("qualified", 1)
		case 5:
			step = "qualify as template data"
			imports.QualifyTemplateData(map[string]interface{}{"a": outer, "b": []gopoet.TypeName{typ, outer}, "c": struct{ T gopoet.TypeName }{typ}})
			k.Count("qualified", 1)
		case 6:
			step = "render as type, field, argument, code and data"
			f := gopoet.NewGoFile("f.go", "p/self", "self")
			f.RegisterImport("clash/b", "b")
			f.AddType(gopoet.NewTypeSpec("X", outer)).AddType(gopoet.NewTypeAlias("Y", typ)).AddVar(gopoet.NewVar("v").SetType(typ))
			f.AddType(gopoet.NewStructTypeSpec("Z", gopoet.NewField("f", typ).SetTag("t"), gopoet.NewField("g", outer)))
			f.AddElement(gopoet.NewFunc("fn").AddArg("a", typ).AddResult("", outer).Printlnf("var _ %s", typ).RenderCode(useTmpl, map[string]gopoet.TypeName{"T": typ}))
			f.AddType(gopoet.NewInterfaceTypeSpec("I", gopoet.NewInterfaceMethod("M").AddArg("", typ).AddResult("", outer)))
			var b bytes.Buffer
			_ = gopoet.WriteGoFile(&b, f) // free types need not be valid Go
			k.Count("rendered", 1)
		case 7:
			step = "build specs from it and change them"
			f := gopoet.NewGoFile("f.go", "p/self", "self")
			ts := gopoet.NewTypeSpec("X", typ)
			ts2 := gopoet.NewTypeSpec("Y", ts.SetComment("comment").Underlying())
			_ = ts2
			f.AddType(ts)
			var b bytes.Buffer
			_ = gopoet.WriteGoFile(&b, f)
			k.Count("rendered", 1)
		case 8:
			step = "use its signature in a func"
			if s := typ.Signature(); s != nil {
				fn := gopoet.NewFunc("f")
				fn.Signature = *s
				fn.AddArg("more", gopoet.BoolType).AddResult("more", gopoet.BoolType).SetVariadic(false)
				im := gopoet.NewInterfaceMethod("M")
				im.Signature = *s
				im.AddArg("more2", gopoet.StringType)
				k.Count("signatures_extended", 1)
			}
		}
		hist += step + "; "
		k.accessors(model, typ, "type after "+hist)
		if got := fullDump.Ty(tyOf(outer)); got != outerModel {
			k.Failf("after %s: %s", hist, firstDiff(outerModel, got))
		}
		if got := typ.String(); got != text {
			k.Failf("after %s: text is %s, was %s", hist, got, text)
		}
		k.Count("hostile_uses", 1)
	}
	k.Nontrivial(hist + fullDump.Ty(model))
	k.Sample("%s: %s", text, hist)
}

// specTypes checks the function types of elements: once taken, they are types
// like others.
func (k *Case) specTypes() {
	r := k.R
	g := freeGen(r)
	sg := g.sig()
	f := gopoet.NewGoFile("f.go", "p/self", "self")
	var typ gopoet.TypeName
	var extend func()
	what := ""
	switch r.IntN(5) {
	case 0:
		what = "func"
		fn := gopoet.NewFunc("f")
		fn.Signature = *sg.poet()
		if r.Chance(50) {
			f.AddElement(fn)
		}
		typ = fn.ToTypeName()
		extend = func() {
			fn.AddArg("more", gopoet.BoolType).AddResult("more", gopoet.BoolType).SetVariadic(false)
			var b bytes.Buffer
			_ = gopoet.WriteGoFile(&b, f)
		}
	case 1:
		what = "method"
		fn := gopoet.NewMethod(gopoet.NewPointerReceiver("r", "X"), "f")
		fn.Signature = *sg.poet()
		f.AddElement(fn)
		typ = fn.ToTypeName()
		extend = func() {
			fn.AddArg("more", gopoet.BoolType).AddResult("more", gopoet.BoolType).SetVariadic(false)
			fn.Receiver.IsPointer = false
			var b bytes.Buffer
			_ = gopoet.WriteGoFile(&b, f)
		}
	case 2:
		what = "interface method"
		im := gopoet.NewInterfaceMethod("M")
		im.Signature = *sg.poet()
		f.AddType(gopoet.NewInterfaceTypeSpec("I", im))
		typ = im.ToTypeName()
		extend = func() {
			im.AddArg("more", gopoet.BoolType).AddResult("more", gopoet.BoolType).SetVariadic(false)
			var b bytes.Buffer
			_ = gopoet.WriteGoFile(&b, f)
		}
	case 3:
		what = "underlying type of an interface"
		im := gopoet.NewInterfaceMethod("M")
		im.Signature = *sg.poet()
		ts := gopoet.NewInterfaceTypeSpec("I", gopoet.NewInterfaceEmbed(gopoet.NewSymbol("p/a", "E")), im)
		typ = ts.Underlying()
		extend = func() {
			im.AddArg("more", gopoet.BoolType).AddResult("more", gopoet.BoolType).SetVariadic(false)
		}
	case 4:
		what = "underlying type of a struct"
		fs := gopoet.NewField("a", g.Gen(5).poet())
		ts := gopoet.NewStructTypeSpec("S", fs)
		typ = ts.Underlying()
		extend = func() {
			fs.SetTag("other").SetComment("c")
			gopoet.NewStructTypeSpec("S2", fs)
			f.AddType(ts)
			var b bytes.Buffer
			_ = gopoet.WriteGoFile(&b, f)
		}
	}
	model := tyOf(typ)
	before, text := fullDump.Ty(model), typ.String()
	extend()
	if after := fullDump.Ty(tyOf(typ)); after != before {
		k.Failf("type taken from a %s changed when that was extended or rendered: %s", what, firstDiff(before, after))
	}
	if typ.String() != text {
		k.Failf("text of the type taken from a %s changed: %s", what, firstDiff(text, typ.String()))
	}
	k.accessors(model, typ, "type of "+what)
	k.Count("specs_extended", 1)
	k.Nontrivial(what + before)
}

// rejections tries calls that must panic, and close ones that must not.
func (k *Case) rejections() {
	r := k.R
	g := freeGen(r)
	t := g.Gen(r.Between(1, 6)).poet()
	n := func() int64 { return OneOf(r, int64(0), 1, 5, math.MaxInt64, r.Int64()) }
	dirs := OneOf(r, reflect.ChanDir(0), reflect.RecvDir, reflect.SendDir, reflect.BothDir)
	badDir := OneOf(r, reflect.ChanDir(4), -1, 7, 5, 6, 8, math.MinInt, math.MaxInt, reflect.ChanDir(r.Int64())|4, -reflect.ChanDir(r.Int64N(1<<40))-1)
	kinds := map[reflect.Kind]bool{reflect.UnsafePointer: true}
	for _, b := range basicKinds {
		kinds[b] = true
	}
	kind := reflect.Kind(r.IntN(40))
	if r.Chance(10) {
		kind = reflect.Kind(r.Uint64())
	}
	args := func(good bool) []gopoet.ArgType {
		var as []gopoet.ArgType
		for i := r.IntN(4); i > 0; i-- {
			as = append(as, gopoet.ArgType{Name: g.ident(), Type: g.Gen(3).poet()})
		}
		if !good {
			as = append(as, gopoet.ArgType{Name: "bad"})
			for i := r.IntN(3); i > 0; i-- {
				as = append(as, gopoet.ArgType{Type: gopoet.IntType})
			}
			r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		}
		return as
	}
	variadic := func(good bool) []gopoet.ArgType {
		as := args(true)
		if good {
			return append(as, gopoet.ArgType{Type: gopoet.SliceType(t)})
		}
		if len(as) == 0 {
			return nil
		}
		bad := g.Gen(r.Between(1, 5))
		for bad.K == gopoet.KindSlice {
			bad = g.Gen(r.Between(1, 5))
		}
		// a slice in another position does not help
		return append(as, gopoet.ArgType{Type: gopoet.SliceType(t)}, gopoet.ArgType{Type: OneOf(r, bad.poet(), gopoet.PointerType(gopoet.SliceType(t)), gopoet.ArrayType(t, 3), gopoet.StringType, gopoet.NamedType(gopoet.Symbol{Name: "Slice"}))})
	}
	funcs := func(as, rs []gopoet.ArgType, v bool) func() gopoet.TypeName {
		if r.Chance(50) {
			return func() gopoet.TypeName {
				return gopoet.FuncTypeFromSig(&gopoet.Signature{Args: as, Results: rs, IsVariadic: v})
			}
		}
		if v {
			return func() gopoet.TypeName { return gopoet.FuncTypeVariadic(as, rs) }
		}
		return func() gopoet.TypeName { return gopoet.FuncType(as, rs) }
	}
	type call struct {
		name string
		bad  bool
		f    func() gopoet.TypeName
	}
	neg := -1 - r.Int64N(math.MaxInt64)
	if r.Chance(50) {
		neg = -1
	}
	va := r.Chance(30)
	goodArgs := args(true)
	if va {
		goodArgs = variadic(true)
	}
	calls := []call{
		{"PointerType(nil)", true, func() gopoet.TypeName { return gopoet.PointerType(nil) }},
		{"PointerType", false, func() gopoet.TypeName { return gopoet.PointerType(t) }},
		{"SliceType(nil)", true, func() gopoet.TypeName { return gopoet.SliceType(nil) }},
		{"SliceType", false, func() gopoet.TypeName { return gopoet.SliceType(t) }},
		{"ArrayType(nil)", true, func() gopoet.TypeName { return gopoet.ArrayType(nil, n()) }},
		{fmt.Sprintf("ArrayType(%d)", neg), true, func() gopoet.TypeName { return gopoet.ArrayType(t, neg) }},
		{"ArrayType", false, func() gopoet.TypeName { return gopoet.ArrayType(t, n()) }},
		{"MapType(nil key)", true, func() gopoet.TypeName { return gopoet.MapType(nil, t) }},
		{"MapType(nil elem)", true, func() gopoet.TypeName { return gopoet.MapType(t, nil) }},
		{"MapType(nil, nil)", true, func() gopoet.TypeName { return gopoet.MapType(nil, nil) }},
		{"MapType", false, func() gopoet.TypeName { return gopoet.MapType(t, t) }},
		{"ChannelType(nil)", true, func() gopoet.TypeName { return gopoet.ChannelType(nil, dirs) }},
		{fmt.Sprintf("ChannelType(dir %d)", badDir), true, func() gopoet.TypeName { return gopoet.ChannelType(t, badDir) }},
		{fmt.Sprintf("ChannelType(dir %d)", dirs), false, func() gopoet.TypeName { return gopoet.ChannelType(t, dirs) }},
		{fmt.Sprintf("BasicType(%d)", kind), !kinds[kind], func() gopoet.TypeName { return gopoet.BasicType(kind) }},
		{"func type with nil argument", true, funcs(args(false), args(true), false)},
		{"func type with nil result", true, funcs(args(true), args(false), false)},
		{"variadic func type with nil result", true, funcs(variadic(true), args(false), true)},
		{"variadic func type without slice", true, funcs(variadic(false), args(true), true)},
		{"variadic func type without arguments", true, funcs(nil, args(true), true)},
		{"func type", false, funcs(goodArgs, args(true), va)},
		{"variadic func type with slice", false, funcs(variadic(true), args(true), true)},
	}
	for _, c := range calls {
		var res gopoet.TypeName
		bad, val := panics(func() { res = c.f() })
		if c.bad {
			if !bad {
				k.Failf("%s is accepted: %v (%v)", c.name, res, res.Kind())
			}
			k.Count("rejections", 1)
		} else {
			if bad {
				k.Failf("%s is rejected: %v", c.name, val)
			}
			k.Count("accepted_neighbours", 1)
		}
		k.Nontrivial(c.name)
	}
	k.Nontrivial(fmt.Sprint(t, badDir, kind))
}
