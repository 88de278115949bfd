package main

import (
	"cmp"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/jhump/gopoet"
)

// Ty is the harness's own model of a Go type. It can be turned into a
// gopoet.TypeName, into source text and into a go/types type, and be read back
// from gopoet (through accessors), from source (through go/parser), from
// go/types and from reflect. Comparing dumps of different origin is what most
// oracles do.
type Ty struct {
	K       gopoet.TypeKind
	Basic   reflect.Kind
	Sym     Sym
	Elem    *Ty
	Key     *Ty
	Len     int64
	Dir     reflect.ChanDir
	Sig     *Sg
	Fields  []Fld
	Embeds  []Sym
	Methods []Mth
	// Mk, if set, makes the TypeName in some other way.
	Mk func() gopoet.TypeName
	// obj, if set, makes all uses of this type the same TypeName.
	obj *tyObj
}

type tyObj struct {
	once sync.Once
	tn   gopoet.TypeName
}

// Sym is a reference to an element of a package.
type Sym struct {
	Path, Pkg, Name string
}

type Sg struct {
	Args, Results []Arg
	Variadic      bool
}

type Arg struct {
	Name string
	T    *Ty
}

type Fld struct {
	Name string
	T    *Ty
	Tag  string
}

type Mth struct {
	Name string
	Sig  *Sg
}

func (s Sym) poet() gopoet.Symbol {
	return gopoet.Symbol{Package: gopoet.Package{ImportPath: s.Path, Name: s.Pkg}, Name: s.Name}
}

func symOf(s gopoet.Symbol) Sym {
	return Sym{Path: s.Package.ImportPath, Pkg: s.Package.Name, Name: s.Name}
}

func (s *Sg) poet() *gopoet.Signature {
	ret := &gopoet.Signature{IsVariadic: s.Variadic}
	for _, a := range s.Args {
		ret.Args = append(ret.Args, gopoet.ArgType{Name: a.Name, Type: a.T.poet()})
	}
	for _, a := range s.Results {
		ret.Results = append(ret.Results, gopoet.ArgType{Name: a.Name, Type: a.T.poet()})
	}
	return ret
}

// poetNoMk builds the type with the constructors only.
func (t *Ty) poetNoMk() gopoet.TypeName {
	return t.mapSyms(func(s Sym) Sym { return s }).poet()
}

// poet builds the type with gopoet's constructors.
func (t *Ty) poet() gopoet.TypeName {
	if t.obj != nil {
		t.obj.once.Do(func() { t.obj.tn = t.poet1() })
		return t.obj.tn
	}
	return t.poet1()
}

func (t *Ty) poet1() gopoet.TypeName {
	if t.Mk != nil {
		return t.Mk()
	}
	switch t.K {
	case gopoet.KindBasic:
		return gopoet.BasicType(t.Basic)
	case gopoet.KindNamed:
		if t.Sym == (Sym{"unsafe", "unsafe", "Pointer"}) {
			return gopoet.UnsafePointerType
		}
		return gopoet.NamedType(t.Sym.poet())
	case gopoet.KindPtr:
		return gopoet.PointerType(t.Elem.poet())
	case gopoet.KindSlice:
		return gopoet.SliceType(t.Elem.poet())
	case gopoet.KindArray:
		return gopoet.ArrayType(t.Elem.poet(), t.Len)
	case gopoet.KindMap:
		return gopoet.MapType(t.Key.poet(), t.Elem.poet())
	case gopoet.KindChan:
		return gopoet.ChannelType(t.Elem.poet(), t.Dir)
	case gopoet.KindFunc:
		return gopoet.FuncTypeFromSig(t.Sig.poet())
	case gopoet.KindStruct:
		var fs []gopoet.FieldType
		for _, f := range t.Fields {
			fs = append(fs, gopoet.FieldType{Name: f.Name, Type: f.T.poet(), Tag: reflect.StructTag(f.Tag)})
		}
		return gopoet.StructType(fs...)
	case gopoet.KindInterface:
		var es []gopoet.Symbol
		for _, e := range t.Embeds {
			es = append(es, e.poet())
		}
		var ms []gopoet.MethodType
		for _, m := range t.Methods {
			ms = append(ms, gopoet.MethodType{Name: m.Name, Signature: *m.Sig.poet()})
		}
		return gopoet.InterfaceType(es, ms...)
	}
	panic("bad kind")
}

func sgOf(s *gopoet.Signature) *Sg {
	ret := &Sg{Variadic: s.IsVariadic}
	for _, a := range s.Args {
		ret.Args = append(ret.Args, Arg{a.Name, tyOf(a.Type)})
	}
	for _, a := range s.Results {
		ret.Results = append(ret.Results, Arg{a.Name, tyOf(a.Type)})
	}
	return ret
}

// tyOf reads a gopoet type through its accessors.
func tyOf(n gopoet.TypeName) *Ty {
	t := &Ty{K: n.Kind(), Len: -1}
	switch n.Kind() {
	case gopoet.KindBasic:
		t.Basic = n.BasicKind()
	case gopoet.KindNamed:
		t.Sym = symOf(n.Symbol())
	case gopoet.KindPtr, gopoet.KindSlice:
		t.Elem = tyOf(n.Elem())
	case gopoet.KindArray:
		t.Elem, t.Len = tyOf(n.Elem()), n.Len()
	case gopoet.KindMap:
		t.Key, t.Elem = tyOf(n.Key()), tyOf(n.Elem())
	case gopoet.KindChan:
		t.Elem, t.Dir = tyOf(n.Elem()), n.Dir()
	case gopoet.KindFunc:
		t.Sig = sgOf(n.Signature())
	case gopoet.KindStruct:
		for _, f := range n.Fields() {
			t.Fields = append(t.Fields, Fld{f.Name, tyOf(f.Type), string(f.Tag)})
		}
	case gopoet.KindInterface:
		for _, e := range n.Embeds() {
			t.Embeds = append(t.Embeds, symOf(e))
		}
		for _, m := range n.Methods() {
			t.Methods = append(t.Methods, Mth{m.Name, sgOf(&m.Signature)})
		}
	default:
		panic(failPanic{fmt.Sprintf("type reports kind %d", n.Kind())})
	}
	return t
}

// SymFn turns a symbol into its dumped or rendered form.
type SymFn func(Sym) string

func symFull(s Sym) string { return fmt.Sprintf("%q.%q.%q", s.Path, s.Pkg, s.Name) }

// symText is how a symbol must look in source text.
func symText(s Sym) string {
	if s.Pkg != "" {
		return s.Pkg + "." + s.Name
	}
	return s.Name
}

// symID identifies the element that is meant, whatever its package is called.
func symID(s Sym) string {
	if s.Path == "" {
		return s.Name
	}
	return strconv.Quote(s.Path) + "." + s.Name
}

// Dumper writes a type in an unambiguous notation.
type Dumper struct {
	Sym SymFn
	// AsRendered dumps parameter names as they must appear in source text:
	// unnamed next to named ones are "_".
	AsRendered bool
	// NoNames leaves out parameter names, which are not part of the type.
	NoNames bool
}

func (d Dumper) args(as []Arg, variadic bool, b *strings.Builder) {
	named := false
	for _, a := range as {
		named = named || a.Name != ""
	}
	for i, a := range as {
		if i > 0 {
			b.WriteString(", ")
		}
		n := a.Name
		if d.AsRendered && named && n == "" {
			n = "_"
		}
		if !d.NoNames {
			b.WriteString(n + ":")
		}
		if variadic && i == len(as)-1 {
			b.WriteString("...")
		}
		d.ty(a.T, b)
	}
}

func (d Dumper) sig(s *Sg, b *strings.Builder) {
	b.WriteString("(")
	d.args(s.Args, s.Variadic, b)
	b.WriteString(")->(")
	d.args(s.Results, false, b)
	b.WriteString(")")
}

func (d Dumper) Sig(s *Sg) string {
	var b strings.Builder
	d.sig(s, &b)
	return b.String()
}

func (d Dumper) Ty(t *Ty) string {
	var b strings.Builder
	d.ty(t, &b)
	return b.String()
}

func (d Dumper) ty(t *Ty, b *strings.Builder) {
	if t == nil {
		b.WriteString("NIL")
		return
	}
	switch t.K {
	case gopoet.KindBasic:
		b.WriteString("basic:" + t.Basic.String())
	case gopoet.KindNamed:
		b.WriteString("named:" + d.Sym(t.Sym))
	case gopoet.KindPtr:
		b.WriteString("ptr(")
		d.ty(t.Elem, b)
		b.WriteString(")")
	case gopoet.KindSlice:
		b.WriteString("slice(")
		d.ty(t.Elem, b)
		b.WriteString(")")
	case gopoet.KindArray:
		fmt.Fprintf(b, "array[%d](", t.Len)
		d.ty(t.Elem, b)
		b.WriteString(")")
	case gopoet.KindMap:
		b.WriteString("map(")
		d.ty(t.Key, b)
		b.WriteString(" => ")
		d.ty(t.Elem, b)
		b.WriteString(")")
	case gopoet.KindChan:
		fmt.Fprintf(b, "chan[%d](", normDir(t.Dir))
		d.ty(t.Elem, b)
		b.WriteString(")")
	case gopoet.KindFunc:
		b.WriteString("func")
		d.sig(t.Sig, b)
	case gopoet.KindStruct:
		b.WriteString("struct{")
		for i, f := range t.Fields {
			if i > 0 {
				b.WriteString("; ")
			}
			b.WriteString(f.Name + ":")
			d.ty(f.T, b)
			if f.Tag != "" {
				fmt.Fprintf(b, " tag=%q", f.Tag)
			}
		}
		b.WriteString("}")
	case gopoet.KindInterface:
		b.WriteString("interface{")
		for _, e := range t.Embeds {
			b.WriteString("embed:" + d.Sym(e) + "; ")
		}
		for _, m := range t.Methods {
			b.WriteString("method:" + m.Name)
			d.sig(m.Sig, b)
			b.WriteString("; ")
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "BAD KIND %d", t.K)
	}
}

func normDir(d reflect.ChanDir) reflect.ChanDir {
	if d == 0 {
		return reflect.BothDir
	}
	return d
}

// walkSyms calls f for every symbol in the type.
func (t *Ty) walkSyms(f func(Sym)) {
	if t == nil {
		return
	}
	if t.K == gopoet.KindNamed {
		f(t.Sym)
	}
	t.Elem.walkSyms(f)
	t.Key.walkSyms(f)
	if t.Sig != nil {
		t.Sig.walkSyms(f)
	}
	for _, x := range t.Fields {
		x.T.walkSyms(f)
	}
	for _, x := range t.Embeds {
		f(x)
	}
	for _, x := range t.Methods {
		x.Sig.walkSyms(f)
	}
}

func (s *Sg) walkSyms(f func(Sym)) {
	for _, a := range s.Args {
		a.T.walkSyms(f)
	}
	for _, a := range s.Results {
		a.T.walkSyms(f)
	}
}

// mapSyms returns a copy with every symbol replaced.
func (t *Ty) mapSyms(f func(Sym) Sym) *Ty {
	if t == nil {
		return nil
	}
	n := *t
	n.Mk, n.obj = nil, nil
	if t.K == gopoet.KindNamed {
		n.Sym = f(t.Sym)
	}
	n.Elem, n.Key = t.Elem.mapSyms(f), t.Key.mapSyms(f)
	if t.Sig != nil {
		n.Sig = t.Sig.mapSyms(f)
	}
	n.Fields, n.Embeds, n.Methods = nil, nil, nil
	for _, x := range t.Fields {
		n.Fields = append(n.Fields, Fld{x.Name, x.T.mapSyms(f), x.Tag})
	}
	for _, x := range t.Embeds {
		n.Embeds = append(n.Embeds, f(x))
	}
	for _, x := range t.Methods {
		n.Methods = append(n.Methods, Mth{x.Name, x.Sig.mapSyms(f)})
	}
	return &n
}

func (s *Sg) mapSyms(f func(Sym) Sym) *Sg {
	n := &Sg{Variadic: s.Variadic}
	for _, a := range s.Args {
		n.Args = append(n.Args, Arg{a.Name, a.T.mapSyms(f)})
	}
	for _, a := range s.Results {
		n.Results = append(n.Results, Arg{a.Name, a.T.mapSyms(f)})
	}
	return n
}

// ---------------------------------------------------------------- source text

// src renders the type as Go source, in the harness's own way (with more
// parentheses and newlines than gopoet uses).
func (t *Ty) src(sym SymFn) string {
	switch t.K {
	case gopoet.KindBasic:
		return t.Basic.String()
	case gopoet.KindNamed:
		return sym(t.Sym)
	case gopoet.KindPtr:
		return "*" + t.Elem.src(sym)
	case gopoet.KindSlice:
		return "[]" + t.Elem.src(sym)
	case gopoet.KindArray:
		return fmt.Sprintf("[%d]%s", t.Len, t.Elem.src(sym))
	case gopoet.KindMap:
		return "map[" + t.Key.src(sym) + "]" + t.Elem.src(sym)
	case gopoet.KindChan:
		e := t.Elem.src(sym)
		if t.Elem.K == gopoet.KindChan || t.Elem.K == gopoet.KindFunc {
			e = "(" + e + ")"
		}
		switch normDir(t.Dir) {
		case reflect.SendDir:
			return "chan<- " + e
		case reflect.RecvDir:
			return "<-chan " + e
		}
		return "chan " + e
	case gopoet.KindFunc:
		return "func" + t.Sig.src(sym)
	case gopoet.KindStruct:
		var b strings.Builder
		b.WriteString("struct {\n")
		for _, f := range t.Fields {
			b.WriteString(f.Name + " " + f.T.src(sym))
			if f.Tag != "" {
				b.WriteString(" " + strconv.Quote(f.Tag))
			}
			b.WriteString("\n")
		}
		b.WriteString("}")
		return b.String()
	case gopoet.KindInterface:
		var b strings.Builder
		b.WriteString("interface {\n")
		for _, e := range t.Embeds {
			b.WriteString(sym(e) + "\n")
		}
		for _, m := range t.Methods {
			b.WriteString(m.Name + m.Sig.src(sym) + "\n")
		}
		b.WriteString("}")
		return b.String()
	}
	panic("bad kind")
}

func argsSrc(as []Arg, variadic bool, sym SymFn) string {
	named := false
	for _, a := range as {
		named = named || a.Name != ""
	}
	var parts []string
	for i, a := range as {
		n := a.Name
		if named && n == "" {
			n = "_"
		}
		if n != "" {
			n += " "
		}
		if variadic && i == len(as)-1 {
			parts = append(parts, n+"..."+a.T.Elem.src(sym))
		} else {
			parts = append(parts, n+a.T.src(sym))
		}
	}
	return strings.Join(parts, ", ")
}

func (s *Sg) src(sym SymFn) string {
	ret := "(" + argsSrc(s.Args, s.Variadic, sym) + ")"
	if len(s.Results) > 0 {
		ret += " (" + argsSrc(s.Results, false, sym) + ")"
	}
	return ret
}

var basicByName = map[string]reflect.Kind{}

var basicKinds = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
	reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
	reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String}

func init() {
	for _, k := range basicKinds {
		basicByName[k.String()] = k
	}
	basicByName["byte"] = reflect.Uint8
	basicByName["rune"] = reflect.Int32
}

// parseTy parses a type expression. resolve maps a package qualifier (or "")
// and a name to a symbol.
func parseTy(text string, resolve func(pkg, name string) Sym) (*Ty, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "t.go", "package p\nvar x "+text+"\n", parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	if len(f.Decls) != 1 {
		return nil, fmt.Errorf("text is not a single type: %d declarations", len(f.Decls))
	}
	gd, ok := f.Decls[0].(*ast.GenDecl)
	if !ok || len(gd.Specs) != 1 {
		return nil, fmt.Errorf("text is not a single type")
	}
	vs := gd.Specs[0].(*ast.ValueSpec)
	if vs.Type == nil || len(vs.Values) != 0 || len(vs.Names) != 1 {
		return nil, fmt.Errorf("text is not a plain type")
	}
	return tyOfExpr(vs.Type, resolve)
}

func textResolve(pkg, name string) Sym { return Sym{Pkg: pkg, Name: name} }

func symOfExpr(e ast.Expr, resolve func(pkg, name string) Sym) (Sym, error) {
	switch e := e.(type) {
	case *ast.Ident:
		return resolve("", e.Name), nil
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			return resolve(x.Name, e.Sel.Name), nil
		}
	case *ast.ParenExpr:
		return symOfExpr(e.X, resolve)
	}
	return Sym{}, fmt.Errorf("not a name: %T", e)
}

func tyOfExpr(e ast.Expr, resolve func(pkg, name string) Sym) (*Ty, error) {
	t := &Ty{Len: -1}
	var err error
	switch e := e.(type) {
	case *ast.ParenExpr:
		return tyOfExpr(e.X, resolve)
	case *ast.Ident:
		if k, ok := basicByName[e.Name]; ok {
			return &Ty{K: gopoet.KindBasic, Basic: k, Len: -1}, nil
		}
		t.K, t.Sym = gopoet.KindNamed, resolve("", e.Name)
	case *ast.SelectorExpr:
		t.K = gopoet.KindNamed
		t.Sym, err = symOfExpr(e, resolve)
	case *ast.StarExpr:
		t.K = gopoet.KindPtr
		t.Elem, err = tyOfExpr(e.X, resolve)
	case *ast.ArrayType:
		if e.Len == nil {
			t.K = gopoet.KindSlice
		} else {
			t.K = gopoet.KindArray
			lit, ok := e.Len.(*ast.BasicLit)
			if !ok {
				return nil, fmt.Errorf("array length is %T", e.Len)
			}
			if t.Len, err = strconv.ParseInt(lit.Value, 10, 64); err != nil {
				return nil, err
			}
		}
		t.Elem, err = tyOfExpr(e.Elt, resolve)
	case *ast.MapType:
		t.K = gopoet.KindMap
		if t.Key, err = tyOfExpr(e.Key, resolve); err == nil {
			t.Elem, err = tyOfExpr(e.Value, resolve)
		}
	case *ast.ChanType:
		t.K = gopoet.KindChan
		switch e.Dir {
		case ast.SEND:
			t.Dir = reflect.SendDir
		case ast.RECV:
			t.Dir = reflect.RecvDir
		default:
			t.Dir = reflect.BothDir
		}
		t.Elem, err = tyOfExpr(e.Value, resolve)
	case *ast.FuncType:
		t.K = gopoet.KindFunc
		t.Sig, err = sgOfExpr(e, resolve)
	case *ast.StructType:
		t.K = gopoet.KindStruct
		for _, f := range e.Fields.List {
			ft, err := tyOfExpr(f.Type, resolve)
			if err != nil {
				return nil, err
			}
			tag := ""
			if f.Tag != nil {
				if tag, err = strconv.Unquote(f.Tag.Value); err != nil {
					return nil, err
				}
			}
			if len(f.Names) == 0 {
				t.Fields = append(t.Fields, Fld{"", ft, tag})
			}
			for _, n := range f.Names {
				t.Fields = append(t.Fields, Fld{n.Name, ft, tag})
			}
		}
	case *ast.InterfaceType:
		t.K = gopoet.KindInterface
		for _, m := range e.Methods.List {
			if len(m.Names) == 0 {
				s, err := symOfExpr(m.Type, resolve)
				if err != nil {
					return nil, err
				}
				if len(t.Methods) > 0 {
					return nil, fmt.Errorf("embedded interface %v after methods", s)
				}
				t.Embeds = append(t.Embeds, s)
				continue
			}
			ft, ok := m.Type.(*ast.FuncType)
			if !ok {
				return nil, fmt.Errorf("interface method is %T", m.Type)
			}
			sg, err := sgOfExpr(ft, resolve)
			if err != nil {
				return nil, err
			}
			t.Methods = append(t.Methods, Mth{m.Names[0].Name, sg})
		}
	default:
		return nil, fmt.Errorf("not a type: %T", e)
	}
	if err != nil {
		return nil, err
	}
	return t, nil
}

func sgOfExpr(e *ast.FuncType, resolve func(pkg, name string) Sym) (*Sg, error) {
	s := &Sg{}
	if e.TypeParams != nil {
		return nil, fmt.Errorf("type parameters")
	}
	list := func(fl *ast.FieldList, results bool) ([]Arg, error) {
		var ret []Arg
		if fl == nil {
			return nil, nil
		}
		for i, f := range fl.List {
			te := f.Type
			variadic := false
			if el, ok := te.(*ast.Ellipsis); ok {
				if results || i != len(fl.List)-1 || len(f.Names) > 1 {
					return nil, fmt.Errorf("misplaced ...")
				}
				variadic = true
				te = el.Elt
			}
			t, err := tyOfExpr(te, resolve)
			if err != nil {
				return nil, err
			}
			if variadic {
				t = &Ty{K: gopoet.KindSlice, Elem: t, Len: -1}
				s.Variadic = true
			}
			if len(f.Names) == 0 {
				ret = append(ret, Arg{"", t})
			}
			for _, n := range f.Names {
				ret = append(ret, Arg{n.Name, t})
			}
		}
		return ret, nil
	}
	var err error
	if s.Args, err = list(e.Params, false); err != nil {
		return nil, err
	}
	s.Results, err = list(e.Results, true)
	return s, err
}

// ------------------------------------------------------------ go/types, reflect

func goSym(o *types.TypeName) Sym {
	s := Sym{Name: o.Name()}
	if o.Pkg() != nil {
		s.Path, s.Pkg = o.Pkg().Path(), o.Pkg().Name()
	}
	return s
}

// tyOfGo reads a go/types type. Aliases are references to the alias's name.
func tyOfGo(t types.Type) *Ty {
	r := &Ty{Len: -1}
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			r.K, r.Sym = gopoet.KindNamed, Sym{"unsafe", "unsafe", "Pointer"}
			return r
		}
		r.K, r.Basic = gopoet.KindBasic, basicByName[t.Name()]
	case *types.Named:
		r.K, r.Sym = gopoet.KindNamed, goSym(t.Obj())
	case *types.Alias:
		r.K, r.Sym = gopoet.KindNamed, goSym(t.Obj())
	case *types.Pointer:
		r.K, r.Elem = gopoet.KindPtr, tyOfGo(t.Elem())
	case *types.Slice:
		r.K, r.Elem = gopoet.KindSlice, tyOfGo(t.Elem())
	case *types.Array:
		r.K, r.Elem, r.Len = gopoet.KindArray, tyOfGo(t.Elem()), t.Len()
	case *types.Map:
		r.K, r.Key, r.Elem = gopoet.KindMap, tyOfGo(t.Key()), tyOfGo(t.Elem())
	case *types.Chan:
		r.K, r.Elem = gopoet.KindChan, tyOfGo(t.Elem())
		r.Dir = map[types.ChanDir]reflect.ChanDir{types.SendRecv: reflect.BothDir, types.SendOnly: reflect.SendDir, types.RecvOnly: reflect.RecvDir}[t.Dir()]
	case *types.Signature:
		r.K, r.Sig = gopoet.KindFunc, sgOfGo(t, true)
	case *types.Struct:
		r.K = gopoet.KindStruct
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			n := f.Name()
			if f.Embedded() {
				n = ""
			}
			r.Fields = append(r.Fields, Fld{n, tyOfGo(f.Type()), t.Tag(i)})
		}
	case *types.Interface:
		r.K = gopoet.KindInterface
		for i := 0; i < t.NumEmbeddeds(); i++ {
			r.Embeds = append(r.Embeds, tyOfGo(t.EmbeddedType(i)).Sym)
		}
		for i := 0; i < t.NumExplicitMethods(); i++ {
			m := t.ExplicitMethod(i)
			r.Methods = append(r.Methods, Mth{m.Name(), sgOfGo(m.Type().(*types.Signature), false)})
		}
	default:
		panic(fmt.Sprintf("unexpected %T", t))
	}
	return r
}

func sgOfGo(s *types.Signature, withRecv bool) *Sg {
	r := &Sg{Variadic: s.Variadic()}
	if rv := s.Recv(); withRecv && rv != nil && !types.IsInterface(rv.Type()) {
		r.Args = append(r.Args, Arg{rv.Name(), tyOfGo(rv.Type())})
	}
	for i := 0; i < s.Params().Len(); i++ {
		v := s.Params().At(i)
		r.Args = append(r.Args, Arg{v.Name(), tyOfGo(v.Type())})
	}
	for i := 0; i < s.Results().Len(); i++ {
		v := s.Results().At(i)
		r.Results = append(r.Results, Arg{v.Name(), tyOfGo(v.Type())})
	}
	return r
}

// tyOfReflect reads a reflect type.
func tyOfReflect(t reflect.Type) *Ty {
	r := &Ty{Len: -1}
	if t.Kind() == reflect.UnsafePointer && t.PkgPath() == "unsafe" || t == reflect.TypeOf(unsafePtr) {
		r.K, r.Sym = gopoet.KindNamed, Sym{Path: "unsafe", Name: "Pointer"}
		return r
	}
	if t.Name() != "" {
		if t.PkgPath() == "" {
			if k, ok := basicByName[t.Name()]; ok {
				r.K, r.Basic = gopoet.KindBasic, k
				return r
			}
		}
		r.K, r.Sym = gopoet.KindNamed, Sym{Path: t.PkgPath(), Name: t.Name()}
		return r
	}
	switch t.Kind() {
	case reflect.Ptr:
		r.K, r.Elem = gopoet.KindPtr, tyOfReflect(t.Elem())
	case reflect.Slice:
		r.K, r.Elem = gopoet.KindSlice, tyOfReflect(t.Elem())
	case reflect.Array:
		r.K, r.Elem, r.Len = gopoet.KindArray, tyOfReflect(t.Elem()), int64(t.Len())
	case reflect.Map:
		r.K, r.Key, r.Elem = gopoet.KindMap, tyOfReflect(t.Key()), tyOfReflect(t.Elem())
	case reflect.Chan:
		r.K, r.Elem, r.Dir = gopoet.KindChan, tyOfReflect(t.Elem()), t.ChanDir()
	case reflect.Func:
		r.K, r.Sig = gopoet.KindFunc, sgOfReflect(t)
	case reflect.Struct:
		r.K = gopoet.KindStruct
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			n := f.Name
			if f.Anonymous {
				n = ""
			}
			r.Fields = append(r.Fields, Fld{n, tyOfReflect(f.Type), string(f.Tag)})
		}
	case reflect.Interface:
		r.K = gopoet.KindInterface
		for i := 0; i < t.NumMethod(); i++ {
			r.Methods = append(r.Methods, Mth{t.Method(i).Name, sgOfReflect(t.Method(i).Type)})
		}
	default:
		panic(fmt.Sprintf("unexpected %v", t))
	}
	return r
}

func sgOfReflect(t reflect.Type) *Sg {
	s := &Sg{Variadic: t.IsVariadic()}
	for i := 0; i < t.NumIn(); i++ {
		s.Args = append(s.Args, Arg{"", tyOfReflect(t.In(i))})
	}
	for i := 0; i < t.NumOut(); i++ {
		s.Results = append(s.Results, Arg{"", tyOfReflect(t.Out(i))})
	}
	return s
}

// ------------------------------------------------------------------ generators

// TyGen generates random types.
type TyGen struct {
	R *Rng
	// Sym picks the named type to use; iface asks for an interface to embed.
	Sym func(iface bool) Sym
	// Valid generates only types that type-check (given that symbols do).
	Valid bool
	// KeySyms are comparable named types for map keys (valid mode).
	KeySym func() Sym
	// EmbedSym picks a named type usable as embedded field; ptr whether it can
	// be embedded as a pointer (valid mode).
	EmbedSym func() (s Sym, ptr bool)
	// Method picks a unique method name (valid mode).
	Method func() string
	budget int
	// prev are types to use again.
	prev []prevTy
}

type prevTy struct {
	t    *Ty
	cost int
}

var hostileIdents = []string{"x", "y", "_", "a1", "Foo", "foo", "Ünï", "世界", "_0", "ǅx", "string_", "Chan", "fmt", "bytes", "ſ", "i", "T", "len", "int", "true", "nil", "error", "ªz"}

func (g *TyGen) ident() string {
	if g.R.Chance(6) {
		if w := g.R.Word(); !g.Valid || types.Universe.Lookup(w) == nil {
			return w
		}
	}
	if g.Valid {
		return Pick(g.R, []string{"x", "y", "Foo", "a1", "世界", "Ünï", "b", "zz"})
	}
	return Pick(g.R, hostileIdents)
}

var tagAtoms = []string{`json:"a"`, "`", `"`, `\`, "\n", "%s", "%!", " ", "\t", "\x00", "é", "\u2028", "\ufeff", "\xff", "//", "/*", "}", ";", "x", "'", "\r", "$", "{{.}}"}

func (g *TyGen) tag() string {
	switch g.R.IntN(7) {
	case 0, 1, 2:
		return ""
	case 3:
		return g.R.SpecialTag()
	case 4:
		return `json:"a,omitempty" xml:"-"`
	}
	var b strings.Builder
	for n := g.R.Between(1, 6); n > 0; n-- {
		b.WriteString(Pick(g.R, tagAtoms))
	}
	return b.String()
}

func (g *TyGen) Gen(budget int) *Ty {
	g.budget = budget
	return g.ty()
}

func basicTy(k reflect.Kind) *Ty { return &Ty{K: gopoet.KindBasic, Basic: k, Len: -1} }
func namedTy(s Sym) *Ty          { return &Ty{K: gopoet.KindNamed, Sym: s, Len: -1} }
func ptrTy(t *Ty) *Ty            { return &Ty{K: gopoet.KindPtr, Elem: t, Len: -1} }
func sliceTy(t *Ty) *Ty          { return &Ty{K: gopoet.KindSlice, Elem: t, Len: -1} }

func (g *TyGen) leaf() *Ty {
	if g.R.Chance(45) {
		return basicTy(Pick(g.R, basicKinds))
	}
	if g.R.Chance(8) {
		return namedTy(Sym{Name: "error"})
	}
	return namedTy(g.Sym(false))
}

func (g *TyGen) key() *Ty {
	if !g.Valid {
		return g.ty()
	}
	switch g.R.IntN(5) {
	case 0:
		return ptrTy(g.ty())
	case 1:
		return &Ty{K: gopoet.KindChan, Elem: g.ty(), Dir: g.dir(), Len: -1}
	case 2:
		return namedTy(g.KeySym())
	}
	return basicTy(Pick(g.R, basicKinds))
}

func (g *TyGen) dir() reflect.ChanDir {
	return OneOf(g.R, reflect.BothDir, reflect.SendDir, reflect.RecvDir)
}

func (g *TyGen) ty() *Ty {
	g.budget--
	if g.budget <= 0 {
		return g.leaf()
	}
	if g.R.Chance(3) {
		return g.wellKnown()
	}
	if len(g.prev) > 0 && g.R.Chance(6) {
		if p := Pick(g.R, g.prev); p.cost <= g.budget {
			g.budget -= p.cost
			if g.R.Chance(50) {
				p.t.obj = cmp.Or(p.t.obj, &tyObj{})
			}
			return p.t
		}
	}
	before := g.budget
	t := g.compound()
	if cost := before - g.budget + 1; cost > 1 && cost < 40 && len(g.prev) < 20 {
		g.prev = append(g.prev, prevTy{t, cost})
	}
	return t
}

func (g *TyGen) compound() *Ty {
	switch g.R.IntN(13) {
	case 0, 1:
		return g.leaf()
	case 2:
		return ptrTy(g.ty())
	case 3:
		return sliceTy(g.ty())
	case 4:
		n := int64(g.R.IntN(5))
		if !g.Valid && g.R.Chance(10) {
			n = OneOf(g.R, int64(1)<<62, int64(math.MaxInt64), 1000000)
		}
		return &Ty{K: gopoet.KindArray, Elem: g.ty(), Len: n}
	case 5:
		return &Ty{K: gopoet.KindMap, Key: g.key(), Elem: g.ty(), Len: -1}
	case 6, 7, 8:
		return &Ty{K: gopoet.KindChan, Elem: g.ty(), Dir: g.dir(), Len: -1}
	case 9:
		return &Ty{K: gopoet.KindFunc, Sig: g.sig(), Len: -1}
	case 10, 11:
		return g.strct()
	default:
		return g.iface()
	}
}

func (g *TyGen) strct() *Ty {
	t := &Ty{K: gopoet.KindStruct, Len: -1}
	seen := map[string]bool{}
	for n := g.R.Huge(g.R.IntN(5), 60); n > 0; n-- {
		g.budget--
		f := Fld{Tag: g.tag()}
		if g.R.Chance(30) {
			if g.Valid {
				s, ptr := g.EmbedSym()
				f.T = namedTy(s)
				if ptr && g.R.Chance(40) {
					f.T = ptrTy(f.T)
				}
				if seen[s.Name] {
					continue
				}
				seen[s.Name] = true
			} else {
				switch g.R.IntN(4) {
				case 0:
					f.T = basicTy(Pick(g.R, basicKinds))
				case 1:
					f.T = ptrTy(namedTy(g.Sym(false)))
				default:
					f.T = namedTy(g.Sym(false))
				}
			}
		} else {
			f.Name = g.ident()
			if g.Valid {
				if g.R.Chance(10) {
					f.Name = "_"
				}
				if f.Name != "_" && seen[f.Name] {
					continue
				}
				seen[f.Name] = true
			}
			f.T = g.ty()
		}
		t.Fields = append(t.Fields, f)
	}
	return t
}

func (g *TyGen) iface() *Ty {
	t := &Ty{K: gopoet.KindInterface, Len: -1}
	for n := g.R.Huge(g.R.IntN(3), 30); n > 0; n-- {
		g.budget--
		if i := len(t.Embeds); i > 0 && g.R.Chance(10) {
			t.Embeds = append(t.Embeds, t.Embeds[g.R.IntN(i)])
			continue
		}
		t.Embeds = append(t.Embeds, g.Sym(true))
	}
	seen := map[string]bool{}
	for n := g.R.Huge(g.R.IntN(3), 40); n > 0; n-- {
		g.budget--
		name := g.ident()
		if g.Valid {
			name = g.Method()
			if seen[name] {
				continue
			}
			seen[name] = true
		}
		t.Methods = append(t.Methods, Mth{name, g.sig()})
	}
	return t
}

// wellKnownTypes are types that are used a lot, or that are the underlying
// types of such.
var wellKnownTypes = []string{"interface{Error() string}", "interface{String() string}", "interface{GoString() string}", "interface{Close() error}", "interface{Lock(); Unlock()}",
	"interface{Unwrap() error}", "interface{Read(p []byte) (n int, err error)}", "interface{Write(p []byte) (n int, err error)}", "interface{Len() int; Less(i, j int) bool; Swap(i, j int)}",
	"interface{Error() (string)}", "interface{Error() (s string)}", "interface{error}", "interface{}", "struct{}", "*struct{}", "func()", "func() error", "func(error)", "func(int) bool", "func(a, b int) int",
	"[]byte", "[]string", "[][]byte", "[]error", "[]interface{}", "[0]int", "[1]int", "[16]byte", "[32]byte", "map[string]interface{}", "map[string]string", "map[string][]string", "map[string]bool", "map[string]struct{}", "map[int]int",
	"chan struct{}", "chan error", "<-chan struct{}", "chan<- struct{}", "chan bool", "*error", "*interface{}", "*string", "**int", "func(...interface{})", "func(string, ...interface{}) (int, error)", "func(context struct{}) error",
	"struct{error}", "struct{Name string}", "struct{string}", "struct{X, Y int}", "struct{_ struct{}}", "[]struct{}", "func(func())", "func() func()"}

var wellKnownParsed = sync.OnceValue(func() []*Ty {
	var ret []*Ty
	for _, s := range wellKnownTypes {
		t, err := parseTy(s, textResolve)
		if err != nil {
			bug("%s: %v", s, err)
		}
		ret = append(ret, t)
	}
	return ret
})

// wellKnown makes a type of the above, sometimes with one thing changed.
func (g *TyGen) wellKnown() *Ty {
	t := Pick(g.R, wellKnownParsed()).mapSyms(func(s Sym) Sym { return s })
	if g.R.Chance(25) {
		switch {
		case len(t.Methods) > 0:
			m := &t.Methods[g.R.IntN(len(t.Methods))]
			if g.R.Chance(50) || g.Valid {
				m.Sig = &Sg{Args: m.Sig.Args, Results: []Arg{{T: g.leaf()}}}
			} else {
				m.Name = g.ident()
			}
		case len(t.Fields) > 0:
			t.Fields[0].Tag = g.tag()
		case t.K == gopoet.KindArray:
			t.Len++
		case t.Elem != nil:
			t.Elem = g.leaf()
		}
	}
	return t
}

func (g *TyGen) sig() *Sg {
	s := &Sg{}
	used := map[string]bool{}
	list := func(max int) []Arg {
		var ret []Arg
		style := g.R.IntN(3) // unnamed, named, mixed
		for n := g.R.Size(g.R.IntN(max+1), 30); n > 0; n-- {
			a := Arg{T: g.ty()}
			if style == 1 || style == 2 && g.R.Chance(50) {
				a.Name = g.ident()
				if g.Valid {
					a.Name = "p" + strconv.Itoa(len(used))
					used[a.Name] = true
					if g.R.Chance(10) {
						a.Name = "_"
					}
				}
			}
			ret = append(ret, a)
		}
		return ret
	}
	s.Args = list(4)
	s.Results = list(3)
	if n := len(s.Args); n > 0 && n < 8 && g.R.Chance(8) {
		// the same as the parameters, nearly
		s.Results = nil
		for i, a := range s.Args {
			if a.T.obj == nil && g.R.Chance(60) {
				a.T.obj = &tyObj{}
			}
			if g.Valid && a.Name != "" {
				a.Name = "r" + strconv.Itoa(i)
			}
			s.Results = append(s.Results, a)
		}
		switch g.R.IntN(4) {
		case 0:
			s.Results[g.R.IntN(n)].T = g.leaf()
		case 1:
			if a := &s.Results[g.R.IntN(n)]; a.Name != "" {
				a.Name = OneOf(g.R, "renamed", "_")
			}
		case 2:
			i, j := g.R.IntN(n), g.R.IntN(n)
			s.Results[i], s.Results[j] = s.Results[j], s.Results[i]
		}
	}
	if g.R.Chance(30) {
		a := Arg{T: sliceTy(g.ty())}
		if g.R.Chance(50) {
			a.Name = "rest"
		}
		s.Args = append(s.Args, a)
		s.Variadic = true
	}
	return s
}

// chain makes a deep, narrow type.
func (g *TyGen) chain(depth int) *Ty {
	t := g.leaf()
	for i := 0; i < depth; i++ {
		switch g.R.IntN(8) {
		case 0:
			t = ptrTy(t)
		case 1:
			t = sliceTy(t)
		case 2:
			t = &Ty{K: gopoet.KindArray, Elem: t, Len: int64(i)}
		case 3:
			t = &Ty{K: gopoet.KindMap, Key: basicTy(reflect.String), Elem: t, Len: -1}
		case 4, 5:
			t = &Ty{K: gopoet.KindChan, Elem: t, Dir: g.dir(), Len: -1}
		case 6:
			t = &Ty{K: gopoet.KindFunc, Len: -1, Sig: &Sg{Args: []Arg{{"", t}}}}
		case 7:
			t = &Ty{K: gopoet.KindFunc, Len: -1, Sig: &Sg{Results: []Arg{{"", t}}}}
		}
	}
	return t
}

// pure makes a deep type with only a few kinds of nesting, so long runs of one.
func (g *TyGen) pure(depth int) *Ty {
	wrap := []func(t *Ty) *Ty{
		ptrTy, sliceTy,
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindArray, Elem: t, Len: 2} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindMap, Key: basicTy(reflect.String), Elem: t, Len: -1} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindMap, Key: ptrTy(t), Elem: basicTy(reflect.Bool), Len: -1} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindChan, Elem: t, Dir: reflect.BothDir, Len: -1} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindChan, Elem: t, Dir: reflect.SendDir, Len: -1} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindChan, Elem: t, Dir: reflect.RecvDir, Len: -1} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindFunc, Len: -1, Sig: &Sg{Args: []Arg{{"", t}}}} },
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindFunc, Len: -1, Sig: &Sg{Results: []Arg{{"", t}}}} },
		func(t *Ty) *Ty {
			return &Ty{K: gopoet.KindFunc, Len: -1, Sig: &Sg{Args: []Arg{{"", sliceTy(t)}}, Variadic: true}}
		},
		func(t *Ty) *Ty { return &Ty{K: gopoet.KindStruct, Len: -1, Fields: []Fld{{Name: "f", T: t}}} },
		func(t *Ty) *Ty {
			return &Ty{K: gopoet.KindInterface, Len: -1, Methods: []Mth{{"M", &Sg{Results: []Arg{{"", t}}}}}}
		},
	}
	if g.Valid {
		wrap = append(wrap[:2:2], wrap[3:]...) // no overflow of sizes
	}
	var use []func(t *Ty) *Ty
	for n := OneOf(g.R, 1, 1, 1, 2, 3); n > 0; n-- {
		use = append(use, Pick(g.R, wrap))
	}
	t := g.leaf()
	for i := 0; i < depth; i++ {
		t = Pick(g.R, use)(t)
	}
	return t
}

// wide makes a type with n parts next to each other.
func (g *TyGen) wide(n int) *Ty {
	part := func() *Ty {
		g.budget = g.R.Between(0, 2)
		return g.ty()
	}
	args := func() []Arg {
		var ret []Arg
		named := g.R.Chance(50)
		for i := 0; i < n; i++ {
			a := Arg{T: part()}
			if named {
				a.Name = fmt.Sprint("p", i)
			}
			ret = append(ret, a)
		}
		return ret
	}
	switch g.R.IntN(5) {
	case 0, 1:
		t := &Ty{K: gopoet.KindStruct, Len: -1}
		for i := 0; i < n; i++ {
			f := Fld{Name: fmt.Sprint("F", i), T: part(), Tag: g.tag()}
			if g.R.Chance(5) {
				f.Name = "_"
			}
			t.Fields = append(t.Fields, f)
		}
		return t
	case 2:
		t := &Ty{K: gopoet.KindInterface, Len: -1}
		for i := 0; i < n; i++ {
			g.budget = g.R.Between(0, 2)
			t.Methods = append(t.Methods, Mth{fmt.Sprintf("W%04d", i), g.sig()})
		}
		if g.R.Chance(50) {
			for i := g.R.Between(0, n); i > 0; i-- {
				t.Embeds = append(t.Embeds, g.Sym(true))
			}
			t.Methods = t.Methods[:g.R.Between(0, n)]
		}
		return t
	case 3:
		s := &Sg{Args: args()}
		if g.R.Chance(50) && n > 0 {
			a := &s.Args[n-1]
			a.T, s.Variadic = sliceTy(a.T), true
		}
		return &Ty{K: gopoet.KindFunc, Len: -1, Sig: s}
	}
	return &Ty{K: gopoet.KindFunc, Len: -1, Sig: &Sg{Results: args()}}
}

// extreme makes a type that is very deep, or very wide, or wide somewhere deep.
func (g *TyGen) extreme() *Ty {
	switch g.R.IntN(3) {
	case 0:
		return g.pure(g.R.Size(OneOf(g.R, g.R.Between(10, 70), g.R.Between(70, 300), g.R.Between(300, 1100)), 1100))
	case 1:
		return g.wide(g.R.Size(OneOf(g.R, g.R.Between(5, 40), g.R.Between(40, 300), g.R.Between(300, 1100)), 1100))
	}
	t := g.wide(g.R.Size(g.R.Between(5, 100), 200))
	for n := g.R.Between(1, 50); n > 0; n-- {
		t = OneOf(g.R, ptrTy, sliceTy)(t)
	}
	return t
}
