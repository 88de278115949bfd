package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/jhump/gopoet"
)

func init() {
	// the local time zone is loaded when it is first needed; that is no
	// modification of a value that refers to it
	_ = time.Unix(0, 0).String()
	checks["C09"] = &CheckDef{
		Boost:    2,
		Deep:     1,
		Rule:     "random values of random types (static ones with unexported fields, and ones made with reflect) that hold references in all kinds of slots, qualified with import sets in random states, in the default build, under the race detector's checkptr instrumentation, in the purego build, and in a 32-bit build; original and result are walked in parallel, the original is dumped before and after; nontrivial values hold at least one reference to another package",
		Shards:   4,
		Variants: []string{"default", "race", "purego", "386"},
		Needs:    map[string]int64{"values_qualified": 3000, "references_compared": 20000, "many_elements": 100, "views": 1000, "qualified_after_changes": 500, "unexported_fields": 3000, "map_entries": 1000, "non_addressable_roots": 500, "go_and_reflect_values_replaced": 500, "go_and_reflect_values_left": 50},
		Run:      runC09,
	}
}

// ------------------------------------------------------------- kinds of data

type d9A struct {
	A gopoet.Symbol
	b any
	C []any
	d *d9A
	E [2]any
	F map[string]any
	g [1]gopoet.TypeName
}

type d9B struct {
	x  gopoet.Symbol
	y  *gopoet.Symbol
	z  int
	w  func()
	ch chan int
	i  fmt.Stringer
	p  unsafe.Pointer
	u  uintptr
	e  error
}

type d9Key struct {
	S gopoet.Symbol
	n int
}

type d9Emb struct {
	*d9A
	gopoet.Package
	N int
}

type d9emb2 struct {
	gopoet.Symbol
	d9Key
	T gopoet.TypeName
}

type d9List []gopoet.TypeName
type d9Map map[gopoet.Symbol]*gopoet.Symbol
type d9Arr [3]d9B
type d9Any map[any]any
type d9Sym gopoet.Symbol
type d9Pkg struct{ P gopoet.Package }
type d9Sig struct {
	S  gopoet.Signature
	P  *gopoet.Signature
	M  gopoet.MethodReference
	pm *gopoet.MethodReference
	MT gopoet.MethodType
	A  []gopoet.ArgType
	f  [2]gopoet.FieldType
}
type d9Slots struct {
	A any
	B fmt.Stringer
	C gopoet.TypeName
	D gopoet.SymbolOrMethodRef
	E gopoet.TypeNameOrSpec
	F reflect.Type
	G types.Type
	H types.Object
	I error
	J interface{ Foo() }
	k types.Type
	l gopoet.SymbolOrMethodRef
	m gopoet.TypeNameOrSpec
}
type d9Specs struct {
	C  *gopoet.ConstSpec
	v  *gopoet.VarSpec
	T  *gopoet.TypeSpec
	F  *gopoet.FuncSpec
	ie *gopoet.InterfaceEmbed
	IM *gopoet.InterfaceMethod
	L  []gopoet.InterfaceElement
}
type d9ByValue struct {
	C  gopoet.ConstSpec
	V  gopoet.VarSpec
	T  gopoet.TypeSpec
	F  gopoet.FuncSpec
	IE gopoet.InterfaceEmbed
	IM gopoet.InterfaceMethod
}
type d9PP struct {
	A **gopoet.Symbol
	B *any
	C *[]any
	D *[2]gopoet.Symbol
	E *map[string]gopoet.Symbol
	f *gopoet.TypeName
}
type d9One struct{ X any }
type d9one struct{ x gopoet.TypeName }
type d9Foo struct{ s gopoet.Symbol }

func (d9Foo) Foo()             {}
func (d *d9Foo) Error() string { return "foo" }

type d9Time struct {
	T  time.Time
	D  time.Duration
	b  bytes.Buffer
	bi *big.Int
	X  any
}
type d9Empty struct{}

// Fields that tools treat in special ways.
type d9Tags struct {
	A       gopoet.Symbol             `json:"-"`
	b       any                       `json:"-" xml:"-" yaml:"-" gopoet:"-"`
	C       map[string]gopoet.Package `json:",omitempty"`
	_       gopoet.Symbol
	XMLName gopoet.TypeName `xml:"x,attr"`
	noCopy  *gopoet.Symbol
	mu      sync.Mutex
	_       [0]func()
	Imports gopoet.Package `template:"-"`
	Err     error          `db:"-"`
	self    *d9Tags        `go:"ignore"`
	d9Empty `json:",inline"`
	Data    []any `protobuf:"bytes,1,opt"`
}

// Types that contain themselves, with the part that can hold references behind
// that.
type d9Tree struct {
	Kids []*d9Tree
	V    any
}
type d9Ring struct {
	Next *d9Ring
	m    map[string]d9Ring
	s    gopoet.Symbol
}
type d9X struct {
	Y *d9Y
	N int
	s *gopoet.Symbol
}
type d9Y struct {
	X []d9X
	P map[string]*d9X
	t gopoet.TypeName
}
type d9P struct {
	q *d9Q
	n int
}
type d9Q struct {
	P map[int]*d9P
	r [2]*d9Q
	I fmt.Stringer
}
type d9Nest []d9Nest
type d9NestMap map[string]*d9Level
type d9Level struct {
	d9NestMap
	up *d9Level
	F  gopoet.FuncSpec
}
type d9Plain struct {
	Kids []*d9Plain
	N    int
	S    string
}
type d9Wide struct {
	A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q int
	R                                                 d9Plain
	s                                                 struct {
		a, b, c, X int
		V          any
	}
}

var d9Types = []reflect.Type{
	reflect.TypeOf(d9A{}), reflect.TypeOf(d9B{}), reflect.TypeOf(d9Key{}), reflect.TypeOf(d9Emb{}), reflect.TypeOf(d9emb2{}),
	reflect.TypeOf(d9List{}), reflect.TypeOf(d9Map{}), reflect.TypeOf(d9Arr{}), reflect.TypeOf(d9Any{}), reflect.TypeOf(d9Sym{}),
	reflect.TypeOf(d9Pkg{}), reflect.TypeOf(d9Sig{}), reflect.TypeOf(d9Slots{}), reflect.TypeOf(d9Specs{}), reflect.TypeOf(d9ByValue{}),
	reflect.TypeOf(d9PP{}), reflect.TypeOf(d9One{}), reflect.TypeOf(d9one{}), reflect.TypeOf(d9Foo{}), reflect.TypeOf(d9Time{}), reflect.TypeOf(d9Empty{}), reflect.TypeOf(d9Tags{}), reflect.TypeOf(&d9Tags{}),
	reflect.TypeOf(d9Tree{}), reflect.TypeOf(d9Ring{}), reflect.TypeOf(d9X{}), reflect.TypeOf(d9Y{}), reflect.TypeOf(d9P{}), reflect.TypeOf(d9Q{}), reflect.TypeOf(d9Nest{}), reflect.TypeOf(d9Level{}), reflect.TypeOf(d9Plain{}), reflect.TypeOf(d9Wide{}),
	reflect.TypeOf(&d9Tree{}), reflect.TypeOf(&d9Ring{}), reflect.TypeOf([]*d9X{}), reflect.TypeOf(&d9Q{}), reflect.TypeOf(map[string]*d9Level{}),
	symT, reflect.TypeOf(gopoet.Package{}), reflect.TypeOf(gopoet.MethodReference{}), reflect.TypeOf(gopoet.Signature{}),
	anyT, typeNameT, reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]byte{}), reflect.TypeOf(1.5), reflect.TypeOf(true),
	reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*gopoet.ConstSpec)(nil)), reflect.TypeOf((*gopoet.TypeSpec)(nil)),
}

var (
	symT      = reflect.TypeOf(gopoet.Symbol{})
	anyT      = reflect.TypeOf((*any)(nil)).Elem()
	typeNameT = reflect.TypeOf((*gopoet.TypeName)(nil)).Elem()
)

// d9Gen makes values.
type d9Gen struct {
	k      *Case
	r      *Rng
	s      *importState
	paths  []string
	names  map[string]string
	n      int
	budget int
	maps   int // around the value to be made
	files  []*gopoet.GoFile
	done   map[reflect.Type][]d9Done
}

// d9Done is a finished slice, map or pointer, which other values may share (in
// part), and what it cost.
type d9Done struct {
	v    reflect.Value
	cost int
}

// share gives a finished value to use again, or part of it.
func (g *d9Gen) share(t reflect.Type) (reflect.Value, bool) {
	l := g.done[t]
	if len(l) == 0 || !g.r.Chance(12) {
		return reflect.Value{}, false
	}
	d := Pick(g.r, l)
	if d.cost > g.budget {
		return reflect.Value{}, false
	}
	g.budget -= d.cost
	g.k.Count("shared_parts", 1)
	v := d.v
	if t.Kind() == reflect.Slice {
		i, j := 0, v.Len()
		switch g.r.IntN(4) {
		case 0:
			j = g.r.IntN(j + 1)
		case 1:
			i = g.r.IntN(j + 1)
		case 2:
			i, j = 0, v.Cap() // with elements beyond the length
		}
		v = v.Slice(i, j)
	}
	return v, true
}

func (g *d9Gen) finished(v reflect.Value, budget int) {
	if g.done == nil {
		g.done = map[reflect.Type][]d9Done{}
	}
	if t := v.Type(); len(g.done[t]) < 20 {
		g.done[t] = append(g.done[t], d9Done{v, budget - g.budget + 1})
	}
}

func (g *d9Gen) pkg() gopoet.Package {
	p := Pick(g.r, g.paths)
	if p == "" {
		return gopoet.Package{}
	}
	return gopoet.Package{ImportPath: p, Name: g.names[p]}
}

func (g *d9Gen) sym() gopoet.Symbol {
	if g.n == 0 || g.r.Chance(75) { // or a name that there is already
		g.n++
	}
	if g.r.Chance(5) {
		return g.pkg().Symbol(OneOf(g.r, "_", "", g.r.Word(), g.r.Str()))
	}
	return g.pkg().Symbol(fmt.Sprint("S", g.n))
}

func (g *d9Gen) tn() gopoet.TypeName {
	tg := freeGen(g.r)
	tg.Sym = func(bool) Sym { return symOf(g.sym()) }
	t := tg.Gen(OneOf(g.r, 1, 1, 3, 8))
	if g.r.Chance(20) {
		t = namedTy(symOf(g.sym()))
	}
	return t.poet()
}

func (g *d9Gen) sig() *gopoet.Signature {
	tg := freeGen(g.r)
	tg.Sym = func(bool) Sym { return symOf(g.sym()) }
	tg.budget = OneOf(g.r, 2, 6)
	return tg.sig().poet()
}

// file is where elements are declared.
func (g *d9Gen) file() *gopoet.GoFile {
	if len(g.files) == 0 || g.r.Chance(20) {
		p := g.pkg()
		for p.ImportPath == "" {
			p = g.pkg()
		}
		if p.Name == "" {
			// a file's package has a name
			p.Name = "named"
			// other references to the package have no name, which is no
			// contradiction
		}
		g.files = append(g.files, gopoet.NewGoFile("x.go", p.ImportPath, p.Name))
	}
	return Pick(g.r, g.files)
}

// elemName is the name of an element.
func (g *d9Gen) elemName(s string) string {
	if g.r.Chance(15) {
		return OneOf(g.r, "_", "init", "main", g.r.Word(), g.r.Word(), g.r.Word())
	}
	return fmt.Sprint(s, g.n)
}

func (g *d9Gen) constSpec() *gopoet.ConstSpec {
	g.n++
	c := gopoet.NewConst(g.elemName("C")).SetComment(OneOf(g.r, "c", "", "_", g.r.Str()))
	if g.r.Chance(25) {
		c.Names = append(c.Names, "D")
	}
	c.Initialize("%d", 1).SetType(gopoet.IntType)
	if g.r.Chance(80) {
		g.file().AddConst(c)
	}
	return c
}

func (g *d9Gen) varSpec() *gopoet.VarSpec {
	g.n++
	c := gopoet.NewVar(g.elemName("V")).SetType(gopoet.StringType)
	for n := g.r.Size(0, 40); n > 0; n-- {
		c.Names = append(c.Names, fmt.Sprint("W", n))
	}
	if g.r.Chance(80) {
		g.file().AddVar(c)
	}
	return c
}

func (g *d9Gen) typeSpec() *gopoet.TypeSpec {
	g.n++
	name := g.elemName("T")
	var c *gopoet.TypeSpec
	switch g.r.IntN(4) {
	case 0:
		c = gopoet.NewTypeSpec(name, g.tn())
	case 1:
		c = gopoet.NewTypeAlias(name, g.tn())
	case 2:
		c = gopoet.NewStructTypeSpec(name, gopoet.NewField("a", g.tn()))
	case 3:
		c = gopoet.NewInterfaceTypeSpec(name, g.ifEmbed(), g.ifMethod())
	}
	if g.r.Chance(80) {
		g.file().AddType(c)
	}
	return c
}

func (g *d9Gen) funcSpec() *gopoet.FuncSpec {
	g.n++
	name := g.elemName("F")
	c := gopoet.NewFunc(name)
	if g.r.Chance(50) {
		rcv := OneOf(g.r, "r", "r", "", "_", g.r.Word())
		typ := fmt.Sprint("R", g.n)
		switch g.r.IntN(4) {
		case 0:
			c = gopoet.NewMethod(gopoet.NewReceiver(rcv, typ), name)
		case 1:
			spec := gopoet.NewTypeSpec(typ, gopoet.StructType())
			if g.r.Chance(50) {
				g.file().AddType(spec)
			}
			c = gopoet.NewMethod(gopoet.NewReceiverForType(rcv, spec), name)
		case 2:
			c = gopoet.NewMethod(gopoet.NewPointerReceiverForType(rcv, gopoet.NewTypeSpec(typ, gopoet.IntType)), name)
		default:
			c = gopoet.NewMethod(gopoet.NewPointerReceiver(rcv, typ), name)
		}
	}
	c.AddArg("a", gopoet.IntType)
	if g.r.Chance(80) {
		g.file().AddElement(c)
	}
	return c
}

func (g *d9Gen) ifEmbed() *gopoet.InterfaceEmbed {
	return gopoet.NewInterfaceEmbed(g.sym()).SetComment("e")
}

func (g *d9Gen) ifMethod() *gopoet.InterfaceMethod {
	g.n++
	m := gopoet.NewInterfaceMethod(fmt.Sprint("M", g.n))
	m.Signature = *g.sig()
	return m
}

func (g *d9Gen) reflType() reflect.Type {
	g.n++
	t := Pick(g.r, reflStatic)
	switch g.r.IntN(5) {
	case 0:
		return reflect.ArrayOf(g.n, t)
	case 1:
		return reflect.MapOf(reflect.TypeOf(""), reflect.PointerTo(t))
	case 2:
		return reflect.TypeOf(0)
	}
	return t
}

func (g *d9Gen) goType() types.Type {
	g.n++
	u := Pick(g.r, plainU)
	t := u.Types().Scope().Lookup(OneOf(g.r, "T0", "T1", "A0", "I0", "T4")).Type()
	switch g.r.IntN(4) {
	case 0:
		return types.NewArray(t, int64(g.n))
	case 1:
		return types.Typ[types.Int]
	case 2:
		return types.NewPointer(t)
	}
	return t
}

func (g *d9Gen) goObj() types.Object {
	u := Pick(g.r, plainU)
	s := u.Types().Scope()
	switch g.r.IntN(6) {
	case 0:
		return s.Lookup("T1").Type().(*types.Named).Method(0)
	case 1:
		return s.Lookup("I0").Type().Underlying().(*types.Interface).ExplicitMethod(0)
	case 2:
		return types.Universe.Lookup(OneOf(g.r, "error", "int", "nil", "true"))
	}
	return s.Lookup(OneOf(g.r, "T0", "C0", "V0", "F0", "A0", "I0"))
}

// typ makes a random type.
func (g *d9Gen) typ(depth int) reflect.Type {
	if depth <= 0 || g.r.Chance(35) {
		return Pick(g.r, d9Types)
	}
	t := g.typ(depth - 1)
	switch g.r.IntN(6) {
	case 0:
		return reflect.PointerTo(t)
	case 1:
		return reflect.SliceOf(t)
	case 2:
		if g.r.Chance(8) && t.Size() < 1000 {
			return reflect.ArrayOf(g.r.Between(5, 40), t)
		}
		if t.Size() < 1000 {
			return reflect.ArrayOf(g.r.Size(g.r.IntN(4), 70), t)
		}
		return reflect.ArrayOf(g.r.IntN(4), t)
	case 3:
		k := OneOf(g.r, reflect.TypeOf(""), symT, anyT, reflect.TypeOf(d9Key{}), reflect.TypeOf(gopoet.Package{}), typeNameT, reflect.PointerTo(symT), reflect.TypeOf([1]gopoet.Symbol{}), reflect.TypeOf(1.5), reflect.TypeOf(true),
			reflect.TypeOf(d9One{}), reflect.TypeOf(d9one{}), reflect.TypeOf(d9Foo{}), reflect.TypeOf(d9Sym{}), reflect.TypeOf([1]any{}), reflect.TypeOf(gopoet.MethodReference{}), reflect.TypeOf((*fmt.Stringer)(nil)).Elem())
		if g.r.Chance(30) {
			if x := g.typ(depth - 1); x.Comparable() {
				k = x
			}
		}
		return reflect.MapOf(k, t)
	case 4:
		used := map[string]bool{}
		name := func(s string, exported bool) string {
			if w := g.r.Word(); g.r.Chance(20) && token.IsIdentifier(w) && w != "_" {
				s = w
			}
			if token.IsExported(s) != exported {
				s = map[bool]string{true: "X", false: "x"}[exported] + s
			}
			for used[s] {
				s += "x"
			}
			used[s] = true
			return s
		}
		tag := func() reflect.StructTag {
			if g.r.Chance(30) {
				return reflect.StructTag(g.r.SpecialTag())
			}
			return OneOf[reflect.StructTag](g.r, "", "", `json:"c"`)
		}
		fs := []reflect.StructField{{Name: name("A", true), Type: t, Tag: tag()}}
		if g.r.Chance(60) {
			fs = append(fs, reflect.StructField{Name: name("b", false), PkgPath: "verif/harness", Type: g.typ(depth - 1), Tag: tag()})
		}
		if g.r.Chance(60) {
			fs = append(fs, reflect.StructField{Name: name("C", true), Type: g.typ(depth - 1), Tag: tag()})
		}
		for n := g.r.Size(0, 300); n > 0 && t.Size() < 1000; n-- {
			// fields that hold nothing, before the others
			fs = append([]reflect.StructField{{Name: name("N", true), Type: OneOf(g.r, reflect.TypeOf(0), reflect.TypeOf(""), anyT)}}, fs...)
		}
		return reflect.StructOf(fs)
	}
	return reflect.PointerTo(t)
}

// dyn makes a value for an interface slot.
func (g *d9Gen) dyn(slot reflect.Type, key bool) reflect.Value {
	for i := 0; i < 30; i++ {
		var v any
		switch g.r.IntN(26) {
		case 0:
			v = g.sym()
		case 1:
			s := g.sym()
			v = &s
		case 2:
			v = g.pkg()
		case 3:
			p := g.pkg()
			v = &p
		case 4:
			v = gopoet.MethodReference{Type: g.sym(), Method: "M"}
		case 5:
			v = &gopoet.MethodReference{Type: g.sym(), Method: "M"}
		case 6, 7, 8:
			v = g.tn()
		case 9:
			v = g.sig()
		case 10:
			v = *g.sig()
		case 11:
			v = g.constSpec()
		case 12:
			v = g.varSpec()
		case 13:
			v = g.typeSpec()
		case 14:
			v = g.funcSpec()
		case 15:
			v = g.ifEmbed()
		case 16:
			v = g.ifMethod()
		case 17, 18:
			v = g.reflType()
		case 19, 20:
			v = g.goType()
		case 21:
			v = g.goObj()
		case 22:
			v = Pick(g.r, plainU).Types()
		case 23:
			v = OneOf[any](g.r, 1, "s", 2.5, math.NaN(), errors.New("e"), []int{1}, nil, stringerType{"x"}, time.Second, d9Foo{g.sym()}, &d9Foo{g.sym()}, (*gopoet.Symbol)(nil), (*gopoet.ConstSpec)(nil), (*gopoet.Package)(nil), (*gopoet.Signature)(nil), []gopoet.Symbol(nil), map[string]gopoet.Symbol(nil), (*gopoet.MethodReference)(nil), (*d9A)(nil))
		default:
			if key {
				continue
			}
			v = g.fill(g.typ(2)).Interface()
		}
		if v == nil {
			return reflect.Zero(slot)
		}
		rv := reflect.ValueOf(v)
		if key && !rv.Comparable() {
			continue
		}
		if key {
			// different values for one basic type are replaced by the same key
			switch v := v.(type) {
			case reflect.Type:
				if gopoet.TypeNameForReflectType(v).Kind() == gopoet.KindBasic {
					continue
				}
			case types.Type:
				if gopoet.TypeNameForGoType(v).Kind() == gopoet.KindBasic {
					continue
				}
			}
		}
		if rv.Type().Implements(slot) {
			ret := reflect.New(slot).Elem()
			ret.Set(rv)
			return ret
		}
	}
	return reflect.Zero(slot)
}

// elements fills a slice or array. Of many elements, only some hold anything,
// usually not the first ones.
func (g *d9Gen) elements(v reflect.Value, key bool) {
	n := v.Len()
	if n < 5 {
		for i := 0; i < n; i++ {
			v.Index(i).Set(g.fillAt(v.Type().Elem(), key))
		}
		return
	}
	at := n - 1 - g.r.IntN(3)
	for m := g.r.Between(1, 4); m > 0; m-- {
		v.Index(at).Set(g.fillAt(v.Type().Elem(), key))
		at = g.r.IntN(n)
	}
	g.k.Count("many_elements", 1)
}

// fill makes a value of the type.
func (g *d9Gen) fill(t reflect.Type) reflect.Value { return g.fillAt(t, false) }

func (g *d9Gen) fillAt(t reflect.Type, key bool) reflect.Value {
	g.budget--
	v := reflect.New(t).Elem()
	if g.budget < 0 && !key {
		return v
	}
	set := func(x any) reflect.Value { v.Set(reflect.ValueOf(x)); return v }
	switch v.Interface().(type) {
	case gopoet.Symbol:
		return set(g.sym())
	case gopoet.Package:
		return set(g.pkg())
	case gopoet.MethodReference:
		return set(gopoet.MethodReference{Type: g.sym(), Method: fmt.Sprint("M", g.n)})
	case gopoet.Signature:
		return set(*g.sig())
	case gopoet.ConstSpec:
		return set(*g.constSpec())
	case gopoet.VarSpec:
		return set(*g.varSpec())
	case gopoet.TypeSpec:
		return set(*g.typeSpec())
	case gopoet.FuncSpec:
		return set(*g.funcSpec())
	case gopoet.InterfaceEmbed:
		return set(*g.ifEmbed())
	case gopoet.InterfaceMethod:
		return set(*g.ifMethod())
	case time.Time:
		return set(OneOf(g.r, time.Unix(int64(g.n), 5), time.Unix(int64(g.n), 5).UTC(), time.Time{}))
	case bytes.Buffer:
		return set(*bytes.NewBufferString("buf"))
	case *big.Int:
		return set(big.NewInt(12345678901))
	}
	switch t.Kind() {
	case reflect.Interface:
		if g.r.Chance(12) {
			return v
		}
		return g.dyn(t, key)
	case reflect.Ptr:
		if g.r.Chance(12) {
			return v
		}
		if x, ok := g.share(t); ok && !key {
			v.Set(x)
			return v
		}
		if l := g.done[reflect.SliceOf(t.Elem())]; len(l) > 0 && !key && g.r.Chance(20) {
			// into a slice
			if d := Pick(g.r, l); d.v.Len() > 0 && d.cost <= g.budget {
				g.budget -= d.cost
				g.k.Count("shared_parts", 1)
				v.Set(d.v.Index(g.r.IntN(d.v.Len())).Addr().Convert(t))
				return v
			}
		}
		budget := g.budget
		p := reflect.New(t.Elem())
		p.Elem().Set(g.fillAt(t.Elem(), false))
		v.Set(p.Convert(t))
		g.finished(v, budget)
		if st := t.Elem(); st.Kind() == reflect.Struct && st.NumField() > 0 {
			// a pointer to its first field has the same address
			if ft := st.Field(0).Type; st.Field(0).PkgPath == "" {
				g.finished(p.Elem().Field(0).Addr().Convert(reflect.PointerTo(ft)), budget)
			}
		}
	case reflect.Slice:
		if g.r.Chance(12) {
			return v
		}
		if x, ok := g.share(t); ok {
			v.Set(x)
			return v
		}
		budget := g.budget
		n := g.r.IntN(4)
		if t.Elem().Size() < 1000 {
			n = g.r.Huge(n, 100)
		}
		s := reflect.MakeSlice(t, n, n+g.r.IntN(3))
		if g.r.Chance(5) && t.Elem().Size() < 1000 {
			n = g.r.Between(5, 300)
			s = reflect.MakeSlice(t, n, n+g.r.IntN(3))
		}
		g.elements(s, key)
		v.Set(s)
		g.finished(s, budget)
	case reflect.Array:
		g.elements(v, key)
	case reflect.Map:
		if g.r.Chance(12) {
			return v
		}
		if x, ok := g.share(t); ok {
			v.Set(x)
			return v
		}
		budget := g.budget
		m := reflect.MakeMap(t)
		n := g.r.Huge(g.r.IntN(4), 20)
		if g.maps >= 6 {
			n = 0 // entries may be visited more than once, to find their order
		}
		g.maps++
		for ; n > 0; n-- {
			m.SetMapIndex(g.fillAt(t.Key(), true), g.fillAt(t.Elem(), false))
		}
		g.maps--
		if kt := t.Key(); g.r.Chance(8) && t.Elem().Size() < 1000 && (kt.Kind() == reflect.String || kt.Kind() == reflect.Int) {
			// many entries with nothing in them
			for i := g.r.Between(5, 200); i > 0; i-- {
				kv := reflect.ValueOf(i)
				if kt.Kind() == reflect.String {
					kv = reflect.ValueOf(fmt.Sprint("k", i))
				}
				m.SetMapIndex(kv.Convert(kt), reflect.Zero(t.Elem()))
			}
		}
		v.Set(m)
		g.finished(m, budget)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			x := g.fillAt(f.Type, key)
			readable(v, i).Set(x)
		}
	case reflect.Func:
		if t.NumIn() == 0 && t.NumOut() == 0 && g.r.Chance(50) {
			v.Set(reflect.ValueOf(func() {}).Convert(t))
		}
	case reflect.Chan:
		v.Set(reflect.MakeChan(t, 1))
	case reflect.String:
		v.SetString(OneOf(g.r, fmt.Sprint("str", g.n), fmt.Sprint("str", g.n), g.r.Str()))
	case reflect.Bool:
		v.SetBool(g.r.Chance(50))
	case reflect.Int, reflect.Int8, reflect.Int64, reflect.Int32, reflect.Int16:
		v.SetInt(int64(g.r.IntN(100)))
	case reflect.Uint8, reflect.Uintptr, reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(g.r.IntN(100)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(g.r.IntN(100)))
		if g.r.Chance(15) {
			v.SetFloat(math.NaN())
		}
	}
	return v
}

// readable gives a field of an addressable struct in a form that can be read
// and set, exported or not.
func readable(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func addressableCopy(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

// ---------------------------------------------------------------- the oracle

type d9Check struct {
	k   *Case
	imp *gopoet.Imports
	own string
	// unexported: whether unexported fields are handled
	unexported bool
	// mentioned: packages that references carry; maybe: packages of values that
	// have to be left alone
	mentioned, maybe                                         map[string]bool
	refs, hidden, entries, replaced, left, otherRefs, shared int
}

func (c *d9Check) want(s Sym) Sym {
	if s.Path == "" && s.Pkg == "" {
		return s
	}
	s.Pkg = c.prefix(s.Path)
	return s
}

func (c *d9Check) prefix(p string) string {
	if p == c.own {
		return ""
	}
	c.refs++
	c.mentioned[p] = true
	ret := "NOTIMPORTED"
	if bad, _ := panics(func() { ret = strings.TrimSuffix(c.imp.PrefixForPackage(p), ".") }); bad {
		return "NOTIMPORTED"
	}
	return ret
}

func diff(path, what string, want, got any) error {
	return fmt.Errorf("at %s: %s is %v, expected %v", path, what, got, want)
}

func (c *d9Check) symEq(path string, o, g gopoet.Symbol) error {
	w := c.want(symOf(o))
	if w != symOf(g) {
		return diff(path, "symbol", symFull(w), symFull(symOf(g)))
	}
	return nil
}

func (c *d9Check) tyEq(path string, t *Ty, g gopoet.TypeName) error {
	w, x := fullDump.Ty(t.mapSyms(c.want)), fullDump.Ty(tyOf(g))
	if w != x {
		return diff(path, "type", w, x)
	}
	return nil
}

func (c *d9Check) sigEq(path string, o, g *gopoet.Signature) error {
	w, x := fullDump.Sig(sgOf(o).mapSyms(c.want)), fullDump.Sig(sgOf(g))
	if w != x {
		return diff(path, "signature", w, x)
	}
	return nil
}

// symOrRefEq compares a symbol or method reference (possibly a pointer).
func (c *d9Check) symOrRefEq(path string, want any, got any) error {
	switch x := got.(type) {
	case *gopoet.Symbol:
		if x != nil {
			got = *x
		}
	case *gopoet.MethodReference:
		if x != nil {
			got = *x
		}
	}
	if want != got {
		return diff(path, "reference", fmt.Sprintf("%#v", want), fmt.Sprintf("%#v", got))
	}
	return nil
}

type element interface {
	comparable
	fmt.Stringer
}

// elemEq compares elements of files: they refer to themselves with the prefix.
func (c *d9Check) elemEq(path string, o, g fmt.Stringer, sym func(fmt.Stringer) any) error {
	var ref any
	if bad, _ := panics(func() { ref = sym(o) }); bad {
		// not part of a file
		if bad, _ := panics(func() { sym(g) }); !bad {
			return diff(path, "element that is not in a file", o, g)
		}
		// the zero value of a type element has no text
		var a, b string
		panics(func() { a = o.String() })
		panics(func() { b = g.String() })
		if a != b {
			return diff(path, "element", a, b)
		}
		return nil
	}
	switch r := ref.(type) {
	case gopoet.Symbol:
		w := c.want(symOf(r))
		// an element with several names lists them all
		if x := symText(w); g.String() != x && !strings.HasPrefix(g.String(), x+", ") {
			return diff(path, "element text", x, g.String())
		}
		return c.symOrRefEq(path, w.poet(), sym(g))
	case gopoet.MethodReference:
		w := c.want(symOf(r.Type))
		return c.symOrRefEq(path, gopoet.MethodReference{Type: w.poet(), Method: r.Method}, sym(g))
	}
	panic("bad element")
}

func short(s string) string {
	if len(s) > 100 {
		return s[:100] + "..."
	}
	return s
}

func (c *d9Check) same(path string, o, g reflect.Value) error {
	if len(path) > 20000 {
		bug("too deep")
	}
	if o.IsValid() != g.IsValid() {
		return diff(path, "value", o, g)
	}
	if !o.IsValid() {
		return nil
	}
	if o.Type() != g.Type() {
		return diff(path, "type of value", o.Type(), g.Type())
	}
	t := o.Type()
	switch t.Kind() {
	case reflect.Interface:
		if o.IsNil() || g.IsNil() {
			if o.IsNil() != g.IsNil() {
				return diff(path, "interface value", o, g)
			}
			return nil
		}
		return c.sameDyn(path, t, o.Elem(), g.Elem())
	case reflect.Ptr:
		if o.IsNil() || g.IsNil() {
			if o.IsNil() != g.IsNil() {
				return diff(path, "pointer", o, g)
			}
			return nil
		}
		return c.same(path+".*", o.Elem(), g.Elem())
	case reflect.Slice:
		if o.IsNil() != g.IsNil() || o.Len() != g.Len() {
			return diff(path, "slice", fmt.Sprintf("%d nil=%v", o.Len(), o.IsNil()), fmt.Sprintf("%d nil=%v", g.Len(), g.IsNil()))
		}
		for i := 0; i < o.Len(); i++ {
			if err := c.same(fmt.Sprintf("%s[%d]", path, i), o.Index(i), g.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Array:
		for i := 0; i < o.Len(); i++ {
			if err := c.same(fmt.Sprintf("%s[%d]", path, i), o.Index(i), g.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if o.IsNil() != g.IsNil() || o.Len() != g.Len() {
			return diff(path, "map", fmt.Sprintf("%d nil=%v", o.Len(), o.IsNil()), fmt.Sprintf("%d nil=%v", g.Len(), g.IsNil()))
		}
		used := map[int]bool{}
		// not looked up by key: keys may be NaN, of which there may be many
		var gks, gvs []reflect.Value
		for it := g.MapRange(); it.Next(); {
			gks, gvs = append(gks, it.Key()), append(gvs, it.Value())
		}
		for it := o.MapRange(); it.Next(); {
			k, v := it.Key(), it.Value()
			found := false
			var last error
			for i, gk := range gks {
				if used[i] {
					continue
				}
				if err := c.same(path+"[key]", k, gk); err != nil {
					if last == nil {
						last = err
					}
					continue
				}
				if err := c.same(path+"["+short(fmt.Sprint(k))+"]", v, gvs[i]); err != nil {
					last = err
					continue
				}
				used[i], found = true, true
				break
			}
			if !found {
				return fmt.Errorf("at %s: no entry for %v: %v", path, k, last)
			}
			c.entries++
		}
		return nil
	case reflect.Struct:
		return c.sameStruct(path, addressableCopy(o), addressableCopy(g))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if o.Pointer() != g.Pointer() {
			return diff(path, t.String(), o, g)
		}
		return nil
	case reflect.Float64, reflect.Float32:
		if o.Float() != g.Float() && !(math.IsNaN(o.Float()) && math.IsNaN(g.Float())) {
			return diff(path, "value", o, g)
		}
		return nil
	}
	if fmt.Sprintf("%#v", o) != fmt.Sprintf("%#v", g) {
		return diff(path, "value", o, g)
	}
	return nil
}

func canHold(slot reflect.Type, vals ...any) bool {
	for _, v := range vals {
		if reflect.TypeOf(v).Implements(slot) {
			return true
		}
	}
	return false
}

// sameDyn compares what interface slots hold.
func (c *d9Check) sameDyn(path string, slot reflect.Type, o, g reflect.Value) error {
	var conv *Ty
	var ref any
	hold := false
	ov, gv := o.Interface(), g.Interface()
	switch x := ov.(type) {
	case gopoet.TypeName:
		y, ok := gv.(gopoet.TypeName)
		if !ok {
			return diff(path, "type", ov, gv)
		}
		return c.tyEq(path, tyOf(x), y)
	case reflect.Type:
		conv, hold = tyOfReflect(x), typeNameT.Implements(slot)
	case types.Type:
		conv, hold = tyOfGo(x), typeNameT.Implements(slot)
	case types.Object:
		s := Sym{Name: x.Name()}
		if p := x.Pkg(); p != nil {
			s.Path, s.Pkg = p.Path(), p.Name()
		}
		ref, hold = s, canHold(slot, gopoet.Symbol{})
		if fn, ok := x.(*types.Func); ok {
			if recv := fn.Type().(*types.Signature).Recv(); recv != nil {
				rt := tyOfGo(recv.Type())
				if rt.K == gopoet.KindPtr {
					rt = rt.Elem
				}
				ref, hold = Mref{rt.Sym, x.Name()}, canHold(slot, gopoet.MethodReference{}, &gopoet.MethodReference{})
			}
		}
	case *types.Package:
		ref, hold = x, canHold(slot, gopoet.Package{})
	default:
		return c.same(path+".("+o.Type().String()+")", o, g)
	}
	if !hold {
		if ov != gv {
			return diff(path, "value that cannot be replaced", ov, gv)
		}
		c.left++
		if conv != nil {
			conv.walkSyms(func(s Sym) { c.maybe[s.Path] = true })
		}
		switch x := ref.(type) {
		case Sym:
			c.maybe[x.Path] = true
		case Mref:
			c.maybe[x.T.Path] = true
		case *types.Package:
			c.maybe[x.Path()] = true
		}
		return nil
	}
	if ov == gv {
		return diff(path, "value", "a qualified reference", fmt.Sprintf("still %T", gv))
	}
	c.replaced++
	switch x := ref.(type) {
	case Sym:
		return c.symOrRefEq(path, c.want(x).poet(), gv)
	case Mref:
		return c.symOrRefEq(path, gopoet.MethodReference{Type: c.want(x.T).poet(), Method: x.M}, gv)
	case *types.Package:
		w := gopoet.Package{ImportPath: x.Path(), Name: c.prefix(x.Path())}
		if p, ok := gv.(*gopoet.Package); ok && p != nil {
			gv = *p
		}
		if gv != w {
			return diff(path, "package", w, gv)
		}
		return nil
	}
	y, ok := gv.(gopoet.TypeName)
	if !ok {
		return diff(path, "converted type", ov, gv)
	}
	return c.tyEq(path, conv, y)
}

type Mref struct {
	T Sym
	M string
}

func (c *d9Check) sameStruct(path string, o, g reflect.Value) error {
	op, gp := o.Addr().Interface(), g.Addr().Interface()
	switch x := op.(type) {
	case *gopoet.Package:
		y := gp.(*gopoet.Package)
		w := *x
		if *x != (gopoet.Package{}) {
			w.Name = c.prefix(x.ImportPath)
		}
		if w != *y {
			return diff(path, "package", fmt.Sprintf("%#v", w), fmt.Sprintf("%#v", *y))
		}
		return nil
	case *gopoet.Symbol:
		return c.symEq(path, *x, *gp.(*gopoet.Symbol))
	case *gopoet.MethodReference:
		y := gp.(*gopoet.MethodReference)
		if x.Method != y.Method {
			return diff(path, "method", x.Method, y.Method)
		}
		return c.symEq(path, x.Type, y.Type)
	case *gopoet.Signature:
		return c.sigEq(path, x, gp.(*gopoet.Signature))
	case *gopoet.ConstSpec:
		y := gp.(*gopoet.ConstSpec)
		if x.Comment != y.Comment || !reflect.DeepEqual(x.Names, y.Names) || x.Initializer != y.Initializer || x.Type != y.Type {
			return diff(path, "const", x, y)
		}
		return c.elemEq(path, x, y, func(s fmt.Stringer) any { return s.(*gopoet.ConstSpec).SymbolAt(0) })
	case *gopoet.VarSpec:
		y := gp.(*gopoet.VarSpec)
		if x.Comment != y.Comment || !reflect.DeepEqual(x.Names, y.Names) || x.Initializer != y.Initializer || x.Type != y.Type {
			return diff(path, "var", x, y)
		}
		return c.elemEq(path, x, y, func(s fmt.Stringer) any { return s.(*gopoet.VarSpec).SymbolAt(0) })
	case *gopoet.TypeSpec:
		y := gp.(*gopoet.TypeSpec)
		if x.Comment != y.Comment || x.Name != y.Name || x.IsAlias() != y.IsAlias() {
			return diff(path, "type element", x, y)
		}
		return c.elemEq(path, x, y, func(s fmt.Stringer) any { return s.(*gopoet.TypeSpec).ToSymbol() })
	case *gopoet.FuncSpec:
		y := gp.(*gopoet.FuncSpec)
		if x.Comment != y.Comment || x.Name != y.Name || (x.Receiver == nil) != (y.Receiver == nil) {
			return diff(path, "func element", x, y)
		}
		return c.elemEq(path, x, y, func(s fmt.Stringer) any { return s.(*gopoet.FuncSpec).ToSymbol() })
	case *gopoet.InterfaceEmbed:
		y := gp.(*gopoet.InterfaceEmbed)
		if x.Comment != y.Comment {
			return diff(path, "comment", x.Comment, y.Comment)
		}
		return c.symEq(path, x.Type, y.Type)
	case *gopoet.InterfaceMethod:
		y := gp.(*gopoet.InterfaceMethod)
		if x.Comment != y.Comment || x.Name != y.Name {
			return diff(path, "interface method", x, y)
		}
		return c.sigEq(path, &x.Signature, &y.Signature)
	}
	for i := 0; i < o.NumField(); i++ {
		f := o.Type().Field(i)
		of, gf := readable(o, i), readable(g, i)
		p := path + "." + f.Name
		if !f.IsExported() {
			c.hidden++
			if !c.unexported {
				if a, b := deepDump(of.Interface()), deepDump(gf.Interface()); a != b {
					return diff(p, "unexported field", a, b)
				}
				continue
			}
		}
		if err := c.same(p, of, gf); err != nil {
			return err
		}
	}
	return nil
}

func runC09(c *Ctx) {
	n := c.N(2500, 40000)
	if c.Variant == "race" {
		n = c.N(800, 10000)
	}
	c.Run("values", n, func(k *Case) { k.templateData(false) })
	c.Run("large", n/25, func(k *Case) { k.templateData(true) })
	c.Run("views", n/3, func(k *Case) { k.dataViews() })
	c.Run("corners", 1, func(k *Case) { k.dataCorners() })
	c.Run("cycles", 1, func(k *Case) {
		if c.Variant == "default" {
			k.dataCycles()
		}
	})
}

func (k *Case) newD9Gen() *d9Gen {
	r := k.R
	s := newImportState(r)
	if s.own == "" {
		s = &importState{own: "own", imp: gopoet.NewImportsFor("own")}
	}
	g := &d9Gen{k: k, r: r, s: s, names: map[string]string{}, budget: 60}
	g.paths = append(g.paths, s.own, "")
	g.names[s.own] = OneOf(r, "own", "", "foo")
	for n := r.Between(1, 6); n > 0; n-- {
		p := Pick(r, importPaths)
		if p == "" || p == s.own {
			continue
		}
		g.paths = append(g.paths, p)
		g.names[p] = Pick(r, importNames)
	}
	if len(g.paths) == 2 {
		g.paths = append(g.paths, "a/foo")
		g.names["a/foo"] = "foo"
	}
	return g
}

func (k *Case) templateData(large bool) {
	r := k.R
	g := k.newD9Gen()
	var data any
	t := g.typ(r.Between(0, 4))
	if large {
		g.budget = 2000
		t = reflect.TypeOf([]any{})
		var l []any
		for i := 0; i < 40; i++ {
			l = append(l, g.fill(g.typ(3)).Interface())
		}
		// a long list
		var node *d9A
		for i := 0; i < 1000; i++ {
			node = &d9A{A: g.sym(), d: node}
		}
		l = append(l, node)
		data = l
	} else {
		data = g.fill(t).Interface()
	}
	if data == nil {
		data = g.sym()
	}
	k.qualifyData(g.s, data)
	if kd := reflect.TypeOf(data).Kind(); kd == reflect.Struct || kd == reflect.Array {
		k.Count("non_addressable_roots", 1)
	}
}

// dataViews qualifies data that holds several views of the same memory, some of
// which need no change, and does so again after changing it.
func (k *Case) dataViews() {
	r := k.R
	g := k.newD9Gen()
	all := g.paths
	t := g.typ(r.IntN(3))
	if t.Size() > 2000 {
		t = symT
	}
	n := r.Between(2, 9)
	if r.Chance(5) {
		n = r.Size(10, 600)
	}
	s := reflect.MakeSlice(reflect.SliceOf(t), n, n+r.IntN(3))
	p := reflect.New(t)
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	fill := func() {
		a := r.IntN(n + 1)
		for i := 0; i < n; i++ {
			g.budget = 8
			g.paths = all
			if i < a {
				g.paths = []string{g.s.own, ""} // needs no change
			}
			if n < 10 || r.Chance(10) {
				s.Index(i).Set(g.fill(t))
			}
		}
		g.paths = all
		if r.Chance(30) {
			g.paths = []string{g.s.own, ""}
		}
		p.Elem().Set(g.fill(t))
		m.SetMapIndex(reflect.ValueOf(OneOf(r, "a", "b", "c")), g.fill(t))
		g.paths = all
	}
	fill()
	view := func() any {
		i, j := 0, n
		switch r.IntN(6) {
		case 0:
			j = r.IntN(n + 1)
		case 1:
			i = r.IntN(n + 1)
		case 2:
			i = r.IntN(n + 1)
			j = r.Between(i, n)
		case 3:
			j = r.IntN(n + 1)
			if j > 0 {
				i = r.IntN(j)
			}
			v := reflect.MakeSlice(s.Type(), 0, 0)
			return reflect.AppendSlice(v, s.Slice(i, j)).Interface() // a copy
		}
		v := s.Slice(i, j)
		switch r.IntN(8) {
		case 0:
			return v.Convert(reflect.PointerTo(reflect.ArrayOf(j-i, t))).Interface()
		case 1:
			if j > i {
				return v.Index(0).Addr().Interface()
			}
		case 2:
			return p.Interface()
		case 3:
			return m.Interface()
		case 4:
			x := reflect.New(v.Type())
			x.Elem().Set(v)
			return x.Interface()
		case 5:
			return d9A{C: []any{v.Interface()}}
		}
		return v.Interface()
	}
	var data []any
	for i := r.Between(2, 6); i > 0; i-- {
		data = append(data, view())
	}
	var root any = data
	if r.Chance(30) {
		root = &d9A{C: data, E: [2]any{view(), view()}, F: map[string]any{"x": view(), "y": view()}}
	}
	k.qualifyData(g.s, root)
	for i := r.IntN(3); i > 0; i-- {
		fill()
		if i := r.IntN(len(data)); r.Chance(50) {
			data[i] = view()
		}
		k.qualifyData(g.s, root)
		k.Count("qualified_after_changes", 1)
	}
	k.Count("views", len(data))
}

func (k *Case) qualifyData(s *importState, data any) any {
	before := s.paths()
	dump := deepDump(data)
	var res any
	if bad, val := panics(func() { res = s.imp.QualifyTemplateData(data) }); bad {
		k.Failf("QualifyTemplateData panics: %v\n%s\ndata: %s", val, debug.Stack(), dump)
	}
	k.Count("values_qualified", 1)
	if after := deepDump(data); after != dump {
		k.Failf("QualifyTemplateData modified its argument: %s", firstDiff(dump, after))
	}
	c := &d9Check{k: k, imp: s.imp, own: s.own, unexported: k.Variant != "purego", mentioned: map[string]bool{}, maybe: map[string]bool{}}
	wrap := func(v any) reflect.Value { return reflect.ValueOf(&v).Elem() }
	if err := c.same("data", wrap(data), wrap(res)); err != nil {
		k.Failf("wrong result of QualifyTemplateData: %v\ndata: %s\nresult: %s", err, dump, deepDump(res))
	}
	after := s.paths()
	for p := range c.mentioned {
		if !after[p] {
			k.Failf("package %q of a reference in the data is not imported\n%s", p, dump)
		}
	}
	for p := range after {
		if !before[p] && !c.mentioned[p] && !c.maybe[p] {
			k.Failf("package %q is imported although the data does not refer to it\n%s", p, dump)
		}
	}
	k.Count("references_compared", c.refs)
	k.Count("unexported_fields", c.hidden)
	k.Count("map_entries", c.entries)
	k.Count("go_and_reflect_values_replaced", c.replaced)
	k.Count("go_and_reflect_values_left", c.left)
	if c.refs > 0 {
		k.Nontrivial(dump)
		k.Sample("%s", dump)
	}
	// once more
	specs := s.specs()
	dump2 := deepDump(res)
	res2 := s.imp.QualifyTemplateData(res)
	c2 := &d9Check{k: k, imp: s.imp, own: s.own, unexported: k.Variant != "purego", mentioned: map[string]bool{}, maybe: map[string]bool{}}
	if err := c2.same("data", wrap(res), wrap(res2)); err != nil {
		k.Failf("qualifying the result again changes it: %v\n%s", err, dump2)
	}
	if specs != s.specs() {
		k.Failf("qualifying the result again changes the imports from %s to %s", specs, s.specs())
	}
	if deepDump(res) != dump2 {
		k.Failf("qualifying the result again modifies it")
	}
	return res
}

func (k *Case) dataCorners() {
	s := &importState{own: "own", imp: gopoet.NewImportsFor("own")}
	if r := s.imp.QualifyTemplateData(nil); r != nil {
		k.Failf("qualifying nil gives %v", r)
	}
	s.imp.RegisterImport("z/foo", "foo") // so that foo becomes foo1
	foo := gopoet.Symbol{Package: gopoet.Package{ImportPath: "a/foo", Name: "foo"}, Name: "X"}
	vals := []any{
		[0]gopoet.Symbol{}, [1]gopoet.Symbol{foo}, [3]*gopoet.Symbol{nil, &foo, nil}, []gopoet.Symbol{}, []gopoet.Symbol{foo, {}, foo},
		map[gopoet.Symbol]int{foo: 1, {Name: "y"}: 2}, map[string]*gopoet.Symbol{"a": nil, "b": &foo}, map[any]any{foo: foo, "x": foo, 1: nil},
		map[[1]gopoet.Symbol]d9Key{{foo}: {foo, 2}}, struct{ a [2]gopoet.Symbol }{[2]gopoet.Symbol{foo, foo}}, d9Emb{Package: foo.Package},
		&[]any{[]any{[]any{foo}}}, []any{map[string]any{"a": []any{d9Key{foo, 1}}}}, [][]gopoet.Symbol{nil, {}, {foo}},
		d9Arr{}, d9One{d9One{d9One{foo}}}, d9One{&d9One{&foo}}, (*gopoet.Symbol)(nil), any(nil), d9Any{"a": d9Any{foo: d9Any{}}},
		[]any{foo, nil, 1, foo}, [2]any{1, foo}, [2]any{foo, 1}, [3]any{nil, foo, nil}, map[string]any{"1": 1, "2": foo, "3": nil, "4": "x"},
		[]d9Key{{foo, 1}, {foo, 2}}, []*d9Key{{foo, 1}, nil}, math.NaN(), map[float64]gopoet.Symbol{1: foo}, map[any]gopoet.Symbol{math.NaN(): foo}, map[float64]any{math.NaN(): foo, 1: nil}, func() {}, make(chan int), unsafe.Pointer(&foo),
		[]gopoet.TypeName{nil, gopoet.NamedType(foo), gopoet.IntType, gopoet.SliceType(gopoet.NamedType(foo))}, d9List{gopoet.IntType, gopoet.NamedType(foo)},
		[]any{types.Universe.Lookup("error"), types.Universe.Lookup("error").Type(), types.Unsafe, types.Typ[types.UnsafePointer]},
		[]types.Type{types.Typ[types.Int]}, []reflect.Type{reflect.TypeOf(0), nil}, []types.Object{types.Universe.Lookup("true")},
		[]fmt.Stringer{reflect.TypeOf(rtTime), plainU[0].Types().Scope().Lookup("T0"), plainU[1].Types(), foo, nil, gopoet.IntType},
		gopoet.ConstDecl{}, &gopoet.TypeDecl{}, &gopoet.ImportSpec{ImportPath: "x"}, gopoet.KindFunc, gopoet.NewImportsFor("x"),
	}
	for _, v := range vals {
		if v != nil {
			k.qualifyData(s, v)
		}
	}
	k.Nontrivial("corners")
}

var rtTime = time.Time{}

// dataCycles demonstrates a known finding: cyclic data is followed forever.
func (k *Case) dataCycles() {
	self, err := os.Executable()
	if err != nil {
		bug("%v", err)
	}
	for _, name := range []string{"pointer", "slice", "map"} {
		cmd := exec.Command(self, "-sub", "cycle-"+name)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOCOVERDIR=")
		out, err := cmd.CombinedOutput()
		if err != nil && strings.Contains(string(out), "stack overflow") {
			k.Known("KF-2 template data with a cycle through a " + name + " overflows the stack")
		} else if err != nil {
			k.Failf("qualifying cyclic template data: %v %s", err, tail(string(out), 2000))
		}
	}
}

type cyc struct {
	S    gopoet.Symbol
	Next *cyc
}

func runSub(name string) {
	debug.SetMaxStack(1 << 20)
	imp := gopoet.NewImportsFor("own")
	switch name {
	case "cycle-pointer":
		c := &cyc{S: gopoet.NewSymbol("a/b", "C")}
		c.Next = c
		imp.QualifyTemplateData(c)
	case "cycle-slice":
		s := []any{gopoet.NewSymbol("a/b", "C"), nil}
		s[1] = s
		imp.QualifyTemplateData(s)
	case "cycle-map":
		m := map[string]any{"a": gopoet.NewSymbol("a/b", "C")}
		m["m"] = m
		imp.QualifyTemplateData(m)
	}
}
