package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"net/http"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"text/template"
	"time"
	"unsafe"

	"database/sql"
	"encoding/json"
	"encoding/xml"
	"go/build"
	"html"
	"io/fs"
	"log/slog"
	"math/big"
	"mime/multipart"
	"os/exec"
	"regexp"
	"testing"

	"github.com/jhump/gopoet"

	rtaltfoo "verif/harness/rt/alt/foo"
	rtfoo "verif/harness/rt/foo"
	rtkit "verif/harness/rt/kit"
	"verif/harness/rt/odd"
	"verif/harness/rt/shadow"
)

//go:embed rt/odd/odd.go
var rtOddSrc string

// hugeLen needs more than 32 bits where an int has them.
const hugeLen = 1 << 30 << (math.MaxInt >> 62 * 10)

func init() {
	checks["C11"] = &CheckDef{
		Boost: 2,
		Deep:  3,
		Run:   runC11,
		Rule:  "a case is a reflect type (made with reflect's constructors, declared statically, or reached by reflection from types of the standard library) converted, compared part by part, then rendered, compiled and compared; distinct by the type's structure",
		Needs: map[string]int64{"types_converted": 10000, "types_compiled_back": 5000, "named": 5000, "predeclared": 5000, "structs": 1500, "embedded_fields": 300, "funcs": 500, "variadic": 100, "maps": 500,
			"interfaces": 300, "interface_methods": 300, "reachable_types": 3000, "generated_types": 20, "shadowing_names": 9},
	}
}

func elemType[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// reflStaticTypes cannot be made (or not easily) with reflect's constructors.
var reflStaticTypes = []reflect.Type{
	elemType[interface{}](), elemType[error](), elemType[interface{ M() }](),
	elemType[interface{ Error() string }](), elemType[interface{ String() string }](), elemType[interface{ Close() error }](), elemType[interface {
		Lock()
		Unlock()
	}](), elemType[interface{ Read([]byte) (int, error) }](), elemType[interface{ Write([]byte) (int, error) }](), elemType[interface{ Unwrap() error }](),
	elemType[interface {
		Len() int
		Less(i, j int) bool
		Swap(i, j int)
	}](), elemType[interface{ comparer() }](), elemType[struct{}](), elemType[*struct{}](), elemType[chan struct{}](), elemType[[]error](), elemType[func() error](), elemType[map[string]interface{}](),
	elemType[[0]int](), elemType[[1]int](), elemType[func(...interface{})](), elemType[struct{ error }](), elemType[struct{ _ struct{} }](), elemType[*interface{ Error() string }](), elemType[[16]byte](),
	elemType[struct {
		X int    `json:"-"`
		Y string `json:",omitempty" xml:"-"`
		z int    `gopoet:"-"`
	}](),
	elemType[interface {
		error
		fs.File
		X(a, b int, c ...rtfoo.Num) (r rtaltfoo.Num, err error)
	}](),
	elemType[interface {
		m(interface{ n() })
		Z()
		A() chan interface{ Y() }
	}](),
	elemType[struct {
		a, _ int
		rtfoo.Rec
		*rtaltfoo.Str
		rtkit.Iface
		error
		b struct{ error }
		_ struct{} `x:"y"`
	}](),
	elemType[struct {
		string `json:"embedded"`
		*int
		odd.St
		X odd.Chan
	}](),
	elemType[struct{ *rtfoo.Num }](), elemType[struct {
		time.Time
		*http.Client
		f func(struct{ x int }, ...interface{}) (struct{}, *struct{})
	}](),
	elemType[func(x int, y ...string) (z error)](), elemType[func(...[]int)](), elemType[func([]int)](), elemType[func(...func(...interface{}))](),
	elemType[chan<- (<-chan (chan (<-chan int)))](), elemType[<-chan (chan<- chan func())](), elemType[chan (<-chan interface{})](), elemType[chan (chan<- int)](),
	elemType[map[interface{ X() }]map[[2]struct{ x int }]bool](), elemType[map[chan<- int]func()](), elemType[[0]func()](), elemType[[hugeLen]struct{}](), elemType[[math.MaxInt][0]int](),
	elemType[odd.Pointer](), elemType[odd.Error](), elemType[odd.Empty](), elemType[odd.Chan](), elemType[odd.Fn](), elemType[odd.Map](), elemType[odd.Arr](), elemType[odd.St](), elemType[odd.Ali](), elemType[[]odd.Arr2](),
	elemType[unsafe.Pointer](), elemType[*unsafe.Pointer](), elemType[map[unsafe.Pointer]unsafe.Pointer](),
	elemType[[]byte](), elemType[[]rune](), elemType[uintptr](), elemType[struct {
		Deep struct {
			Deeper *struct {
				Deepest []map[string]func() interface{ M(struct{ X int }) }
			} `a:"b"`
		} "raw`tag"
	}](),
}

func runC11(c *Ctx) {
	c.Run("constructed", c.N(9000, 200000), func(k *Case) { k.reflTypes(k.R.Between(1, 12)) })
	c.Run("large", c.N(100, 4000), func(k *Case) { k.reflTypes(k.R.Between(30, 200)) })
	c.Run("extremes", c.N(100, 2000), func(k *Case) { k.reflTypes(0) })
	c.Run("static", len(reflStaticTypes), func(k *Case) { k.reflCheck([]reflect.Type{reflStaticTypes[k.Idx]}, true) })
	c.Run("shadowing", 1, func(k *Case) { k.reflShadowing() })
	c.Run("methods", 1, func(k *Case) { k.reflMethods() })
	c.Run("generated", c.Fixed(40, 400), func(k *Case) { k.generatedTypes() })
	roots := reflRoots
	c.Run("reachable", len(roots), func(k *Case) { k.reflReachable(roots[k.Idx]) })
}

var reflRoots = []reflect.Type{
	elemType[http.Client](), elemType[http.Server](), elemType[template.Template](), elemType[sql.DB](), elemType[xml.Decoder](), elemType[json.Decoder](), elemType[build.Context](), elemType[types.Package](), elemType[ast.File](),
	elemType[slog.Logger](), elemType[big.Float](), elemType[multipart.Form](), elemType[exec.Cmd](), elemType[regexp.Regexp](), elemType[testing.T](), elemType[token.FileSet](), elemType[os.File](),
	reflect.TypeOf(html.EscapeString), reflect.TypeOf(parser.ParseFile), reflect.TypeOf(types.NewChecker), elemType[gopoet.GoFile](), elemType[gopoet.TypeName](), elemType[gopoet.CodeBlock](), elemType[reflect.Value](), elemType[reflect.Type](),
}

// reflGen makes reflect types with reflect's constructors.
type reflGen struct {
	r      *Rng
	budget int
}

var reflBasics = []reflect.Type{elemType[bool](), elemType[int](), elemType[int8](), elemType[int16](), elemType[int32](), elemType[int64](), elemType[uint](), elemType[uint8](), elemType[uint16](), elemType[uint32](), elemType[uint64](), elemType[uintptr](),
	elemType[float32](), elemType[float64](), elemType[complex64](), elemType[complex128](), elemType[string](), elemType[error](), elemType[unsafe.Pointer](), elemType[interface{}]()}

func (g *reflGen) leaf() reflect.Type {
	switch g.r.IntN(4) {
	case 0:
		return Pick(g.r, reflStatic)
	case 1:
		return Pick(g.r, reflStaticTypes)
	}
	return Pick(g.r, reflBasics)
}

func (g *reflGen) ty() (t reflect.Type) {
	g.budget--
	if g.budget <= 0 {
		return g.leaf()
	}
	defer func() {
		// reflect has limits of its own (sizes, embedding)
		if p := recover(); p != nil {
			t = reflect.PointerTo(g.leaf())
		}
	}()
	switch g.r.IntN(12) {
	case 0, 1:
		return g.leaf()
	case 2:
		return reflect.PointerTo(g.ty())
	case 3:
		return reflect.SliceOf(g.ty())
	case 4:
		if g.r.Chance(20) {
			return reflect.ArrayOf(OneOf(g.r, math.MaxInt32, hugeLen, math.MaxInt), elemType[struct{}]())
		}
		return reflect.ArrayOf(g.r.Size(g.r.IntN(5), 1000), g.ty())
	case 5, 6:
		k := g.ty()
		if !k.Comparable() {
			k = reflect.PointerTo(k)
		}
		return reflect.MapOf(k, g.ty())
	case 7:
		return reflect.ChanOf(OneOf(g.r, reflect.BothDir, reflect.SendDir, reflect.RecvDir), g.ty())
	case 8, 9:
		var in, out []reflect.Type
		for n := g.r.Size(g.r.IntN(4), 40); n > 0; n-- {
			in = append(in, g.ty())
		}
		for n := g.r.Size(g.r.IntN(3), 40); n > 0; n-- {
			out = append(out, g.ty())
		}
		variadic := g.r.Chance(40)
		if variadic {
			in = append(in, reflect.SliceOf(g.ty()))
		}
		return reflect.FuncOf(in, out, variadic)
	default:
		var fs []reflect.StructField
		for n := g.r.Size(g.r.IntN(5), 60); n > 0; n-- {
			f := reflect.StructField{Name: OneOf(g.r, "A", "B", "x", "世", "Ü", "y") + strconv.Itoa(len(fs)), Type: g.ty()}
			if w := g.r.Word(); g.r.Chance(10) && w != "_" && token.IsIdentifier(w) {
				f.Name = w
				if token.IsExported(w) {
					f.Name = "A" + w
				}
			}
			if f.Name[0] != 'A' && f.Name[0] != 'B' && !strings.HasPrefix(f.Name, "Ü") {
				f.PkgPath = ownPath
			}
			if g.r.Chance(30) {
				f.Tag = OneOf(g.r, reflect.StructTag(`json:"a"`), "`", "a\nb", `\`, "%s", "\x00\xff", reflect.StructTag(g.r.SpecialTag()))
			}
			if g.r.Chance(30) {
				// only types without methods and only the first may be embedded
				f.Type = OneOf(g.r, elemType[rtfoo.Rec](), elemType[rtaltfoo.Str](), elemType[*rtkit.Rec](), elemType[rtfoo.Ints](), elemType[http.Cookie](), elemType[rtfoo.Fn]())
				b := f.Type
				if b.Kind() == reflect.Pointer {
					b = b.Elem()
				}
				f.Name, f.Anonymous, f.PkgPath = b.Name(), true, ""
			}
			dup := false
			for _, o := range fs {
				dup = dup || o.Name == f.Name
			}
			if !dup {
				fs = append(fs, f)
			}
		}
		return reflect.StructOf(fs)
	}
}

// extreme makes a type that is very deep or very wide.
func (g *reflGen) extreme() (t reflect.Type) {
	g.budget = g.r.Between(0, 2)
	if g.r.Chance(50) {
		wrap := []func(reflect.Type) reflect.Type{
			reflect.PointerTo, reflect.SliceOf,
			func(t reflect.Type) reflect.Type { return reflect.ChanOf(reflect.BothDir, t) },
			func(t reflect.Type) reflect.Type { return reflect.ChanOf(reflect.RecvDir, t) },
			func(t reflect.Type) reflect.Type { return reflect.MapOf(elemType[string](), t) },
			func(t reflect.Type) reflect.Type { return reflect.MapOf(reflect.PointerTo(t), elemType[bool]()) },
			func(t reflect.Type) reflect.Type { return reflect.FuncOf([]reflect.Type{t}, nil, false) },
			func(t reflect.Type) reflect.Type { return reflect.FuncOf(nil, []reflect.Type{t}, false) },
			func(t reflect.Type) reflect.Type {
				return reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.PointerTo(t)}})
			},
		}
		t = g.ty()
		a, b := Pick(g.r, wrap), Pick(g.r, wrap)
		for n := g.r.Between(10, 150); n > 0; n-- {
			t = OneOf(g.r, a, a, b)(t)
		}
		return t
	}
	list := func(n int) []reflect.Type {
		var ret []reflect.Type
		for ; n > 0; n-- {
			g.budget = g.r.Between(0, 2)
			ret = append(ret, g.ty())
		}
		return ret
	}
	if g.r.Chance(50) {
		return reflect.FuncOf(list(g.r.Between(5, 60)), list(g.r.Between(0, 60)), false)
	}
	defer func() {
		// too big for reflect
		if p := recover(); p != nil {
			t = reflect.SliceOf(g.leaf())
		}
	}()
	var fs []reflect.StructField
	for i, t := range list(g.r.Between(5, 400)) {
		if s := t.Size(); s > 1000 {
			t = reflect.PointerTo(t)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: t, Tag: OneOf(g.r, "", "", reflect.StructTag(fmt.Sprintf(`a:"%d"`, i)))})
	}
	return reflect.StructOf(fs)
}

func (k *Case) reflTypes(budget int) {
	var ts []reflect.Type
	for n := k.R.Between(1, 4); n > 0; n-- {
		g := &reflGen{r: k.R, budget: budget}
		if budget == 0 {
			ts = append(ts, g.extreme())
			continue
		}
		ts = append(ts, g.ty())
	}
	k.reflCheck(ts, true)
}

// reflImp imports packages of types used by reflection.
type reflImp struct{}

var oddPkg struct {
	once sync.Once
	pkg  *types.Package
}

func (reflImp) Import(path string) (*types.Package, error) {
	switch {
	case path == "unsafe":
		return types.Unsafe, nil
	case path == "verif/harness/rt/odd":
		oddPkg.once.Do(func() {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, "odd.go", rtOddSrc, parser.SkipObjectResolution)
			if err != nil {
				bug("%v", err)
			}
			conf := types.Config{Importer: reflImp{}}
			p, err := conf.Check(path, fset, []*ast.File{f}, nil)
			if err != nil {
				bug("%v", err)
			}
			oddPkg.pkg = p
		})
		return oddPkg.pkg, nil
	case strings.HasPrefix(path, "verif/harness/rt/"):
		return upkgByPath[path].Types(), nil
	}
	return stdImport(path)
}

// reflCheck converts types, compares, and compiles them back if wanted.
func (k *Case) reflCheck(ts []reflect.Type, compile bool) {
	var key strings.Builder
	var tns []gopoet.TypeName
	for _, t := range ts {
		model := tyOfReflect(t)
		want := idDump.Ty(model)
		tn := gopoet.TypeNameForReflectType(t)
		k.Count("types_converted", 1)
		if got := idDump.Ty(tyOf(tn)); got != want {
			k.Failf("conversion of %v: %s", t, firstDiff(want, got))
		}
		if again := gopoet.TypeNameForReflectType(t); fullDump.Ty(tyOf(again)) != fullDump.Ty(tyOf(tn)) {
			k.Failf("converting %v again gives another type", t)
		}
		model.walk(func(x *Ty) {
			switch x.K {
			case gopoet.KindNamed:
				k.Count("named", 1)
			case gopoet.KindBasic:
				k.Count("predeclared", 1)
			case gopoet.KindStruct:
				k.Count("structs", 1)
				for _, f := range x.Fields {
					if f.Name == "" {
						k.Count("embedded_fields", 1)
					}
				}
			case gopoet.KindFunc:
				k.Count("funcs", 1)
				if x.Sig.Variadic {
					k.Count("variadic", 1)
				}
			case gopoet.KindMap:
				k.Count("maps", 1)
			case gopoet.KindInterface:
				k.Count("interfaces", 1)
				k.Count("interface_methods", len(x.Methods))
			}
		})
		tns = append(tns, tn)
		key.WriteString(want)
	}
	k.Nontrivial(key.String())
	k.Sample("%v", ts[0])
	if !compile {
		return
	}
	gf := gopoet.NewGoFile("f.go", ownPath, "own")
	for i, tn := range tns {
		gf.AddVar(gopoet.NewVar(fmt.Sprintf("VarOfType%d", i)).SetType(tn))
		gf.AddType(gopoet.NewTypeAlias(fmt.Sprintf("AliasOfType%d", i), tn))
		gf.AddElement(gopoet.NewFunc(fmt.Sprintf("FuncOfType%d", i)).AddArg("arg", tn).AddResult("", gopoet.TypeNameForReflectType(ts[i])).Printlnf("var local %s\nreturn local", ts[i]))
	}
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, gf); err != nil {
		k.Failf("rendering the types %v: %v\n%s", ts, err, unformatted(err))
	}
	c, errs := checkFiles(ownPath, []*Parsed{{Src: b.Bytes()}}, reflImp{})
	if len(errs) > 0 {
		k.Failf("rendered types %v do not compile: %v\n%s", ts, errs[0], numbered(b.Bytes()))
	}
	k.Count("types_compiled_back", len(ts))
	d := Dumper{Sym: symID, NoNames: true}
	for i, t := range ts {
		fn := c.pkg.Scope().Lookup(fmt.Sprintf("FuncOfType%d", i)).Type().(*types.Signature)
		want := d.Ty(tyOfReflect(t))
		for what, got := range map[string]types.Type{
			"variable":  c.pkg.Scope().Lookup(fmt.Sprintf("VarOfType%d", i)).Type(),
			"alias":     types.Unalias(c.pkg.Scope().Lookup(fmt.Sprintf("AliasOfType%d", i)).Type()),
			"parameter": fn.Params().At(0).Type(),
			"result":    fn.Results().At(0).Type(),
		} {
			if got := d.Ty(tyOfGo(got)); got != want {
				k.Failf("type %v comes back as another type in a %s: %s\n%s", t, what, firstDiff(want, got), numbered(b.Bytes()))
			}
		}
	}
}

// reflShadowing converts types that have the names of predeclared types.
func (k *Case) reflShadowing() {
	for _, t := range shadow.Types {
		for what, u := range map[string]reflect.Type{"itself": t, "a slice of it": reflect.SliceOf(t)} {
			tn := gopoet.TypeNameForReflectType(u)
			if what != "itself" {
				tn = tn.Elem()
			}
			if tn.Kind() != gopoet.KindNamed || tn.Symbol().Name != t.Name() || tn.Symbol().Package.ImportPath != t.PkgPath() {
				k.Failf("%v (%s) becomes %v of kind %v, symbol %+v", t, what, tn, tn.Kind(), tn.Symbol())
			}
		}
		k.Count("shadowing_names", 1)
	}
	for _, t := range odd.Renamed {
		tn := gopoet.TypeNameForReflectType(t)
		if tn.Kind() != gopoet.KindNamed || tn.Symbol().Name != t.Name() || tn.Symbol().Package.ImportPath != t.PkgPath() {
			k.Failf("%v becomes %v of kind %v, symbol %+v", t, tn, tn.Kind(), tn.Symbol())
		}
	}
	for _, t := range reflBasics {
		tn := gopoet.TypeNameForReflectType(t)
		want := t.String()
		switch t {
		case elemType[uint8]():
			want = tn.String()
			if want != "byte" && want != "uint8" {
				k.Failf("uint8 is rendered as %q", want)
			}
		case elemType[int32]():
			want = tn.String()
			if want != "rune" && want != "int32" {
				k.Failf("int32 is rendered as %q", want)
			}
		case elemType[error](), elemType[interface{}](), elemType[unsafe.Pointer]():
			continue
		}
		if tn.Kind() != gopoet.KindBasic || tn.BasicKind() != t.Kind() || tn.String() != want || tn.String() != gopoet.BasicType(t.Kind()).String() {
			k.Failf("%v becomes %v of kind %v", t, tn, tn.Kind())
		}
	}
	up := gopoet.TypeNameForReflectType(elemType[unsafe.Pointer]())
	if up.Kind() != gopoet.KindNamed || up.Symbol().Name != "Pointer" || up.Symbol().Package.ImportPath != "unsafe" {
		k.Failf("unsafe.Pointer becomes %v of kind %v", up, up.Kind())
	}
	// the other names of predeclared types cannot be told apart in reflection
	for n, t := range map[string]reflect.Type{"uint8": elemType[struct{ uint8 }](), "byte": elemType[struct{ byte }](), "int32": elemType[struct{ int32 }](), "rune": elemType[struct{ rune }]()} {
		got := gopoet.TypeNameForReflectType(t).String()
		p, err := parseTy(got, textResolve)
		if err != nil || len(p.Fields) != 1 || p.Fields[0].Name != "" || p.Fields[0].Tag != "" {
			k.Failf("type %v is rendered as %q", t, got)
		}
		other := map[string]string{"uint8": "byte", "byte": "uint8", "int32": "rune", "rune": "int32"}[n]
		switch {
		case strings.Contains(got, n):
		case strings.Contains(got, other):
			k.Known("KF-3 a struct field embedding uint8 or int32 (reflect) is rendered under the other name of the type")
		default:
			k.Failf("type %v is rendered as %q", t, got)
		}
	}
	for t, want := range map[reflect.Type]string{elemType[struct{ any }](): "any", elemType[struct{ odd.Ali }](): "Ali", elemType[struct{ *odd.Ali }](): "*Ali"} {
		e := gopoet.TypeNameForReflectType(t).Fields()[0]
		switch {
		case e.Name == "" && (e.Type.String() == want || e.Type.Kind() == gopoet.KindNamed && e.Type.Symbol().Name == want):
		case e.Name == "" && idDump.Ty(tyOf(e.Type)) == idDump.Ty(tyOfReflect(t.Field(0).Type)):
			k.Known("KF-4 a struct field embedding an alias (reflect) is rendered as embedding the type it stands for")
		default:
			k.Failf("%v becomes %v", t, gopoet.TypeNameForReflectType(t))
		}
	}
	k.Nontrivial("shadowing")
}

// reflMethods converts method types found by reflection.
func (k *Case) reflMethods() {
	var ts []reflect.Type
	for _, t := range append(append([]reflect.Type{}, reflRoots...), reflStatic...) {
		for _, u := range []reflect.Type{t, reflect.PointerTo(t)} {
			for i := 0; i < u.NumMethod(); i++ {
				if mt := u.Method(i).Type; expressible(mt, map[reflect.Type]bool{}, false) {
					ts = append(ts, mt)
				}
			}
		}
	}
	for len(ts) > 0 {
		n := min(len(ts), 100)
		k.reflCheck(ts[:n], false)
		ts = ts[n:]
	}
}

// expressible tells whether a type has no instantiated or local types in it,
// and, to compile it elsewhere, only exported ones.
func expressible(t reflect.Type, seen map[reflect.Type]bool, compile bool) bool {
	if strings.Contains(t.Name(), "[") {
		return false
	}
	if t.Name() != "" {
		if !compile || t.PkgPath() == "" {
			return true
		}
		return token.IsExported(t.Name()) && !strings.Contains(t.PkgPath(), "gopoet") && !strings.HasPrefix(t.PkgPath(), "vendor/")
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Chan:
		return expressible(t.Elem(), seen, compile)
	case reflect.Map:
		return expressible(t.Key(), seen, compile) && expressible(t.Elem(), seen, compile)
	case reflect.Func:
		for i := 0; i < t.NumIn(); i++ {
			if !expressible(t.In(i), seen, compile) {
				return false
			}
		}
		for i := 0; i < t.NumOut(); i++ {
			if !expressible(t.Out(i), seen, compile) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous && embedsAlias(f) || !expressible(f.Type, seen, compile) {
				return false
			}
		}
	case reflect.Interface:
		for i := 0; i < t.NumMethod(); i++ {
			if !expressible(t.Method(i).Type, seen, compile) {
				return false
			}
		}
	}
	return true
}

// embedsAlias tells whether a field embeds an alias, of which reflection tells
// only the name (byte and rune are the aliases that gopoet renders), see KF-3
// and KF-4.
func embedsAlias(f reflect.StructField) bool {
	t := f.Type
	if t.Name() == "" && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if f.Name == "uint8" || f.Name == "int32" {
		return true
	}
	if f.Name == "byte" || f.Name == "rune" {
		return false
	}
	return t.Name() != f.Name
}

// reflReachable converts all types that reflection reaches from a type.
func (k *Case) reflReachable(root reflect.Type) {
	seen := map[reflect.Type]bool{root: true}
	queue := []reflect.Type{root}
	add := func(t reflect.Type) {
		if !seen[t] {
			seen[t] = true
			queue = append(queue, t)
		}
	}
	var here, back []reflect.Type
	for i := 0; i < len(queue) && i < k.N(1200, 20000); i++ {
		t := queue[i]
		if expressible(t, map[reflect.Type]bool{}, false) {
			here = append(here, t)
			if expressible(t, map[reflect.Type]bool{}, true) {
				back = append(back, t)
			}
		}
		switch t.Kind() {
		case reflect.Map:
			add(t.Key())
			add(t.Elem())
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Chan:
			add(t.Elem())
		case reflect.Func:
			for i := 0; i < t.NumIn(); i++ {
				add(t.In(i))
			}
			for i := 0; i < t.NumOut(); i++ {
				add(t.Out(i))
			}
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				add(t.Field(i).Type)
			}
		}
		for i := 0; i < t.NumMethod(); i++ {
			add(t.Method(i).Type)
		}
	}
	k.Count("reachable_types", len(here))
	for len(here) > 0 {
		n := min(len(here), 100)
		k.reflCheck(here[:n], false)
		here = here[n:]
	}
	if _, err := os.Stat(build.Default.GOROOT); err != nil {
		return
	}
	for len(back) > 0 {
		n := min(len(back), 100)
		k.reflCheck(back[:n], true)
		back = back[n:]
	}
}
