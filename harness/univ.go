package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	rtaltfoo "verif/harness/rt/alt/foo"
	rtfoo "verif/harness/rt/foo"
	rtkit "verif/harness/rt/kit"
)

var unsafePtr unsafe.Pointer

// UPkg is a package that generated files refer to. All of them have the same
// declarations (see uSource) so that only the import path tells them apart.
type UPkg struct {
	Idx        int
	Path, Name string
	Extra      []string // names of extra types
	src        string   // complete source instead of the usual one
	once       sync.Once
	pkg        *types.Package
}

//go:embed rt/foo/foo.go
var rtFooSrc string

//go:embed rt/alt/foo/foo.go
var rtAltFooSrc string

//go:embed rt/kit/kit.go
var rtKitSrc string

// universe is full of conflicts: packages with the same name, names that look
// like made-up aliases for others, names that are not the last path element,
// paths whose last element is no identifier, and predeclared names.
var universe = []*UPkg{
	{Path: "foo", Name: "foo"},
	{Path: "example.com/foo", Name: "foo"},
	{Path: "example.com/x/foo", Name: "foo"},
	{Path: "example.com/foo1", Name: "foo1"},
	{Path: "example.com/y/foo1", Name: "foo1"},
	{Path: "example.com/foo2", Name: "foo2"},
	{Path: "example.com/foo11", Name: "foo11"},
	{Path: "example.com/foo/v2", Name: "foo"},
	{Path: "example.com/bar/v2", Name: "bar"},
	{Path: "example.com/go-bar", Name: "bar"},
	{Path: "example.com/go_bar", Name: "go_bar"},
	{Path: "gopkg.in/yaml.v2", Name: "yaml"},
	{Path: "example.com/type", Name: "typ"},
	{Path: "example.com/string", Name: "string"},
	{Path: "example.com/error", Name: "error"},
	{Path: "example.com/x/error", Name: "error"},
	{Path: "example.com/len", Name: "len"},
	{Path: "example.com/3d", Name: "three"},
	{Path: "example.com/世界", Name: "世界"},
	{Path: "example.com/init", Name: "init"},
	{Path: "example.com/_x", Name: "_x"},
	{Path: "example.com/foo-bar", Name: "foobar"},
	{Path: "example.com/foo.bar", Name: "foobar"},
	{Path: "net/http", Name: "http", Extra: []string{"Client", "Header"}},
	{Path: "a.com/http", Name: "http"},
	{Path: "bytes", Name: "bytes", Extra: []string{"Buffer", "Reader"}},
	{Path: "b.com/bytes", Name: "bytes"},
	{Path: "time", Name: "time", Extra: []string{"Duration", "Time"}},
	{Path: "text/template", Name: "template", Extra: []string{"Template"}},
	{Path: "html/template", Name: "template", Extra: []string{"Template"}},
	// relatives: paths that say something about others (and are still others)
	{Path: "example.com/foo_test", Name: "foo_test"},
	{Path: "example.com/Foo", Name: "Foo"},
	{Path: "EXAMPLE.com/foo", Name: "foo"},
	{Path: "vendor/example.com/foo", Name: "foo"},
	{Path: "example.com/y/vendor/example.com/foo", Name: "foo"},
	{Path: "example.com/foo/internal/foo", Name: "foo"},
	{Path: "example.com/foo/v10", Name: "foo"},
	{Path: "example.com/foo.git", Name: "foo"},
	{Path: "example.com/x/Bytes", Name: "Bytes"},
	{Path: "cmd/internal/time", Name: "time"},
	{Path: "golang.org/x/net/context/ctxhttp/a-rather-long-path-that-goes-on-and-on/aPackageWithAVeryLongNameIndeed", Name: "aPackageWithAVeryLongNameIndeed"},
	{Path: "golang.org/x/net/context/ctxhttp/a-rather-long-path-that-goes-on-and-on/aPackageWithAVeryLongNameIndeed/v2", Name: "aPackageWithAVeryLongNameIndeed"},
	{Path: "verif/harness/rt/foo", Name: "foo", src: "rtfoo"},
	{Path: "verif/harness/rt/alt/foo", Name: "foo", src: "rtalt"},
	{Path: "verif/harness/rt/kit", Name: "toolkit", src: "rtkit"},
}

var upkgByPath = map[string]*UPkg{}

// plainU are the packages with the usual declarations.
var plainU []*UPkg

// relativesU are packages whose paths are made from those of the packages that
// files are generated for.
var relativesU []*UPkg

// pickUs chooses the packages that a world refers to: fewer packages make for
// more references to the same ones.
func pickUs(r *Rng, locals []*LPkg) []*UPkg {
	if r.Chance(25) {
		return plainU
	}
	var us []*UPkg
	for _, l := range locals {
		for _, u := range relativesU {
			if strings.Contains(u.Path, l.Path) && r.Chance(50) {
				us = append(us, u)
			}
		}
	}
	for n := r.Between(4, 25); n > 0; n-- {
		us = append(us, Pick(r, plainU))
	}
	return us
}

// reflRefs are types to refer to by reflection.
type reflRef struct {
	T       reflect.Type
	Sym     Sym
	IsIface bool
}

var reflRefs []reflRef

func init() {
	for _, l := range localPkgChoices {
		rs := []*UPkg{{Path: l.Path + "_test", Name: l.Name + "_test"}, {Path: l.Path + "/" + l.Name, Name: l.Name}, {Path: "x/" + l.Path, Name: l.Name},
			{Path: "vendor/" + l.Path, Name: l.Name}, {Path: l.Path + "/v2", Name: l.Name}, {Path: strings.ToUpper(l.Path), Name: l.Name}, {Path: l.Path + "2", Name: l.Name + "2"}, {Path: l.Path + "/internal", Name: "internal"}}
		relativesU = append(relativesU, rs...)
		universe = append(universe, rs...)
	}
	for i, u := range universe {
		u.Idx = i
		upkgByPath[u.Path] = u
		switch u.src {
		case "rtfoo":
			u.src = rtFooSrc
		case "rtalt":
			u.src = rtAltFooSrc
		case "rtkit":
			u.src = rtKitSrc
		default:
			plainU = append(plainU, u)
		}
	}
	for _, t := range reflStatic {
		reflRefs = append(reflRefs, reflRef{T: t, Sym: Sym{Path: t.PkgPath(), Name: t.Name()}, IsIface: t.Kind() == reflect.Interface})
	}
}

var reflStatic = []reflect.Type{
	reflect.TypeOf(rtfoo.Num(0)), reflect.TypeOf(rtfoo.Rec{}), reflect.TypeOf(rtfoo.Str("")), reflect.TypeOf(rtfoo.Fn(nil)),
	reflect.TypeOf((*rtfoo.Iface)(nil)).Elem(), reflect.TypeOf(rtfoo.Ints(nil)),
	reflect.TypeOf(rtaltfoo.Num(0)), reflect.TypeOf(rtaltfoo.Rec{}), reflect.TypeOf(rtaltfoo.Str("")), reflect.TypeOf(rtaltfoo.Fn(nil)),
	reflect.TypeOf((*rtaltfoo.Iface)(nil)).Elem(),
	reflect.TypeOf(rtkit.Num(0)), reflect.TypeOf(rtkit.Rec{}), reflect.TypeOf(rtkit.Str("")),
	reflect.TypeOf((*rtkit.Iface)(nil)).Elem(),
}

func uSource(u *UPkg) string {
	if u.src != "" {
		return u.src
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n", u.Name)
	fmt.Fprintf(&b, `
type T0 int
func (T0) M0() int { return 0 }
func (*T0) P0() {}
type T1 struct { X int }
func (T1) M1(a int, b ...T0) (T2, error) { return "", nil }
type T2 string
type T3 map[string]int
type T4 func(int) error
type I0 interface { MI%d(T1) }
type A0 = T1
const C0 = 1
const C1 = "s"
const C2 T0 = 3
var V0 int
var V1 T1
func F0() {}
func F1(a int, b ...string) (T1, error) { return T1{}, nil }
`, u.Idx)
	for _, e := range u.Extra {
		fmt.Fprintf(&b, "type %s struct { _ int }\n", e)
	}
	return b.String()
}

// Types returns the type-checked package.
func (u *UPkg) Types() *types.Package {
	u.once.Do(func() {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "u.go", uSource(u), parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		conf := types.Config{Importer: importer.Default()}
		p, err := conf.Check(u.Path, fset, []*ast.File{f}, nil)
		if err != nil {
			panic(fmt.Sprintf("%s: %v", u.Path, err))
		}
		u.pkg = p
	})
	return u.pkg
}

// mapImporter resolves imports to the universe and to given packages.
type mapImporter map[string]*types.Package

func (m mapImporter) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if t := m[p]; t != nil {
		return t, nil
	}
	if u := upkgByPath[p]; u != nil {
		return u.Types(), nil
	}
	return nil, fmt.Errorf("no package %q", p)
}

// symsKnown returns how a reference to the package may give the package name:
// properly, not at all, or (when the last path element is no identifier) as
// the last path element, which is what NewPackage does.
func (u *UPkg) nameForms() []string {
	forms := []string{u.Name, u.Name, ""}
	if base := path.Base(u.Path); !token.IsIdentifier(base) && base != u.Name {
		forms = append(forms, base)
	}
	return forms
}
