package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C02"] = &CheckDef{
		Boost:  8,
		Deep:   8,
		Rule:   "random histories of 5-60 operations (every registering and looking-up method of Imports) over paths and names chosen to conflict; after every operation an online monitor with a reference model re-checks all prefixes and the import list; nontrivial histories register at least 3 paths",
		Shards: 8,
		Needs:  map[string]int64{"operations": 10000, "conflicts": 500, "lookups_of_unregistered": 300, "unusable_names": 300},
		Run:    runC02,
	}
}

var importPaths = []string{"unsafe", "x/unsafe", "foo", "a/foo", "b/foo", "c/foo", "a/foo1", "b/foo1", "a/foo2", "a/foo11", "a/v2", "b/v2", "gopkg.in/foo.v1", "a/foo-bar", "a/foo.bar", "a/foo_bar",
	"a/type", "a/func", "b/type", "a/string", "a/len", "a/init", "a/_", "a/3d", "a/世界", "b/世界", "a/1", "x/é", "a b/c d", "a/bär-x", "a/x~y", "a/_1", "main", "own", "own/sub", "x/own", "C", "unsafe", "a/nil", "a/any", "fmt", "a/fmt", "a/...", "a/-", "a/iota"}

var importNames = []string{"", "", "", "foo", "foo", "foo", "foo1", "foo2", "foo11", "foo3", "bar", "type", "func", "type1", "_", "_1", "string", "string1", "len", "init", "init1", "3d", "_3d", "世界", "世界1", "main", "foo-bar", "foo_bar", "v2", "any", "nil", "fmt", "unsafe", "own", "a.b", "é"}

func usable(name string) bool { return token.IsIdentifier(name) && name != "_" }

func predeclared(name string) bool { return types.Universe.Lookup(name) != nil }

type importModel struct {
	own    string
	imp    *gopoet.Imports
	prefix map[string]string // by path, without dot
	name   map[string]string // by path, as first given
	log    []string
}

func (m *importModel) fail(k *Case, format string, args ...any) {
	k.Failf("%s\nfile package: %q\nhistory:\n %s", fmt.Sprintf(format, args...), m.own, strings.Join(m.log, "\n "))
}

// registered tells the model which packages an operation may have registered
// for the first time; then everything is checked.
func (m *importModel) registered(k *Case, pkgs ...gopoet.Package) {
	var fresh []gopoet.Package
	for _, p := range pkgs {
		if _, ok := m.prefix[p.ImportPath]; ok || p.ImportPath == m.own {
			continue
		}
		m.name[p.ImportPath] = p.Name
		var pre string
		if bad, v := panics(func() { pre = m.imp.PrefixForPackage(p.ImportPath) }); bad {
			m.fail(k, "%q was registered but looking it up panics: %v", p.ImportPath, v)
		}
		if !strings.HasSuffix(pre, ".") {
			m.fail(k, "prefix %q of %q has no dot at the end", pre, p.ImportPath)
		}
		pre = strings.TrimSuffix(pre, ".")
		if !usable(pre) {
			m.fail(k, "prefix %q of %q is not usable as package name", pre, p.ImportPath)
		}
		if pre != p.Name && (predeclared(pre) || pre == "init") {
			m.fail(k, "made-up prefix %q of %q is reserved", pre, p.ImportPath)
		}
		for other, o := range m.prefix {
			if o == pre {
				m.fail(k, "%q and %q share prefix %q", other, p.ImportPath, pre)
			}
		}
		m.prefix[p.ImportPath] = pre
		fresh = append(fresh, p)
	}
	for _, p := range fresh {
		if n := p.Name; n != "" && n != m.prefix[p.ImportPath] {
			taken := false
			for path, pre := range m.prefix {
				taken = taken || pre == n && path != p.ImportPath
			}
			if taken {
				k.Count("conflicts", 1)
			} else if usable(n) && !predeclared(n) && n != "init" {
				m.fail(k, "%q got prefix %q although its name %q is free", p.ImportPath, m.prefix[p.ImportPath], n)
			} else {
				k.Count("unusable_names", 1)
			}
		}
	}
	m.check(k)
}

func (m *importModel) check(k *Case) {
	for path, pre := range m.prefix {
		if got := m.imp.PrefixForPackage(path); got != pre+"." {
			m.fail(k, "prefix of %q changed from %q to %q", path, pre+".", got)
		}
	}
	if got := m.imp.PrefixForPackage(m.own); got != "" {
		m.fail(k, "the file's own package has prefix %q", got)
	}
	specs := m.imp.ImportSpecs()
	var paths []string
	for p := range m.prefix {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	if len(specs) != len(paths) {
		m.fail(k, "import list %v, expected the paths %q", specs, paths)
	}
	for i, s := range specs {
		if s.ImportPath != paths[i] {
			m.fail(k, "import list %v, expected the paths %q", specs, paths)
		}
		pre, name := m.prefix[s.ImportPath], m.name[s.ImportPath]
		want := ""
		if name == "" || name != pre {
			want = pre
		}
		if s.PackageAlias != want {
			m.fail(k, "%q (name %q, prefix %q) is listed with alias %q, expected %q", s.ImportPath, name, pre, s.PackageAlias, want)
		}
		// as source text
		f, err := parser.ParseFile(token.NewFileSet(), "", "package p\nimport "+s.String()+"\n", parser.SkipObjectResolution)
		if err != nil {
			if strings.ContainsAny(s.ImportPath, " ") {
				continue // not a valid path in source
			}
			m.fail(k, "import %s does not parse: %v", s, err)
		}
		is := f.Decls[0].(*ast.GenDecl).Specs[0].(*ast.ImportSpec)
		p, _ := strconv.Unquote(is.Path.Value)
		a := ""
		if is.Name != nil {
			a = is.Name.Name
		}
		if p != s.ImportPath || a != want {
			m.fail(k, "import spec %q/%q has text %s", s.PackageAlias, s.ImportPath, s)
		}
	}
	// the list is the caller's own
	for i := range specs {
		specs[i] = gopoet.ImportSpec{PackageAlias: "x", ImportPath: "y"}
	}
	k.Count("operations", 1)
}

func runC02(c *Ctx) {
	c.Run("histories", c.N(3000, 80000), func(k *Case) { k.importHistory(importPaths, importNames, 5, 60) })
	c.Run("tight", c.N(1500, 40000), func(k *Case) {
		// few names, so that made-up names run into declared ones
		k.importHistory([]string{"a/foo", "b/foo", "c/foo", "d/foo", "e/foo1", "f/foo1", "g/foo2", "h/foo11", "i/foo3", "own"}, []string{"foo", "foo1", "foo2", "foo3", "foo11", ""}, 5, 25)
	})
	c.Run("random-names", c.N(800, 20000), func(k *Case) {
		var paths, names []string
		alphabet := []rune("ab_1.-~é世ǅ/ ")
		for i := 0; i < 12; i++ {
			var b, n strings.Builder
			for j := k.R.Between(1, 4); j > 0; j-- {
				b.WriteRune(Pick(k.R, alphabet))
			}
			for j := k.R.IntN(4); j > 0; j-- {
				n.WriteRune(Pick(k.R, alphabet))
			}
			paths = append(paths, b.String())
			names = append(names, n.String())
		}
		k.importHistory(paths, names, 5, 30)
	})
	c.Run("relatives", c.N(1500, 40000), func(k *Case) {
		paths, names := relatives(k.R)
		k.importHistory(paths, names, 8, 40)
	})
	c.Run("dictionary", c.N(800, 20000), func(k *Case) {
		// what the code under test knows, as paths and names
		r := k.R
		paths, names := []string{"own", "a/foo", "b/foo"}, []string{"", "foo"}
		for i := 0; i < 10; i++ {
			w := r.Word()
			if p := r.Str(); r.Chance(40) && pathText(p) {
				w = p
			}
			paths = append(paths, OneOf(r, w, "a/"+w, w+"/b", "b/"+w, w+".com/x", "a/"+w+"/v2", "a/"+w+".v1"))
			names = append(names, OneOf(r, r.Word(), r.Word(), r.Word()+"1", strings.ToLower(r.Word())))
		}
		k.importHistory(paths, names, 5, 40)
	})
	c.Run("many", c.N(6, 60), func(k *Case) {
		var paths []string
		for i := 0; i < 150; i++ {
			paths = append(paths, fmt.Sprintf("p%d/foo", i), fmt.Sprintf("q/foo%d", i))
		}
		k.importHistory(paths, []string{"foo", "foo", "", "foo7", "foo12"}, 150, 200)
	})
	c.Run("crowds", c.N(12, 150), func(k *Case) { k.crowd() })
}

// pathRelatives derive import paths from others: ones that tools treat as
// related, or that are easily confused. All of them are different packages.
var pathRelatives = []func(r *Rng, p, q string) string{
	func(r *Rng, p, q string) string { return p + "/vendor/" + q },
	func(r *Rng, p, q string) string { return "vendor/" + p },
	func(r *Rng, p, q string) string { return p + "/internal/" + q },
	func(r *Rng, p, q string) string { return p + "/internal" },
	func(r *Rng, p, q string) string { return p + "_test" },
	func(r *Rng, p, q string) string { return p + ".test" },
	func(r *Rng, p, q string) string { return p + "/testdata/" + q },
	func(r *Rng, p, q string) string { return strings.ToUpper(p) },
	func(r *Rng, p, q string) string { return strings.ToLower(p) },
	func(r *Rng, p, q string) string { return strings.Title(p) },
	func(r *Rng, p, q string) string { return p + OneOf(r, "/v2", "/v10", ".v1", "@v1", "/v0") },
	func(r *Rng, p, q string) string { return p + "/" },
	func(r *Rng, p, q string) string { return "/" + p },
	func(r *Rng, p, q string) string { return OneOf(r, "./", "../") + p },
	func(r *Rng, p, q string) string { return strings.Replace(p, "/", "//", 1) },
	func(r *Rng, p, q string) string { return strings.Replace(p, "/", "/./", 1) },
	func(r *Rng, p, q string) string { return p + "/" + q },
	func(r *Rng, p, q string) string { return p + "/" + p },
	func(r *Rng, p, q string) string {
		return OneOf(r, "go-", "go.", "golang.org/x/", "std/", "cmd/", "_/") + p
	},
	func(r *Rng, p, q string) string {
		return p + OneOf(r, "-go", ".go", ".git", "pb", "-gen", "_", "~", "+")
	},
	func(r *Rng, p, q string) string { return strings.ReplaceAll(p, "/", "_") },
	func(r *Rng, p, q string) string { return strings.ReplaceAll(p, "o", "0") },
	func(r *Rng, p, q string) string { return p + "/" + strings.Repeat("long", r.Between(5, 100)) },
	func(r *Rng, p, q string) string { return strings.Repeat("d/", r.Between(5, 100)) + p },
	func(r *Rng, p, q string) string { return strings.ReplaceAll(p, "é", "e\u0301") },
	func(r *Rng, p, q string) string { return strings.ReplaceAll(p, "k", "\u212a") },
}

var nameRelatives = []func(r *Rng, n string) string{
	strings1(strings.ToUpper), strings1(strings.ToLower), strings1(strings.Title),
	func(r *Rng, n string) string { return n + "_test" },
	func(r *Rng, n string) string { return n + OneOf(r, "_", "pb", "1", "10", "V2") },
	func(r *Rng, n string) string { return "_" + n },
	func(r *Rng, n string) string { return strings.Repeat(n, r.Between(10, 100)) },
	func(r *Rng, n string) string { return n + n },
	func(r *Rng, n string) string { return strings.ReplaceAll(n, "é", "e\u0301") },
	func(r *Rng, n string) string { return strings.ReplaceAll(n, "k", "\u212a") },
	func(r *Rng, n string) string {
		return OneOf(r, "fmt", "sort", "os", "main", "testing", "internal", "vendor", "Any", "Int", "TRUE", "documentation")
	},
}

func strings1(f func(string) string) func(*Rng, string) string {
	return func(_ *Rng, s string) string { return f(s) }
}

func relatives(r *Rng) (paths, names []string) {
	paths = []string{"own", OneOf(r, "a.b/foo", "kök/é", "own/foo", "example.com/x/foo"), OneOf(r, "foo", "fmt", "net/http", "own/own", "golang.org/x/net/context")}
	names = []string{"", "own", OneOf(r, "foo", "kéy", "http", "Foo", "a")}
	for len(paths) < 14 {
		paths = append(paths, Pick(r, pathRelatives)(r, Pick(r, paths), Pick(r, paths)))
		if len(paths[len(paths)-1]) > 1000 {
			paths = paths[:len(paths)-1]
		}
	}
	for len(names) < 9 {
		names = append(names, Pick(r, nameRelatives)(r, Pick(r, names)))
		if len(names[len(names)-1]) > 1000 {
			names = names[:len(names)-1]
		}
	}
	return
}

// pathText tells if a string can be part of an import path in source.
func pathText(s string) bool {
	return s != "" && strings.Trim(s, "/") == s && strings.IndexFunc(s, func(r rune) bool {
		return r != '/' && r != '.' && r != '-' && r != '_' && (r > 0x7f || !unicode.IsLetter(r) && !unicode.IsDigit(r))
	}) < 0
}

// crowd registers a large number of packages of the same name, possibly one
// that cannot be used, mixed with names that look like the ones made up.
func (k *Case) crowd() {
	r := k.R
	m := &importModel{own: "own", imp: gopoet.NewImportsFor("own"), prefix: map[string]string{}, name: map[string]string{}}
	base := OneOf(r, "foo", "foo", "int", "type", "init", "_", "x9", "1", "世界", "v2")
	n := OneOf(r, 11, 40, 120, 300, 1100, r.Between(2, 2000))
	byPrefix := map[string]string{}
	for i := 0; i < n; i++ {
		path, name := fmt.Sprintf("p%d/%s", i, base), base
		switch r.IntN(12) {
		case 0:
			name = ""
		case 1:
			name = base + strconv.Itoa(r.Between(0, n+n/4))
		}
		pre := strings.TrimSuffix(m.imp.RegisterImport(path, name), ".")
		if !usable(pre) || pre != name && (predeclared(pre) || pre == "init") {
			m.fail(k, "package %d, %q with name %q, got prefix %q", i, path, name, pre)
		}
		if o, ok := byPrefix[pre]; ok {
			m.fail(k, "%q and %q share prefix %q", o, path, pre)
		} else if name != "" && pre != name && byPrefix[name] == "" && usable(name) && !predeclared(name) && name != "init" {
			m.fail(k, "package %d, %q, got prefix %q although its name %q is free", i, path, pre, name)
		}
		byPrefix[pre] = path
		m.prefix[path], m.name[path] = pre, name
	}
	m.check(k)
	k.Count("packages_in_crowds", n)
	k.Nontrivial(fmt.Sprint(base, n, len(byPrefix), r.Uint64()))
	k.Sample("%d packages called %q", n, base)
}

func (k *Case) importHistory(paths, names []string, lo, hi int) {
	r := k.R
	own := OneOf(r, "own", "own", "own", "", "a/foo", paths[0])
	m := &importModel{own: own, imp: gopoet.NewImportsFor(own), prefix: map[string]string{}, name: map[string]string{}}
	m.check(k)
	pkg := func() gopoet.Package { return gopoet.Package{ImportPath: Pick(r, paths), Name: Pick(r, names)} }
	if r.Chance(30) {
		// every path has one name, as in reality
		byPath := map[string]string{}
		for _, p := range paths {
			byPath[p] = Pick(r, names)
		}
		pkg = func() gopoet.Package {
			p := Pick(r, paths)
			return gopoet.Package{ImportPath: p, Name: byPath[p]}
		}
	}
	want := func(p gopoet.Package) string {
		if p.ImportPath == own {
			return ""
		}
		return m.prefix[p.ImportPath]
	}
	dotted := func(s string) string {
		if s == "" {
			return ""
		}
		return s + "."
	}
	log := func(format string, args ...any) { m.log = append(m.log, fmt.Sprintf(format, args...)) }
	checkTy := func(what string, t gopoet.TypeName, p gopoet.Package) {
		if got := t.Symbol(); got.Package.Name != want(p) || got.Package.ImportPath != p.ImportPath {
			m.fail(k, "%s gave %#v, expected prefix %q", what, got, want(p))
		}
	}
	for n := r.Between(lo, hi); n > 0; n-- {
		p := pkg()
		switch op := r.IntN(14); op {
		case 0, 1, 2:
			log("RegisterImport(%q, %q)", p.ImportPath, p.Name)
			got := m.imp.RegisterImport(p.ImportPath, p.Name)
			m.registered(k, p)
			if got != dotted(want(p)) {
				m.fail(k, "RegisterImport returned %q, but the prefix is %q", got, dotted(want(p)))
			}
		case 3:
			log("RegisterImportForPackage(%#v)", p)
			got := m.imp.RegisterImportForPackage(p)
			m.registered(k, p)
			if got != dotted(want(p)) {
				m.fail(k, "RegisterImportForPackage returned %q, but the prefix is %q", got, dotted(want(p)))
			}
		case 4, 5:
			if p == (gopoet.Package{}) {
				continue
			}
			log("EnsureImported(%#v)", p.Symbol("X"))
			got := m.imp.EnsureImported(p.Symbol("X"))
			m.registered(k, p)
			if got.Package.Name != want(p) || got.Package.ImportPath != p.ImportPath || got.Name != "X" {
				m.fail(k, "EnsureImported returned %#v, but the prefix is %q", got, want(p))
			}
		case 6:
			q := pkg()
			if p == (gopoet.Package{}) || q == (gopoet.Package{}) {
				continue
			}
			if q.ImportPath == p.ImportPath {
				q.Name = p.Name
			}
			log("EnsureTypeImported(map[%#v]%#v)", p.Symbol("X"), q.Symbol("Y"))
			got := m.imp.EnsureTypeImported(gopoet.MapType(gopoet.NamedType(p.Symbol("X")), gopoet.NamedType(q.Symbol("Y"))))
			m.registered(k, p, q)
			checkTy("EnsureTypeImported", got.Key(), p)
			checkTy("EnsureTypeImported", got.Elem(), q)
		case 7:
			q := pkg()
			if p == (gopoet.Package{}) || q == (gopoet.Package{}) {
				continue
			}
			if q.ImportPath == p.ImportPath {
				q.Name = p.Name
			}
			log("EnsureAllTypesImported(func(%#v) %#v)", p.Symbol("X"), q.Symbol("Y"))
			got := m.imp.EnsureAllTypesImported((&gopoet.Signature{}).AddArg("", gopoet.NamedType(p.Symbol("X"))).AddResult("", gopoet.NamedType(q.Symbol("Y"))))
			m.registered(k, p, q)
			checkTy("EnsureAllTypesImported", got.Args[0].Type, p)
			checkTy("EnsureAllTypesImported", got.Results[0].Type, q)
		case 8:
			if p == (gopoet.Package{}) {
				continue
			}
			log("QualifyTemplateData(%#v)", p)
			got := m.imp.QualifyTemplateData([]any{p, p.Symbol("X")}).([]any)
			m.registered(k, p)
			if g := got[0].(gopoet.Package); g.Name != want(p) || g.ImportPath != p.ImportPath {
				m.fail(k, "QualifyTemplateData returned %#v, but the prefix is %q", g, want(p))
			}
			if g := got[1].(gopoet.Symbol); g.Package.Name != want(p) || g.Package.ImportPath != p.ImportPath {
				m.fail(k, "QualifyTemplateData returned %#v, but the prefix is %q", g, want(p))
			}
		default:
			_, known := m.prefix[p.ImportPath]
			known = known || p.ImportPath == own
			var f func() string
			switch op {
			case 9, 10:
				log("PrefixForPackage(%q)", p.ImportPath)
				f = func() string { return strings.TrimSuffix(m.imp.PrefixForPackage(p.ImportPath), ".") }
			case 11:
				if p == (gopoet.Package{}) {
					continue
				}
				log("Qualify(%#v)", p.Symbol("X"))
				f = func() string { return m.imp.Qualify(p.Symbol("X")).Package.Name }
			case 12:
				if p == (gopoet.Package{}) {
					continue
				}
				log("QualifyType(%#v)", p.Symbol("X"))
				f = func() string {
					return m.imp.QualifyType(gopoet.PointerType(gopoet.NamedType(p.Symbol("X")))).Elem().Symbol().Package.Name
				}
			default:
				if p == (gopoet.Package{}) {
					continue
				}
				log("QualifySignature(%#v)", p.Symbol("X"))
				f = func() string {
					return m.imp.QualifySignature((&gopoet.Signature{}).AddArg("a", gopoet.NamedType(p.Symbol("X")))).Args[0].Type.Symbol().Package.Name
				}
			}
			var got string
			bad, _ := panics(func() { got = f() })
			switch {
			case bad && known:
				m.fail(k, "looking up registered %q panicked", p.ImportPath)
			case !bad && !known:
				m.fail(k, "looking up %q, which was never registered, did not panic but gave %q", p.ImportPath, got)
			case !bad && got != want(p):
				m.fail(k, "looking up %q gave %q, but the prefix is %q", p.ImportPath, got, want(p))
			}
			if !known {
				k.Count("lookups_of_unregistered", 1)
			}
			m.check(k)
		}
	}
	if len(m.prefix) >= 3 {
		k.Nontrivial(own + strings.Join(m.log, "\n"))
	}
	k.Sample("own=%q: %s", own, strings.Join(m.log[:min(len(m.log), 8)], "; "))
}
