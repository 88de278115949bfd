package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

func unformatted(err error) string {
	if fe, ok := err.(*gopoet.FormatError); ok {
		return numbered(fe.Unformatted)
	}
	return ""
}

func init() {
	checks["C04"] = &CheckDef{
		Boost:  8,
		Deep:   8,
		Rule:   "random worlds of 1-3 packages with 1-2 files over a universe of 109 conflicting or closely named packages; a case is nontrivial if at least one reference crosses packages; generated files are type-checked with go/types and every resolved reference is compared with those of an independently written source",
		Shards: 8,
		Needs:  map[string]int64{"references_resolved": 1000, "imports_with_alias": 100, "templates": 100},
		Run:    runC04,
	}
}

func runC04(c *Ctx) {
	c.Run("worlds", c.N(1500, 30000), func(k *Case) {
		opt := WOpt{Pkgs: k.R.Between(1, 3), FilesPerPkg: k.R.Between(1, 2), Elems: k.R.Between(2, 8), Bodies: true, MaxPieces: 5, Share: k.R.Chance(40), Reuse: k.R.Chance(60), TypeBudget: 8, Comments: k.R.IntN(2), Canonical: true}
		w := buildWorld(k.R, opt)
		k.checkWorldCompiles(w)
	})
	c.Run("heavy", c.N(60, 800), func(k *Case) {
		opt := WOpt{Pkgs: 4, FilesPerPkg: 3, Elems: 14, Bodies: true, MaxPieces: 14, Share: true, Reuse: true, TypeBudget: 25, Comments: 1}
		w := buildWorld(k.R, opt)
		k.checkWorldCompiles(w)
	})
	c.Run("imports only", c.N(1500, 30000), func(k *Case) { k.importsOnly() })
}

// importsOnly writes a file of few elements, with packages registered by hand
// at any time: exactly those must be imported, whatever else is in the file.
func (k *Case) importsOnly() {
	r := k.R
	own := "own/pkg"
	if r.Chance(20) {
		own = Pick(r, universe).Path
	}
	gf := gopoet.NewGoFile("f.go", own, "pkg")
	name := map[string]string{}
	var log []string
	register := func() {
		u := Pick(r, universe)
		if n := name[u.Path]; n != "" && n[0] == 0 {
			return // only in an element up to now
		}
		p := gopoet.Package{ImportPath: u.Path, Name: Pick(r, u.nameForms())}
		note := func(p gopoet.Package) {
			if _, ok := name[p.ImportPath]; !ok && p.ImportPath != own {
				name[p.ImportPath] = p.Name
			}
		}
		how := r.IntN(6)
		log = append(log, fmt.Sprintf("%d %#v", how, p))
		switch how {
		case 0:
			gf.RegisterImport(p.ImportPath, p.Name)
		case 1:
			gf.RegisterImportForPackage(p)
		case 2:
			gf.EnsureImported(p.Symbol("X"))
		case 3:
			gf.EnsureTypeImported(gopoet.SliceType(gopoet.NamedType(p.Symbol("X"))))
		case 4:
			gf.EnsureAllTypesImported((&gopoet.Signature{}).AddArg("a", gopoet.NamedType(p.Symbol("X"))))
		case 5:
			q := gopoet.NewPackage(u.Path)
			q.Name = p.Name
			gf.Imports.RegisterImportForPackage(q)
		}
		note(p)
	}
	elems := []func(){
		func() { gf.AddElement(gopoet.NewFunc(r.Word() + "F")) },
		func() { gf.AddVar(gopoet.NewVar("v9" + r.Word()).SetType(gopoet.IntType)) },
		func() { gf.AddConst(gopoet.NewConst("c9" + r.Word()).SetInitializer(gopoet.Print("1"))) },
		func() { gf.AddType(gopoet.NewTypeSpec("t9"+r.Word(), gopoet.StructType())) },
		func() {
			u := Pick(r, universe)
			p := gopoet.Package{ImportPath: u.Path, Name: Pick(r, u.nameForms())}
			log = append(log, fmt.Sprintf("var of %#v", p))
			gf.AddVar(gopoet.NewVar("w9" + r.Word()).SetType(gopoet.NamedType(p.Symbol("X"))))
			// registered when the file is written, after those by hand
			if _, ok := name[p.ImportPath]; !ok && p.ImportPath != own {
				name[p.ImportPath] = "\x00" + p.Name
			}
		},
	}
	for range r.Size(r.IntN(5), 60) {
		register()
	}
	if r.Chance(60) {
		Pick(r, elems)()
		for range r.IntN(2) {
			Pick(r, elems)()
		}
	}
	for range r.IntN(3) {
		register()
	}
	for p, n := range name {
		if n != "" && n[0] == 0 {
			name[p] = n[1:]
		}
	}
	prefix := map[string]string{}
	for _, s := range gf.ImportSpecs() {
		prefix[s.ImportPath] = strings.TrimSuffix(gf.PrefixForPackage(s.ImportPath), ".")
	}
	check := func(src string) {
		f, err := parser.ParseFile(token.NewFileSet(), "f.go", src, parser.SkipObjectResolution)
		if err != nil {
			k.Failf("generated file does not parse: %v\n%s", err, numbered([]byte(src)))
		}
		fail := func(format string, args ...any) {
			k.Failf("%s\nhistory:\n %s\n%s", fmt.Sprintf(format, args...), strings.Join(log, "\n "), numbered([]byte(src)))
		}
		seen := map[string]bool{}
		for _, is := range f.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			n, ok := name[path]
			if !ok || seen[path] {
				fail("the file imports %q, which it does not need or imports twice", path)
			}
			seen[path] = true
			alias := ""
			if is.Name != nil {
				alias = is.Name.Name
			}
			pre := strings.TrimSuffix(gf.PrefixForPackage(path), ".")
			if was := prefix[path]; was != "" && was != pre {
				fail("the prefix of %q was %q and is %q after writing", path, was, pre)
			}
			want := ""
			if n == "" || n != pre {
				want = pre
			}
			if alias != want {
				fail("%q (name %q, prefix %q) is imported as %q, expected %q", path, n, pre, alias, want)
			}
		}
		for path := range name {
			if !seen[path] {
				fail("the file does not import %q", path)
			}
		}
	}
	check(k.writeFile(gf))
	if r.Chance(30) {
		// once more, with another one
		register()
		for p, n := range name {
			if n != "" && n[0] == 0 {
				name[p] = n[1:]
			}
		}
		prefix = map[string]string{}
		check(k.writeFile(gf))
	}
	k.Count("files_with_explicit_imports", 1)
	if len(name) > 0 {
		k.Nontrivial(strings.Join(log, "\n"))
	}
}

func (k *Case) countWorld(w *World) {
	for e, n := range w.events {
		k.Count(e, n)
	}
}

func (k *Case) checkWorldCompiles(w *World) {
	k.countWorld(w)
	actual := mapImporter{}
	want := mapImporter{}
	var key strings.Builder
	cross := 0
	for _, l := range w.Locals {
		var as, ws []*Parsed
		var needs [][]string
		for _, f := range l.files {
			p := f.actualParsed(k)
			as = append(as, p)
			wp, n := f.wantParsed()
			ws = append(ws, wp)
			needs = append(needs, n)
			key.Write(p.Src)
		}
		for i, f := range l.files {
			// imports exactly what is needed
			if got := sortedCopy(as[i].Imports); !sameStrings(got, needs[i]) {
				k.Failf("file %s imports\n%s\nbut needs\n%s\n%s", f.Path, strings.Join(got, "\n"), strings.Join(needs[i], "\n"), numbered(as[i].Src))
			}
			k.Count("imports", len(needs[i]))
			cross += len(needs[i])
			k.Count("imports_with_alias", len(as[i].Aliased))
		}
		wc, errs := checkFiles(l.Path, ws, want)
		if len(errs) > 0 {
			s := ""
			for _, p := range ws {
				s += numbered(p.Src)
			}
			bug("expected source does not type-check: %v\n%s", errs[0], s)
		}
		ac, errs := checkFiles(l.Path, as, actual)
		if len(errs) > 0 {
			s := ""
			for _, p := range as {
				s += numbered(p.Src) + "\n"
			}
			k.Failf("generated package %s does not type-check: %v\n%s", l.Path, errs[0], s)
		}
		for i, f := range l.files {
			wr, ar := wc.refs(ws[i].AST), ac.refs(as[i].AST)
			if d := diffCounts(wr, ar); d != "" {
				k.Failf("references of file %s do not resolve to what was meant:\n%s%s", f.Path, d, numbered(as[i].Src))
			}
			for _, n := range wr {
				k.Count("references_resolved", n)
			}
		}
		actual[l.Path], want[l.Path] = ac.pkg, wc.pkg
		k.Count("files_type_checked", len(as))
	}
	if cross > 0 {
		k.Nontrivial(key.String())
		k.Sample("%s", w.Files[0].GF.Package())
	}
	_ = fmt.Sprint
}
