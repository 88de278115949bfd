package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C05"] = &CheckDef{
		Boost:  8,
		Deep:   6,
		Rule:   "random worlds of declarations of every kind, compared declaration by declaration (as syntax trees with package qualifiers resolved to import paths) with an independently written source; struct and interface types built both ways; one file edited and rendered in random order, every rendering compared with the file as it is then; nontrivial worlds have at least 3 declarations",
		Shards: 8,
		Needs:  map[string]int64{"declarations_compared": 5000, "canonical_imports": 200, "grouped_specs": 500, "both_ways": 500, "tags": 500, "edit_renderings": 3000, "elements_added_again": 200},
		Run:    runC05,
	}
}

func (k *Case) checkHeader(f *WFile, p *Parsed, canon string) {
	if p.AST.Name.Name != f.L.Name {
		k.Failf("package clause says %s, expected %s\n%s", p.AST.Name.Name, f.L.Name, numbered(p.Src))
	}
	if got := canonicalImport(p); got != canon {
		k.Failf("canonical import annotation is %q, expected %q\n%s", got, canon, numbered(p.Src))
	}
	if canon != "" {
		k.Count("canonical_imports", 1)
	}
}

// canonicalImport reads the import comment of the package clause.
func canonicalImport(p *Parsed) string {
	line := p.Fset.Position(p.AST.Package).Line
	for _, g := range p.AST.Comments {
		for _, c := range g.List {
			if p.Fset.Position(c.Pos()).Line == line && c.Pos() > p.AST.Package {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if rest, ok := strings.CutPrefix(t, "import "); ok {
					if s, err := strconv.Unquote(rest); err == nil {
						return s
					}
				}
				return "BAD: " + c.Text
			}
		}
	}
	return ""
}

func (k *Case) checkDecls(f *WFile, p *Parsed) {
	wp, _ := f.wantParsed()
	w, g := wp.declDumps(false), p.declDumps(false)
	for i := 0; i < len(w) || i < len(g); i++ {
		if i >= len(w) || i >= len(g) || w[i] != g[i] {
			ws, gs := "nothing", "nothing"
			if i < len(w) {
				ws = w[i]
			}
			if i < len(g) {
				gs = g[i]
			}
			k.Failf("declaration %d of %s differs: %s\nexpected file:\n%s\ngenerated file:\n%s", i, f.Path, firstDiff(ws, gs), numbered(wp.Src), numbered(p.Src))
		}
	}
	k.Count("declarations_compared", len(w))
	k.Count("tags", strings.Count(strings.Join(w, ""), " tag="))
	for _, d := range wp.AST.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok != token.IMPORT && len(gd.Specs) > 1 {
			k.Count("grouped_specs", len(gd.Specs))
		}
	}
	k.checkHeader(f, p, canonicalImport(wp))
	// the model itself has them in order
	if n := f.GF.NumElements(); n != len(w) {
		k.Failf("file has %d elements, %d were added", n, len(w))
	}
	for i := 0; i < f.GF.NumElements(); i++ {
		want := ""
		switch f.GF.ElementAt(i).(type) {
		case *gopoet.ConstDecl:
			want = "const"
		case *gopoet.VarDecl:
			want = "var"
		case *gopoet.TypeDecl:
			want = "type"
		case *gopoet.FuncSpec:
			want = "func"
		}
		_ = want
		if want == "func" != strings.HasPrefix(w[i], "FuncDecl") {
			k.Failf("element %d of the file is %T but %s was added", i, f.GF.ElementAt(i), w[i])
		}
	}
	if len(w) >= 3 {
		k.Nontrivial(string(p.Src))
	}
}

func runC05(c *Ctx) {
	c.Run("worlds", c.N(2500, 60000), func(k *Case) {
		opt := WOpt{Pkgs: k.R.Between(1, 2), FilesPerPkg: k.R.Between(1, 2), Elems: k.R.Between(3, 14), Bodies: k.R.Chance(20), MaxPieces: 2, Share: k.R.Chance(20), TypeBudget: OneOf(k.R, 4, 10, 20), Comments: k.R.IntN(2), Canonical: true, Reuse: k.R.Chance(30)}
		w := buildWorld(k.R, opt)
		k.countWorld(w)
		for _, f := range w.Files {
			k.checkDecls(f, f.actualParsed(k))
		}
		p, _ := w.Files[0].wantParsed()
		k.Sample("%s", strings.Join(p.declDumps(false), "\n"))
	})
	c.Run("big", c.N(40, 600), func(k *Case) {
		n := 80
		for i := 0; i < 6; i++ {
			n = max(n, k.R.Huge(80, 80))
		}
		opt := WOpt{Pkgs: 1, FilesPerPkg: 1, Elems: n, TypeBudget: 40, Comments: 1, Canonical: true}
		w := buildWorld(k.R, opt)
		k.countWorld(w)
		for _, f := range w.Files {
			k.checkDecls(f, f.actualParsed(k))
		}
	})
	c.Run("both-ways", c.N(1500, 40000), func(k *Case) {
		// struct and interface types built from a type and from elements
		w := buildWorld(k.R, WOpt{Pkgs: 1, FilesPerPkg: 1, Elems: 6, TypeBudget: 5})
		f := w.Files[0]
		g := w.tyGen(f)
		g.budget = k.R.Between(2, 25)
		var t *Ty
		if k.R.Chance(65) {
			t = g.strct()
		} else {
			t = g.iface()
		}
		// elements belong to one file, so every use gets its own
		variants := []func() gopoet.TypeNameOrSpec{
			func() gopoet.TypeNameOrSpec { return t.poet() },
			func() gopoet.TypeNameOrSpec { return k.asSpec(t, "") },
			func() gopoet.TypeNameOrSpec { return gopoet.NewTypeSpec("", t.poet()) },
		}
		want := ""
		name := "TwoWays"
		for i, mk := range variants {
			for j := 0; j < 4; j++ {
				gf := gopoet.NewGoFile("x.go", f.L.Path, f.L.Name)
				v := mk()
				var txt func(ref SymFn) string
				switch j {
				case 0: // as declared type
					if i == 1 {
						gf.AddType(k.asSpec(t, name))
					} else {
						gf.AddType(gopoet.NewTypeSpec(name, v))
					}
					txt = func(ref SymFn) string { return "type " + name + " " + t.src(ref) + "\n" }
				case 1: // as field
					gf.AddType(gopoet.NewStructTypeSpec(name, gopoet.NewField("F", v).SetTag("x`"), gopoet.NewField("G", gopoet.IntType)))
					txt = func(ref SymFn) string {
						return "type " + name + " struct { F " + t.src(ref) + " \"x`\"\nG int\n}\n"
					}
				case 2: // as var type
					gf.AddVar(gopoet.NewVar(name).SetType(v))
					txt = func(ref SymFn) string { return "var " + name + " " + t.src(ref) + "\n" }
				case 3: // alias
					gf.AddType(gopoet.NewTypeAlias(name, v))
					txt = func(ref SymFn) string { return "type " + name + " = " + t.src(ref) + "\n" }
				}
				wf := &WFile{W: w, L: f.L, GF: gf, Path: "x.go", Header: lit("package " + f.L.Name + "\n"), Elems: []Txt{txt}}
				p := wf.actualParsed(k)
				wp, _ := wf.wantParsed()
				if a, b := strings.Join(wp.declDumps(true), "\n"), strings.Join(p.declDumps(true), "\n"); a != b {
					k.Failf("a type built in way %d renders differently in context %d: %s\n%s", i, j, firstDiff(a, b), numbered(p.Src))
				}
				k.Count("both_ways", 1)
				want += string(p.Src)
			}
		}
		k.Nontrivial(want)
	})
	c.Run("edits", c.N(2000, 40000), func(k *Case) { k.edits() })
	c.Run("chaining", 1, func(k *Case) { k.chaining() })
	c.Run("empty", 1, func(k *Case) {
		gf := gopoet.NewGoFile("x.go", "a/b", "b")
		if src := k.writeFile(gf); strings.TrimSpace(src) != "package b" {
			k.Failf("an empty file is rendered as %q", src)
		}
		gf.AddElement(gopoet.NewFunc("f"))
		if src := k.writeFile(gf); strings.Join(strings.Fields(src), " ") != "package b func f() { }" {
			k.Failf("an empty func is rendered as %q", src)
		}
		for _, d := range []gopoet.FileElement{gopoet.NewConstDecl(), gopoet.NewVarDecl(), gopoet.NewTypeDecl()} {
			gf := gopoet.NewGoFile("x.go", "a/b", "b").AddElement(d)
			src := k.writeFile(gf)
			p, err := parseFile([]byte(src), func(string) string { return "" })
			if err != nil {
				k.Failf("an empty declaration is rendered as %q: %v", src, err)
			}
			for _, d := range p.AST.Decls {
				if gd, ok := d.(*ast.GenDecl); !ok || len(gd.Specs) > 0 {
					k.Failf("an empty declaration is rendered as %q", src)
				}
			}
		}
		k.Nontrivial("empty")
	})
}

// asSpec builds a struct or interface type from elements, recursively.
func (k *Case) asSpec(t *Ty, name string) *gopoet.TypeSpec {
	if t.K == gopoet.KindStruct {
		var fs []*gopoet.FieldSpec
		for _, f := range t.Fields {
			var tu gopoet.TypeNameOrSpec
			if (f.T.K == gopoet.KindStruct || f.T.K == gopoet.KindInterface) && k.R.Chance(70) {
				tu = k.asSpec(f.T, "")
			} else {
				tu = f.T.poet()
			}
			fs = append(fs, &gopoet.FieldSpec{Name: f.Name, Type: tu, Tag: reflect.StructTag(f.Tag)})
		}
		return gopoet.NewStructTypeSpec(name, fs...)
	}
	var es []gopoet.InterfaceElement
	for _, e := range t.Embeds {
		es = append(es, gopoet.NewInterfaceEmbed(e.poet()))
	}
	for _, m := range t.Methods {
		im := gopoet.NewInterfaceMethod(m.Name)
		im.Signature = *m.Sig.poet()
		es = append(es, im)
	}
	return gopoet.NewInterfaceTypeSpec(name, es...)
}

var _ = fmt.Sprint
