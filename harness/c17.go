package main

import (
	"fmt"
	"go/ast"
	"go/doc/comment"
	"go/token"
	"strings"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C17"] = &CheckDef{
		Boost: 10,
		Deep:  8,
		Run:   runC17,
		Rule:  "a case is a set of files with comments on any of their elements, rendered, parsed with comments, and compared with the expected source element by element; distinct by the comments and their places",
		Needs: map[string]int64{"files_compared": 1500, "comments_on_File": 800, "comments_on_GenDecl": 1000, "comments_on_ValueSpec": 1000, "comments_on_TypeSpec": 500, "comments_on_FuncDecl": 1000, "comments_on_Field": 1500,
			"without_comment": 10000, "multi_line": 1500, "file_comments": 800, "alone": 1000, "hostile_comments": 5000},
	}
}

// commentOwner is an element that can have a comment.
type commentOwner struct {
	kind string
	doc  *ast.CommentGroup
	line *ast.CommentGroup
}

// docForm is a comment in the form that gofmt gives to doc comments.
func docForm(g *ast.CommentGroup) string { return docForm1(commentLines(g)) }

// sameDoc tells if two comments are the same up to what gofmt does. It does not
// format all comments of fields, and what it takes for a code block can depend
// on white space at the end of lines that it removes.
func sameDoc(a, b *ast.CommentGroup) bool {
	x, y := docForm(a), docForm(b)
	if x == y {
		return true
	}
	indented := false
	words := func(s string) string {
		var ls []string
		for _, l := range strings.Split(s, "\n") {
			l = strings.TrimPrefix(l, "//")
			indented = indented || strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, " \t")
			// what is a heading depends on the blocks around it
			l = strings.TrimPrefix(strings.TrimSpace(l), "# ")
			if l = strings.Join(strings.Fields(l), " "); l != "" {
				ls = append(ls, l)
			}
		}
		return strings.Join(ls, "\n")
	}
	return words(x) == words(y) && indented
}

func docForm1(lines string) string {
	if lines == "" {
		return ""
	}
	var b strings.Builder
	for _, l := range strings.Split(lines, "\n") {
		b.WriteString(strings.TrimPrefix(strings.TrimPrefix(l, "//"), " ") + "\n")
	}
	var p comment.Parser
	var pr comment.Printer
	if strings.TrimSpace(b.String()) == "" {
		return "" // gofmt drops some blank comments
	}
	return "// " + strings.ReplaceAll(strings.TrimRight(string(pr.Comment(p.Parse(b.String()))), "\n"), "\n", "\n// ")
}

func commentLines(g *ast.CommentGroup) string {
	if g == nil {
		return ""
	}
	var ls []string
	for _, c := range g.List {
		for _, l := range strings.Split(c.Text, "\n") {
			ls = append(ls, strings.TrimRight(l, " \t\r\f\v"))
		}
	}
	return strings.Join(ls, "\n")
}

// owners lists the elements of a file, without imports, in order, and the
// comments that belong to no element.
func (p *Parsed) owners() (os []commentOwner, free []string) {
	taken := map[*ast.CommentGroup]bool{}
	add := func(n ast.Node, doc, line *ast.CommentGroup) {
		os = append(os, commentOwner{strings.TrimPrefix(fmt.Sprintf("%T", n), "*ast."), doc, line})
		taken[doc], taken[line] = true, true
	}
	ast.Inspect(p.AST, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.File:
			add(n, n.Doc, nil)
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
			add(n, n.Doc, nil)
		case *ast.FuncDecl:
			add(n, n.Doc, nil)
		case *ast.ValueSpec:
			add(n, n.Doc, n.Comment)
		case *ast.TypeSpec:
			add(n, n.Doc, n.Comment)
		case *ast.Field:
			add(n, n.Doc, n.Comment)
		}
		return true
	})
	for _, g := range p.AST.Comments {
		if !taken[g] {
			free = append(free, commentLines(g))
		}
	}
	return os, free
}

func (k *Case) checkComments(f *WFile) {
	p := f.actualParsed(k)
	want, err := f.wantFinal(p)
	if err != nil {
		bug("expected source: %v", err)
	}
	wd, pd := want.declDumps(true), p.declDumps(true)
	if a, b := strings.Join(wd, "\n"), strings.Join(pd, "\n"); a != b {
		k.Failf("code of %s differs from what was modelled: %s\n%s", f.Path, firstDiff(a, b), numbered(p.Src))
	}
	if want.AST.Name.Name != p.AST.Name.Name {
		k.Failf("package is called %s", p.AST.Name.Name)
	}
	wo, wfree := want.owners()
	po, pfree := p.owners()
	if len(wo) != len(po) {
		k.Failf("%s has %d elements that can have comments, want %d\n%s", f.Path, len(po), len(wo), numbered(p.Src))
	}
	var key strings.Builder
	for i := range wo {
		w, g := wo[i], po[i]
		if w.kind != g.kind {
			k.Failf("element %d of %s is a %s, want %s\n%s", i, f.Path, g.kind, w.kind, numbered(p.Src))
		}
		wdoc, gdoc := docForm(w.doc), docForm(g.doc)
		if !sameDoc(w.doc, g.doc) {
			k.Failf("comment of element %d (%s) of %s:\n%s\nwant:\n%s\n%s", i, g.kind, f.Path, gdoc, wdoc, numbered(p.Src))
		}
		if wl, gl := commentLines(w.line), commentLines(g.line); wl != gl {
			k.Failf("comment behind element %d (%s) of %s:\n%s\nwant:\n%s\n%s", i, g.kind, f.Path, gl, wl, numbered(p.Src))
		}
		if gdoc == "" {
			k.Count("without_comment", 1)
			continue
		}
		if strings.Contains(gdoc, "\n") {
			k.Count("multi_line", 1)
		}
		k.Count("comments_on_"+g.kind, 1)
		fmt.Fprintf(&key, "%d %s %s\n", i, g.kind, gdoc)
		// directly above
		if end := p.Fset.Position(g.doc.End()).Line; g.kind != "Field" && g.kind != "File" {
			next := p.Src[p.Fset.Position(g.doc.End()).Offset:]
			if len(next) > 1 && next[0] == '\n' && next[1] == '\n' {
				k.Failf("comment in line %d of %s is not directly above its element\n%s", end, f.Path, numbered(p.Src))
			}
		}
	}
	if a, b := strings.Join(wfree, "\n--\n"), strings.Join(pfree, "\n--\n"); a != b {
		k.Failf("other comments of %s are:\n%s\nwant:\n%s\n%s", f.Path, b, a, numbered(p.Src))
	}
	if f.GF.FileComment != "" {
		k.Count("file_comments", 1)
	}
	k.Count("files_compared", 1)
	k.Nontrivial(key.String())
	k.Sample("%s", p.Src)
}

func runC17(c *Ctx) {
	c.Run("worlds", c.N(2500, 80000), func(k *Case) {
		w := buildWorld(k.R, WOpt{Pkgs: 1, FilesPerPkg: k.R.Between(1, 2), Elems: k.R.Between(1, 12), Bodies: k.R.Chance(20), MaxPieces: 3, TypeBudget: OneOf(k.R, 2, 6), Comments: OneOf(k.R, 1, 2, 2, 2), Canonical: true})
		k.countWorld(w)
		for _, f := range w.Files {
			k.checkComments(f)
		}
	})
	c.Run("build constraints", 1, func(k *Case) {
		gf := gopoet.NewGoFile("f.go", "p/q", "q")
		gf.AddConst(gopoet.NewConst("C").Initialize("1").SetComment("C is only for\n+build linux"))
		src := k.writeFile(gf)
		if strings.Contains(src, "//go:build") {
			k.Known("KF-5 a line that starts with +build in the comment of an element becomes a build constraint of the file")
		} else if !strings.Contains(src, "+build linux\nconst C = 1\n") {
			k.Failf("comment is lost:\n%s", src)
		}
	})
	c.Run("alone", c.N(4000, 60000), func(k *Case) { k.commentAlone() })
}

// commentAlone puts one comment on one element of an otherwise uncommented
// file and looks for its words there and nowhere else.
func (k *Case) commentAlone() {
	r := k.R
	w := &World{R: r, Opt: WOpt{Comments: 2}, events: map[string]int{}}
	c := ""
	for commentWords(commentSrc(c)) == "" { // gofmt drops blank ones
		c = w.comment()
	}
	gf := gopoet.NewGoFile("f.go", "p/q", "q")
	els := map[string]func(string){}
	c1, c2, c3 := gopoet.NewConst("C1").Initialize("1"), gopoet.NewConst("C2").Initialize("1"), gopoet.NewConst("C3", "C4").Initialize("1, 2")
	v1, v2, v3 := gopoet.NewVar("V1").SetType(gopoet.IntType), gopoet.NewVar("V2").Initialize("3"), gopoet.NewVar("V3", "V4").SetType(gopoet.IntType)
	cd, vd := gopoet.NewConstDecl(c2, c3), gopoet.NewVarDecl(v2, v3)
	f1, f2, f3 := gopoet.NewField("F1", gopoet.IntType), gopoet.NewField("", gopoet.StringType).SetTag("x"), gopoet.NewField("F3", gopoet.NewStructTypeSpec(""))
	inner := gopoet.NewField("Inner", gopoet.BoolType)
	f4 := gopoet.NewField("F4", gopoet.NewStructTypeSpec("", inner))
	t1 := gopoet.NewStructTypeSpec("T1", f1, f2, f3, f4)
	m1 := gopoet.NewInterfaceMethod("M1")
	e1 := gopoet.NewInterfaceEmbed(gopoet.Symbol{Name: "error"})
	t2 := gopoet.NewInterfaceTypeSpec("T2", m1, e1)
	t3 := gopoet.NewTypeAlias("T3", gopoet.IntType)
	td := gopoet.NewTypeDecl(t2, t3)
	fn := gopoet.NewFunc("Fn")
	me := gopoet.NewMethod(gopoet.NewReceiver("r", "T1"), "Me")
	one := gopoet.NewConst("One").Initialize("1")
	od := gopoet.NewConstDecl(one)
	els["C1"], els["C2"], els["C3"], els["const group"] = func(c string) { c1.SetComment(c) }, func(c string) { c2.SetComment(c) }, func(c string) { c3.SetComment(c) }, func(c string) { cd.SetComment(c) }
	els["V1"], els["V2"], els["V3"], els["var group"] = func(c string) { v1.SetComment(c) }, func(c string) { v2.SetComment(c) }, func(c string) { v3.SetComment(c) }, func(c string) { vd.SetComment(c) }
	els["F1"], els["string"], els["F3"], els["F4"], els["Inner"] = func(c string) { f1.SetComment(c) }, func(c string) { f2.SetComment(c) }, func(c string) { f3.SetComment(c) }, func(c string) { f4.SetComment(c) }, func(c string) { inner.SetComment(c) }
	els["T1"], els["T2"], els["T3"], els["type group"] = func(c string) { t1.SetComment(c) }, func(c string) { t2.SetComment(c) }, func(c string) { t3.SetComment(c) }, func(c string) { td.SetComment(c) }
	els["M1"], els["error"], els["Fn"], els["Me"], els["One"] = func(c string) { m1.SetComment(c) }, func(c string) { e1.SetComment(c) }, func(c string) { fn.SetComment(c) }, func(c string) { me.SetComment(c) }, func(c string) { one.SetComment(c) }
	els["One group"] = func(c string) { od.SetComment(c) }
	els["package"] = func(c string) { gf.PackageComment = c }
	els["file"] = func(c string) { gf.FileComment = c }
	gf.AddConst(c1).AddElement(cd).AddVar(v1).AddElement(vd).AddType(t1).AddElement(td).AddElement(fn).AddElement(me).AddElement(od)
	where := Pick(r, setKeysOf(els))
	els[where](c)
	if r.Chance(30) {
		gf.CanonicalImportPath = "p/q"
	}

	src := k.writeFile(gf)
	p, err := parseFile([]byte(src), func(string) string { return "" })
	if err != nil {
		k.Failf("comment %q on %s: %v\n%s", c, where, err, numbered([]byte(src)))
	}
	got := map[string]string{}
	ast.Inspect(p.AST, func(n ast.Node) bool {
		put := func(name string, g *ast.CommentGroup) {
			if g != nil {
				got[name] += commentLines(g)
			}
		}
		switch n := n.(type) {
		case *ast.File:
			put("package", n.Doc)
		case *ast.GenDecl:
			first := ""
			switch s := n.Specs[0].(type) {
			case *ast.ValueSpec:
				first = s.Names[0].Name
			case *ast.TypeSpec:
				first = s.Name.Name
			}
			if n.Lparen.IsValid() {
				first = n.Tok.String() + " group"
				if where == "One group" && n == p.AST.Decls[len(p.AST.Decls)-1] {
					first = where
				}
			}
			put(first, n.Doc)
		case *ast.ValueSpec:
			put(n.Names[0].Name, n.Doc)
			put("behind", n.Comment)
		case *ast.TypeSpec:
			put(n.Name.Name, n.Doc)
			put("behind", n.Comment)
		case *ast.FuncDecl:
			put(n.Name.Name, n.Doc)
		case *ast.Field:
			name := ""
			if len(n.Names) > 0 {
				name = n.Names[0].Name
			} else if id, ok := n.Type.(*ast.Ident); ok {
				name = id.Name
			}
			put(name, n.Doc)
			put("behind", n.Comment)
		}
		return true
	})
	_, free := p.owners()
	for _, f := range free {
		if f != `// import "p/q"` {
			got["file"] += f
			// it is on top
			if !strings.HasPrefix(src, "//") {
				k.Failf("comment %q on %s: loose comment %q\n%s", c, where, f, numbered([]byte(src)))
			}
		}
	}
	if len(got) != 1 || got[where] == "" {
		k.Failf("comment %q on %s ends up on %q\n%s", c, where, got, numbered([]byte(src)))
	}
	if a, b := commentWords(commentSrc(c)), commentWords(got[where]); a != b {
		k.Failf("comment %q on %s has the words %q, want %q\n%s", c, where, b, a, numbered([]byte(src)))
	}
	k.Count("alone", 1)
	k.Nontrivial(where + c)
}

func setKeysOf[T any](m map[string]T) []string {
	set := map[string]bool{}
	for n := range m {
		set[n] = true
	}
	return setKeys(set)
}

// commentWords are the words of a comment, without white space and the quotes
// that gofmt rewrites.
func commentWords(c string) string {
	var ws []string
	c = strings.ReplaceAll(c, "\r", "")
	for _, l := range strings.Split(c, "\n") {
		fs := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "//"))
		if len(fs) > 1 {
			// markers of list items get the usual form, and some paragraphs
			// become headings
			switch m := fs[0]; {
			case m == "#":
				fs = fs[1:]
			case m == "*" || m == "+" || m == "\u2022":
				fs[0] = "-"
			case strings.HasSuffix(m, ")") && strings.Trim(m, "0123456789") == ")":
				fs[0] = strings.TrimSuffix(m, ")") + "."
			}
		}
		ws = append(ws, fs...)
	}
	return strings.NewReplacer("``", "\u201c", "''", "\u201d").Replace(strings.Join(ws, " "))
}
