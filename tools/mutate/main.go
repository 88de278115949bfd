// mutate lists and applies small changes to the Go package in a directory:
//
//	mutate DIR            lists them, one per line
//	mutate DIR N          rewrites the file that change N touches
//
// It is used to look for behaviour that no monitor watches; see mutants.sh.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	file       string
	start, end int
	text       string
	what       string
	line       int
}

func main() {
	dir := os.Args[1]
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	src := map[string][]byte{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "templates_no_unsafe.go") || strings.HasSuffix(n, "doc.go") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			panic(err)
		}
		src[n] = b
		f, err := parser.ParseFile(fset, n, b, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	pkg, err := conf.Check("p", fset, files, info)
	if err != nil {
		panic(err)
	}
	var muts []mut
	for _, f := range files {
		name := fset.Position(f.Pos()).Filename
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[name][off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, text, what string) {
			muts = append(muts, mut{name, off(from), off(to), text, what, fset.Position(from).Line})
		}
		repl := func(n ast.Node, text, what string) { add(n.Pos(), n.End(), text, what) }
		var inImport bool
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				inImport = n.Tok == token.IMPORT
				if inImport {
					return false
				}
			case *ast.IfStmt:
				if n.Init == nil || true {
					repl(n.Cond, "!("+txt(n.Cond)+")", "negate")
					repl(n.Cond, "(true || "+txt(n.Cond)+")", "cond true")
					repl(n.Cond, "(false && ("+txt(n.Cond)+"))", "cond false")
				}
			case *ast.BinaryExpr:
				var with []string
				switch n.Op {
				case token.EQL:
					with = []string{"!="}
				case token.NEQ:
					with = []string{"=="}
				case token.LSS:
					with = []string{"<=", ">"}
				case token.LEQ:
					with = []string{"<"}
				case token.GTR:
					with = []string{">=", "<"}
				case token.GEQ:
					with = []string{">"}
				case token.LAND:
					with = []string{"||"}
					repl(n, txt(n.X), "left of &&")
					repl(n, txt(n.Y), "right of &&")
				case token.LOR:
					with = []string{"&&"}
					repl(n, txt(n.X), "left of ||")
					repl(n, txt(n.Y), "right of ||")
				case token.ADD:
					if b, ok := info.Types[n].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						repl(n, txt(n.X), "left of +")
						repl(n, txt(n.Y), "right of +")
					} else {
						with = []string{"-"}
					}
				case token.SUB:
					with = []string{"+"}
				}
				for _, w := range with {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), w, n.Op.String()+" to "+w)
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, _ := strconv.Atoi(n.Value)
					repl(n, strconv.Itoa(v+1), "int+1")
					if v > 0 {
						repl(n, strconv.Itoa(v-1), "int-1")
					}
				case token.STRING:
					s, _ := strconv.Unquote(n.Value)
					repl(n, strconv.Quote(s+"_"), "string+_")
					if s != "" {
						repl(n, `""`, "string empty")
					}
				}
			case *ast.Ident:
				switch o := info.Uses[n].(type) {
				case *types.Const:
					if n.Name == "true" || n.Name == "false" {
						if n.Name == "true" {
							repl(n, "false", "bool")
						} else {
							repl(n, "true", "bool")
						}
					} else if o.Pkg() == pkg {
						for _, other := range pkg.Scope().Names() {
							if c, ok := pkg.Scope().Lookup(other).(*types.Const); ok && c != o && types.Identical(c.Type(), o.Type()) {
								repl(n, other, "const "+n.Name+" to "+other)
								break
							}
						}
					}
				case *types.Var:
					if o.IsField() || o.Pkg() != pkg {
						break
					}
					// another variable of the same type
					sc := pkg.Scope().Innermost(n.Pos())
					seen := 0
					for sc != nil && sc != pkg.Scope() && sc != types.Universe && seen < 2 {
						for _, other := range sc.Names() {
							v, ok := sc.Lookup(other).(*types.Var)
							if ok && v != o && other != "_" && v.Pos() < n.Pos() && types.Identical(v.Type(), o.Type()) {
								repl(n, other, "var "+n.Name+" to "+other)
								seen++
								break
							}
						}
						sc = sc.Parent()
					}
				}
			case *ast.SelectorExpr:
				sel := info.Selections[n]
				if sel == nil {
					break
				}
				switch o := sel.Obj().(type) {
				case *types.Var:
					t := sel.Recv()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					st, ok := t.Underlying().(*types.Struct)
					if !ok {
						break
					}
					cnt := 0
					for i := 0; i < st.NumFields() && cnt < 3; i++ {
						if g := st.Field(i); g != o && types.Identical(g.Type(), o.Type()) && (g.Exported() || g.Pkg() == pkg) {
							repl(n.Sel, g.Name(), "field "+o.Name()+" to "+g.Name())
							cnt++
						}
					}
				case *types.Func:
					ms := types.NewMethodSet(sel.Recv())
					cnt := 0
					for i := 0; i < ms.Len() && cnt < 3; i++ {
						g := ms.At(i).Obj()
						if g.Name() != o.Name() && (g.Exported() || g.Pkg() == pkg) && types.Identical(g.Type(), o.Type()) {
							repl(n.Sel, g.Name(), "method "+o.Name()+" to "+g.Name())
							cnt++
						}
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
					repl(n, txt(n.Args[0]), "append nothing")
					if n.Ellipsis != 0 {
						a := txt(n.Args[1])
						repl(n, a, "append aliasing")
					}
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name != "append" && len(n.Args) == 1 || !ok && len(n.Args) == 1 {
					// f(x) to x
					tv, a := info.Types[n], info.Types[n.Args[0]]
					if tv.Type != nil && a.Type != nil && types.AssignableTo(a.Type, tv.Type) && !a.IsType() {
						repl(n, txt(n.Args[0]), "f(x) to x")
					}
				}
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					if types.Identical(info.Types[a].Type, info.Types[b].Type) && n.Ellipsis == 0 {
						add(a.Pos(), b.End(), txt(b)+", "+txt(a), "swap args")
					}
				}
			case *ast.RangeStmt:
				add(n.Body.Rbrace, n.Body.Rbrace, ";break;", "first only")
				repl(n.Body, "{}", "no iteration")
				if _, ok := info.Types[n.X].Type.Underlying().(*types.Slice); ok {
					repl(n.X, "("+txt(n.X)+")[len("+txt(n.X)+")/2:]", "half of range")
					x := txt(n.X)
					repl(n.X, "("+x+")[:len("+x+")-len("+x+")/2]", "other half of range")
				}
			case *ast.ForStmt:
				add(n.Body.Rbrace, n.Body.Rbrace, ";break;", "once")
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
				}
				if len(n.List) > 1 {
					for i := range n.List {
						if i > 0 {
							add(n.List[i-1].End(), n.List[i].End(), "", "case less")
						}
					}
				}
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					repl(n, "break", "continue to break")
				} else if n.Label == nil && n.Tok == token.BREAK {
					repl(n, "{}", "no break")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					t := info.Types[r].Type
					if t == nil {
						continue
					}
					z := ""
					switch u := t.Underlying().(type) {
					case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
						z = "nil"
					case *types.Basic:
						switch {
						case u.Kind() == types.UntypedNil:
						case u.Info()&types.IsBoolean != 0:
							z = "!(" + txt(r) + ")"
						case u.Info()&types.IsString != 0:
							z = `""`
						case u.Info()&types.IsNumeric != 0:
							z = "0"
						}
					}
					if z != "" {
						repl(r, z, "return "+z)
					}
				}
			case *ast.KeyValueExpr:
				if id, ok := n.Key.(*ast.Ident); ok && info.Uses[id] != nil {
					if v, ok := info.Uses[id].(*types.Var); ok && v.IsField() {
						// drop the element
						e := n.End()
						if int(off(e)) < len(src[name]) && src[name][off(e)] == ',' {
							e++
						}
						add(n.Pos(), e, "", "drop field "+id.Name)
					}
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					stmtMut(s, txt, repl)
				}
				for i := 0; i+1 < len(n.List); i++ {
					a, b := n.List[i], n.List[i+1]
					_, ea := a.(*ast.ExprStmt)
					_, eb := b.(*ast.ExprStmt)
					if ea && eb {
						add(a.Pos(), b.End(), txt(b)+"\n"+txt(a), "swap statements")
					}
				}
			}
			return true
		})
		// case bodies
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CaseClause); ok {
				for _, s := range c.Body {
					stmtMut(s, txt, repl)
				}
			}
			return true
		})
	}
	sort.SliceStable(muts, func(i, j int) bool {
		if muts[i].file != muts[j].file {
			return muts[i].file < muts[j].file
		}
		return muts[i].start < muts[j].start
	})
	if len(os.Args) == 2 {
		for i, m := range muts {
			t := strings.ReplaceAll(m.text, "\n", " ")
			o := strings.ReplaceAll(string(src[m.file][m.start:m.end]), "\n", " ")
			if len(t) > 60 {
				t = t[:60]
			}
			if len(o) > 60 {
				o = o[:60]
			}
			fmt.Printf("%d\t%s:%d\t%s\t%s => %s\n", i, filepath.Base(m.file), m.line, m.what, o, t)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := muts[n]
	b := src[m.file]
	out := string(b[:m.start]) + m.text + string(b[m.end:])
	if err := os.WriteFile(m.file, []byte(out), 0666); err != nil {
		panic(err)
	}
}

func stmtMut(s ast.Stmt, txt func(ast.Node) string, repl func(ast.Node, string, string)) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		repl(s, "", "drop statement")
	case *ast.IncDecStmt:
		repl(s, "", "drop statement")
	case *ast.DeferStmt:
		repl(s, "", "drop defer")
		repl(s, txt(s.Call), "defer now")
	case *ast.AssignStmt:
		if s.Tok == token.ASSIGN {
			var l, r []string
			for _, x := range s.Lhs {
				l = append(l, "_")
				_ = x
			}
			for _, x := range s.Rhs {
				r = append(r, txt(x))
			}
			repl(s, strings.Join(l, ",")+" = "+strings.Join(r, ","), "drop assignment")
		} else if s.Tok != token.DEFINE {
			repl(s, "", "drop statement")
		}
	case *ast.IfStmt:
		if s.Else == nil {
			// covered by cond false
		}
	}
}
