package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Parsed is a parsed generated (or expected) file.
type Parsed struct {
	Src     []byte
	Fset    *token.FileSet
	AST     *ast.File
	ByName  map[string]string // prefix -> path
	ByPath  map[string]string // path -> prefix
	Imports []string          // paths in order of appearance
	Aliased map[string]bool
}

// declaredName tells the name of a package that is imported without alias.
func (w *World) declaredName(path string) string {
	for _, l := range w.Locals {
		if l.Path == path {
			return l.Name
		}
	}
	if u := upkgByPath[path]; u != nil {
		return u.Name
	}
	if path == "unsafe" {
		return "unsafe"
	}
	return ""
}

func parseFile(src []byte, declared func(path string) string) (*Parsed, error) {
	p := &Parsed{Src: src, Fset: token.NewFileSet(), ByName: map[string]string{}, ByPath: map[string]string{}, Aliased: map[string]bool{}}
	var err error
	p.AST, err = parser.ParseFile(p.Fset, "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	for _, is := range p.AST.Imports {
		path, err := strconv.Unquote(is.Path.Value)
		if err != nil {
			return nil, err
		}
		name := declared(path)
		if is.Name != nil {
			name = is.Name.Name
			p.Aliased[path] = true
		}
		if name == "" {
			return nil, fmt.Errorf("unexpected import %q", path)
		}
		if other, ok := p.ByName[name]; ok {
			return nil, fmt.Errorf("imports %q and %q both use name %s", other, path, name)
		}
		if _, ok := p.ByPath[path]; ok {
			return nil, fmt.Errorf("%q is imported twice", path)
		}
		p.ByName[name] = path
		p.ByPath[path] = name
		p.Imports = append(p.Imports, path)
	}
	return p, nil
}

func (p *Parsed) text(n ast.Node) string {
	return string(p.Src[p.Fset.Position(n.Pos()).Offset:p.Fset.Position(n.End()).Offset])
}

var posType = reflect.TypeOf(token.Pos(0))

// dumpAST writes a syntax tree without positions, comments and redundant
// parentheses, with package qualifiers replaced by import paths.
type astDumper struct {
	byName map[string]string
	b      strings.Builder
	bodies bool
	// declared is the interface type of the type declaration being dumped.
	declared *ast.InterfaceType
}

func (d *astDumper) node(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		d.node(v.Elem())
		return
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		switch n := v.Interface().(type) {
		case *ast.ParenExpr:
			d.node(reflect.ValueOf(n.X))
			return
		case *ast.CommentGroup, *ast.Object, *ast.Scope:
			return
		case *ast.Ident:
			name := n.Name
			switch name {
			case "byte":
				name = "uint8"
			case "rune":
				name = "int32"
			}
			d.b.WriteString(name)
			return
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				if path, ok := d.byName[x.Name]; ok {
					fmt.Fprintf(&d.b, "%q.%s", path, n.Sel.Name)
					return
				}
			}
		case *ast.Field:
			tag := ""
			if n.Tag != nil {
				if s, err := strconv.Unquote(n.Tag.Value); err == nil {
					tag = fmt.Sprintf(" tag=%q", s)
				} else {
					tag = " badtag=" + n.Tag.Value
				}
			}
			names := n.Names
			if len(names) == 0 {
				names = []*ast.Ident{{Name: ""}}
			}
			for _, nm := range names {
				d.b.WriteString("[" + nm.Name + ":")
				d.node(reflect.ValueOf(n.Type))
				d.b.WriteString(tag + "]")
			}
			return
		case *ast.TypeSpec:
			if it, ok := n.Type.(*ast.InterfaceType); ok {
				d.declared = it
			}
		case *ast.InterfaceType:
			// In declared interfaces elements have an order. In unnamed ones
			// (which gopoet models as types) embeds come before methods.
			if n != d.declared {
				sorted := &ast.FieldList{}
				for _, embeds := range []bool{true, false} {
					for _, f := range n.Methods.List {
						if embeds == (len(f.Names) == 0) {
							sorted.List = append(sorted.List, f)
						}
					}
				}
				n = &ast.InterfaceType{Interface: n.Interface, Methods: sorted}
			}
			v = reflect.ValueOf(n)
		case *ast.FieldList:
			d.b.WriteString("{")
			for _, f := range n.List {
				d.node(reflect.ValueOf(f))
			}
			d.b.WriteString("}")
			return
		}
		d.node(v.Elem())
		return
	case reflect.Slice:
		d.b.WriteString("(")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b.WriteString(" ")
			}
			d.node(v.Index(i))
		}
		d.b.WriteString(")")
		return
	case reflect.Struct:
		t := v.Type()
		d.b.WriteString(t.Name() + "<")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			switch {
			case f.Type == posType:
				if f.Name == "Ellipsis" || f.Name == "Assign" {
					fmt.Fprintf(&d.b, "%s=%v ", f.Name, v.Field(i).Int() != 0)
				}
				continue
			case f.Name == "Doc" || f.Name == "Comment" || f.Name == "Comments" || f.Name == "Incomplete" || f.Name == "EndPos":
				continue
			case f.Name == "Body" && !d.bodies && t.Name() == "FuncDecl":
				continue
			}
			d.b.WriteString(f.Name + "=")
			d.node(v.Field(i))
			d.b.WriteString(" ")
		}
		d.b.WriteString(">")
		return
	}
	fmt.Fprintf(&d.b, "%v", v.Interface())
}

// declDumps dumps the declarations other than imports, one string each.
func (p *Parsed) declDumps(bodies bool) []string {
	var ret []string
	for _, decl := range p.AST.Decls {
		if gd, ok := decl.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		d := &astDumper{byName: p.ByName, bodies: bodies}
		d.node(reflect.ValueOf(decl))
		ret = append(ret, d.b.String())
	}
	return ret
}

func (p *Parsed) dumpNode(n ast.Node) string {
	d := &astDumper{byName: p.ByName, bodies: true}
	d.node(reflect.ValueOf(n))
	return d.b.String()
}

// harnessErr is a mistake of the harness itself, never a violation.
type harnessErr struct{ msg string }

func bug(format string, args ...any) {
	panic(harnessErr{fmt.Sprintf(format, args...)})
}

// wantParsed parses the expected source, with placeholders.
func (f *WFile) wantParsed() (*Parsed, []string) {
	src, needs := f.Want()
	p, err := parseFile([]byte(src), f.W.declaredName)
	if err != nil {
		bug("expected source does not parse: %v\n%s", err, numbered([]byte(src)))
	}
	return p, needs
}

func numbered(src []byte) string {
	var b strings.Builder
	for i, l := range strings.Split(string(src), "\n") {
		fmt.Fprintf(&b, "%4d %s\n", i+1, l)
	}
	return b.String()
}

// actualParsed renders with gopoet and parses the result.
func (f *WFile) actualParsed(k *Case) *Parsed {
	src := f.mustWrite(k)
	p, err := parseFile(src, f.W.declaredName)
	if err != nil {
		k.Failf("generated file %s: %v\n%s", f.Path, err, numbered(src))
	}
	return p
}

func (f *WFile) mustWrite(k *Case) []byte {
	src, err := f.Write()
	if err != nil {
		detail := ""
		if fe, ok := err.(interface{ Error() string }); ok {
			detail = fe.Error()
		}
		want, _ := f.Want()
		k.Failf("WriteGoFile(%s) failed: %s\n%s\nexpected something like:\n%s", f.Path, detail, unformatted(err), want)
	}
	return src
}

// finalRef resolves references with the prefixes of a rendered file.
func (f *WFile) finalRef(p *Parsed) SymFn {
	return f.refWith(func(path string) string {
		if n, ok := p.ByPath[path]; ok {
			return n
		}
		return "NOTIMPORTED"
	})
}

// wantFinal is the expected source with the actual prefixes, formatted.
func (f *WFile) wantFinal(p *Parsed) (*Parsed, error) {
	var imp strings.Builder
	for _, path := range p.Imports {
		if p.Aliased[path] {
			fmt.Fprintf(&imp, "import %s %q\n", p.ByPath[path], path)
		} else {
			fmt.Fprintf(&imp, "import %q\n", path)
		}
	}
	src := f.Render(imp.String(), f.finalRef(p))
	out, err := format.Source([]byte(src))
	if err != nil {
		bug("expected source cannot be formatted: %v\n%s", err, numbered([]byte(src)))
	}
	return parseFile(out, f.W.declaredName)
}

// ------------------------------------------------------------ type checking

type checked struct {
	pkg  *types.Package
	info *types.Info
}

var stdImporter = importer.Default()

// checkFiles type-checks the files of one package.
func checkFiles(path string, files []*Parsed, imp types.Importer) (*checked, []error) {
	c := &checked{info: &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}}
	var errs []error
	conf := types.Config{Importer: imp, Error: func(err error) { errs = append(errs, err) }}
	// all files need one file set
	fset := token.NewFileSet()
	var asts []*ast.File
	for i, p := range files {
		a, err := parser.ParseFile(fset, fmt.Sprintf("%s/f%d.go", path, i), p.Src, parser.SkipObjectResolution)
		if err != nil {
			return nil, []error{err}
		}
		p.AST = a
		p.Fset = fset
		asts = append(asts, a)
	}
	c.pkg, _ = conf.Check(path, fset, asts, c.info)
	return c, errs
}

// refs counts which elements a file uses.
func (c *checked) refs(f *ast.File) map[string]int {
	ret := map[string]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := c.info.Uses[id]
		if o == nil || o.Pkg() == nil {
			return true
		}
		switch o := o.(type) {
		case *types.PkgName:
			return true
		case *types.Func:
			if recv := o.Type().(*types.Signature).Recv(); recv != nil {
				t := recv.Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				if n, ok := t.(*types.Named); ok {
					ret[fmt.Sprintf("%s.%s.%s", o.Pkg().Path(), n.Obj().Name(), o.Name())]++
				}
				return true
			}
		}
		if o.Parent() == o.Pkg().Scope() {
			ret[o.Pkg().Path()+"."+o.Name()]++
		}
		return true
	})
	return ret
}

func diffCounts(want, got map[string]int) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		if want[k] != got[k] {
			fmt.Fprintf(&b, "  %s: referenced %d times, expected %d\n", k, got[k], want[k])
		}
	}
	return b.String()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-80)
	cut := func(s string) string {
		hi := min(len(s), i+160)
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("first difference at byte %d:\n want ...%s...\n got  ...%s...", i, cut(a), cut(b))
}

func sameStrings(a, b []string) bool {
	return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
}

func sortedCopy(a []string) []string {
	b := append([]string(nil), a...)
	sort.Strings(b)
	return b
}

var _ = bytes.Equal
