package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

// The dictionary holds the literals of the code under test. Code that treats
// some value in a special way usually names that value, so the generators mix
// these values in: words as names, strings as text, numbers as lengths and
// counts. Values that the code names more often than it did when the dictionary
// was recorded (dict_base.txt) are picked more often. Nothing else depends on
// them: what is expected of an input does not change with where it comes from.

//go:embed dict_base.txt
var dictBase string

// Dict is the dictionary.
type Dict struct {
	Words []string // identifiers
	Strs  []string
	Ints  []int
	Runes []rune
}

var dictOnce = sync.OnceValues(loadDict)

// sourceDir is where the code under test was built from.
func sourceDir() string {
	f := runtime.FuncForPC(reflect.ValueOf(gopoet.Print).Pointer())
	file, _ := f.FileLine(f.Entry())
	return filepath.Dir(file)
}

// literals counts the literals in the sources of the given directory.
func literals(dir string) map[string]int {
	ret := map[string]int{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, file := range files {
		if strings.HasSuffix(file, "_test.go") {
			continue
		}
		src, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		var s scanner.Scanner
		fset := token.NewFileSet()
		s.Init(fset.AddFile(file, -1, len(src)), src, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.STRING, token.CHAR, token.INT:
				ret[lit]++
			case token.IDENT:
				if unicodeTable(lit) != nil {
					ret[lit]++
				}
				if n := narrow[lit]; n != "" {
					ret[n]++
				}
			}
		}
		folded(src, ret)
	}
	return ret
}

// narrow are the names that stand for numbers at which counters overflow.
var narrow = map[string]string{
	"int8": "0x80", "uint8": "0x100", "int16": "0x8000", "uint16": "0x10000",
	"MaxInt8": "0x80", "MaxUint8": "0x100", "MaxInt16": "0x8000", "MaxUint16": "0x10000",
}

// folded adds the values of constant expressions like 1<<12 and "a"+"b".
func folded(src []byte, ret map[string]int) {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		return
	}
	var value func(e ast.Expr) constant.Value
	value = func(e ast.Expr) constant.Value {
		switch e := e.(type) {
		case *ast.BasicLit:
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		case *ast.ParenExpr:
			return value(e.X)
		case *ast.BinaryExpr:
			x, y := value(e.X), value(e.Y)
			if x == nil || y == nil || x.Kind() != y.Kind() {
				return nil
			}
			switch {
			case x.Kind() == constant.String && e.Op == token.ADD:
				return constant.BinaryOp(x, e.Op, y)
			case x.Kind() == constant.Int && (e.Op == token.ADD || e.Op == token.SUB || e.Op == token.MUL):
				return constant.BinaryOp(x, e.Op, y)
			case x.Kind() == constant.Int && e.Op == token.SHL:
				if n, ok := constant.Uint64Val(y); ok && n < 40 {
					return constant.Shift(x, e.Op, uint(n))
				}
			}
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(*ast.BinaryExpr); ok {
			if v := value(e); v != nil {
				ret[v.ExactString()]++
				return false
			}
		}
		return true
	})
}

func loadDict() (all, hot *Dict) {
	if env := os.Getenv("VH_DICT"); env != "" {
		// as the supervisor found it
		var both [2]*Dict
		if err := json.Unmarshal([]byte(env), &both); err != nil {
			bug("%v", err)
		}
		return both[0], both[1]
	}
	base := map[string]int{}
	for _, l := range strings.Split(dictBase, "\n") {
		if n, lit, ok := strings.Cut(l, " "); ok {
			base[unlined(lit)], _ = strconv.Atoi(n)
		}
	}
	all, hot = &Dict{}, &Dict{}
	now := literals(sourceDir())
	lits := make([]string, 0, len(now))
	for l := range now {
		lits = append(lits, l)
	}
	sort.Strings(lits)
	for _, l := range lits {
		all.add(l)
		if now[l] > base[l] {
			hot.add(l)
		}
	}
	// so that there is something to pick
	all.add(`"String"`)
	all.add("2")
	all.add("'_'")
	return all, hot
}

// exportDict hands the dictionary to the workers, which may not be allowed to
// read the sources.
func exportDict() {
	all, hot := dictOnce()
	b, err := json.Marshal([2]*Dict{all, hot})
	if err != nil {
		bug("%v", err)
	}
	os.Setenv("VH_DICT", string(b))
}

// unicodeTable is the table of that name in package unicode.
func unicodeTable(name string) *unicode.RangeTable {
	for _, m := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
		if t := m[name]; t != nil {
			return t
		}
	}
	return nil
}

func unlined(s string) string {
	u, err := strconv.Unquote(s)
	if err != nil {
		return s
	}
	return u
}

func (d *Dict) add(lit string) {
	switch {
	case lit[0] == '\'':
		if s, err := strconv.Unquote(lit); err == nil {
			r, _ := utf8.DecodeRuneInString(s)
			d.Runes = append(d.Runes, r)
			d.addStr(s)
		}
	case lit[0] == '"' || lit[0] == '`':
		if s, err := strconv.Unquote(lit); err == nil && len(s) <= 40 {
			d.addStr(s)
		}
	case unicodeTable(lit) != nil:
		n := 0
		t := unicodeTable(lit)
		for _, r := range t.R16 {
			if n++; n <= 20 {
				d.Runes = append(d.Runes, rune(r.Lo), rune(r.Hi))
			}
		}
		for _, r := range t.R32 {
			if n++; n <= 30 {
				d.Runes = append(d.Runes, rune(r.Lo), rune(r.Hi))
			}
		}
	default:
		if n, err := strconv.ParseInt(lit, 0, 64); err == nil && n >= 0 {
			d.Ints = append(d.Ints, int(n))
		}
	}
}

func (d *Dict) addStr(s string) {
	if s == "" {
		return
	}
	d.Strs = append(d.Strs, s)
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) }) {
		if token.IsIdentifier(w) {
			d.Words = append(d.Words, w)
		}
	}
	for _, r := range s {
		if r > 0x7f {
			d.Runes = append(d.Runes, r)
		}
	}
}

// writeDictBase records the dictionary of the current sources.
func writeDictBase(path string) error {
	m := literals(sourceDir())
	var lines []string
	for l, n := range m {
		lines = append(lines, fmt.Sprintf("%d %s\n", n, strconv.Quote(l)))
	}
	sort.Strings(lines)
	return os.WriteFile(path, []byte(strings.Join(lines, "")), 0666)
}

func dictPick[T any](r *Rng, f func(d *Dict) []T) T {
	all, hot := dictOnce()
	if vs := f(hot); len(vs) > 0 && r.Chance(70) {
		return Pick(r, vs)
	}
	return Pick(r, f(all))
}

// Word is an identifier from the dictionary.
func (r *Rng) Word() string { return dictPick(r, func(d *Dict) []string { return d.Words }) }

// Str is a string from the dictionary.
func (r *Rng) Str() string { return dictPick(r, func(d *Dict) []string { return d.Strs }) }

// hotDict tells if there are new strings in the dictionary.
func hotDict() bool {
	_, hot := dictOnce()
	return len(hot.Strs)+len(hot.Runes) > 0
}

// hotRunes are the characters in the dictionary.
func hotRunes() []rune {
	all, hot := dictOnce()
	if len(hot.Runes) > 0 {
		return hot.Runes
	}
	return all.Runes
}

// Size is a count: often as given, and sometimes around a number from the
// dictionary.
func (r *Rng) Size(usual, limit int) int {
	_, hot := dictOnce()
	pct := 3
	if len(hot.Ints) > 0 {
		pct = 12
	}
	if !r.Chance(pct) {
		return usual
	}
	n := dictPick(r, func(d *Dict) []int { return d.Ints })
	if n > limit {
		return usual
	}
	return min(limit, max(0, n+r.Between(-1, 2)))
}

// Huge is like Size, but goes once beyond the limit where the dictionary has a
// new number that is larger.
func (r *Rng) Huge(usual, limit int) int {
	_, hot := dictOnce()
	if len(hot.Ints) > 0 && !r.huge && r.Chance(3) {
		if n := Pick(r, hot.Ints); n > limit && n <= 5000 {
			r.huge = true // only once, since sizes multiply
			return n + r.Between(-1, 2)
		}
	}
	return r.Size(usual, limit)
}

// HugeText is a count of bytes around a new large number of the dictionary, and
// 0 where there is none.
func (r *Rng) HugeText() int {
	_, hot := dictOnce()
	if len(hot.Ints) > 0 && r.Chance(2) {
		if n := Pick(r, hot.Ints); n > 5000 && n <= 4<<20 {
			return n * OneOf(r, 2, 2, 3) / OneOf(r, 1, 2, 2)
		}
	}
	return 0
}

// SpecialTag is a struct tag with a key or value from the dictionary, or one
// that tools know.
func (r *Rng) SpecialTag() string {
	w := func() string {
		if r.Chance(50) {
			return r.Word()
		}
		return OneOf(r, "json", "xml", "yaml", "gopoet", "template", "go", "import", "db", "protobuf", "-", "omitempty", "inline")
	}
	switch r.IntN(6) {
	case 0:
		return w() + `:"-"`
	case 1:
		return w() + `:"` + w() + `"`
	case 2:
		return w() + `:"` + w() + `,` + w() + `"`
	case 3:
		return `json:` + strconv.Quote(r.Str())
	case 4:
		return w()
	}
	return r.Str()
}
