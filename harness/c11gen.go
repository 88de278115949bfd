package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Types with arbitrary names cannot be made with reflect, so this generates
// programs that declare them, in packages with arbitrary names and paths, and
// tell what their conversion gives.

//go:embed gendump/gendump.go
var gendumpSrc string

type genPkg struct {
	path, name string
	names      []string // of its types
	embeddable []string
	pointable  []string // whose pointers can be embedded
	body       bytes.Buffer
	imports    map[string]string // path -> alias
	all        []string          // expressions in All
}

// genType is a type in a generated program: its source in a package, and what
// its conversion has to look like.
type genType struct {
	src  func(in *genPkg) string
	dump string
}

type genProg struct {
	k    *Case
	pkgs []*genPkg
	used map[string]bool
}

var (
	genElemRE = regexp.MustCompile(`^[A-Za-z0-9][A-Za-z0-9_~.-]*[A-Za-z0-9_-]$|^[a-z]$`)
	oddNames  = []string{"_T", "__", "T_", "_t_", "_Ctype_int", "_Cfunc", "世界", "π", "Ǆ", "ǅ", "ª", "Δ", "ſ", "X_test", "Test", "Benchmark", "struct_", "Struct", "Type", "T1", "T01", "t", "T", "Interface", "Error", "String", "Any", "Pointer", "main_", "Main", "Init", "Func", "Alias", "Generic", "xT", "XT", "X", "x"}
)

func (p *genProg) word(ok func(string) bool, other []string) string {
	r := p.k.R
	for i := 0; ; i++ {
		w := Pick(r, other)
		if r.Chance(60) && i < 5 {
			w = r.Word()
		}
		if i > 20 {
			w = fmt.Sprintf("%s%d", w, r.IntN(1000))
		}
		if ok(w) {
			return w
		}
	}
}

// ident makes an identifier that means nothing yet.
func (p *genProg) ident() string {
	w := p.word(func(w string) bool {
		return token.IsIdentifier(w) && w != "_" && w != "init" && w != "main" && types.Universe.Lookup(w) == nil && !p.used[w] && !strings.HasPrefix(w, "zz")
	}, oddNames)
	p.used[w] = true
	return w
}

func (in *genPkg) ref(path string) string {
	if path == in.path {
		return ""
	}
	if in.imports[path] == "" {
		in.imports[path] = fmt.Sprintf("zz%d", len(in.imports))
	}
	return in.imports[path] + "."
}

var genStd = []reflect.Type{elemType[time.Time](), elemType[http0](), elemType[bytes.Buffer](), elemType[token.Pos](), elemType[reflect.Value](), elemType[os.FileMode](), elemType[json.Number](), elemType[fmt.Stringer]()}

type http0 = exec.Cmd

// typ makes a type that can be written in the i-th package and those after it.
func (p *genProg) typ(i, depth int, comparable bool) genType {
	r := p.k.R
	embedded := map[string]bool{}
	named := func(embed bool) (genType, bool) {
		var q *genPkg
		var name string
		ptr := embed && r.Chance(40)
		for n := 0; n < 4; n++ {
			q = p.pkgs[r.IntN(i+1)]
			names := q.names
			if embed {
				names = q.embeddable
			}
			if ptr {
				names = q.pointable
			}
			if len(names) == 0 {
				continue
			}
			name = Pick(r, names)
			if embed && embedded[name] {
				continue
			}
			if q != p.pkgs[i] && !token.IsExported(name) {
				continue
			}
			embedded[name] = true
			if ptr {
				return genType{func(in *genPkg) string { return "*" + in.ref(q.path) + name }, fmt.Sprintf("ptr(named(%q %q))", q.path, name)}, true
			}
			return genType{func(in *genPkg) string { return in.ref(q.path) + name }, fmt.Sprintf("named(%q %q)", q.path, name)}, true
		}
		return genType{}, false
	}
	if depth <= 0 || comparable || r.Chance(25) {
		switch r.IntN(4) {
		case 0:
			if !comparable {
				t := Pick(r, genStd)
				return genType{func(in *genPkg) string { return in.ref(t.PkgPath()) + t.Name() }, fmt.Sprintf("named(%q %q)", t.PkgPath(), t.Name())}
			}
		case 1, 2:
			if !comparable {
				if t, ok := named(false); ok {
					return t
				}
			}
		}
		b := OneOf(r, "int", "string", "bool", "uint8", "int32", "float64", "uintptr", "complex128")
		return genType{func(*genPkg) string { return b }, b}
	}
	wrap := func(src, dump string, ts ...genType) genType {
		var ds []any
		for _, t := range ts {
			ds = append(ds, t.dump)
		}
		return genType{func(in *genPkg) string {
			var ss []any
			for _, t := range ts {
				ss = append(ss, t.src(in))
			}
			return fmt.Sprintf(src, ss...)
		}, fmt.Sprintf(dump, ds...)}
	}
	e := func() genType { return p.typ(i, depth-1, false) }
	switch r.IntN(8) {
	case 0:
		return wrap("*%s", "ptr(%s)", e())
	case 1:
		return wrap("[]%s", "slice(%s)", e())
	case 2:
		n := r.Between(0, 9)
		return wrap(fmt.Sprintf("[%d]%%s", n), fmt.Sprintf("array(%d %%s)", n), e())
	case 3:
		return wrap("map[%s]%s", "map(%s %s)", p.typ(i, 0, true), e())
	case 4:
		d := r.IntN(3)
		return wrap([]string{"<-chan (%s)", "chan<- (%s)", "chan (%s)"}[d], fmt.Sprintf("chan(%d %%s)", d+1), e())
	case 5:
		return wrap("func(%s, ...%s) (%s, %s)", `func("" %s, "" slice(%s))("" %s, "" %s)true`, e(), e(), e(), e())
	case 6:
		a, b := e(), e()
		var names []string
		for len(names) < 2 {
			names = append(names, p.ident())
		}
		sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })
		for _, n := range names {
			if !token.IsExported(n) {
				return wrap("interface{ "+names[0]+"(%s) }", fmt.Sprintf(`interface(%q ("" %%s)()false)`, names[0]), a)
			}
		}
		return wrap("interface{ "+names[1]+"(%s); "+names[0]+"() %s }", fmt.Sprintf(`interface(%q ()("" %%[2]s)false; %q ("" %%[1]s)()false)`, names[0], names[1]), a, b)
	}
	var src, dump []string
	var ts []genType
	for n := r.Between(1, 4); n > 0; n-- {
		name := p.ident()
		for embedded[name] {
			name = p.ident()
		}
		embedded[name] = true
		tag := ""
		if r.Chance(40) {
			tag = r.SpecialTag()
		}
		emb := r.Chance(25)
		if emb {
			t, ok := named(true)
			if !ok {
				continue
			}
			ts = append(ts, t)
			src = append(src, fmt.Sprintf("%%s %s", strings.ReplaceAll(fmt.Sprintf("%+q", tag), "%", "%%")))
			dump = append(dump, strings.ReplaceAll(fmt.Sprintf(`"" %s %q`, "\x00", tag), "%", "%%"))
		} else {
			ts = append(ts, e())
			src = append(src, fmt.Sprintf("%s %%s %s", name, strings.ReplaceAll(fmt.Sprintf("%+q", tag), "%", "%%")))
			dump = append(dump, strings.ReplaceAll(fmt.Sprintf("%q %s %q", name, "\x00", tag), "%", "%%"))
		}
		dump[len(dump)-1] = strings.ReplaceAll(dump[len(dump)-1], "\x00", "%s")
	}
	return wrap("struct{ "+strings.Join(src, "; ")+" }", "struct("+strings.Join(dump, "; ")+")", ts...)
}

func (k *Case) generatedTypes() {
	r := k.R
	p := &genProg{k: k, used: map[string]bool{}}
	paths := map[string]bool{}
	var want []string
	for i, n := 0, r.Between(2, 4); i < n; i++ {
		q := &genPkg{imports: map[string]string{}}
		for {
			elems := []string{"gen.test/m"}
			for d := r.Between(1, 3); d > 0; d-- {
				elems = append(elems, p.word(genElemRE.MatchString, []string{"a", "b", "internal", "v2", "foo.v1", "x-y", "go-z", "testdata", "main", "A", "init", "type", "x_test", "vendored", "unsafe", "reflect"}))
			}
			q.path = strings.Join(elems, "/")
			if !paths[strings.ToLower(q.path)] && !strings.Contains(q.path, "/vendor") && !strings.Contains(strings.TrimPrefix(q.path, "gen.test/m/"), "/internal") && !strings.Contains(q.path, "..") && !strings.HasSuffix(q.path, ".go") {
				break
			}
		}
		paths[strings.ToLower(q.path)] = true
		q.name = p.word(func(w string) bool {
			return token.IsIdentifier(w) && w != "_" && w != "main" && !strings.HasSuffix(w, "_test")
		}, []string{"a", "foo", "x_y", "errors", "int", "世", "T"})
		p.pkgs = append(p.pkgs, q)
		p.used = map[string]bool{"All": true}
		for m := r.Between(3, 12); m > 0; m-- {
			name := p.ident()
			t := p.typ(i, 2, false)
			fmt.Fprintf(&q.body, "type %s %s\n\n", name, t.src(q))
			q.names = append(q.names, name)
			if !strings.HasPrefix(t.dump, "ptr(") && !strings.HasPrefix(t.dump, "named(") {
				q.embeddable = append(q.embeddable, name)
			}
			if !strings.HasPrefix(t.dump, "ptr(") && !strings.HasPrefix(t.dump, "named(") && !strings.HasPrefix(t.dump, "interface(") && !strings.HasPrefix(name, "_C") {
				q.pointable = append(q.pointable, name)
				for n := r.IntN(3); n > 0; n-- {
					// some methods; no two of one name
					fmt.Fprintf(&q.body, "func (%s%s) %s%d() {}\n\n", OneOf(r, "", "*", "x ", "x *"), name, OneOf(r, "Zz", "zz"), n)
				}
			}
			q.all = append(q.all, "(*"+name+")(nil)")
			want = append(want, fmt.Sprintf("named(%q %q)", q.path, name))
		}
		for m := r.Between(2, 8); m > 0; m-- {
			t := p.typ(i, 3, false)
			q.all = append(q.all, "(*"+t.src(q)+")(nil)")
			want = append(want, t.dump)
		}
	}
	dir, err := os.MkdirTemp("", "vh-gen")
	if err != nil {
		bug("%v", err)
	}
	defer os.RemoveAll(dir)
	write := func(name, src string) {
		f := filepath.Join(dir, filepath.FromSlash(name))
		if err := os.MkdirAll(filepath.Dir(f), 0o777); err != nil {
			bug("%v", err)
		}
		if err := os.WriteFile(f, []byte(src), 0o666); err != nil {
			bug("%v", err)
		}
	}
	write("go.mod", "module gen.test/m\n\ngo 1.17\n\nrequire github.com/jhump/gopoet v0.0.0\n\nreplace github.com/jhump/gopoet => "+sourceDir()+"\n")
	write("zz/gendump/gendump.go", gendumpSrc)
	var imports, lists strings.Builder
	for i, q := range p.pkgs {
		var src strings.Builder
		fmt.Fprintf(&src, "package %s\n\n", q.name)
		for path, a := range q.imports {
			fmt.Fprintf(&src, "import %s %q\n", a, path)
		}
		fmt.Fprintf(&src, "%s\nvar All = []interface{}{\n%s,\n}\n", q.body.String(), strings.Join(q.all, ",\n"))
		write(strings.TrimPrefix(q.path, "gen.test/m/")+"/x.go", src.String())
		fmt.Fprintf(&imports, "import p%d %q\n", i, q.path)
		fmt.Fprintf(&lists, "show(p%d.All)\n", i)
	}
	write("main.go", `package main

import "encoding/json"
import "os"
import "reflect"
import "github.com/jhump/gopoet"
import "gen.test/m/zz/gendump"
`+imports.String()+`

var out []string

func show(all []interface{}) {
	for _, x := range all {
		out = append(out, gendump.Dump(gopoet.TypeNameForReflectType(reflect.TypeOf(x).Elem())))
	}
}

func main() {
`+lists.String()+`
	json.NewEncoder(os.Stdout).Encode(out)
}
`)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	run := func(name string, args ...string) ([]byte, error) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOMAXPROCS=2")
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		if err != nil {
			err = fmt.Errorf("%v: %s", err, stderr.String())
		}
		return out, err
	}
	if _, err := run("go", "build", "-o", "prog", "."); err != nil {
		// not all that is made is legal
		k.Count("generated_programs_rejected", 1)
		if os.Getenv("VH_GEN") != "" {
			f, _ := os.OpenFile(os.Getenv("VH_GEN"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o666)
			fmt.Fprintf(f, "%v\n", err)
			f.Close()
		}
		return
	}
	out, err := run(filepath.Join(dir, "prog"))
	if err != nil {
		k.Failf("converting the types of a generated program: %v", err)
	}
	var got []string
	if err := json.Unmarshal(out, &got); err != nil || len(got) != len(want) {
		bug("%v %d %d", err, len(got), len(want))
	}
	for i := range want {
		k.Count("generated_types", 1)
		if got[i] != want[i] {
			k.Failf("type %d of a generated program is converted wrongly: %s", i, firstDiff(want[i], got[i]))
		}
	}
	k.Nontrivial(strings.Join(want, "\n"))
	k.Sample("%.300s", want[len(want)-1])
}
