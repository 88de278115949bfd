package main

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C08"] = &CheckDef{
		Boost:    3,
		Deep:     4,
		Rule:     "goroutines that each build and render files of their own over shared, not yet used types, symbols, code blocks, templates and data, and refer to elements of files that other goroutines render at the same time; and goroutines that convert, qualify and print the same fresh values; under the race detector and in a plain build, with arguments, template functions and writers that yield; bytes and results are compared with a sequential run made afterwards on an independent copy; a case is nontrivial if goroutines really interleaved, by the order of their steps",
		Shards:   4,
		Variants: []string{"default", "race"},
		Needs:    map[string]int64{"concurrent_renderings": 3000, "interleaved_steps": 3000, "race_build_cases": 100, "shared_blocks_used": 500, "shared_types_used": 300, "conversions": 3000, "concurrent_files_on_disk": 100, "data_qualified_concurrently": 1000},
		Run:      runC08,
		Unpriv:   true,
	}
}

// A gor is what one goroutine did. Goroutines do not share any of it, because
// synchronization would hide races from the race detector.
type gor struct {
	id    int
	steps []time.Time
	files []*WFile
	out   [][]byte
	text  []string
	bad   string
	disk  int
}

func (g *gor) step() { g.steps = append(g.steps, time.Now()) }

// yieldWriter lets others run between writes.
type yieldWriter struct {
	bytes.Buffer
	g *gor
}

func (w *yieldWriter) Write(p []byte) (int, error) {
	runtime.Gosched()
	w.g.step()
	return w.Buffer.Write(p)
}
func (w *yieldWriter) Close() error { w.g.step(); return nil }

// concurrently runs the functions at the same time and returns the order in
// which their steps happened.
func (k *Case) concurrently(fs []func(g *gor)) []*gor {
	gs := make([]*gor, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range fs {
		g := &gor{id: i}
		gs[i] = g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					g.bad = fmt.Sprint(p)
					if fp, ok := p.(failPanic); ok {
						g.bad = fp.msg
					}
					if he, ok := p.(harnessErr); ok {
						g.bad = "HARNESS " + he.msg
					} else {
						buf := make([]byte, 4000)
						g.bad += "\n" + string(buf[:runtime.Stack(buf, false)])
					}
				}
			}()
			<-start
			f(g)
		}()
	}
	close(start)
	wg.Wait()
	type st struct {
		t  time.Time
		id int
	}
	var all []st
	for _, g := range gs {
		if strings.HasPrefix(g.bad, "HARNESS ") {
			bug("%s", g.bad)
		}
		if g.bad != "" {
			k.Failf("goroutine %d panicked: %s", g.id, g.bad)
		}
		for _, t := range g.steps {
			all = append(all, st{t, g.id})
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].t.Before(all[j].t) })
	var order strings.Builder
	switches := 0
	for i, s := range all {
		fmt.Fprintf(&order, "%d ", s.id)
		if i > 0 && all[i-1].id != s.id {
			switches++
		}
	}
	k.Count("interleaved_steps", switches)
	k.Count("steps", len(all))
	if switches >= len(fs) {
		k.Nontrivial(order.String())
	}
	if k.Variant == "race" {
		k.Count("race_build_cases", 1)
	}
	k.Sample("order of steps by goroutine: %s", order.String())
	return gs
}

// sub builds a file of its own over what the base world shares.
func (b *World) sub(seed uint64, i int, opt WOpt, step func()) *World {
	w := &World{R: newRng(seed, "C08", "sub", i), Opt: opt, known: map[string]bool{}, events: map[string]int{}, Shared: b.Shared}
	if step != nil {
		w.onElem = step
	}
	w.Locals = append(w.Locals, b.Locals...)
	l := &LPkg{Path: fmt.Sprintf("example.com/sub/s%d", i), Name: OneOf(w.R, "foo", "sub", "bytes"), idx: len(b.Locals) + i}
	w.Locals = append(w.Locals, l)
	for j := w.R.Between(1, 2); j > 0; j-- {
		w.genFile(l, fmt.Sprintf("f%d.go", j))
	}
	return w
}

func runC08(c *Ctx) {
	runtime.GOMAXPROCS(8)
	race := c.Variant == "race"
	n := c.N(700, 8000)
	if race {
		n = c.N(350, 4000)
	}
	c.Run("files", n, func(k *Case) {
		r := k.R
		seed := r.Uint64()
		opt := WOpt{Pkgs: r.Between(1, 3), FilesPerPkg: r.Between(1, 2), Elems: r.Between(2, 6), Bodies: true, MaxPieces: 5, Share: true, NoSpecData: true, Yield: true, TypeBudget: 8, Comments: r.IntN(2)}
		build := func() *World { return buildWorld(newRng(seed, "C08", "world", 0), opt) }
		subOpt := opt
		subOpt.Share = false
		nsub := r.Between(2, 5)
		w := build()
		before := w.dumpKept()
		subs := make([]*World, nsub)
		root := ""
		if r.Chance(25) {
			dir, done := k.scratch()
			defer done()
			root = filepath.Join(dir, "root")
			os.Setenv("GOPATH", root+":"+dir)
			defer os.Unsetenv("GOPATH")
		}
		var fs []func(g *gor)
		for _, f := range w.Files {
			reps := r.Between(1, 3)
			fs = append(fs, func(g *gor) {
				for i := 0; i < reps; i++ {
					g.step()
					out := &yieldWriter{g: g}
					if err := gopoet.WriteGoFile(out, f.GF); err != nil {
						panic(failPanic{fmt.Sprintf("%s: %v", f.Path, err)})
					}
					g.files, g.out = append(g.files, f), append(g.out, out.Bytes())
				}
			})
		}
		for i := range subs {
			toDisk := root != "" && r.Chance(60)
			toGopath := toDisk && r.Chance(40)
			fs = append(fs, func(g *gor) {
				s := w.sub(seed, i, subOpt, g.step)
				subs[i] = s
				var gfs []*gopoet.GoFile
				for _, f := range s.Files {
					gfs = append(gfs, f.GF)
				}
				if toDisk {
					g.step()
					var err error
					if toGopath {
						err = gopoet.WriteGoFilesToGoPath(gfs...)
					} else {
						err = gopoet.WriteGoFilesToFileSystem(root, gfs...)
					}
					g.step()
					if err != nil {
						panic(failPanic{fmt.Sprintf("%s: %v %s", s.Files[0].Path, err, unformatted(err))})
					}
					for _, f := range s.Files {
						b, err := os.ReadFile(filepath.Join(root, filepath.FromSlash(f.Path)))
						if err != nil {
							panic(failPanic{fmt.Sprintf("%s: %v", f.Path, err)})
						}
						g.files, g.out = append(g.files, f), append(g.out, b)
						g.disk++
					}
					return
				}
				var outs []*yieldWriter
				err := gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) {
					g.step()
					o := &yieldWriter{g: g}
					outs = append(outs, o)
					return o, nil
				}, gfs...)
				if err != nil {
					panic(failPanic{fmt.Sprintf("%s: %v %s", s.Files[0].Path, err, unformatted(err))})
				}
				for j, o := range outs {
					g.files, g.out = append(g.files, s.Files[j]), append(g.out, o.Bytes())
				}
			})
		}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		gs := k.concurrently(fs)
		// the sequential run, over a copy that nothing was done with
		ref := build()
		want := map[string][]byte{}
		for _, f := range ref.Files {
			want[f.Path] = f.mustWrite(k)
		}
		for i := range subs {
			s := ref.sub(seed, i, subOpt, nil)
			for _, f := range s.Files {
				want[f.Path] = f.mustWrite(k)
			}
			k.countWorld(subs[i])
		}
		for _, g := range gs {
			k.Count("concurrent_files_on_disk", g.disk)
			for j, out := range g.out {
				k.Count("concurrent_renderings", 1)
				if p := g.files[j].Path; !bytes.Equal(out, want[p]) {
					k.Failf("%s rendered concurrently differs from the sequential run: %s\n%s", p, firstDiff(string(want[p]), string(out)), numbered(want[p]))
				}
			}
		}
		k.keptUnchanged(w, before, "rendering")
		k.countWorld(w)
	})
	c.Run("values", n, func(k *Case) { k.concurrentValues() })
	c.Run("data", n, func(k *Case) { k.concurrentData() })
}

// freshReflect makes a reflect type that no one has used before.
func (k *Case) freshReflect(i int) reflect.Type {
	r := k.R
	n := int(uint32(k.Seed)%1000)*1000 + k.Idx*10 + i
	t := reflect.ArrayOf(n%100000+1, Pick(r, reflStatic))
	switch r.IntN(6) {
	case 0:
		return reflect.PointerTo(t)
	case 1:
		return reflect.MapOf(reflect.TypeOf(""), t)
	case 2:
		return reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d", n), Type: reflect.PointerTo(t)}, {Name: "B", Type: reflect.TypeOf(0), Tag: `json:"x"`}})
	case 3:
		return reflect.FuncOf([]reflect.Type{reflect.PointerTo(t), reflect.SliceOf(Pick(r, reflStatic))}, []reflect.Type{reflect.ChanOf(reflect.RecvDir, reflect.PointerTo(t))}, true)
	}
	return reflect.SliceOf(t)
}

// freshGo makes a go/types object with methods that no one has used before.
func (k *Case) freshGo(i int) (*types.Named, []types.Object) {
	name := fmt.Sprintf("N%d_%d", k.Idx, i)
	u := Pick(k.R, plainU)
	pkg := types.NewPackage("example.com/fresh/"+name, "fresh")
	tn := types.NewTypeName(token.NoPos, pkg, name, nil)
	ut := u.Types().Scope().Lookup("T1").Type()
	st := types.NewStruct([]*types.Var{types.NewField(token.NoPos, pkg, "A", ut, false), types.NewField(token.NoPos, pkg, "T0", u.Types().Scope().Lookup("T0").Type(), true)}, []string{"a", ""})
	named := types.NewNamed(tn, st, nil)
	sig := types.NewSignatureType(types.NewVar(token.NoPos, pkg, "r", types.NewPointer(named)), nil, nil,
		types.NewTuple(types.NewParam(token.NoPos, pkg, "a", types.NewSlice(named))), types.NewTuple(types.NewParam(token.NoPos, pkg, "", ut)), true)
	m := types.NewFunc(token.NoPos, pkg, "M"+name, sig)
	named.AddMethod(m)
	iface := types.NewInterfaceType([]*types.Func{types.NewFunc(token.NoPos, pkg, "IM", types.NewSignatureType(nil, nil, nil, nil, nil, false))}, []types.Type{u.Types().Scope().Lookup("I0").Type()})
	iface.Complete()
	in := types.NewNamed(types.NewTypeName(token.NoPos, pkg, "I", nil), iface, nil)
	return named, []types.Object{tn, m, types.NewVar(token.NoPos, pkg, "V"+name, types.NewChan(types.SendOnly, in)), types.NewConst(token.NoPos, pkg, "C", named, nil), in.Obj()}
}

// concurrentValues lets goroutines use the same values in all other ways.
func (k *Case) concurrentValues() {
	r := k.R
	g := freeGen(r)
	var tys []*Ty
	var tns []gopoet.TypeName
	for i := 0; i < 3; i++ {
		t := g.Gen(r.Between(2, 20))
		tys, tns = append(tys, t), append(tns, t.poet())
	}
	var rts []reflect.Type
	for i := 0; i < 2; i++ {
		rts = append(rts, k.freshReflect(i))
	}
	named, objs := k.freshGo(0)
	sg := &Sg{Args: []Arg{{"a", tys[0]}, {"", tys[1]}}, Results: []Arg{{"", tys[2]}}}
	sig := sg.poet()
	own := "example.com/own"
	w := buildWorld(newRng(r.Uint64(), "C08", "w", k.Idx), WOpt{Pkgs: 1, FilesPerPkg: 1, Elems: 6, TypeBudget: 5})
	type datum struct {
		X any
		T gopoet.TypeName
		s []gopoet.Symbol
		M map[string]any
	}
	data := &datum{X: rts[0], T: tns[0], s: []gopoet.Symbol{w.uSym("T0").poet(), w.uSym("T1").poet()}, M: map[string]any{"a": tns[1], "b": sig, "c": objs[0], "d": []any{gopoet.NewSymbol("a/b", "C")}}}
	cb := gopoet.Printlnf("%s %s %s", tns[0], named, objs[1]).RenderCode(mustTmpl("{{.X}} {{.T}} {{.M.a}} {{.M.c}}\n"), data).Println("x")
	ids := []string{fmt.Sprintf("aé%d", k.Idx), fmt.Sprintf("_%d", k.Idx), fmt.Sprintf("Bx%d", k.Idx), "世", "ǆ"}
	ops := []func(g *gor, imp *gopoet.Imports) string{
		func(g *gor, imp *gopoet.Imports) string { return tns[0].String() + tns[1].String() + tns[2].String() },
		func(g *gor, imp *gopoet.Imports) string { return fullDump.Ty(tyOf(tns[0])) + fullDump.Ty(tyOf(tns[2])) },
		func(g *gor, imp *gopoet.Imports) string {
			return imp.EnsureTypeImported(tns[1]).String() + imp.EnsureTypeImported(tns[0]).String()
		},
		func(g *gor, imp *gopoet.Imports) string {
			s := imp.EnsureAllTypesImported(sig)
			return gopoet.FuncTypeFromSig(s).String() + gopoet.FuncTypeFromSig(sig).String()
		},
		func(g *gor, imp *gopoet.Imports) string {
			s := ""
			for _, t := range rts {
				s += gopoet.TypeNameForReflectType(t).String() + " "
				g.step()
			}
			return s
		},
		func(g *gor, imp *gopoet.Imports) string {
			s := gopoet.TypeNameForGoType(named).String() + gopoet.TypeNameForGoType(named.Underlying()).String()
			for _, o := range objs {
				s += " " + gopoet.SymbolForGoObject(o).String() + " " + gopoet.TypeNameForGoType(o.Type()).String() + gopoet.TypeNameForGoType(o.Type().Underlying()).String()
			}
			return s + gopoet.PackageForGoType(objs[0].Pkg()).ImportPath
		},
		func(g *gor, imp *gopoet.Imports) string {
			d := imp.QualifyTemplateData(data).(*datum)
			return fmt.Sprint(d.X, d.T, d.s, d.M["a"], d.M["c"], d.M["d"])
		},
		func(g *gor, imp *gopoet.Imports) string {
			s := ""
			for _, id := range ids {
				s += gopoet.Export(id) + gopoet.Unexport(id)
			}
			return s
		},
		func(g *gor, imp *gopoet.Imports) string {
			f := gopoet.NewGoFile("x.go", fmt.Sprintf("a/b%d", g.id), "b")
			f.AddElement(gopoet.NewFunc("f").AddCode(cb).AddArg("a", tns[0]))
			f.AddType(gopoet.NewTypeSpec("t", tns[1]))
			var out bytes.Buffer
			err := gopoet.WriteGoFile(&out, f)
			if fe, ok := err.(*gopoet.FormatError); ok {
				return string(fe.Unformatted)
			}
			return out.String()
		},
		func(g *gor, imp *gopoet.Imports) string {
			s := ""
			for _, d := range w.Locals[0].decls {
				switch x := d.Spec.(type) {
				case *gopoet.TypeSpec:
					s += x.ToTypeName().String() + x.ToSymbol().String() + x.String()
				case *gopoet.ConstSpec:
					s += x.String()
				case *gopoet.VarSpec:
					s += x.String()
				case *gopoet.FuncSpec:
					s += x.ToSymbol().String() + x.ToTypeName().String()
				}
			}
			return s
		},
		func(g *gor, imp *gopoet.Imports) string {
			f := w.Locals[0].files[0].GF
			p := f.Package()
			s := fmt.Sprint(f.CanonicalImportPath, f.NumElements(), p)
			for i := 0; i < f.NumElements(); i++ {
				s += fmt.Sprintf(" %p", f.ElementAt(i))
			}
			for _, d := range w.Locals[0].decls {
				if x, ok := d.Spec.(*gopoet.TypeSpec); ok {
					s += fmt.Sprint(x.IsAlias(), x.Underlying() != nil)
					s += gopoet.NewMethod(gopoet.NewReceiverForType("r", x), "M").String() + gopoet.NewMethod(gopoet.NewPointerReceiverForType("p", x), "M").String()
				}
			}
			return s
		},
		func(g *gor, imp *gopoet.Imports) string {
			// the forms that do not register, after and before registering
			imp.EnsureTypeImported(tns[0])
			imp.EnsureAllTypesImported(sig)
			s := imp.QualifyType(tns[0]).String() + gopoet.FuncTypeFromSig(imp.QualifySignature(sig)).String()
			bad, _ := panics(func() { imp.Qualify(gopoet.NewSymbol("never/seen", "X")) })
			s += fmt.Sprint(bad)
			for _, sp := range imp.ImportSpecs() {
				s += " " + sp.String() + "=" + imp.PrefixForPackage(sp.ImportPath)
			}
			return s
		},
		func(g *gor, imp *gopoet.Imports) string {
			// new types over shared parts
			s := gopoet.FuncType(sig.Args, sig.Results).String() + gopoet.FuncTypeVariadic([]gopoet.ArgType{{Name: "v", Type: gopoet.SliceType(tns[2])}}, sig.Results).String()
			s += gopoet.MapType(gopoet.StringType, tns[0]).String() + gopoet.ChannelType(tns[1], reflect.RecvDir).String() + gopoet.ArrayType(tns[2], 3).String() + gopoet.PointerType(gopoet.SliceType(tns[0])).String()
			for _, n := range []string{"int", "error", "byte", "string"} {
				s += gopoet.NamedType(gopoet.Symbol{Name: n}).String()
			}
			return s
		},
		func(g *gor, imp *gopoet.Imports) string {
			p := w.Locals[0].files[0].GF.Package()
			return p.Symbol("X").String() + imp.EnsureImported(p.Symbol("Y")).String() + imp.RegisterImportForPackage(p)
		},
	}
	n := r.Between(3, 8)
	orders := make([][]int, n)
	for i := range orders {
		orders[i] = r.Perm(len(ops))
	}
	var fs []func(g *gor)
	for i := 0; i < n; i++ {
		fs = append(fs, func(g *gor) {
			for _, o := range orders[i] {
				g.step()
				imp := gopoet.NewImportsFor(own)
				g.text = append(g.text, ops[o](g, imp))
			}
			g.step()
		})
	}
	gs := k.concurrently(fs)
	for i, g := range gs {
		for j, o := range orders[i] {
			want := ops[o](&gor{id: i}, gopoet.NewImportsFor(own))
			if g.text[j] != want {
				k.Failf("operation %d gives something else when run concurrently: %s", o, firstDiff(want, g.text[j]))
			}
			k.Count("conversions", 1)
		}
	}
}

// concurrentData lets goroutines qualify the same template data.
func (k *Case) concurrentData() {
	r := k.R
	gen := k.newD9Gen()
	gen.s = &importState{own: gen.s.own, imp: gopoet.NewImportsFor(gen.s.own)}
	var data any
	for i := 0; data == nil; i++ {
		data = gen.fill(gen.typ(r.Between(1, 4))).Interface()
		if i > 20 {
			data = []any{gen.sym(), gen.tn()}
		}
	}
	dump := deepDump(data)
	n := r.Between(2, 6)
	type result struct {
		s    *importState
		data any
	}
	rs := make([]result, n)
	var fs []func(g *gor)
	for i := range rs {
		fs = append(fs, func(g *gor) {
			g.step()
			s := &importState{own: gen.s.own, imp: gopoet.NewImportsFor(gen.s.own)}
			rs[i] = result{s, s.imp.QualifyTemplateData(data)}
			g.step()
		})
	}
	k.concurrently(fs)
	if after := deepDump(data); after != dump {
		k.Failf("QualifyTemplateData modified shared data: %s", firstDiff(dump, after))
	}
	alone := k.qualifyData(gen.s, data)
	_ = alone
	wrap := func(v any) reflect.Value { return reflect.ValueOf(&v).Elem() }
	for _, x := range rs {
		c := &d9Check{k: k, imp: x.s.imp, own: x.s.own, unexported: k.Variant != "purego", mentioned: map[string]bool{}, maybe: map[string]bool{}}
		if err := c.same("data", wrap(data), wrap(x.data)); err != nil {
			k.Failf("wrong result of concurrent QualifyTemplateData: %v\ndata: %s\nresult: %s", err, dump, deepDump(x.data))
		}
		k.Count("data_qualified_concurrently", 1)
	}
}
