package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C03"] = &CheckDef{
		Boost:  20,
		Deep:   20,
		Rule:   "random symbols, types and signatures over a pool of conflicting packages, qualified with import sets in random states; compared node by node, through the accessors, with the model with prefixes replaced; nontrivial cases mention at least two packages",
		Shards: 8,
		Needs:  map[string]int64{"types_qualified": 3000, "signatures_qualified": 1000, "symbols_qualified": 3000, "lookups_that_panicked": 1000},
		Run:    runC03,
	}
}

var fullDump = Dumper{Sym: symFull}

// importState is an import set together with what must be in it.
type importState struct {
	own string
	imp *gopoet.Imports
}

func (s *importState) paths() map[string]bool {
	ret := map[string]bool{}
	for _, x := range s.imp.ImportSpecs() {
		ret[x.ImportPath] = true
	}
	return ret
}

func (s *importState) specs() string { return fmt.Sprint(s.imp.ImportSpecs()) }

// want gives the expected qualified form of a symbol.
func (s *importState) want(k *Case, x Sym) Sym {
	if x.Path == "" && x.Pkg == "" {
		return x
	}
	x.Pkg = strings.TrimSuffix(s.imp.PrefixForPackage(x.Path), ".")
	return x
}

func setKeys(m map[string]bool) []string {
	var ret []string
	for p := range m {
		ret = append(ret, p)
	}
	sort.Strings(ret)
	return ret
}

type poolSym struct{ path, name string }

func newImportState(r *Rng) *importState {
	own := OneOf(r, "own", "own", "a/foo", "x/own", "", "foo")
	s := &importState{own: own, imp: gopoet.NewImportsFor(own)}
	for n := OneOf(r, 0, 0, 1, 3, 8); n > 0; n-- {
		s.imp.RegisterImport(Pick(r, importPaths), Pick(r, importNames))
	}
	return s
}

// poolGen makes types whose names are from a few packages.
func poolGen(r *Rng, own string) *TyGen {
	g := freeGen(r)
	var pool []poolSym
	for n := r.Between(1, 6); n > 0; n-- {
		pool = append(pool, poolSym{Pick(r, importPaths), Pick(r, importNames)})
	}
	if own != "" || r.Chance(50) {
		pool = append(pool, poolSym{own, Pick(r, []string{"own", "", "foo", "x"})})
	}
	g.Sym = func(bool) Sym {
		if r.Chance(4) {
			return Sym{"unsafe", "unsafe", "Pointer"}
		}
		if r.Chance(12) {
			return Sym{Name: Pick(r, []string{"error", "T", "any", "int"})}
		}
		p := Pick(r, pool)
		if p.path == "" && own != "" {
			p.path = "a/foo"
		}
		if r.Chance(10) {
			p.name = Pick(r, importNames) // names may contradict each other
		}
		return Sym{p.path, p.name, Pick(r, []string{"T", "Foo", "x", "世界", "foo", "own", "V1"})}
	}
	return g
}

// mentioned gives the packages that have to be imported for a reference.
func (s *importState) mentioned(walk func(func(Sym))) map[string]bool {
	ret := map[string]bool{}
	walk(func(x Sym) {
		if (x.Path != "" || x.Pkg != "") && x.Path != s.own {
			ret[x.Path] = true
		}
	})
	return ret
}

// qualifyCase checks one reference: ensure and qualify are the registering and
// non-registering form, dump dumps what they return.
func (k *Case) qualifyCase(s *importState, what string, walk func(func(Sym)), orig func() string, want func(func(Sym) Sym) string, ensure, qualify func() string) {
	before := s.paths()
	specs := s.specs()
	text := orig()
	ment := s.mentioned(walk)
	missing := false
	for p := range ment {
		missing = missing || !before[p]
	}
	// the non-registering form
	var q string
	bad, val := panics(func() { q = qualify() })
	if bad && !missing {
		k.Failf("qualifying %s panics although all its packages are imported: %v\n%s", what, val, text)
	}
	if !bad && missing {
		k.Failf("qualifying %s does not panic although %q are not all imported (own package %q, imported %s)\n%s", what, setKeys(ment), s.own, specs, text)
	}
	if bad {
		k.Count("lookups_that_panicked", 1)
	}
	if now := s.specs(); now != specs {
		k.Failf("the non-registering form for %s changed the imports from %s to %s", what, specs, now)
	}
	if now := orig(); now != text {
		k.Failf("qualifying %s modified it (non-registering form):\n%s\n%s", what, text, now)
	}
	if !bad {
		if w := want(func(x Sym) Sym { return s.want(k, x) }); q != w {
			k.Failf("qualifying %s (own package %q, imports %s) gives\n%s\nexpected\n%s", what, s.own, specs, q, w)
		}
	}
	// the registering form
	e := ensure()
	after := s.paths()
	all := map[string]bool{}
	for p := range before {
		all[p] = true
	}
	for p := range ment {
		all[p] = true
	}
	if a, b := setKeys(after), setKeys(all); !sameStrings(a, b) {
		k.Failf("importing %s (own package %q) imported %q, expected %q\n%s", what, s.own, a, b, text)
	}
	if w := want(func(x Sym) Sym { return s.want(k, x) }); e != w {
		k.Failf("importing %s (own package %q, imports %s) gives\n%s\nexpected\n%s", what, s.own, s.specs(), e, w)
	}
	if now := orig(); now != text {
		k.Failf("importing %s modified it:\n%s\n%s", what, text, now)
	}
	// now the non-registering form gives the same
	if bad, val := panics(func() { q = qualify() }); bad {
		k.Failf("qualifying %s panics after importing it: %v", what, val)
	}
	if q != e {
		k.Failf("the forms differ for %s:\n registering     %s\n non-registering %s", what, e, q)
	}
	if e2 := ensure(); e2 != e {
		k.Failf("importing %s again gives another result:\n%s\n%s", what, e, e2)
	}
	if a, b := setKeys(s.paths()), setKeys(all); !sameStrings(a, b) {
		k.Failf("importing %s again imported %q, expected %q", what, a, b)
	}
	if len(ment) >= 2 {
		k.Nontrivial(specs + text)
	}
}

func (k *Case) qualifyType(s *importState, t *Ty) gopoet.TypeName {
	tn := t.poet()
	str := tn.String()
	var last gopoet.TypeName
	k.qualifyCase(s, "a type", t.walkSyms,
		func() string {
			if x := tn.String(); x != str {
				k.Failf("the text of a type changed from %s to %s", str, x)
			}
			return fullDump.Ty(tyOf(tn))
		},
		func(f func(Sym) Sym) string { return fullDump.Ty(t.mapSyms(f)) },
		func() string { last = s.imp.EnsureTypeImported(tn); return fullDump.Ty(tyOf(last)) },
		func() string { return fullDump.Ty(tyOf(s.imp.QualifyType(tn))) })
	k.Count("types_qualified", 1)
	return last
}

func runC03(c *Ctx) {
	c.Run("types", c.N(3000, 100000), func(k *Case) {
		s := newImportState(k.R)
		g := poolGen(k.R, s.own)
		var done []gopoet.TypeName
		var tys []*Ty
		for n := k.R.Between(1, 4); n > 0; n-- {
			t := g.Gen(k.R.Between(1, 25))
			tys = append(tys, t)
			done = append(done, k.qualifyType(s, t))
		}
		// earlier results are not changed by later ones
		for i, t := range tys {
			if g, w := fullDump.Ty(tyOf(done[i])), fullDump.Ty(t.mapSyms(func(x Sym) Sym { return s.want(k, x) })); g != w {
				k.Failf("a qualified type changed later on:\n%s\nexpected\n%s", g, w)
			}
		}
		k.Sample("own=%q imports=%s type=%s", s.own, s.specs(), done[0])
	})
	c.Run("chains", c.N(300, 8000), func(k *Case) {
		s := newImportState(k.R)
		k.qualifyType(s, poolGen(k.R, s.own).chain(k.R.Between(5, 60)))
	})
	c.Run("big", c.N(60, 1500), func(k *Case) {
		s := newImportState(k.R)
		k.qualifyType(s, poolGen(k.R, s.own).Gen(k.R.Between(100, 500)))
	})
	c.Run("extremes", c.N(25, 1000), func(k *Case) {
		s := newImportState(k.R)
		k.qualifyType(s, poolGen(k.R, s.own).extreme())
	})
	ns := nestings()
	c.Run("nested", len(ns)*len(ns), func(k *Case) {
		// one package, in every position of every constructor
		for _, sy := range []Sym{{"q/q", "q", "T"}, {"own", "own", "T"}, {"", "", "error"}, {"a/foo", "", "T"}} {
			s := &importState{own: "own", imp: gopoet.NewImportsFor("own")}
			s.imp.RegisterImport("b/foo", "foo")
			s.imp.RegisterImport("z/q", "q")
			k.qualifyType(s, ns[k.Idx/len(ns)](ns[k.Idx%len(ns)](namedTy(sy))))
		}
	})
	c.Run("signatures", c.N(1500, 50000), func(k *Case) {
		s := newImportState(k.R)
		g := poolGen(k.R, s.own)
		g.budget = k.R.Between(1, 15)
		sg := g.sig()
		p := sg.poet()
		k.qualifyCase(s, "a signature", sg.walkSyms,
			func() string { return fullDump.Sig(sgOf(p)) },
			func(f func(Sym) Sym) string { return fullDump.Sig(sg.mapSyms(f)) },
			func() string { return fullDump.Sig(sgOf(s.imp.EnsureAllTypesImported(p))) },
			func() string { return fullDump.Sig(sgOf(s.imp.QualifySignature(p))) })
		k.Count("signatures_qualified", 1)
		k.Sample("own=%q imports=%s signature=%s", s.own, s.specs(), fullDump.Sig(sg))
	})
	c.Run("symbols", c.N(1500, 40000), func(k *Case) {
		s := newImportState(k.R)
		g := poolGen(k.R, s.own)
		for n := k.R.Between(2, 8); n > 0; n-- {
			sy := g.Sym(false)
			p := sy.poet()
			k.qualifyCase(s, "a symbol", func(f func(Sym)) { f(sy) },
				func() string { return symFull(symOf(p)) },
				func(f func(Sym) Sym) string { return symFull(f(sy)) },
				func() string { return symFull(symOf(s.imp.EnsureImported(p))) },
				func() string { return symFull(symOf(s.imp.Qualify(p))) })
			k.Count("symbols_qualified", 1)
			k.Nontrivial(fmt.Sprint(sy, s.own, s.specs()))
		}
	})
}
