package main

import (
	"go/token"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C14"] = &CheckDef{
		Run:  runC14,
		Rule: "a case is a block of 4096 characters, each used as first character of names with several continuations; it is distinct by block and continuation set",
		Needs: map[string]int64{"names_checked": 2000000, "names_by_second_character": 1000000, "caseless_letters": 100000, "letters_changed_by_export": 1000,
			"letters_changed_by_unexport": 1000, "title_case": 20, "predeclared_and_keywords": 50},
		Assumptions: []string{"trusts package unicode and go/token for what is upper case and what is an identifier"},
	}
}

const runeBlock = 4096

func runC14(c *Ctx) {
	blocks := (unicode.MaxRune + runeBlock) / runeBlock
	c.Run("every first character", int(blocks), func(k *Case) { k.nameBlock() })
	c.Run("every second character", int(blocks), func(k *Case) { k.secondBlock() })
	c.Run("words", c.N(4000, 100000), func(k *Case) { k.nameWord() })
	c.Run("corners", 1, func(k *Case) {
		if e, u := gopoet.Export(""), gopoet.Unexport(""); e != "" || u != "" {
			k.Failf("forms of the empty name: %q %q", e, u)
		}
		for t := token.Token(0); t < 200; t++ {
			if t.IsKeyword() {
				k.checkName(t.String())
				k.Count("predeclared_and_keywords", 1)
			}
		}
		for _, n := range predeclaredNames {
			k.checkName(n)
			k.Count("predeclared_and_keywords", 1)
		}
		for _, n := range []string{"_", "__", "_x", "_X", "_1", "X", "x", "Xx", "xX", "X_", "_世", "世", "世界", "ªa", "ǅ", "ǆ", "Ǆ", "ı", "İ", "ß", "ẞ", "K", "ſ", "\uFFFD", "\uFFFDx", "1", "0x", "%d", " a", "a b", "\x00", "\u0301a", "ⅷ", "Ⅷ", "ⓐ", "Ⓐ"} {
			k.checkName(n)
		}
		k.Nontrivial("corners")
	})
}

var predeclaredNames = strings.Fields(`any bool byte comparable complex64 complex128 error float32 float64 int int8 int16 int32 int64
rune string uint uint8 uint16 uint32 uint64 uintptr true false iota nil append cap clear close complex copy delete imag len
make max min new panic print println real recover`)

var nameTails = []string{"", "a", "A", "_", "9", "Foo", "fooBar_9", "é世", "ǅ", "X", "x"}

func (k *Case) nameBlock() {
	n := 0
	tails := nameTails
	for r := rune(k.Idx * runeBlock); r < rune((k.Idx+1)*runeBlock); r++ {
		if r > unicode.MaxRune || !utf8.ValidRune(r) {
			continue
		}
		ts := tails
		if !unicode.IsLetter(r) && r != '_' {
			ts = []string{"", Pick(k.R, tails[1:])}
		} else if unicode.IsLower(r) || unicode.IsUpper(r) || unicode.IsTitle(r) {
			ts = append(append([]string{}, tails...), k.word(k.R.Between(1, 12)))
		}
		for _, t := range ts {
			k.checkName(string(r) + t)
			n++
		}
		if unicode.IsTitle(r) {
			k.Count("title_case", 1)
		}
	}
	k.Count("names_checked", n)
	if n > 0 {
		k.Nontrivial(string(rune(k.Idx)))
	}
	if k.Idx < 2 {
		k.Sample("characters %U to %U", k.Idx*runeBlock, (k.Idx+1)*runeBlock-1)
	}
}

const nameFirsts = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_éÉßſıİǅǆǄΣσς世ª\U00010428"

// secondBlock checks names by their second character: every kind of mark after
// all of nameFirsts, everything else after some.
func (k *Case) secondBlock() {
	firsts := []rune(nameFirsts)
	n := 0
	for r := rune(k.Idx * runeBlock); r < rune((k.Idx+1)*runeBlock); r++ {
		if r > unicode.MaxRune || !utf8.ValidRune(r) {
			continue
		}
		fs := firsts
		if !unicode.IsMark(r) && r > 0x3000 {
			i := k.R.IntN(len(firsts))
			fs = firsts[i : i+1]
		}
		tail := string(r) + Pick(k.R, nameTails)
		for _, f := range fs {
			k.checkName(string(f) + tail)
			n++
		}
	}
	k.Count("names_by_second_character", n)
	if n > 0 {
		k.Nontrivial("second " + string(rune(k.Idx)))
	}
}

var nameRunes = []rune("abzABZ_019éÉßſıİǅǆǄ世界ªªⅷ٣ⓐ\U00010400\U00010428\U0001E943")

func (k *Case) word(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(Pick(k.R, nameRunes))
	}
	return b.String()
}

func (k *Case) nameWord() {
	n := k.R.Between(1, 10)
	if k.R.Chance(2) {
		n = 5000
	}
	w := k.word(n)
	switch k.R.IntN(12) {
	case 0:
		// what the code under test knows
		w = k.R.Word()
	case 1:
		w = OneOf(k.R, k.R.Word()+w, w+k.R.Word(), k.R.Word()+k.R.Word(), k.R.Word()+"_", strings.ToLower(k.R.Word()), strings.ToUpper(k.R.Word()))
	case 2:
		if x := OneOf(k.R, k.R.Str(), k.R.Str()+w, w+k.R.Str()); token.IsIdentifier(x) {
			w = x
		}
	case 3:
		if rs := hotRunes(); len(rs) > 0 {
			w = string(Pick(k.R, rs)) + w
		}
	case 4:
		w = k.word(max(1, k.R.Size(n, 2000)))
	}
	if k.R.Chance(20) {
		// several of one character in front
		w = strings.Repeat(string(Pick(k.R, nameRunes)), k.R.Between(2, 4)) + w
	}
	if k.R.Chance(20) {
		w = strings.Repeat("_", k.R.Between(2, 5)) + w
	}
	k.checkName(w)
	k.Count("names_checked", 1)
	k.Nontrivial(w)
	k.Sample("%q: exported %q, unexported %q", w, gopoet.Export(w), gopoet.Unexport(w))
}

// canUpper is whether the character has an upper-case form.
func canUpper(r rune) bool { return unicode.IsUpper(unicode.ToUpper(r)) }

func (k *Case) checkName(s string) {
	var e, u string
	if bad, val := panics(func() { e = gopoet.Export(s) }); bad {
		k.Failf("Export(%q) panics: %v", s, val)
	}
	if bad, val := panics(func() { u = gopoet.Unexport(s) }); bad {
		k.Failf("Unexport(%q) panics: %v", s, val)
	}
	r, sz := utf8.DecodeRuneInString(s)
	rest := s[sz:]

	// exported form
	if !token.IsExported(e) {
		k.Failf("Export(%q) = %q is not exported", s, e)
	}
	if token.IsExported(s) && e != s {
		k.Failf("Export(%q) = %q changes an exported name", s, e)
	}
	if isIdent(s) && !isIdent(e) {
		k.Failf("Export(%q) = %q is not a valid identifier", s, e)
	}
	if e2 := gopoet.Export(e); e2 != e {
		k.Failf("Export(Export(%q)) = %q, but Export gives %q", s, e2, e)
	}
	switch {
	case canUpper(r):
		want := string(unicode.ToUpper(r)) + rest
		if token.IsExported(s) {
			want = s
		}
		if e != want {
			k.Failf("Export(%q) = %q, want %q", s, e, want)
		}
	case r == '_':
		if e != "X"+rest {
			k.Failf("Export(%q) = %q, want %q", s, e, "X"+rest)
		}
	default:
		if e != "X"+s {
			k.Failf("Export(%q) = %q, want %q", s, e, "X"+s)
		}
		if unicode.IsLetter(r) {
			k.count1("caseless_letters")
		}
	}
	if e != s {
		k.count1("letters_changed_by_export")
	}

	// unexported form
	if token.IsExported(u) {
		k.Failf("Unexport(%q) = %q is exported", s, u)
	}
	if u2 := gopoet.Unexport(u); u2 != u {
		k.Failf("Unexport(Unexport(%q)) = %q, but Unexport gives %q", s, u2, u)
	}
	if !strings.HasSuffix(u, rest) {
		k.Failf("Unexport(%q) = %q does not keep %q", s, u, rest)
	}
	if l := unicode.ToLower(r); !unicode.IsUpper(l) {
		if want := string(l) + rest; u != want {
			k.Failf("Unexport(%q) = %q, want %q", s, u, want)
		}
	} else if !strings.HasSuffix(u, s) {
		k.Failf("Unexport(%q) = %q does not keep the name, although it has no lower-case form", s, u)
	}
	if isIdent(s) && !isIdent(u) {
		k.Failf("Unexport(%q) = %q is not an identifier", s, u)
	}
	if u != s {
		k.count1("letters_changed_by_unexport")
	}
}

// count1 is Count without locking: names are checked by one goroutine.
func (k *Case) count1(name string) { k.res.Counters[name]++ }

// isIdent is whether the name is spelled like an identifier; it may be a
// keyword.
func isIdent(s string) bool {
	for i, r := range s {
		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
			return false
		}
	}
	return s != ""
}
