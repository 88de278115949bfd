// Package gendump is part of the monitors and of the programs they generate.
package gendump

import (
	"fmt"
	"strings"

	"github.com/jhump/gopoet"
)

// Dump writes down all parts of a type.
func Dump(t gopoet.TypeName) string {
	switch t.Kind() {
	case gopoet.KindBasic:
		return t.BasicKind().String()
	case gopoet.KindNamed:
		return fmt.Sprintf("named(%q %q)", t.Symbol().Package.ImportPath, t.Symbol().Name)
	case gopoet.KindPtr:
		return "ptr(" + Dump(t.Elem()) + ")"
	case gopoet.KindSlice:
		return "slice(" + Dump(t.Elem()) + ")"
	case gopoet.KindArray:
		return fmt.Sprintf("array(%d %s)", t.Len(), Dump(t.Elem()))
	case gopoet.KindMap:
		return "map(" + Dump(t.Key()) + " " + Dump(t.Elem()) + ")"
	case gopoet.KindChan:
		return fmt.Sprintf("chan(%d %s)", int(t.Dir()), Dump(t.Elem()))
	case gopoet.KindFunc:
		return "func" + signature(t.Signature())
	case gopoet.KindStruct:
		var fs []string
		for _, f := range t.Fields() {
			fs = append(fs, fmt.Sprintf("%q %s %q", f.Name, Dump(f.Type), string(f.Tag)))
		}
		return "struct(" + strings.Join(fs, "; ") + ")"
	case gopoet.KindInterface:
		var ms []string
		for _, e := range t.Embeds() {
			ms = append(ms, fmt.Sprintf("embed %q %q", e.Package.ImportPath, e.Name))
		}
		for _, m := range t.Methods() {
			s := m.Signature
			ms = append(ms, fmt.Sprintf("%q %s", m.Name, signature(&s)))
		}
		return "interface(" + strings.Join(ms, "; ") + ")"
	}
	return fmt.Sprintf("kind(%d)", int(t.Kind()))
}

func signature(s *gopoet.Signature) string {
	list := func(as []gopoet.ArgType) string {
		var ret []string
		for _, a := range as {
			ret = append(ret, fmt.Sprintf("%q %s", a.Name, Dump(a.Type)))
		}
		return "(" + strings.Join(ret, ", ") + ")"
	}
	return fmt.Sprintf("%s%s%v", list(s.Args), list(s.Results), s.IsVariadic)
}
