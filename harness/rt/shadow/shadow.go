// Package shadow declares types with the names of predeclared ones.
package shadow

import (
	"reflect"

	"verif/harness/rt/odd"
)

type goInt = int

type int32 goInt
type string struct{ X goInt }
type error interface{ E() goInt }
type any func()
type byte []goInt
type rune map[goInt]goInt
type bool chan goInt
type uintptr *goInt
type float64 [2]goInt
type int8 odd.GoInt8
type uint16 odd.GoUint16
type int64 odd.GoInt64
type uint odd.GoUint
type float32 odd.GoFloat32
type complex64 odd.GoComplex64
type complex128 odd.GoComplex128

// Types are this package's types by name.
var Types = map[[10]uint8]reflect.Type{
	{'i', 'n', 't', '3', '2'}:                          reflect.TypeOf(int32(0)),
	{'s', 't', 'r', 'i', 'n', 'g'}:                     reflect.TypeOf(string{}),
	{'e', 'r', 'r', 'o', 'r'}:                          reflect.TypeOf((*error)(nil)).Elem(),
	{'a', 'n', 'y'}:                                    reflect.TypeOf(any(nil)),
	{'b', 'y', 't', 'e'}:                               reflect.TypeOf(byte(nil)),
	{'r', 'u', 'n', 'e'}:                               reflect.TypeOf(rune(nil)),
	{'b', 'o', 'o', 'l'}:                               reflect.TypeOf(bool(nil)),
	{'u', 'i', 'n', 't', 'p', 't', 'r'}:                reflect.TypeOf(uintptr(nil)),
	{'f', 'l', 'o', 'a', 't', '6', '4'}:                reflect.TypeOf(float64{}),
	{'i', 'n', 't', '8'}:                               reflect.TypeOf(int8(0)),
	{'u', 'i', 'n', 't', '1', '6'}:                     reflect.TypeOf(uint16(0)),
	{'i', 'n', 't', '6', '4'}:                          reflect.TypeOf(int64(0)),
	{'u', 'i', 'n', 't'}:                               reflect.TypeOf(uint(0)),
	{'f', 'l', 'o', 'a', 't', '3', '2'}:                reflect.TypeOf(float32(0)),
	{'c', 'o', 'm', 'p', 'l', 'e', 'x', '6', '4'}:      reflect.TypeOf(complex64(0)),
	{'c', 'o', 'm', 'p', 'l', 'e', 'x', '1', '2', '8'}: reflect.TypeOf(complex128(0)),
}
