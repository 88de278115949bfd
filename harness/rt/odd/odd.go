// Package odd has types with the names of predeclared ones.
package odd

import (
	"reflect"
	"unsafe"
)

type (
	base    = string
	Pointer unsafe.Pointer
	Error   interface{ Error() base }
	Empty   interface{}
	Chan    chan<- (<-chan int)
	Fn      func(...func(...Fn)) Fn
	Map     map[Error]*Map
	Arr     [3][0]Arr2
	Arr2    [2]byte
	St      struct {
		*St
		Error
		x, _ int
		Y    base "tag\t`"
	}
	Ali = St
)

func (St) M(St, ...*St) (Arr, error) { return Arr{}, nil }

// Renamed types shadow predeclared ones.
var Renamed = []reflect.Type{
	reflect.TypeOf(pint32(0)), reflect.TypeOf((*any2)(nil)).Elem(),
}

// Names of predeclared types, for use where they are shadowed.
type (
	GoInt8       = int8
	GoUint16     = uint16
	GoInt64      = int64
	GoUint       = uint
	GoFloat32    = float32
	GoComplex64  = complex64
	GoComplex128 = complex128
)

type pint32 int32
type any2 interface{ m() }
