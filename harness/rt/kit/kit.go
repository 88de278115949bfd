// Package toolkit has types that are referenced through reflection.
package toolkit

type Num int

func (Num) Val() int { return 0 }

type Rec struct {
	A int `json:"a"`
	B *Rec
}

type Str string

type Fn func(int, ...string) error

type Iface interface {
	KitM(Num) Rec
}

type Ints []int
