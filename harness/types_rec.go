package main

import (
	"reflect"
	"slices"
)

// clique types: every struct refers to every other one

type Cq0 struct {
	V   int
	F0  *Cq0            `php:"f0,omitempty"`
	F1  []Cq1           `php:"f1,omitempty"`
	F2  map[string]*Cq2 `php:"f2,omitempty"`
	F3  *Cq3            `php:"f3,omitempty"`
	F4  []*Cq4          `php:"f4,omitempty"`
	F5  *Cq5            `php:"f5,omitempty"`
	F6  []Cq6           `php:"f6,omitempty"`
	F7  map[string]*Cq7 `php:"f7,omitempty"`
	F8  *Cq8            `php:"f8,omitempty"`
	F9  []*Cq9          `php:"f9,omitempty"`
	F10 *Cq10           `php:"f10,omitempty"`
	F11 []Cq11          `php:"f11,omitempty"`
}
type Cq1 struct {
	V   int
	F0  *Cq1            `php:"f0,omitempty"`
	F1  []Cq2           `php:"f1,omitempty"`
	F2  map[string]*Cq3 `php:"f2,omitempty"`
	F3  *Cq4            `php:"f3,omitempty"`
	F4  []*Cq5          `php:"f4,omitempty"`
	F5  *Cq6            `php:"f5,omitempty"`
	F6  []Cq7           `php:"f6,omitempty"`
	F7  map[string]*Cq8 `php:"f7,omitempty"`
	F8  *Cq9            `php:"f8,omitempty"`
	F9  []*Cq10         `php:"f9,omitempty"`
	F10 *Cq11           `php:"f10,omitempty"`
	F11 []Cq0           `php:"f11,omitempty"`
}
type Cq2 struct {
	V   int
	F0  *Cq2            `php:"f0,omitempty"`
	F1  []Cq3           `php:"f1,omitempty"`
	F2  map[string]*Cq4 `php:"f2,omitempty"`
	F3  *Cq5            `php:"f3,omitempty"`
	F4  []*Cq6          `php:"f4,omitempty"`
	F5  *Cq7            `php:"f5,omitempty"`
	F6  []Cq8           `php:"f6,omitempty"`
	F7  map[string]*Cq9 `php:"f7,omitempty"`
	F8  *Cq10           `php:"f8,omitempty"`
	F9  []*Cq11         `php:"f9,omitempty"`
	F10 *Cq0            `php:"f10,omitempty"`
	F11 []Cq1           `php:"f11,omitempty"`
}
type Cq3 struct {
	V   int
	F0  *Cq3             `php:"f0,omitempty"`
	F1  []Cq4            `php:"f1,omitempty"`
	F2  map[string]*Cq5  `php:"f2,omitempty"`
	F3  *Cq6             `php:"f3,omitempty"`
	F4  []*Cq7           `php:"f4,omitempty"`
	F5  *Cq8             `php:"f5,omitempty"`
	F6  []Cq9            `php:"f6,omitempty"`
	F7  map[string]*Cq10 `php:"f7,omitempty"`
	F8  *Cq11            `php:"f8,omitempty"`
	F9  []*Cq0           `php:"f9,omitempty"`
	F10 *Cq1             `php:"f10,omitempty"`
	F11 []Cq2            `php:"f11,omitempty"`
}
type Cq4 struct {
	V   int
	F0  *Cq4             `php:"f0,omitempty"`
	F1  []Cq5            `php:"f1,omitempty"`
	F2  map[string]*Cq6  `php:"f2,omitempty"`
	F3  *Cq7             `php:"f3,omitempty"`
	F4  []*Cq8           `php:"f4,omitempty"`
	F5  *Cq9             `php:"f5,omitempty"`
	F6  []Cq10           `php:"f6,omitempty"`
	F7  map[string]*Cq11 `php:"f7,omitempty"`
	F8  *Cq0             `php:"f8,omitempty"`
	F9  []*Cq1           `php:"f9,omitempty"`
	F10 *Cq2             `php:"f10,omitempty"`
	F11 []Cq3            `php:"f11,omitempty"`
}
type Cq5 struct {
	V   int
	F0  *Cq5            `php:"f0,omitempty"`
	F1  []Cq6           `php:"f1,omitempty"`
	F2  map[string]*Cq7 `php:"f2,omitempty"`
	F3  *Cq8            `php:"f3,omitempty"`
	F4  []*Cq9          `php:"f4,omitempty"`
	F5  *Cq10           `php:"f5,omitempty"`
	F6  []Cq11          `php:"f6,omitempty"`
	F7  map[string]*Cq0 `php:"f7,omitempty"`
	F8  *Cq1            `php:"f8,omitempty"`
	F9  []*Cq2          `php:"f9,omitempty"`
	F10 *Cq3            `php:"f10,omitempty"`
	F11 []Cq4           `php:"f11,omitempty"`
}
type Cq6 struct {
	V   int
	F0  *Cq6            `php:"f0,omitempty"`
	F1  []Cq7           `php:"f1,omitempty"`
	F2  map[string]*Cq8 `php:"f2,omitempty"`
	F3  *Cq9            `php:"f3,omitempty"`
	F4  []*Cq10         `php:"f4,omitempty"`
	F5  *Cq11           `php:"f5,omitempty"`
	F6  []Cq0           `php:"f6,omitempty"`
	F7  map[string]*Cq1 `php:"f7,omitempty"`
	F8  *Cq2            `php:"f8,omitempty"`
	F9  []*Cq3          `php:"f9,omitempty"`
	F10 *Cq4            `php:"f10,omitempty"`
	F11 []Cq5           `php:"f11,omitempty"`
}
type Cq7 struct {
	V   int
	F0  *Cq7            `php:"f0,omitempty"`
	F1  []Cq8           `php:"f1,omitempty"`
	F2  map[string]*Cq9 `php:"f2,omitempty"`
	F3  *Cq10           `php:"f3,omitempty"`
	F4  []*Cq11         `php:"f4,omitempty"`
	F5  *Cq0            `php:"f5,omitempty"`
	F6  []Cq1           `php:"f6,omitempty"`
	F7  map[string]*Cq2 `php:"f7,omitempty"`
	F8  *Cq3            `php:"f8,omitempty"`
	F9  []*Cq4          `php:"f9,omitempty"`
	F10 *Cq5            `php:"f10,omitempty"`
	F11 []Cq6           `php:"f11,omitempty"`
}
type Cq8 struct {
	V   int
	F0  *Cq8             `php:"f0,omitempty"`
	F1  []Cq9            `php:"f1,omitempty"`
	F2  map[string]*Cq10 `php:"f2,omitempty"`
	F3  *Cq11            `php:"f3,omitempty"`
	F4  []*Cq0           `php:"f4,omitempty"`
	F5  *Cq1             `php:"f5,omitempty"`
	F6  []Cq2            `php:"f6,omitempty"`
	F7  map[string]*Cq3  `php:"f7,omitempty"`
	F8  *Cq4             `php:"f8,omitempty"`
	F9  []*Cq5           `php:"f9,omitempty"`
	F10 *Cq6             `php:"f10,omitempty"`
	F11 []Cq7            `php:"f11,omitempty"`
}
type Cq9 struct {
	V   int
	F0  *Cq9             `php:"f0,omitempty"`
	F1  []Cq10           `php:"f1,omitempty"`
	F2  map[string]*Cq11 `php:"f2,omitempty"`
	F3  *Cq0             `php:"f3,omitempty"`
	F4  []*Cq1           `php:"f4,omitempty"`
	F5  *Cq2             `php:"f5,omitempty"`
	F6  []Cq3            `php:"f6,omitempty"`
	F7  map[string]*Cq4  `php:"f7,omitempty"`
	F8  *Cq5             `php:"f8,omitempty"`
	F9  []*Cq6           `php:"f9,omitempty"`
	F10 *Cq7             `php:"f10,omitempty"`
	F11 []Cq8            `php:"f11,omitempty"`
}
type Cq10 struct {
	V   int
	F0  *Cq10           `php:"f0,omitempty"`
	F1  []Cq11          `php:"f1,omitempty"`
	F2  map[string]*Cq0 `php:"f2,omitempty"`
	F3  *Cq1            `php:"f3,omitempty"`
	F4  []*Cq2          `php:"f4,omitempty"`
	F5  *Cq3            `php:"f5,omitempty"`
	F6  []Cq4           `php:"f6,omitempty"`
	F7  map[string]*Cq5 `php:"f7,omitempty"`
	F8  *Cq6            `php:"f8,omitempty"`
	F9  []*Cq7          `php:"f9,omitempty"`
	F10 *Cq8            `php:"f10,omitempty"`
	F11 []Cq9           `php:"f11,omitempty"`
}
type Cq11 struct {
	V   int
	F0  *Cq11           `php:"f0,omitempty"`
	F1  []Cq0           `php:"f1,omitempty"`
	F2  map[string]*Cq1 `php:"f2,omitempty"`
	F3  *Cq2            `php:"f3,omitempty"`
	F4  []*Cq3          `php:"f4,omitempty"`
	F5  *Cq4            `php:"f5,omitempty"`
	F6  []Cq5           `php:"f6,omitempty"`
	F7  map[string]*Cq6 `php:"f7,omitempty"`
	F8  *Cq7            `php:"f8,omitempty"`
	F9  []*Cq8          `php:"f9,omitempty"`
	F10 *Cq9            `php:"f10,omitempty"`
	F11 []Cq10          `php:"f11,omitempty"`
}

var cliqueTypes = []reflect.Type{typeOf[Cq0](), typeOf[Cq1](), typeOf[Cq2](), typeOf[Cq3](), typeOf[Cq4](), typeOf[Cq5](), typeOf[Cq6](), typeOf[Cq7](), typeOf[Cq8](), typeOf[Cq9](), typeOf[Cq10](), typeOf[Cq11]()}

// generic recursive types, instantiated with many parameters so that each process has many types
// it has not seen before

type GList[T any] struct {
	V    T
	Next *GList[T] `php:"next"`
}
type GTree[T any] struct {
	V    T                    `php:"v"`
	Kids []GTree[T]           `php:"kids,omitempty"`
	M    map[string]*GTree[T] `php:",omitempty"`
}
type GMutA[T any] struct {
	B *GMutB[T] `php:"b"`
	V T
}
type GMutB[T any] struct {
	A *GMutA[T]            `php:"a"`
	L []GMutA[T]           `php:"l"`
	M map[int8][]*GMutB[T] `php:"m"`
	V []T                  `php:"v"`
}
type GSlice[T any] []struct {
	V T
	S GSlice[T]
}
type GMap[T any] map[string]struct {
	V *T
	M GMap[T]
}
type GArr[T any] struct {
	A [2]*GArr[T]
	V T
}

// containers of one element type that differ in nothing but their length or kind
type GLens[T any] struct {
	A [1]*GLens[T] `php:"a"`
	B [2]*GLens[T] `php:"b"`
	C [0]*GLens[T] `php:"c"`
	D *[1]GLens[T]
	E *[3]GLens[T]
	V [2]T
	W [3]T
	X []T
}
type GKinds[T any] struct {
	A []*GKinds[T]          `php:"a"`
	B [2]*GKinds[T]         `php:"b"`
	C map[string]*GKinds[T] `php:"c"`
	D map[int]*GKinds[T]    `php:"d"`
	E map[uint8]*GKinds[T]  `php:"e,omitempty"`
	G [][]*GKinds[T]
	H map[string][]*GKinds[T]
	I *GKinds[T] `php:",omitempty"`
	V *T
}
type GPtr[T any] struct {
	P *[]GPtr[T]
	Q *map[string]GPtr[T] `php:"q,omitempty"`
	R *[1]GPtr[T]
	V T `php:",omitempty"`
}

func genericOf[T any]() []reflect.Type {
	return []reflect.Type{typeOf[GList[T]](), typeOf[GTree[T]](), typeOf[GMutA[T]](), typeOf[GMutB[T]](), typeOf[GSlice[T]](), typeOf[GMap[T]](), typeOf[GArr[T]](), typeOf[GPtr[T]](), typeOf[GLens[T]](), typeOf[GKinds[T]](),
		typeOf[GList[*T]](), typeOf[GTree[[]T]](), typeOf[GMutA[map[string]T]](), typeOf[GList[GTree[T]]](), typeOf[GTree[GMutB[T]]](), typeOf[GArr[GSlice[T]]](), typeOf[GSlice[*GList[T]]](),
		typeOf[GMutB[*GPtr[T]]](), typeOf[GPtr[GArr[T]]](), typeOf[GMap[GMutA[T]]]()}
}

var genericTypes = slices.Concat(genericOf[int](), genericOf[string](), genericOf[bool](), genericOf[float64](), genericOf[uint8](), genericOf[int16](), genericOf[MyInt](), genericOf[MyStr](), genericOf[[]byte](), genericOf[MyF32](), genericOf[uint64](), genericOf[[2]int](), genericOf[map[string]int](), genericOf[MyU16]())

// different types of one name and one printed form

func same1() []reflect.Type {
	type Same struct {
		A int
		N *Same `php:"n,omitempty"`
	}
	type Pair struct {
		L []Same
		R *Same
	}
	return []reflect.Type{typeOf[Same](), typeOf[Pair]()}
}

func same2() []reflect.Type {
	type Outer struct {
		A string `php:"a"`
		B bool
	}
	type Other = Outer
	return append(func() []reflect.Type {
		type Outer struct {
			X int8
			O *Other           `php:"o"`
			L []Other          `php:",omitempty"`
			M map[string]Outer `php:"m"`
		}
		type Other2 = Outer
		return append(func() []reflect.Type {
			type Outer struct {
				Y []Other2
				Z *Other2
				P *Outer `php:"p,omitempty"`
				Q [2]Other
			}
			type Pair struct {
				R Other
				L Outer
				S Other2
			}
			return []reflect.Type{typeOf[Outer](), typeOf[Pair]()}
		}(), typeOf[Outer]())
	}(), typeOf[Outer]())
}

func same3() []reflect.Type {
	type Same map[string][]Same
	type Pair []Same
	return []reflect.Type{typeOf[Same](), typeOf[Pair]()}
}

func same4() []reflect.Type {
	type Same []int16
	type Pair map[uint8]Same
	return []reflect.Type{typeOf[Same](), typeOf[Pair]()}
}

func same5() []reflect.Type {
	type Same struct {
		A string
		N int `php:"n"`
	}
	type Pair struct {
		L map[string]Same
		R Same `php:",omitempty"`
	}
	return []reflect.Type{typeOf[Same](), typeOf[Pair]()}
}

var sameTypes = slices.Concat(same1(), same2(), same3(), same4(), same5())
