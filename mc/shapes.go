package main

// Struct declarations that reflect.StructOf cannot build: embedded fields of every kind, blank
// fields, generic types, methods promoted from embedded fields.

import "reflect"

type (
	lowInt   int
	lowSlice []int
	lowMap   map[string]int
	lowPlain struct{ A int }

	NByte  uint8
	NF     func()
	NCh    chan int
	NPInt  *int
	NPtrs  []*int
	NAnyS  []any
	NArrA  [2]any
	NUint  uint
	NI16   int16
	NI32   int32
	NU8    uint8
	NU32   uint32
	NEmbed interface{}
)

type EmbScalars struct {
	NI
	NI8
	NI16
	NI32
	NI64
	NUint
	NU8
	NU16
	NU32
	NU64
	NBool
	NF32
	NF64
	NStr
}
type EmbSlice struct {
	NSlice
	A int
}
type EmbMap struct {
	A int
	NMap
}
type EmbArr struct {
	NArr
	A int `php:"a"`
}
type EmbBytes struct {
	NBytes
	B []byte
}
type EmbAny struct {
	NAny
	B int
}
type EmbOther struct {
	OtherIface
	B int
}
type EmbTagged struct {
	NI     `php:"i"`
	NStr   `php:"str,omitempty"`
	NBool  `php:",string"`
	NF64   `php:"f,omitempty,string"`
	NSlice `php:"sl"`
	NMap   `php:"m,omitempty"`
	NArr   `php:"arr,omitempty"`
	NAny   `php:"any"`
	NBytes `php:"by"`
}
type EmbIgnored struct {
	NI     `php:"-"`
	NStr   `php:"-,"`
	Plain  `php:"-"`
	*Tree  `php:"-"`
	NSlice `php:"-"`
	A      int
}
type EmbOmit struct {
	NSlice `php:",omitempty"`
	NMap   `php:",omitempty"`
	NArr   `php:",omitempty"`
	NAny   `php:",omitempty"`
	NBytes `php:",omitempty"`
	NI     `php:",omitempty"`
}
type EmbPtr struct {
	*NI
	*NStr
	*NBool
	*NF64
	A int
}
type EmbPtrCont struct {
	*NSlice
	*NMap
	*NArr
	*NBytes
}
type EmbPtrTagged struct {
	*NI    `php:"p,string"`
	*NStr  `php:"q,omitempty"`
	*NMap  `php:"r,omitempty"`
	*NU16  `php:"s,omitempty,string"`
	*NArr  `php:"t"`
	*NBool `php:"-"`
}
type EmbLow struct {
	lowInt
	lowSlice
	*lowMap
	lowPlain
	A int
}
type EmbBuiltin struct {
	int
	string `php:"s"`
	*bool
	B int
}
type EmbLast struct {
	A int `php:"x"`
	B any
	NSlice
}
type EmbNested struct {
	A EmbSlice
	B *EmbMap `php:"b"`
	C []EmbArr
}
type Blanks struct {
	_ int
	A int
	_ string `php:"b"`
	B string `php:"b"`
	_ struct{}
	_ func()
}
type Gen[T any] struct {
	V T `php:"v"`
	W []T
}
type GenS[T any] []T
type GenM[K comparable, V any] map[K]V
type EmbGen struct {
	GenS[int]
	GenM[string, int] `php:"gm"`
	A                 int
}
type Multi struct{ A, B, C int }
type MultiTag struct {
	A, B int `php:"-"`
	C    string
}

// refused: embedded structs
type EmbPlain struct {
	Plain
	X int
}
type EmbPtrPlain struct {
	*Plain
	X int
}
type EmbPlainTagged struct {
	Plain `php:"p"`
	X     int
}
type EmbAnyStruct struct {
	Gen[int]
	X int
}
type EmbFn struct {
	NF
	X int
}
type EmbCh struct {
	NCh `php:"c"`
	X   int
}

// methods promoted from embedded fields
type ProMStr struct {
	MStr
	A int
}
type ProMP struct { // the pointer's method set only
	MP
	A int
}
type ProMBytes struct {
	A int
	MBytes
}
type ProIface struct {
	MIface
	A int
}
type ProTwo struct { // ambiguous: nothing is promoted
	MStr
	MBytes
}
type ProShadow struct {
	MStr `php:"-"`
	A    int
}
type ProUStr struct {
	UStr
	A int
}
type ProUR struct {
	UR
	A int
}
type ProUTwo struct {
	UStr
	UInt
}
type ProBoth struct {
	BothT
	A int
}
type ProMU struct {
	MStr
	UInt
	A int
}

func shapeTypes() []reflect.Type {
	return []reflect.Type{
		typeOf[EmbScalars](), typeOf[EmbSlice](), typeOf[EmbMap](), typeOf[EmbArr](), typeOf[EmbBytes](), typeOf[EmbAny](), typeOf[EmbOther](), typeOf[EmbTagged](), typeOf[EmbIgnored](),
		typeOf[EmbOmit](), typeOf[EmbPtr](), typeOf[EmbPtrCont](), typeOf[EmbPtrTagged](), typeOf[EmbLow](), typeOf[EmbBuiltin](), typeOf[EmbLast](), typeOf[EmbNested](), typeOf[Blanks](), typeOf[Gen[int]](), typeOf[Gen[string]](),
		typeOf[Gen[*Gen[any]]](), typeOf[GenS[int]](), typeOf[GenS[any]](), typeOf[GenM[string, int]](), typeOf[GenM[int, GenS[string]]](), typeOf[EmbGen](), typeOf[Multi](), typeOf[MultiTag](),
		typeOf[NBytes](), typeOf[[]NBytes](), typeOf[map[string]NBytes](), typeOf[*NBytes](), typeOf[struct {
			B NBytes `php:"b,omitempty"`
		}](), typeOf[[2]NBytes](), typeOf[[]NByte](), typeOf[[3]NByte](), typeOf[[3]byte](), typeOf[map[NByte]NBytes](), typeOf[NPInt](), typeOf[NPtrs](), typeOf[NAnyS](), typeOf[NArrA](),
		typeOf[[]EmbSlice](), typeOf[map[string]EmbMap](), typeOf[*EmbTagged](), typeOf[[1]EmbArr](), typeOf[[]*EmbPtr](),
	}
}

// refusedShapes cannot be encoded, decoded or both.
func refusedShapes() []reflect.Type {
	return []reflect.Type{typeOf[EmbPlain](), typeOf[EmbPtrPlain](), typeOf[EmbPlainTagged](), typeOf[EmbAnyStruct](), typeOf[EmbFn](), typeOf[EmbCh](), typeOf[[]EmbPlain](), typeOf[map[string]EmbFn](), typeOf[*EmbPtrPlain](), typeOf[[1]EmbCh](), typeOf[Gen[EmbPlain]]()}
}

func (p ProIface) ModelMarshal() (string, error) { return p.MIface.(modelMarshaler).ModelMarshal() }
