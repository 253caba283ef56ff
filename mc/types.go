package main

// Named types the checks use: they cannot be built by reflection.

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	php "github.com/trim21/go-phpserialize"
)

type (
	NBool  bool
	NI     int
	NI8    int8
	NI64   int64
	NU16   uint16
	NU64   uint64
	NF32   float32
	NF64   float64
	NStr   string
	NBytes []byte
	NSlice []int
	NMap   map[string]int
	NArr   [2]int
	NAny   any
)

type Plain struct {
	A int
	B string `php:"b"`
}

// ---- recursive types ----

type Tree struct {
	V    int     `php:"v"`
	Kids []*Tree `php:"k"`
}

type Link struct {
	V    any   `php:"v"`
	Next *Link `php:"n"`
}

type (
	RS   []RS
	RSP  []*RSP
	RM   map[string]RM
	RMI  map[int]RMI
	RMS  map[string][]RMS
	RSM  []map[string]RSM
	RMP  map[string]*RMP
	RP   *RP
	RPP  **RPP
	RPA  *[1]RPA
	RPS  *[]RPS
	RPM  *map[string]RPM
	RAP  [2]*RAP
	RAS  [1][]RAS
	RAM  [1]map[string]RAM
	RSA  [][1]RSA
	RMA  map[string][1]RMA
	RMK  map[RMKK]RMK
	RMKK string
)

type RSt struct{ S *RSt }
type RStV struct{ S []RStV }
type RStM struct{ M map[string]RStM }
type RStA struct{ Kids [2]*RStA }
type RStAA struct{ Kids *[1]RStAAP }
type RStAAP struct{ P *RStAA }
type MutA struct{ B *MutB }
type MutB struct{ A []MutA }
type RStMix struct {
	L RMix
	P *RStMix
}
type RMix map[string]*RStMix
type RNamedIn struct{ X RNamedSl }
type RNamedSl []RNamedIn
type RPtrNamed struct{ P RPtrN }
type RPtrN *RPtrNamed
type RIface struct{ X RAnyS }
type RAnyS []any

type RCyc struct {
	V    any
	P    *RCyc
	S    []RCyc
	SP   []*RCyc
	M    map[string]*RCyc
	MA   map[string]any
	SA   []any
	A    [1]*RCyc
	PA   *[1]any
	PAny *any
}

// recursive and unsupported parts
type RBad struct {
	N *RBad
	C chan int
}
type RBadM map[string]RBadS
type RBadS struct {
	M RBadM
	F func()
}

// ---- types with the same name ----

func sameName1() reflect.Type { type T struct{ A int }; return reflect.TypeOf(T{}) }
func sameName2() reflect.Type { type T struct{ B string }; return reflect.TypeOf(T{}) }
func sameName3() reflect.Type {
	type T struct {
		A string `php:"B"`
		B []int  `php:"A"`
	}
	return reflect.TypeOf(T{})
}
func sameName4() reflect.Type { type T []int; return reflect.TypeOf(T{}) }
func sameName5() reflect.Type { type T map[string]int; return reflect.TypeOf(T{}) }
func sameName6() reflect.Type { type T int8; return reflect.TypeOf(T(0)) }
func sameName7() reflect.Type { type T string; return reflect.TypeOf(T("")) }

var sameNameTypes = []reflect.Type{sameName1(), sameName2(), sameName3(), sameName4(), sameName5(), sameName6(), sameName7()}

// ---- Marshaler types ----

var errMarshal = errors.New("harness: marshal error")

// output chosen by the value, so that values control what is embedded
func marOut(s string) (string, error) {
	if s == "ERR" {
		return "", errMarshal
	}
	if s == "PANIC" {
		panic("harness: marshaler panic")
	}
	return s, nil
}

func marBytes(s string) ([]byte, error) {
	s, err := marOut(s)
	if err != nil {
		return []byte("partial"), err
	}
	return []byte(s), nil
}

type MV struct{ Out string } // value receiver

func (m MV) MarshalPHP() ([]byte, error)   { return marBytes(m.Out) }
func (m MV) ModelMarshal() (string, error) { return marOut(m.Out) }

type MP struct{ Out string } // pointer receiver

func (m *MP) MarshalPHP() ([]byte, error)   { return marBytes(m.Out) }
func (m *MP) ModelMarshal() (string, error) { return marOut(m.Out) }

type MStr string

func (m MStr) MarshalPHP() ([]byte, error)   { return marBytes(string(m)) }
func (m MStr) ModelMarshal() (string, error) { return marOut(string(m)) }

type MInt int

func (m MInt) out() string {
	return "s:" + decInt(int64(len(decInt(int64(m))))) + `:"` + decInt(int64(m)) + `";`
}
func (m MInt) MarshalPHP() ([]byte, error)   { return []byte(m.out()), nil }
func (m MInt) ModelMarshal() (string, error) { return m.out(), nil }

type MPInt int

func (m *MPInt) MarshalPHP() ([]byte, error)   { return []byte(MInt(*m).out()), nil }
func (m *MPInt) ModelMarshal() (string, error) { return MInt(*m).out(), nil }

type MSlice []string

func (m MSlice) MarshalPHP() ([]byte, error)   { return marBytes(strings.Join(m, "")) }
func (m MSlice) ModelMarshal() (string, error) { return marOut(strings.Join(m, "")) }

type MMap map[string]string

func (m MMap) MarshalPHP() ([]byte, error)   { return marBytes(m["out"]) }
func (m MMap) ModelMarshal() (string, error) { return marOut(m["out"]) }

type MArr [1]string

func (m MArr) MarshalPHP() ([]byte, error)   { return marBytes(m[0]) }
func (m MArr) ModelMarshal() (string, error) { return marOut(m[0]) }

type MBytes []byte

func (m MBytes) MarshalPHP() ([]byte, error)   { return marBytes(string(m)) }
func (m MBytes) ModelMarshal() (string, error) { return marOut(string(m)) }

type MBool bool

func (m MBool) MarshalPHP() ([]byte, error) {
	return []byte(map[bool]string{true: "i:1;", false: "i:0;"}[bool(m)]), nil
}
func (m MBool) ModelMarshal() (string, error) {
	return map[bool]string{true: "i:1;", false: "i:0;"}[bool(m)], nil
}

type MFloat float64

func (m MFloat) MarshalPHP() ([]byte, error)   { return []byte("d:0.5;"), nil }
func (m MFloat) ModelMarshal() (string, error) { return "d:0.5;", nil }

type MFunc func() string

func (m MFunc) MarshalPHP() ([]byte, error)   { return marBytes(m()) }
func (m MFunc) ModelMarshal() (string, error) { return marOut(m()) }

// MNest calls Marshal from inside its method.
type MNest struct{ V any }

func (m MNest) MarshalPHP() (b []byte, err error) {
	b, err = php.Marshal(m.V)
	lastMErr = err
	return
}
func (m MNest) ModelMarshal() (string, error) {
	b, err := php.Marshal(m.V)
	return string(b), err
}

type UByte uint8

func (u *UByte) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UByte) ModelUnmarshal(b []byte) error { modelCalls++; *u += UByte(len(b)*7 + 1); return nil }

type UI8 int8

func (u *UI8) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UI8) ModelUnmarshal(b []byte) error { modelCalls++; *u -= UI8(len(b) + 3); return nil }

type UU16 uint16

func (u *UU16) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UU16) ModelUnmarshal(b []byte) error { modelCalls++; *u += UU16(len(b)); return nil }

type UU64 uint64

func (u *UU64) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UU64) ModelUnmarshal(b []byte) error { modelCalls++; *u += UU64(len(b)) << 40; return nil }

type UBool bool

func (u *UBool) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UBool) ModelUnmarshal(b []byte) error { modelCalls++; *u = !*u; return nil }

type UF32 float32

func (u *UF32) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UF32) ModelUnmarshal(b []byte) error { modelCalls++; *u += UF32(len(b)) + 0.5; return nil }

type UF64 float64

func (u *UF64) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UF64) ModelUnmarshal(b []byte) error { modelCalls++; *u += UF64(len(b)) + 0.25; return nil }

type UBytes []byte

func (u *UBytes) UnmarshalPHP(b []byte) error { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UBytes) ModelUnmarshal(b []byte) error {
	modelCalls++
	*u = append(append(*u, b...), '|')
	return nil
}

type UBArr [3]byte

func (u *UBArr) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UBArr) ModelUnmarshal(b []byte) error { modelCalls++; copy(u[:], b); return nil }

type UAnyS []any

func (u *UAnyS) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UAnyS) ModelUnmarshal(b []byte) error { modelCalls++; *u = append(*u, string(b)); return nil }

// UHidden collects in fields nobody else can set.
type UHidden struct {
	n   int
	S   string
	raw []string
	by  map[string]int
}

func (u *UHidden) UnmarshalPHP(b []byte) error { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UHidden) ModelUnmarshal(b []byte) error {
	modelCalls++
	u.n += len(b)
	if len(b) > 6 {
		u.S += string(b)
	}
	if u.by == nil {
		u.by = map[string]int{}
	}
	u.by[string(b)]++
	u.raw = append(u.raw, string(b))
	return nil
}

type UPtrS []*int

func (u *UPtrS) UnmarshalPHP(b []byte) error { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UPtrS) ModelUnmarshal(b []byte) error {
	modelCalls++
	x := len(b)
	*u = append(*u, &x, nil)
	return nil
}

type MByte uint8

func (m MByte) MarshalPHP() ([]byte, error)   { return []byte(fmt.Sprintf("i:%d;", 1000+int(m))), nil }
func (m MByte) ModelMarshal() (string, error) { return fmt.Sprintf("i:%d;", 1000+int(m)), nil }

type MI8 int8

func (m MI8) MarshalPHP() ([]byte, error)   { return []byte(fmt.Sprintf("i:%d;", 2000+int(m))), nil }
func (m MI8) ModelMarshal() (string, error) { return fmt.Sprintf("i:%d;", 2000+int(m)), nil }

type MU16 uint16

func (m MU16) MarshalPHP() ([]byte, error)   { return []byte(fmt.Sprintf("i:%d;", 100000+int(m))), nil }
func (m MU16) ModelMarshal() (string, error) { return fmt.Sprintf("i:%d;", 100000+int(m)), nil }

type MF32 float32

func (m MF32) MarshalPHP() ([]byte, error)   { return []byte("d:0.25;"), nil }
func (m MF32) ModelMarshal() (string, error) { return "d:0.25;", nil }

type MPByte uint8

func (m *MPByte) MarshalPHP() ([]byte, error)   { return []byte(fmt.Sprintf("i:%d;", 3000+int(*m))), nil }
func (m *MPByte) ModelMarshal() (string, error) { return fmt.Sprintf("i:%d;", 3000+int(*m)), nil }

// MAnyS and MIfMap are container kinds with interfaces in them.
type MAnyS []any

func (m MAnyS) MarshalPHP() ([]byte, error)   { return []byte(fmt.Sprintf("i:%d;", len(m))), nil }
func (m MAnyS) ModelMarshal() (string, error) { return fmt.Sprintf("i:%d;", len(m)), nil }

type MAnyM map[string]any

func (m MAnyM) MarshalPHP() ([]byte, error)   { return []byte(fmt.Sprintf("b:%d;", len(m)&1)), nil }
func (m MAnyM) ModelMarshal() (string, error) { return fmt.Sprintf("b:%d;", len(m)&1), nil }

// MKept returns a slice it keeps, with spare capacity.
type MKept struct{ N int }

var keptOut = func() [][]byte {
	out := make([][]byte, 8)
	for i := range out {
		out[i] = append(make([]byte, 0, 4096), encStr(strings.Repeat(string(rune('a'+i)), i*300))...)
	}
	return out
}()

func (m MKept) MarshalPHP() ([]byte, error) { return keptOut[m.N], nil }
func (m MKept) ModelMarshal() (string, error) {
	return string(encStr(strings.Repeat(string(rune('a'+m.N)), m.N*300))), nil
}

// ---- Unmarshaler types ----

var errUnmarshal = errors.New("harness: unmarshal error")

// recUnmarshal is what every recording type does with its bytes.
type recorded struct {
	Raw   string
	Calls int
}

var recCalls, modelCalls int // count all UnmarshalPHP and ModelUnmarshal calls

var lastMErr error // the last error a nested Marshal returned

var errModelAny = errors.New("unspecified") // returned by a ModelUnmarshal whose result is unspecified

var lastUErr error // the last error an UnmarshalPHP method returned

func (r *recorded) take(src []byte) error {
	r.Raw += string(src)
	r.Calls++
	if strings.Contains(string(src), "FAIL") {
		return errUnmarshal
	}
	return nil
}

type UR recorded // pointer receiver, struct

func (u *UR) UnmarshalPHP(b []byte) error   { recCalls++; return (*recorded)(u).take(b) }
func (u *UR) ModelUnmarshal(b []byte) error { modelCalls++; return (*recorded)(u).take(b) }

type UStr string

func (u *UStr) UnmarshalPHP(b []byte) error { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UStr) ModelUnmarshal(b []byte) error {
	modelCalls++
	*u += UStr("<" + string(b) + ">")
	if strings.Contains(string(b), "FAIL") {
		return errUnmarshal
	}
	return nil
}

type UInt int

func (u *UInt) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UInt) ModelUnmarshal(b []byte) error { modelCalls++; *u += UInt(len(b)); return nil }

type USlice []string

func (u *USlice) UnmarshalPHP(b []byte) error   { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *USlice) ModelUnmarshal(b []byte) error { modelCalls++; *u = append(*u, string(b)); return nil }

type UMap map[string]string

func (u *UMap) UnmarshalPHP(b []byte) error { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UMap) ModelUnmarshal(b []byte) error {
	modelCalls++
	if *u == nil {
		*u = UMap{}
	}
	(*u)[string(b)] += "x"
	return nil
}

type UArr [2]string

func (u *UArr) UnmarshalPHP(b []byte) error { recCalls++; modelCalls--; return u.ModelUnmarshal(b) }
func (u *UArr) ModelUnmarshal(b []byte) error {
	modelCalls++
	u[0] += string(b)
	u[1] = "set"
	return nil
}

// UScribble records its bytes, then overwrites them and appends to them.
type UScribble struct{ Raw string }

func (u *UScribble) UnmarshalPHP(b []byte) error {
	recCalls++
	u.Raw = string(b)
	for i := range b {
		b[i] = '#'
	}
	b = append(b, "##########################################"...)
	_ = b
	return nil
}
func (u *UScribble) ModelUnmarshal(b []byte) error { modelCalls++; u.Raw = string(b); return nil }

// UKeep keeps the slice it was given.
type UKeep struct{ B []byte }

func (u *UKeep) UnmarshalPHP(b []byte) error { recCalls++; u.B = b; return nil }
func (u *UKeep) ModelUnmarshal(b []byte) error {
	modelCalls++
	u.B = append([]byte{}, b...)
	return nil
}

// UNest decodes its bytes with Unmarshal.
type UNest struct{ V any }

func (u *UNest) UnmarshalPHP(b []byte) error {
	recCalls++
	lastUErr = php.Unmarshal(b, &u.V)
	return lastUErr
}
func (u *UNest) ModelUnmarshal(b []byte) error {
	modelCalls++
	s := string(b)
	n := parseDoc(s)
	v, why := modelDecode(s, n, reflect.ValueOf(&u.V).Elem())
	if v == vAny || v == vMay {
		return errModelAny
	}
	if v == vReject {
		return errors.New(why)
	}
	return nil
}

// UKeyed is usable as a map key.
type UKeyed struct{ Raw string }

func (u *UKeyed) UnmarshalPHP(b []byte) error   { recCalls++; u.Raw = string(b); return nil }
func (u *UKeyed) ModelUnmarshal(b []byte) error { modelCalls++; u.Raw = string(b); return nil }

type UIface interface{ UnmarshalPHP([]byte) error }
type MIface interface{ MarshalPHP() ([]byte, error) }
type OtherIface interface{ Other() }

type OtherImpl struct{ N int }

func (OtherImpl) Other() {}

// both directions
type BothT struct{ S string }

func (b BothT) MarshalPHP() ([]byte, error)   { return []byte(encStr("<" + b.S + ">")), nil }
func (b BothT) ModelMarshal() (string, error) { return string(encStr("<" + b.S + ">")), nil }
func (b *BothT) UnmarshalPHP(src []byte) error {
	recCalls++
	modelCalls--
	return b.ModelUnmarshal(src)
}
func (b *BothT) ModelUnmarshal(src []byte) error {
	modelCalls++
	n := parseDoc(string(src))
	if n == nil || n.K != 's' || len(n.T) < 2 {
		return errUnmarshal
	}
	b.S = n.T[1 : len(n.T)-1]
	return nil
}

type unsafePtr = unsafe.Pointer

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }
