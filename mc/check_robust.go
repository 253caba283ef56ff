package main

// C07 (no panic, crash or hang), C08 (nesting limit), C09 (cyclic and shared values).

import (
	"fmt"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
)

// UVal has its method on the value, UFn is a function, UMapV a map: all Unmarshalers.
type UVal struct{ p *string }

func (u UVal) UnmarshalPHP(b []byte) error {
	recCalls++
	if u.p != nil {
		*u.p += string(b)
	}
	return nil
}
func (u UVal) ModelUnmarshal(b []byte) error { modelCalls++; return nil }

type UFn func([]byte) error

func (u UFn) UnmarshalPHP(b []byte) error {
	recCalls++
	if u == nil {
		return nil
	}
	return u(b)
}
func (u UFn) ModelUnmarshal(b []byte) error { modelCalls++; return nil }

type UMapV map[string]string

func (u UMapV) UnmarshalPHP(b []byte) error   { recCalls++; return nil }
func (u UMapV) ModelUnmarshal(b []byte) error { modelCalls++; return nil }

type EmbS struct {
	Plain
	C int
}
type EmbP struct {
	*Plain
	C int
}
type EmbI struct {
	NI
	OtherIface
}
type dupKeyS struct {
	A int `php:"x"`
	B int `php:"x"`
}
type bigS struct{ A [1 << 16]int }

type keyStruct struct{ A int }

// dest makes a fresh destination argument.
type dest struct {
	name string
	make func() any
}

func destOf(t reflect.Type) dest {
	return dest{"*" + t.String(), func() any { return reflect.New(t).Interface() }}
}

// map keys that their method fills with something unhashable
type UUnh struct{ V any }

func (u *UUnh) UnmarshalPHP(b []byte) error { u.V = b; return nil }

type UUnhArr [2]any

func (u *UUnhArr) UnmarshalPHP(b []byte) error { u[1] = map[string]int{}; return nil }

type UUnhDeep struct {
	A int
	B [1]struct{ V [1]fmt.Stringer }
}

func (u *UUnhDeep) UnmarshalPHP(b []byte) error { u.B[0].V[0] = unhStringer{}; return nil }

type UUnhNamed struct {
	V NAny
	W *int
}

func (u *UUnhNamed) UnmarshalPHP(b []byte) error { u.V = func() {}; return nil }

type unhStringer []int

func (unhStringer) String() string { return "" }

func oddDests() (out []dest) {
	add := func(name string, f func() any) { out = append(out, dest{name, f}) }
	for _, p := range []UIface{(*UR)(nil), (*UStr)(nil), (*UInt)(nil), (*USlice)(nil), (*UMap)(nil), (*UArr)(nil), (*UBool)(nil), (*UF32)(nil), (*UByte)(nil), (*UU64)(nil), (*UI8)(nil), (*UBytes)(nil), (*UPtrS)(nil), (*UAnyS)(nil), (*UVal)(nil), (*UFn)(nil), (*UMapV)(nil), UFn(nil), UMapV(nil)} {
		add(fmt.Sprintf("*UIface nil %T", p), func() any { x := p; return &x })
		add(fmt.Sprintf("*struct{X,Y} nil %T", p), func() any { return &struct{ X, Y UIface }{p, p} })
		add(fmt.Sprintf("*any nil %T", p), func() any { var x any = p; return &x })
		if t := reflect.TypeOf(p); t.Kind() == reflect.Ptr {
			add("nil "+t.String(), func() any { return p })
			add("**nil "+t.String(), func() any { return reflect.New(t).Interface() })
			add("*UIface "+t.String(), func() any { x := reflect.New(t.Elem()).Interface().(UIface); return &x })
		}
	}
	add("nil", func() any { return nil })
	add("int", func() any { return 5 })
	add("string", func() any { return "x" })
	add("struct", func() any { return Plain{} })
	add("slice", func() any { return []int{1, 2, 3} })
	add("map", func() any { return map[string]int{} })
	add("nilmap", func() any { return map[string]int(nil) })
	add("func", func() any { return func() {} })
	add("chan", func() any { return make(chan int) })
	add("nil *int", func() any { return (*int)(nil) })
	add("nil *Plain", func() any { return (*Plain)(nil) })
	add("nil *any", func() any { return (*any)(nil) })
	add("nil *UR", func() any { return (*UR)(nil) })
	add("nil **int", func() any { return (**int)(nil) })
	add("UVal", func() any { return UVal{} })
	add("*UVal", func() any { return &UVal{} })
	add("nil *UVal", func() any { return (*UVal)(nil) })
	add("UMapV", func() any { return UMapV{} })
	add("UFn", func() any { return UFn(nil) })
	add("reflect.Value", func() any { return reflect.ValueOf(ptrTo(1)) })
	add("*any int", func() any { var x any = 5; return &x })
	add("*any *int", func() any { var x any = ptrTo(5); return &x })
	add("*any map", func() any { var x any = map[any]any{1: 2}; return &x })
	add("*any self", func() any { var x any; x = &x; return x })
	add("*UIface nil", func() any { var x UIface; return &x })
	add("*UIface UR", func() any { var x UIface = &UR{}; return &x })
	add("*UIface nil UR", func() any { var x UIface = (*UVal)(nil); return &x })
	add("*UIface UVal", func() any { var x UIface = UVal{}; return &x })
	add("*UIface UMapV", func() any { var x UIface = UMapV{}; return &x })
	add("*OtherIface", func() any { var x OtherIface = OtherImpl{}; return &x })
	add("*OtherIface nil", func() any { var x OtherIface; return &x })
	add("RP self", func() any { var p RP; p = &p; return p })
	add("*RSt self", func() any { p := &RSt{}; p.S = p; return p })
	add("RS self", func() any { p := RS{nil}; p[0] = p; return &p })
	add("RM self", func() any { p := RM{}; p["a"] = p; return &p })
	add("*Link self", func() any { p := &Link{}; p.Next = p; p.V = p; return p })
	ts := []reflect.Type{
		typeOf[chan int](), typeOf[func()](), typeOf[complex64](), typeOf[complex128](), typeOf[unsafePtr](), typeOf[uintptr](), typeOf[**int](), typeOf[***string](), typeOf[[]chan int](), typeOf[map[string]func()](), typeOf[*chan int](),
		typeOf[[2]complex64](), typeOf[struct{ A chan int }](), typeOf[struct{ A **int }](), typeOf[*[]**int](), typeOf[[]*chan int](), typeOf[error](), typeOf[fmt.Stringer](), typeOf[[]error](), typeOf[map[string]error](),
		typeOf[map[float64]int](), typeOf[map[keyStruct]int](), typeOf[map[[2]int]int](), typeOf[map[any]int](), typeOf[map[*int]int](), typeOf[map[chan int]int](), typeOf[map[bool]int](), typeOf[map[error]int](), typeOf[map[OtherIface]string](),
		typeOf[map[UKeyed]int](), typeOf[map[UUnh]int](), typeOf[map[UUnhArr]any](), typeOf[map[UUnhDeep]UStr](), typeOf[map[UUnhNamed]*int](), typeOf[[]map[UUnh]any](), typeOf[map[string]map[UUnhArr]any](), typeOf[map[complex64]int](), typeOf[map[[0]int]any](), typeOf[map[struct{}]any](), typeOf[map[uintptr]any](), typeOf[map[unsafePtr]any](), typeOf[map[NBool]int](), typeOf[map[NF64]int](), typeOf[map[**int]int](), typeOf[map[*string]string](), typeOf[map[UIface]int](), typeOf[map[*UR]int](), typeOf[map[UStr]int](), typeOf[map[UInt]UStr](), typeOf[map[NAny]NAny](),
		typeOf[map[[1]any]int](), typeOf[map[struct{ A any }]int](), typeOf[[]map[any]any](), typeOf[map[any]map[any]any](),
		typeOf[EmbS](), typeOf[EmbP](), typeOf[EmbI](), typeOf[*EmbS](), typeOf[[]EmbP](), typeOf[dupKeyS](), typeOf[[]dupKeyS](), typeOf[map[string]*dupKeyS](), typeOf[bigS](), typeOf[[]bigS](), typeOf[[1 << 12]any](), typeOf[[0]chan int](),
		typeOf[RP](), typeOf[RPP](), typeOf[RPA](), typeOf[RPS](), typeOf[RPM](), typeOf[RCyc](), typeOf[*RCyc](), typeOf[RBad](), typeOf[RBadM](), typeOf[RBadS](), typeOf[[]RBad](), typeOf[RStAAP](),
		typeOf[UScribble](), typeOf[UKeep](), typeOf[UNest](), typeOf[BothT](), typeOf[UFn](), typeOf[UMapV](), typeOf[[]UVal](), typeOf[map[string]UFn](), typeOf[struct{ X UMapV }](), typeOf[*UMapV](), typeOf[[]byte](), typeOf[NBytes](), typeOf[[]NU16](), typeOf[[]uint8](), typeOf[*[]byte](), typeOf[[4]byte](), typeOf[[]struct{}](), typeOf[[]int8](), typeOf[[][8]int64](),
	}
	ts = append(ts, sameNameTypes...)
	for _, t := range ts {
		out = append(out, destOf(t))
	}
	return
}

func noPanic(u *U, doc string, d dest) {
	v := d.make()
	err, pan := Unmarshal([]byte(doc), v)
	u.State(d.name, doc, strconv.FormatBool(err == nil))
	if pan != nil {
		u.Fail("Unmarshal(%s, %s) panicked: %s", clipq(doc), d.name, pan)
	}
	if err == nil && (v == nil || reflect.TypeOf(v).Kind() != reflect.Ptr || reflect.ValueOf(v).IsNil()) {
		u.Fail("Unmarshal(%s, %s) succeeded, expected an error: the argument is not a non-nil pointer", clipq(doc), d.name)
	}
}

var hugeIndexes = func() (out []string) {
	for _, s := range []string{"140737488355328", "281474976710656", "4503599627370496", "9007199254740992", "576460752303423488", "1152921504606846975", "1152921504606846976", "2305843009213693951", "2305843009213693952", "4611686018427387903", "4611686018427387904", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "-2", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999", "00000000000000000000000000000001", "-0"} {
		out = append(out, s)
	}
	return
}()

// numberPlaces puts a number wherever a document has one.
func numberPlaces(h string) []string {
	return []string{`a:1:{i:` + h + `;i:1;}`, `a:2:{i:0;i:1;i:` + h + `;i:1;}`, `a:1:{i:0;a:1:{i:` + h + `;N;}}`, `a:1:{s:1:"X";a:1:{i:` + h + `;N;}}`, `a:` + h + `:{}`, `a:` + h + `:{i:0;i:1;`, `O:1:"x":` + h + `:{`, `s:` + h + `:"x";`, `O:` + h + `:"x":1:{`, `i:` + h + `;`, `a:1:{s:1:"X";a:` + h + `:{}}`, `a:1:{s:1:"u";O:` + h + `:"x":0:{}}`, `a:1:{s:1:"u";s:` + h + `:"x";}`, `a:1:{s:1:"u";a:` + h + `:{i:0;N;}}`}
}

// shapes of long documents: linear work is a blink, quadratic work is a hang.
func longDocs(n int) (out []struct {
	doc string
	t   []reflect.Type
}) {
	type ld = struct {
		doc string
		t   []reflect.Type
	}
	seq := func(v string, key func(int) string) string {
		var sb strings.Builder
		sb.WriteString(head('a', "", n))
		for i := 0; i < n; i++ {
			sb.WriteString(key(i))
			sb.WriteString(v)
		}
		sb.WriteString("}")
		return sb.String()
	}
	ik := func(i int) string { return "i:" + strconv.Itoa(i) + ";" }
	rk := func(i int) string { return "i:" + strconv.Itoa(n-1-i) + ";" }
	sk := func(i int) string { return string(encStr("k" + strconv.Itoa(i))) }
	all := []reflect.Type{anyType, typeOf[UR](), typeOf[struct{ X int }]()}
	out = append(out,
		ld{seq("i:1;", ik), append(all, typeOf[[]int](), typeOf[[]any](), typeOf[[10]int](), typeOf[map[int]int](), typeOf[[]int8]())},
		ld{seq("i:1;", rk), append(all, typeOf[[]int](), typeOf[[3]int]())},
		ld{seq("i:1;", sk), append(all, typeOf[map[string]int](), typeOf[struct {
			X int `php:"k5"`
		}]())},
		ld{seq("a:0:{}", ik), append(all, typeOf[[]Plain](), typeOf[[][]int](), typeOf[[]map[string]int](), typeOf[[]*Plain]())},
		ld{seq(`a:1:{i:0;s:1:"q";}`, ik), append(all, typeOf[[][]string](), typeOf[[][1]string](), typeOf[[]UR]())},
		ld{seq(`s:3:"abc";`, ik), append(all, typeOf[[]string](), typeOf[[][]byte](), typeOf[[]*string]())},
		ld{seq("N;", ik), append(all, typeOf[[]*int](), typeOf[[]any]())},
		ld{seq("d:0.1;", ik), append(all, typeOf[[]float64](), typeOf[[]float32]())},
		ld{strings.Repeat("a:999999999:{i:0;", n), append(all, typeOf[[]any](), typeOf[RS](), typeOf[RM](), typeOf[Plain]())},
		ld{strings.Repeat("a:1:{i:0;", n), append(all, typeOf[RS](), typeOf[RMI]())},
		ld{strings.Repeat(`O:1:"x":1:{s:1:"S";`, n), append(all, typeOf[RSt](), typeOf[RM]())},
		ld{`s:` + strconv.Itoa(n) + `:"` + strings.Repeat(`"`, n) + `";`, append(all, typeOf[string](), typeOf[[]byte]())},
		ld{"i:" + strings.Repeat("0", n) + "7;", append(all, typeOf[int](), typeOf[uint8]())},
		ld{"i:" + strings.Repeat("9", n) + ";", append(all, typeOf[int](), typeOf[uint8]())},
		ld{"d:" + strings.Repeat("9", n/10) + ";", append(all, typeOf[float64]())},
		ld{"d:0." + strings.Repeat("0", n/10) + "1;", append(all, typeOf[float64](), typeOf[float32]())},
		ld{"a:" + strings.Repeat("0", n) + "1:{i:0;i:1;}", append(all, typeOf[[]int]())},
		ld{strings.Repeat("}", n), all},
		ld{strings.Repeat("N;", n), all},
	)
	return
}

func init() {
	register(&Check{
		ID:    "C07",
		Rule:  "every destination argument (nil, non-pointers, nil pointers, self-referential, unsupported, every map key kind, recursive, universe types) times every input of the fault corpora, enumerated documents, all strings and token sequences to a length, huge numbers and indexes at every place, long inputs of every shape; panics are caught, crashes and hangs are noticed by the parent process",
		MemMB: 3000,
		Units: func(thorough bool) (units []Unit) {
			odd := oddDests()
			dests := odd
			for _, t := range append(specialTypes(), append(append([]reflect.Type{}, leafTypes...), lvlOf(1)...)...) {
				dests = append(dests, destOf(t))
			}
			for _, t := range unmDests() {
				dests = append(dests, destOf(t))
			}
			nCommon := len(dests)
			if thorough {
				for _, t := range typeUniverse(2) {
					dests = append(dests, destOf(t))
				}
			}
			// inputs
			seen := map[string]bool{}
			var docs []string
			addDoc := func(s string) {
				if !seen[s] && !hugeIndex(s) {
					seen[s] = true
					docs = append(docs, s)
				}
			}
			for _, d := range scalarDocs {
				addDoc(d)
			}
			for i, d := range containerDocs(false) {
				if thorough || i%4 == 0 {
					addDoc(d)
				}
			}
			for _, c := range faultCorpus(false) {
				if len(c.doc) > 60 && !thorough {
					continue
				}
				addDoc(c.doc)
				numberEdits(c.doc, addDoc)
				structuralEdits(c.doc, addDoc)
				for i := 0; i < len(c.doc); i++ {
					addDoc(c.doc[:i])
				}
			}
			for i := 0; i < 256; i++ {
				addDoc(string([]byte{byte(i)}))
				for _, t := range "NbidsaO" {
					addDoc(string(t) + string([]byte{byte(i)}))
					addDoc(string(t) + ":" + string([]byte{byte(i)}))
					addDoc("a:1:{i:0;" + string(t) + string([]byte{byte(i)}))
				}
			}
			addDoc("")
			units = append(units, chunked("docs", len(dests), 2, func(u *U, i int) {
				for k, d := range docs {
					if i >= nCommon && k%7 != 0 {
						continue
					}
					if u.Next() {
						noPanic(u, d, dests[i])
					}
				}
			})...)
			// all short strings into every odd destination
			alpha := "NbidsaO:;{}\"01-"
			maxLen := 4
			if thorough {
				maxLen = 5
			}
			units = append(units, chunked("strings", nCommon, 2, func(u *U, i int) {
				var rec func(s string)
				rec = func(s string) {
					if u.Next() {
						noPanic(u, s, dests[i])
					}
					if len(s) < maxLen {
						for k := range alpha {
							rec(s + alpha[k:k+1])
						}
					}
				}
				rec("")
			})...)
			toks := []string{"N;", "b:1;", "i:0;", "d:1;", `s:1:"X";`, "a:0:{", "a:2:{", `O:1:"C":1:{`, "}"}
			maxTok := 5
			if thorough {
				maxTok = 6
			}
			units = append(units, chunked("tokens", nCommon, 2, func(u *U, i int) {
				var rec func(s string, k int)
				rec = func(s string, k int) {
					if u.Next() {
						noPanic(u, s, dests[i])
					}
					if k < maxTok {
						for _, t := range toks {
							rec(s+t, k+1)
						}
					}
				}
				rec("", 0)
			})...)
			// huge indexes and counts
			units = append(units, chunked("huge", len(dests), 8, func(u *U, i int) {
				for _, h := range hugeIndexes {
					for _, d := range numberPlaces(h) {
						if u.Next() {
							noPanic(u, d, dests[i])
						}
					}
				}
			})...)
			// numbers of every length
			some := dests[:0:0]
			for _, t := range []reflect.Type{anyType, typeOf[int](), typeOf[uint8](), typeOf[uint64](), typeOf[*int64](), typeOf[float32](), typeOf[float64](), typeOf[string](), typeOf[[]int](), typeOf[[]any](), typeOf[[2]int16](), typeOf[map[int8]int](), typeOf[map[uint]any](), typeOf[map[any]any](), typeOf[map[string]any](), typeOf[Plain](), typeOf[struct{ X []int }](), typeOf[struct{ X map[int]any }](), typeOf[UR](), typeOf[[]byte](), typeOf[bool](), typeOf[map[bool]int](),
				reflect.StructOf([]reflect.StructField{sf("X", typeOf[int](), ",string"), sf("Y", typeOf[*uint8](), ",string"), sf("Z", typeOf[float32](), ",string"), sf("W", typeOf[bool](), ",string")})} {
				some = append(some, destOf(t))
			}
			maxDigits := 100
			if thorough {
				maxDigits = 1200
			}
			units = append(units, chunked("digits", maxDigits, 4, func(u *U, i int) {
				k := i + 1
				for _, t := range []string{strings.Repeat("9", k), "1" + strings.Repeat("0", i), strings.Repeat("0", i) + "1", strings.Repeat("0", k), strings.Repeat("18446744073709551616", k/20+1)[:k], strings.Repeat("9223372036854775808", k/19+1)[:k]} {
					for _, h := range []string{t, "-" + t, "+" + t, "-0" + t, t + "-", "--" + t} {
						for _, d := range append(numberPlaces(h), "d:"+h+";", "d:1e"+h+";", "d:"+h+"."+t+";", `a:1:{s:1:"X";`+string(encStr(h))+`}`, `a:1:{s:1:"Y";`+string(encStr(h))+`}`, `a:1:{s:1:"Z";`+string(encStr(h))+`}`, `a:1:{s:1:"W";`+string(encStr(h))+`}`, `a:1:{s:1:"X";i:`+h+`;}`, `a:1:{s:1:"X";a:1:{i:0;i:`+h+`;}}`) {
							if hugeIndex(d) && (k < 16 || t[0] == '0') {
								continue
							}
							for _, x := range some {
								if u.Next() {
									noPanic(u, d, x)
								}
							}
						}
					}
				}
			})...)
			// indexes that no memory can hold, for elements of every size
			var elemSizes []int
			for k := 0; k <= 24; k++ {
				elemSizes = append(elemSizes, 1<<k-1, 1<<k, 1<<k+1, 3<<k)
			}
			units = append(units, chunked("element-sizes", len(elemSizes), 4, func(u *U, i int) {
				e := reflect.ArrayOf(elemSizes[i], typeOf[byte]())
				for _, t := range []reflect.Type{reflect.SliceOf(e), reflect.PointerTo(reflect.SliceOf(e)), reflect.SliceOf(reflect.StructOf([]reflect.StructField{sf("X", e, "")})), reflect.MapOf(typeOf[string](), reflect.SliceOf(e))} {
					for k := 20; k < 64; k++ {
						if size := uint64(elemSizes[i]); size != 0 && k+bits.Len64(size)-1 < 49 {
							continue // could be allocated
						}
						for _, add := range []uint64{0, 1, 1<<64 - 1, 2, 1 << (k - 1)} {
							h := strconv.FormatUint(1<<k+add, 10)
							for _, d := range []string{"a:1:{i:" + h + ";a:0:{}}", "a:2:{i:0;a:0:{}i:" + h + ";a:0:{}}", `a:1:{s:1:"k";a:1:{i:` + h + `;a:0:{}}}`, "a:1:{i:" + h + ";N;}"} {
								if u.Next() {
									noPanic(u, d, destOf(t))
								}
							}
						}
					}
				}
			})...)
			n := 60000
			if thorough {
				n = 300000
			}
			ld := longDocs(n)
			units = append(units, chunked("long", len(ld), 1, func(u *U, i int) {
				for _, t := range ld[i].t {
					if u.Next() {
						noPanic(u, ld[i].doc, destOf(t))
					}
					for _, cut := range []int{len(ld[i].doc) - 1, len(ld[i].doc) / 2} {
						if u.Next() {
							noPanic(u, ld[i].doc[:cut], destOf(t))
						}
					}
				}
			})...)
			return
		},
	})

	register(&Check{
		ID:   "C08",
		Rule: "documents of total depth 9999, 10000 and 10001 (and far deeper) whose levels follow every cyclic pattern (up to a length) of ways to nest, ending in every kind of tail (typed, any, custom, skipped) with every leaf; wide documents must not add up; verdict from the reference model",
		Units: func(thorough bool) (units []Unit) {
			steps := []string{"n", "s", "m", "a", "p", "q"}
			var pats []string
			var gen func(p string, k int)
			maxPat := 2
			if thorough {
				maxPat = 3
			}
			gen = func(p string, k int) {
				if p != "" {
					pats = append(pats, p)
				}
				if k < maxPat {
					for _, s := range steps {
						gen(p+s, k+1)
					}
				}
			}
			gen("", 0)
			tails := []string{"n", "i", "r", "z", "u", "c"}
			units = append(units, chunked("mix", len(pats), 1, func(u *U, i int) {
				for _, tail := range tails {
					for _, at := range []int{0, 5000, 9990} {
						for _, depth := range []int{9999, 10000, 10001} {
							for _, leaf := range []string{"i:1;", "N;", "a:0:{}", `O:1:"c":0:{}`} {
								if (at == 0 && i > 0) || leaf != "i:1;" && depth == 9999 || !thorough && at == 5000 && leaf != "i:1;" {
									continue
								}
								if u.Next() {
									deepCase(u, pats[i], tail, at, depth, leaf)
								}
							}
						}
					}
				}
			})...)
			type rt struct {
				t         reflect.Type
				pre, leaf string
				post      string
				per       int
			}
			rec := []rt{
				{typeOf[RS](), "a:1:{i:0;", "a:0:{}", "}", 1}, {typeOf[RM](), `a:1:{s:1:"k";`, "a:0:{}", "}", 1}, {typeOf[RM](), `O:1:"C":1:{s:1:"k";`, "N;", "}", 1}, {typeOf[RMI](), "a:1:{i:3;", "a:0:{}", "}", 1}, {typeOf[RAP](), "a:2:{i:1;N;i:0;", "a:0:{}", "}", 1},
				{typeOf[RMS](), `a:1:{s:1:"k";a:1:{i:0;`, "a:0:{}", "}}", 2}, {typeOf[RSP](), "a:1:{i:0;", "N;", "}", 1}, {typeOf[RMP](), `a:1:{s:1:"k";`, "N;", "}", 1}, {typeOf[RAS](), "a:1:{i:0;a:1:{i:0;", "N;", "}}", 2}, {typeOf[RSA](), "a:1:{i:0;a:1:{i:0;", "N;", "}}", 2},
				{typeOf[RPS](), "a:1:{i:0;", "N;", "}", 1}, {typeOf[RPM](), `a:1:{s:1:"k";`, "N;", "}", 1}, {typeOf[RSt](), `a:1:{s:1:"S";`, "N;", "}", 1}, {typeOf[RSt](), `O:3:"RSt":1:{s:1:"S";`, "a:0:{}", "}", 1}, {typeOf[RStV](), `a:1:{s:1:"S";a:1:{i:0;`, "a:0:{}", "}}", 2}, {typeOf[RStM](), `a:1:{s:1:"M";a:1:{s:1:"x";`, "N;", "}}", 2},
				{typeOf[RStA](), `a:1:{s:4:"Kids";a:1:{i:1;`, "N;", "}}", 2}, {anyType, "a:1:{i:0;", "a:0:{}", "}", 1}, {anyType, `O:1:"x":1:{s:1:"p";`, "i:1;", "}", 1}, {typeOf[[]any](), "a:1:{i:0;", "a:0:{}", "}", 1}, {typeOf[map[string]any](), `a:1:{s:1:"k";`, "a:0:{}", "}", 1}, {typeOf[struct{}](), `a:1:{s:1:"k";`, "a:0:{}", "}", 1}, {typeOf[[0]int](), `a:1:{i:0;`, "a:0:{}", "}", 1}, {typeOf[UR](), `a:1:{i:0;`, "a:0:{}", "}", 1}, {typeOf[[]UR](), `a:1:{i:0;`, "N;", "}", 1}, {typeOf[map[any]any](), "a:1:{i:0;", "d:1;", "}", 1}, {typeOf[*any](), "a:1:{i:0;", "a:0:{}", "}", 1}, {typeOf[RAnyS](), "a:1:{i:0;", "a:0:{}", "}", 1}, {typeOf[UNest](), "a:1:{i:0;", "a:0:{}", "}", 1},
			}
			units = append(units, chunked("pure", len(rec), 1, func(u *U, i int) {
				r := rec[i]
				leafH := 0
				if r.leaf[0] == 'a' {
					leafH = 1
				}
				for _, total := range []int{1, 2, 100, 9990, 9998, 9999, 10000, 10001, 10002, 10003, 10100, 20000, 150000} {
					k := (total - leafH) / r.per
					if u.Next() {
						decodeCase(u, strings.Repeat(r.pre, k)+r.leaf+strings.Repeat(r.post, k), r.t)
					}
				}
				// no end in sight
				if u.Next() {
					if err, pan := Unmarshal([]byte(strings.Repeat(r.pre, 1000000)), reflect.New(r.t).Interface()); err == nil || pan != nil {
						u.Fail("unterminated document of 1000000 levels: %v %v", err, pan)
					}
				}
			})...)
			// siblings do not add up, in any destination
			units = append(units, chunked("wide", len(rec), 1, func(u *U, i int) {
				r := rec[i]
				for _, sib := range []int{2, 3} {
					// each sibling almost as deep as allowed
					k := 9990 / r.per
					one := strings.Repeat(r.pre, k) + r.leaf + strings.Repeat(r.post, k)
					var sb strings.Builder
					for s := 0; s < sib; s++ {
						sb.WriteString("i:" + strconv.Itoa(s) + ";" + one)
					}
					doc := head('a', "", sib) + sb.String() + "}"
					for _, t := range []reflect.Type{reflect.SliceOf(r.t), reflect.ArrayOf(sib, r.t), reflect.MapOf(typeOf[int](), r.t), typeOf[[1]any](), anyType} {
						if u.Next() {
							decodeCase(u, doc, t)
						}
					}
				}
				for _, leaf := range []string{"N;", "a:0:{}", "i:1;", `O:1:"C":0:{}`, r.pre + r.leaf + r.post} {
					n := 30000
					var sb strings.Builder
					for s := 0; s < n; s++ {
						sb.WriteString("i:" + strconv.Itoa(s) + ";" + leaf)
					}
					doc := head('a', "", n) + sb.String() + "}"
					for _, t := range []reflect.Type{reflect.SliceOf(r.t), reflect.MapOf(typeOf[int](), r.t), typeOf[[1]any](), typeOf[UR]()} {
						if u.Next() {
							decodeCase(u, doc, t)
						}
					}
				}
			})...)
			units = append(units, sizesC08(thorough)...)
			return
		},
	})
}

// DMix can nest in every way.
type DMix struct {
	N *DMix           `php:"n"`
	S []DMix          `php:"s"`
	M map[string]DMix `php:"m"`
	A [1]*DMix        `php:"a"`
	P *[]*DMix        `php:"p"`
	Q map[int]*DMix   `php:"q"`
	I any             `php:"i"`
	R UR              `php:"r"`
	U UNest           `php:"u"`
	C int             `php:"c"`
}

var stepText = map[string]struct {
	pre, post string
	n         int
}{
	"n": {`a:1:{s:1:"n";`, "}", 1}, "s": {`a:1:{s:1:"s";a:1:{i:0;`, "}}", 2}, "m": {`O:1:"m":1:{s:1:"m";a:1:{s:1:"k";`, "}}", 2},
	"a": {`a:1:{s:1:"a";a:1:{i:0;`, "}}", 2}, "p": {`a:1:{s:1:"p";a:1:{i:0;`, "}}", 2}, "q": {`a:1:{s:1:"q";O:0:"":1:{i:7;`, "}}", 2},
}

// deepCase: pattern of typed levels up to at, then the tail to the full depth.
func deepCase(u *U, pattern, tail string, at, depth int, leaf string) {
	leafH := 0
	if leaf[0] == 'a' || leaf[0] == 'O' {
		leafH = 1
	}
	var pre, post []string
	h := 0
	for k := 0; ; k++ {
		s := stepText[pattern[k%len(pattern):k%len(pattern)+1]]
		if h+s.n > at {
			break
		}
		pre, post = append(pre, s.pre), append(post, s.post)
		h += s.n
	}
	key := tail
	if tail == "n" {
		for h+1+leafH <= depth {
			pre, post = append(pre, stepText["n"].pre), append(post, "}")
			h++
		}
	} else {
		pre, post = append(pre, `a:2:{s:1:"c";i:4;s:1:"`+key+`";`), append(post, "}")
		h++
		for i := 0; h+1+leafH <= depth; i++ {
			switch i % 3 {
			case 0:
				pre = append(pre, "a:1:{i:0;")
			case 1:
				pre = append(pre, `O:2:"xy":1:{s:1:"k";`)
			default:
				pre = append(pre, `a:2:{i:5;s:1:"}";s:1:"k";`)
			}
			post = append(post, "}")
			h++
		}
	}
	if tail == "c" && depth > 10000 { // keep it a mismatch as well as too deep
		h += 0
	}
	var sb strings.Builder
	for _, s := range pre {
		sb.WriteString(s)
	}
	sb.WriteString(leaf)
	for i := len(post) - 1; i >= 0; i-- {
		sb.WriteString(post[i])
	}
	doc := sb.String()
	n := parseDoc(doc)
	if n == nil || n.Height != depth {
		u.Fail("harness: document of depth %d expected, got %v", depth, n != nil)
		return
	}
	decodeNode(u, doc, n, typeOf[DMix]())
}

// hugeIndex: an integer key that would make a slice of gigabytes (the exception C07 names).
func hugeIndex(s string) bool {
	run := 0
	for i := 0; i < len(s); i++ {
		if isDigit(s[i]) {
			run++
			if run >= 6 && strings.Contains(s, "i:") {
				j := i - run + 1
				if j >= 2 && (s[j-2:j] == "i:" || s[j-1] == '+') {
					return true
				}
			}
		} else {
			run = 0
		}
	}
	return false
}
