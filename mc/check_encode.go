package main

// C01, C02, C04: everything that is encoded from the type universe.

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// encodeCase compares one Marshal call with the reference encoder.
func encodeCase(u *U, v any) (out []byte, ok bool) {
	p, want, why := modelEncode(v)
	b, err, pan := Marshal(v)
	u.State(fmt.Sprintf("%T", v), want.String(), string(b))
	if pan != nil {
		u.Fail("Marshal(%s) panicked: %s", describe(v), pan)
		return nil, false
	}
	switch want {
	case vOK:
		if err != nil {
			u.Fail("Marshal(%s) failed: %v; expected %s", describe(v), err, patString(p))
			return nil, false
		}
	case vReject:
		if err == nil {
			u.Fail("Marshal(%s) = %q, expected an error (%s)", describe(v), b, why)
			return nil, false
		}
	case vAny:
		return b, err == nil
	}
	if err != nil {
		if b != nil && len(b) > 0 {
			u.Fail("Marshal(%s) failed with %v but returned %q too", describe(v), err, b)
		}
		return nil, false
	}
	if !matches(p, b) {
		u.Fail("Marshal(%s) = %s, expected %s", describe(v), clip(fmt.Sprintf("%q", b), 1500), patString(p))
		return nil, false
	}
	n := parseDoc(string(b))
	if !hasMarshaler(v) && (n == nil || !n.AllCountOK) {
		u.Fail("Marshal(%s) = %q is not one well-formed document", describe(v), b)
		return nil, false
	}
	return b, true
}

func hasMarshaler(v any) bool {
	return v != nil && isMar(reflect.TypeOf(v))
}

var sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001}
var bigSizes = []int{16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 100000, 100001, 131072, 262143, 262144, 1000000}

func filler(n, kind int) string {
	switch kind {
	case 0:
		return strings.Repeat("x", n)
	case 1:
		return strings.Repeat(`";}{a:`, n/6+1)[:n]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return string(b)
}

// sizedValues are values whose sizes cross every threshold of a buffer or a length's digits.
func sizedValues(n int) []any {
	s := filler(n, 1)
	ints := make([]int, n)
	strs := make([]string, n)
	m := make(map[int]string, n)
	ms := make(map[string]any, n)
	anys := make([]any, n)
	structs := make([]Plain, n)
	for i := range ints {
		ints[i] = i*7919 - 100
		strs[i] = filler(i%17, i%3)
		m[i-3] = "v"
		ms[fmt.Sprint("key", i)] = i
		anys[i] = []any{i, "x", nil, 1.5}[i%4]
		structs[i] = Plain{i, "b"}
	}
	ia := reflect.New(reflect.ArrayOf(n, typeOf[int32]()))
	aa := reflect.New(reflect.ArrayOf(n, anyType)).Elem()
	for i := 0; i < n; i++ {
		ia.Elem().Index(i).SetInt(int64(i % 1000))
		if anys[i] != nil {
			aa.Index(i).Set(reflect.ValueOf(anys[i]))
		}
	}
	return []any{s, []byte(s), NStr(s), []any{s}, map[string]string{s: s}, Plain{n, s}, ints, strs, m, ms, anys, structs, struct{ A []any }{anys}, iface(ia), iface(aa)}
}

var sizedKinds = len(sizedValues(0))

// wideStruct has n fields.
func wideStruct(n int, t reflect.Type, tag func(i int) string) reflect.Type {
	var f []reflect.StructField
	for i := 0; i < n; i++ {
		f = append(f, sf(fmt.Sprintf("F%d", i), t, tag(i)))
	}
	return reflect.StructOf(f)
}

// nestedValue builds a value nested n levels deep: kind selects the container mix.
var nestKinds = 8

func nestedValue(n, kind int) any {
	var v any = "leaf"
	t := &Tree{V: 1}
	l := &Link{V: "leaf"}
	rs := RS{}
	rm := RM{}
	rp := &RSt{}
	ap := &RAP{}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			v = []any{v}
		case 1:
			v = map[string]any{"k": v}
		case 2:
			switch i % 4 {
			case 0:
				v = []any{v, 1}
			case 1:
				v = map[int]any{7: v}
			case 2:
				v = anyBox{v}
			default:
				v = &v2{v}
			}
		case 3:
			t = &Tree{V: i, Kids: []*Tree{t}}
		case 4:
			l = &Link{V: i, Next: l}
		case 5:
			rs = RS{rs}
			rm = RM{"m": rm}
		case 6:
			rp = &RSt{rp}
		case 7:
			ap = &RAP{ap, nil}
		}
	}
	switch kind {
	case 3:
		return t
	case 4:
		return l
	case 5:
		return []any{rs, rm}
	case 6:
		return rp
	case 7:
		return ap
	}
	return v
}

type v2 struct {
	V any `php:"v,omitempty"`
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "every type of the universe (leaves and constructors to the depth bound) and special recursive types, times its value domain; sizes across every buffer and digit threshold; wide structs; deep nesting; each Marshal output is matched against an independent reference encoder",
		Units: func(thorough bool) (units []Unit) {
			depth := 3
			if thorough {
				depth = 4
			}
			ts := append(specialTypes(), typeUniverse(depth)...)
			units = append(units, chunked("values", len(ts), 40, func(u *U, i int) {
				for _, v := range vals(ts[i], 2) {
					if u.Next() {
						encodeCase(u, iface(v))
					}
				}
			})...)
			sz := sizes
			if thorough {
				sz = append(append([]int{}, sizes...), bigSizes...)
			} else {
				sz = append(append([]int{}, sizes...), 32767, 32768, 65535, 65536, 65537, 100000)
			}
			units = append(units, chunked("sizes", len(sz), 1, func(u *U, i int) {
				for _, v := range sizedValues(sz[i]) {
					if u.Next() {
						encodeCase(u, v)
					}
				}
			})...)
			// every size up to a bound: no threshold can hide
			maxN := 300
			if thorough {
				maxN = 1600
			}
			units = append(units, chunked("every-size", maxN, 20, func(u *U, i int) {
				for _, v := range sizedValues(i) {
					if u.Next() {
						encodeCase(u, v)
					}
				}
			})...)
			units = append(units, chunked("string-length", 9000, 500, func(u *U, i int) {
				if u.Next() {
					encodeCase(u, []any{filler(i, 2), []byte(filler(i, 0))})
				}
			})...)
			units = append(units, chunked("wide-structs", len(widths), 8, func(u *U, i int) {
				n := widths[i]
				for _, lt := range []reflect.Type{typeOf[int](), typeOf[any](), typeOf[*string](), typeOf[[]int]()} {
					for _, tag := range []func(int) string{
						func(int) string { return "" },
						func(i int) string { return fmt.Sprintf("common-prefix-%d", i) },
						func(i int) string { return filler(i*5+1, 0) },
						func(i int) string { return fmt.Sprintf("f%d,omitempty", i) },
					} {
						t := wideStruct(n, lt, tag)
						vs := vals(lt, 1)
						for mode := 0; mode < 3; mode++ {
							if !u.Next() {
								continue
							}
							v := reflect.New(t).Elem()
							for f := 0; f < n; f++ {
								switch mode {
								case 1:
									v.Field(f).Set(vs[f%len(vs)])
								case 2:
									v.Field(f).Set(vs[len(vs)-1])
								}
							}
							encodeCase(u, iface(v))
						}
					}
				}
			})...)
			units = append(units, gridUnits(thorough, func(u *U, v reflect.Value) { encodeCase(u, iface(v)) })...)
			depths := []int{1, 2, 10, 100, 998, 999, 1000, 1001, 1002, 1003, 1500, 3000}
			if thorough {
				depths = append(depths, 5000, 10000, 20000)
			}
			units = append(units, chunked("nesting", len(depths)*nestKinds, 1, func(u *U, i int) {
				if u.Next() {
					encodeCase(u, nestedValue(depths[i/nestKinds], i%nestKinds))
				}
			})...)
			return
		},
	})

	register(&Check{
		ID:   "C02",
		Rule: "every (type, value) of the universe through every route (direct, pointer, interface, field, element, map value, array, one or two containers); a value that encodes directly has to encode with the same bytes through every other supported route, and all match the reference encoder",
		Units: func(thorough bool) (units []Unit) {
			depth, lvl := 2, 2
			if thorough {
				depth = 3
			}
			ts := append(specialTypes(), typeUniverse(depth)...)
			units = append(units, chunked("routes", len(ts), 12, func(u *U, i int) {
				lv := lvl
				if i > 400 && !thorough {
					lv = 1
				}
				for _, v := range vals(ts[i], lv) {
					routesCase(u, v)
				}
			})...)
			// values of every size through every route
			rsz := append(append([]int{}, sizes...), 65535, 65536, 65537)
			if thorough {
				rsz = append(append([]int{}, sizes...), bigSizes[:12]...)
			}
			units = append(units, chunked("sizes", len(rsz)*sizedKinds, 1, func(u *U, i int) {
				n := rsz[len(rsz)-1-i/sizedKinds]
				routesCase(u, reflect.ValueOf(sizedValues(n)[i%sizedKinds]))
			})...)
			every := 140
			if thorough {
				every = 700
			}
			units = append(units, chunked("every-size", every, 4, func(u *U, i int) {
				for _, v := range sizedValues(i) {
					routesCase(u, reflect.ValueOf(v))
				}
			})...)
			// types with custom encodings, methods on values and on pointers, by themselves and as fields
			var mv []any
			for _, m := range []any{MV{"i:1;"}, MP{"i:1;"}, &MP{`s:1:"x";`}, (*MP)(nil), (*MV)(nil), MStr("i:7;"), MInt(5), MPInt(5), ptrTo(MPInt(6)), MSlice{"i:", "2;"}, MMap{"out": "N;"}, MArr{"b:1;"}, MBytes("d:1;"), MBool(true), MFloat(2),
				MByte(3), MI8(-3), MU16(9), MF32(1), MPByte(4), ptrTo(MPByte(5)), MAnyS{1, 2}, MAnyM{"k": 1}, MNest{map[string]any{"k": MP{"a:0:{}"}}}, MNest{&MP{"a:0:{}"}}, BothT{S: "b"}, &BothT{S: "b"}} {
				mv = append(mv, m, struct{ M any }{m}, []any{m})
				if rv := reflect.ValueOf(m); !rv.IsZero() {
					mv = append(mv, iface(mkStruct(rv, "m")), iface(mkArray(mkStruct1(rv), 1)), iface(mkSlice(rv)), iface(mkMap(rv)))
				}
			}
			units = append(units, chunked("marshalers", len(mv), 8, func(u *U, i int) {
				routesCase(u, reflect.ValueOf(mv[i]))
			})...)
			// the string option: typed concretely, behind a pointer, in an interface
			var nums []reflect.Value
			for _, t := range leafTypes {
				if scalarLeaf(t) {
					nums = append(nums, vals(t, 2)...)
				}
			}
			for e := -50; e <= 50; e++ {
				for _, m := range []float64{1, 0.1, 1.0 / 3, 123456789, -9.999999} {
					f := m * math.Pow(10, float64(e))
					nums = append(nums, reflect.ValueOf(f), reflect.ValueOf(NF64(f)), reflect.ValueOf(float32(f)), reflect.ValueOf(NF32(f)))
				}
			}
			units = append(units, chunked("string-option", len(nums), 16, func(u *U, i int) {
				v := nums[i]
				var first string
				for k, t := range []reflect.Type{v.Type(), reflect.PointerTo(v.Type()), anyType, typeOf[*any]()} {
					if !u.Next() && k > 0 {
						continue
					}
					x := reflect.New(reflect.StructOf([]reflect.StructField{sf("V", t, "v,string")})).Elem()
					switch k {
					case 1:
						p := reflect.New(v.Type())
						p.Elem().Set(v)
						x.Field(0).Set(p)
					case 3:
						a := iface(v)
						x.Field(0).Set(reflect.ValueOf(&a))
					default:
						x.Field(0).Set(v)
					}
					b, ok := encodeCase(u, iface(x))
					if k == 0 {
						first = string(b)
					} else if ok && string(b) != first {
						u.Fail("%s under the string option is %q, in a field of type %s %q", describe(iface(v)), first, t, b)
					}
				}
			})...)
			// dynamic values in interfaces, two deep
			dom := anyDomain()
			units = append(units, chunked("dynamic", len(dom), 2, func(u *U, i int) {
				for _, w := range dom {
					for _, x := range []any{[]any{dom[i], w}, map[string]any{"a": dom[i], "b": w}, anyBox{[]any{dom[i], anyBox{w}}}, [2]any{dom[i], w}, []map[string]any{{"k": dom[i]}, {"k": w}}, struct{ A, B any }{dom[i], &w}} {
						if u.Next() {
							encodeCase(u, x)
						}
						if u.Next() {
							encodeCase(u, &x)
						}
					}
				}
			})...)
			return
		},
	})
}

func multiMap(rv reflect.Value, depth int) bool {
	if !rv.IsValid() || depth > 12 {
		return false
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !rv.IsNil() && multiMap(rv.Elem(), depth+1)
	case reflect.Map:
		if rv.Len() > 1 {
			return true
		}
		for _, k := range rv.MapKeys() {
			if multiMap(rv.MapIndex(k), depth+1) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if rv.Type().Elem().Kind() <= reflect.Float64 {
			return false
		}
		for i := 0; i < rv.Len(); i++ {
			if multiMap(rv.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if multiMap(rv.Field(i), depth+1) {
				return true
			}
		}
	}
	return false
}

// ptrMarshaler: t's pointer is a Marshaler and t is not.
func ptrMarshaler(t reflect.Type) bool {
	mt := typeOf[MIface]()
	return t.Kind() != reflect.Interface && !t.Implements(mt) && reflect.PointerTo(t).Implements(mt)
}

func routesCase(u *U, v reflect.Value) {
	var base []byte
	haveBase := false
	for _, r := range routes {
		x, ok := r.wrap(v)
		if !ok {
			continue
		}
		if !u.Next() {
			continue
		}
		b, ok := encodeCase(u, x)
		if !ok {
			continue
		}
		if u.only != 0 { // replay of one case: encode directly as well
			base, _, _ = Marshal(iface(v))
			haveBase = base != nil
		}
		if r.name == "direct" {
			base, haveBase = b, true
			continue
		}
		if v.Type() == typeOf[uint8]() && strings.Contains(r.name, "slice") {
			continue // a slice of bytes is a string
		}
		if strings.Contains(r.name, "pointer") && ptrMarshaler(v.Type()) {
			continue // only the pointer has the method: another value for Marshal
		}
		if haveBase && !multiMap(v, 0) && string(b) != r.pre+string(base)+r.post {
			u.Fail("%s directly encodes as %q but through %q as %q", describe(iface(v)), base, r.name, b)
		}
	}
}
