package main

// C15 and C16: integers and floats.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
)

var intTypes = []reflect.Type{
	typeOf[int8](), typeOf[uint8](), typeOf[int16](), typeOf[uint16](), typeOf[int32](), typeOf[uint32](), typeOf[int64](), typeOf[uint64](), typeOf[int](), typeOf[uint](),
	typeOf[NI8](), typeOf[NU16](), typeOf[NI64](), typeOf[NU64](), typeOf[NI](),
}

// boundaryInts are integers around every power of two and ten and other digit patterns, below 2^(bits+4).
func boundaryInts(rich bool) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	add := func(x *big.Int) {
		for _, neg := range []bool{false, true} {
			y := new(big.Int).Set(x)
			if neg {
				y.Neg(y)
			}
			if k := y.String(); !seen[k] {
				seen[k] = true
				out = append(out, y)
			}
		}
	}
	around := func(x *big.Int, d int64) {
		for i := -d; i <= d; i++ {
			add(new(big.Int).Add(x, big.NewInt(i)))
		}
	}
	d := int64(2)
	if rich {
		d = 40
	}
	around(big.NewInt(0), 300)
	for k := uint(1); k <= 70; k++ {
		around(new(big.Int).Lsh(big.NewInt(1), k), d)
		// the same low bits after a wrap
		around(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(77)), 0)
	}
	p := big.NewInt(1)
	for k := 0; k <= 40; k++ {
		around(p, d)
		for m := int64(2); m <= 9; m++ {
			add(new(big.Int).Mul(p, big.NewInt(m)))
			add(new(big.Int).Add(new(big.Int).Mul(p, big.NewInt(m)), big.NewInt(m)))
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	for n := 1; n <= 40; n++ {
		for _, pat := range []string{"1", "9", "8", "12", "1234567890", "90", "19", "123456789"} {
			x, _ := new(big.Int).SetString(strings.Repeat(pat, n)[:n], 10)
			add(x)
		}
	}
	// every last digit at every limit, one digit more, one more leading digit
	for _, lim := range []string{"127", "255", "32767", "65535", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615"} {
		x, _ := new(big.Int).SetString(lim, 10)
		x.Div(x, big.NewInt(10))
		for off := int64(-1); off <= 1; off++ {
			for dgt := int64(0); dgt <= 9; dgt++ {
				y := new(big.Int).Add(x, big.NewInt(off))
				y.Mul(y, big.NewInt(10)).Add(y, big.NewInt(dgt))
				add(y)
				for lead := int64(1); lead <= 9; lead++ {
					z, _ := new(big.Int).SetString(fmt.Sprint(lead)+y.String(), 10)
					if y.Sign() >= 0 {
						add(z)
					}
				}
			}
		}
	}
	return out
}

func fitsInt(x *big.Int, t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	if v.CanInt() {
		if !x.IsInt64() || v.OverflowInt(x.Int64()) {
			return v, false
		}
		v.SetInt(x.Int64())
		return v, true
	}
	if !x.IsUint64() || v.OverflowUint(x.Uint64()) {
		return v, false
	}
	v.SetUint(x.Uint64())
	return v, true
}

// numHolders: structs, containers and keys around a number type.
type numHolder struct {
	name string
	t    reflect.Type
	doc  func(lit, text string) string // lit: the value's own serialization
	set  func(v reflect.Value) reflect.Value
	str  bool // takes the string form
	keys bool
}

func numHolders(t reflect.Type, integer bool) []numHolder {
	st := func(tag string, ft reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", typeOf[string](), "a"), sf("X", ft, tag)})
	}
	plain := func(l, _ string) string { return l }
	inList := func(l, _ string) string { return "a:1:{i:0;" + l + "}" }
	inMap := func(l, _ string) string { return `a:1:{s:1:"k";` + l + "}" }
	inField := func(l, _ string) string { return `a:2:{s:1:"a";s:0:"";s:1:"x";` + l + "}" }
	inStrField := func(_, x string) string { return `a:2:{s:1:"a";s:0:"";s:1:"x";` + string(encStr(x)) + "}" }
	ptr := func(v reflect.Value) reflect.Value { p, _ := mkPtr(v); return p }
	field := func(ty reflect.Type, v reflect.Value) reflect.Value {
		s := reflect.New(ty).Elem()
		s.Field(1).Set(v)
		return s
	}
	hs := []numHolder{
		{name: "plain", t: t, doc: plain, set: func(v reflect.Value) reflect.Value { return v }},
		{name: "pointer", t: reflect.PointerTo(t), doc: plain, set: ptr},
		{name: "array", t: reflect.ArrayOf(1, t), doc: inList, set: func(v reflect.Value) reflect.Value { return mkArray(v, 1) }},
		{name: "map value", t: reflect.MapOf(typeOf[string](), t), doc: inMap, set: mkMap},
		{name: "field", t: st("x", t), doc: inField, set: func(v reflect.Value) reflect.Value { return field(st("x", t), v) }},
		{name: "string field", t: st("x,string", t), doc: inStrField, str: true, set: func(v reflect.Value) reflect.Value { return field(st("x,string", t), v) }},
		{name: "string pointer field", t: st("x,string", reflect.PointerTo(t)), doc: inStrField, str: true, set: func(v reflect.Value) reflect.Value { return field(st("x,string", reflect.PointerTo(t)), ptr(v)) }},
		{name: "pointer field", t: st("x,omitempty", reflect.PointerTo(t)), doc: inField, set: func(v reflect.Value) reflect.Value { return field(st("x,omitempty", reflect.PointerTo(t)), ptr(v)) }},
		{name: "map of lists", t: reflect.MapOf(typeOf[string](), reflect.SliceOf(reflect.PointerTo(t))), doc: func(l, _ string) string { return `a:1:{s:1:"k";a:1:{i:0;` + l + "}}" }, set: func(v reflect.Value) reflect.Value { return mkMap(mkSlice(ptr(v))) }},
	}
	if t.Kind() != reflect.Uint8 {
		hs = append(hs, numHolder{name: "slice", t: reflect.SliceOf(t), doc: inList, set: mkSlice})
	}
	if integer {
		key := func(l, _ string) string { return "a:1:{" + l + "s:1:\"v\";}" }
		mk := func(v reflect.Value) reflect.Value {
			m := reflect.MakeMap(reflect.MapOf(v.Type(), typeOf[string]()))
			m.SetMapIndex(v, reflect.ValueOf("v"))
			return m
		}
		hs = append(hs,
			numHolder{name: "map key", t: reflect.MapOf(t, typeOf[string]()), doc: key, set: mk, keys: true},
			numHolder{name: "map key in a field", t: st("x", reflect.MapOf(t, typeOf[any]())), doc: func(l, _ string) string { return inField("a:1:{"+l+"s:1:\"v\";}", "") }, set: func(v reflect.Value) reflect.Value {
				m := reflect.MakeMap(reflect.MapOf(v.Type(), typeOf[any]()))
				m.SetMapIndex(v, reflect.ValueOf("v"))
				return field(st("x", m.Type()), m)
			}, keys: true},
		)
	}
	return hs
}

var anyHolders = []numHolder{
	{name: "any", t: typeOf[any](), doc: func(l, _ string) string { return l }},
	{name: "any slice", t: typeOf[[]any](), doc: func(l, _ string) string { return "a:1:{i:0;" + l + "}" }},
	{name: "any map", t: typeOf[map[string]any](), doc: func(l, _ string) string { return `a:1:{s:1:"k";` + l + "}" }},
	{name: "any struct", t: typeOf[anyBox](), doc: func(l, _ string) string { return `a:1:{s:1:"v";` + l + "}" }},
	{name: "any key", t: typeOf[map[any]any](), doc: func(l, _ string) string { return `a:1:{` + l + `i:1;}` }, keys: true},
	{name: "any in any", t: typeOf[any](), doc: func(l, _ string) string { return `a:1:{i:0;a:1:{` + l + l + `}}` }, keys: true},
	{name: "string any", t: typeOf[struct {
		V any `php:"v,string"`
	}](), doc: func(_, x string) string { return `a:1:{s:1:"v";` + string(encStr(x)) + "}" }, str: true},
}

func encodeNumber(u *U, v reflect.Value, hs []numHolder) {
	for _, h := range hs {
		if !u.Next() {
			continue
		}
		x := h.set(v)
		encodeCase(u, iface(x))
		encodeCase(u, []any{iface(x)})
	}
	if !u.Next() {
		return
	}
	encodeCase(u, struct {
		V any  `php:"v,string"`
		P any  `php:"p,string,omitempty"`
		Q *any `php:"q,string"`
	}{iface(v), ptrOf(v), anyPtr(iface(v))})
}

func anyPtr(v any) *any { return &v }

func ptrOf(v reflect.Value) any { p, _ := mkPtr(v); return iface(p) }

// decodeNumber decodes text into every holder.
func decodeNumber(u *U, tag string, text string, hs []numHolder) {
	l := tag + ":" + text + ";"
	for _, h := range hs {
		if h.keys && tag != "i" {
			continue
		}
		if !u.Next() {
			continue
		}
		decodeCase(u, h.doc(l, text), h.t)
	}
}

func init() {
	register(&Check{
		ID: "C15",
		Rule: "every value of every 8- and 16-bit integer type and, for the wider types, all values around every power of two and ten, every limit and digit pattern: encoded in every position (plain, pointer, containers, map key, string option); every decimal from -70000 to 70000 and the same patterns far beyond 64 bits (with leading zeros and equal low bits), decoded into every integer type in every position; " +
			"expected values come from exact decimal arithmetic on digit strings and math/big",
		Units: func(thorough bool) (units []Unit) {
			b := boundaryInts(thorough)
			units = append(units, chunked("encode-16", 1<<17, 4096, func(u *U, i int) {
				x := big.NewInt(int64(i) - 1<<16)
				for _, t := range intTypes {
					if t.Bits() > 16 && !thorough {
						continue
					}
					if v, ok := fitsInt(x, t); ok {
						if thorough || t.Name()[0] != 'N' && t.Bits() <= 16 {
							encodeNumber(u, v, holdersOf(t))
						} else if u.Next() {
							encodeCase(u, iface(v))
						}
					}
				}
			})...)
			units = append(units, chunked("encode-wide", len(b), 150, func(u *U, i int) {
				for _, t := range intTypes {
					if v, ok := fitsInt(b[i], t); ok {
						encodeNumber(u, v, holdersOf(t))
					}
				}
			})...)
			lo, hi := -300, 300
			if thorough {
				lo, hi = -70000, 70000
			}
			units = append(units, chunked("decode-16", hi-lo, 2000, func(u *U, i int) {
				x := fmt.Sprint(i + lo)
				for _, t := range intTypes {
					decodeNumber(u, "i", x, holdersOf(t))
				}
				decodeNumber(u, "i", x, anyHolders)
			})...)
			// every decimal in the range of the small types, plain and as a key
			units = append(units, chunked("decode-all-16", 140001, 4000, func(u *U, i int) {
				x := fmt.Sprint(i - 70000)
				for _, t := range intTypes {
					if u.Next() {
						decodeCase(u, "i:"+x+";", t)
					}
					if t.Bits() <= 16 && u.Next() {
						decodeCase(u, "a:1:{i:"+x+";N;}", reflect.MapOf(t, typeOf[any]()))
					}
				}
			})...)
			units = append(units, chunked("decode-wide", len(b), 100, func(u *U, i int) {
				s := b[i].String()
				texts := []string{s}
				for _, z := range []int{1, 3, 25} {
					zs := strings.Repeat("0", z)
					if s[0] == '-' {
						texts = append(texts, "-"+zs+s[1:])
					} else {
						texts = append(texts, zs+s)
					}
				}
				for k, x := range texts {
					for _, t := range intTypes {
						if k > 0 && t.Name()[0] == 'N' && !thorough {
							continue
						}
						decodeNumber(u, "i", x, holdersOf(t))
					}
					decodeNumber(u, "i", x, anyHolders)
				}
			})...)
			// any number of leading zeros
			maxZeros := 140
			if thorough {
				maxZeros = 1100
			}
			units = append(units, chunked("zeros", maxZeros, 4, func(u *U, i int) {
				zs := strings.Repeat("0", i)
				for _, x := range []string{"", "7", "127", "128", "255", "256", "32767", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "10000000000000000000000"} {
					for _, sign := range []string{"", "-"} {
						if i == 0 && x == "" {
							continue
						}
						for _, t := range intTypes {
							for k, h := range holdersOf(t) {
								if (i%8 == k%8 || h.name == "plain" || h.name == "map key") && u.Next() {
									decodeCase(u, h.doc("i:"+sign+zs+x+";", sign+zs+x), h.t)
								}
							}
						}
						decodeNumber(u, "i", sign+zs+x, anyHolders)
					}
				}
			})...)
			// indexes of fixed arrays: equal low bits are different indexes
			units = append(units, chunked("array-indexes", len(b), 100, func(u *U, i int) {
				x := b[i].String()
				for _, t := range []reflect.Type{typeOf[[1]int](), typeOf[[2]string](), typeOf[[5]any](), typeOf[[0]int](), typeOf[[300]int8](), typeOf[[2]UR](), typeOf[[3]*Plain]()} {
					v := "i:7;"
					switch t.Elem().Kind() {
					case reflect.String:
						v = `s:1:"v";`
					case reflect.Ptr:
						v = `a:1:{s:1:"A";i:5;}`
					}
					for _, d := range []string{"a:1:{i:" + x + ";" + v + "}", "a:3:{i:0;" + v + "i:" + x + ";" + v + "i:1;" + v + "}"} {
						if u.Next() {
							decodeCase(u, d, t)
						}
						if u.Next() {
							decodeCase(u, `a:1:{s:1:"X";`+d+"}", reflect.StructOf([]reflect.StructField{sf("X", t, "")}))
						}
					}
				}
			})...)
			// all digit strings of small alphabets to a length, as integers and as strings under the option
			maxLen := 4
			if thorough {
				maxLen = 6
			}
			units = append(units, chunked("texts", len(intTypes), 1, func(u *U, i int) {
				hs := holdersOf(intTypes[i])
				var rec func(s string, n int)
				rec = func(s string, n int) {
					for _, h := range hs {
						if h.name == "plain" || h.name == "string field" || h.name == "map key" {
							if u.Next() {
								decodeCase(u, h.doc("i:"+s+";", s), h.t)
							}
						}
					}
					if n == 0 {
						return
					}
					for _, c := range "-+0129 .e" {
						rec(s+string(c), n-1)
					}
				}
				rec("", maxLen)
			})...)
			// other PHP types never become integers silently
			units = append(units, chunked("other-types", len(intTypes), 1, func(u *U, i int) {
				for _, h := range holdersOf(intTypes[i]) {
					for _, d := range scalarDocs {
						if u.Next() {
							decodeCase(u, h.doc(d, "x"), h.t)
						}
					}
				}
			})...)
			return
		},
	})

	register(&Check{
		ID: "C16",
		Rule: "thorough: every float32 bit pattern; quick: every sign and exponent with structured mantissas; float64: every sign and exponent with structured mantissas (at most two bits set or cleared, runs, neighbours of powers of ten); encoded and decoded alone, in slices, in every position and under the string option, compared bit for bit; " +
			"decimals: exact midpoints between neighbouring floats and values just above and below, in several spellings, range limits, compared with exact rational arithmetic",
		Units: func(thorough bool) (units []Unit) {
			if thorough {
				units = append(units, chunked("every-float32", 1<<16, 512, func(u *U, hi int) {
					if !u.Next() {
						return
					}
					fs := make([]float32, 1<<16)
					for lo := range fs {
						fs[lo] = math.Float32frombits(uint32(hi)<<16 | uint32(lo))
					}
					floatBatch32(u, fs)
					floatRows(u, everyNth(fs, 61), 32)
				})...)
			} else {
				units = append(units, chunked("float32-exponents", 512, 8, func(u *U, se int) {
					if !u.Next() {
						return
					}
					var fs []float32
					for m := 0; m < 1<<15; m++ {
						for _, mant := range []uint32{uint32(m), uint32(m) << 8, 1<<23 - 1 - uint32(m)} {
							fs = append(fs, math.Float32frombits(uint32(se)<<23|mant))
						}
					}
					floatBatch32(u, fs)
					floatRows(u, everyNth(fs, 17), 32)
				})...)
			}
			mants := mantissas(52, true)
			units = append(units, chunked("float64-exponents", 4096, 32, func(u *U, se int) {
				if !u.Next() {
					return
				}
				fs := make([]float64, len(mants))
				for i, m := range mants {
					fs[i] = math.Float64frombits(uint64(se)<<52 | m)
				}
				floatBatch64(u, fs)
				if thorough {
					floatRows(u, fs, 64)
				} else {
					floatRows(u, everyNth(fs, 4), 64)
				}
			})...)
			// neighbours of decimal landmarks
			var marks []float64
			for e := -330; e <= 309; e++ {
				for _, d := range []string{"1", "2", "5", "9", "1.5", "9.999999999999999", "1.0000000000000002", "123456789", "0.1"} {
					f, _ := strconv.ParseFloat(d+"e"+strconv.Itoa(e), 64)
					marks = append(marks, f, -f)
					for k := 0; k < 3; k++ {
						f = math.Nextafter(f, 0)
						marks = append(marks, f)
					}
				}
			}
			for i := int64(0); i < 3000; i++ {
				marks = append(marks, float64(i), float64(-i), float64(i)/10, float64(i)/7, float64(i)*1e15, 1<<53+float64(i), float64(i)+0.5)
			}
			units = append(units, chunked("landmarks", (len(marks)+999)/1000, 1, func(u *U, i int) {
				if !u.Next() {
					return
				}
				part := marks[i*1000 : min(len(marks), i*1000+1000)]
				floatBatch64(u, part)
				floatRows(u, part, 64)
				f32 := make([]float32, len(part))
				for k, f := range part {
					f32[k] = float32(f)
				}
				floatBatch32(u, f32)
				floatRows(u, f32, 32)
			})...)
			// every position
			var special []float64
			for se := 0; se < 4096; se += 7 {
				special = append(special, math.Float64frombits(uint64(se)<<52|0xfffffffffffff>>(se%52)))
			}
			special = append(special, 0, math.Copysign(0, -1), 1, -1, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), -math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e-5, 1e-6, 1e-7, 123456789.125, 3, 100, 1e6, 1e7)
			units = append(units, chunked("positions", len(special), 20, func(u *U, i int) {
				for _, t := range []reflect.Type{typeOf[float64](), typeOf[float32](), typeOf[NF64](), typeOf[NF32]()} {
					v := reflect.New(t).Elem()
					v.SetFloat(special[i])
					for _, h := range numHolders(t, false) {
						if !u.Next() {
							continue
						}
						x := h.set(v)
						b, ok := encodeCase(u, iface(x))
						if !ok {
							continue
						}
						back := reflect.New(h.t)
						if err, pan := Unmarshal(b, back.Interface()); err != nil || pan != nil {
							u.Fail("Unmarshal(%q, *%s) failed: %v %v", b, h.t, err, pan)
						} else if s := same(back.Elem(), x); s != "" {
							u.Fail("%s became %q and then %s", describe(iface(x)), b, describeValue(back.Elem(), 5))
						}
					}
					if u.Next() {
						encodeCase(u, struct {
							V any  `php:"v,string"`
							Q *any `php:"q"`
						}{iface(v), anyPtr(iface(v))})
					}
					if u.Next() { // through any
						if b, ok := encodeCase(u, []any{iface(v)}); ok && t.Bits() == 64 {
							var back []any
							if err, pan := Unmarshal(b, &back); err != nil || pan != nil || len(back) != 1 || !sameBits(back[0], special[i]) {
								u.Fail("Unmarshal(%q, *[]any) = %v, %v, %v", b, back, err, pan)
							}
						}
					}
				}
			})...)
			// decimals
			n32 := 512
			units = append(units, chunked("midpoints32", n32, 4, func(u *U, se int) {
				ms := []uint32{0, 1, 2, 3, 0x400000, 0x3fffff, 0x7ffffe, 0x7fffff, 0x2aaaaa, 0x555555, 0x123456}
				{
					for k := 0; k < 23; k++ {
						ms = append(ms, 1<<k, 1<<23-1-1<<k, 1<<k|1)
					}
				}
				for _, m := range ms {
					f := math.Float32frombits(uint32(se)<<23 | m)
					if f != f || math.IsInf(float64(f), 0) {
						continue
					}
					g := math.Nextafter32(f, float32(math.Copysign(math.Inf(1), float64(f))))
					if math.Signbit(float64(f)) && f == 0 {
						g = -math.SmallestNonzeroFloat32
					}
					var gv *big.Rat
					if math.IsInf(float64(g), 0) {
						gv = new(big.Rat).SetFloat64(math.Copysign(math.Ldexp(1, 128), float64(f)))
					} else {
						gv = new(big.Rat).SetFloat64(float64(g))
					}
					midCases(u, new(big.Rat).SetFloat64(float64(f)), gv, 32)
				}
			})...)
			step := 13
			if thorough {
				step = 1
			}
			units = append(units, chunked("midpoints64", 4096/step, 8, func(u *U, se int) {
				for _, m := range []uint64{0, 1, 2, 1<<52 - 1, 1<<52 - 2, 1 << 51, 0xaaaaaaaaaaaaa} {
					f := math.Float64frombits(uint64(se*step)<<52 | m)
					if f != f || math.IsInf(f, 0) {
						continue
					}
					g := math.Nextafter(f, math.Copysign(math.Inf(1), f))
					var gv *big.Rat
					if math.IsInf(g, 0) {
						gv = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))
						if f < 0 {
							gv.Neg(gv)
						}
					} else {
						gv = new(big.Rat).SetFloat64(g)
					}
					midCases(u, new(big.Rat).SetFloat64(f), gv, 64)
				}
			})...)
			// strconv loses the magnitude of a significand of more than 800 digits without a point
			units = append(units, Unit{"known-input", func(u *U) {
				if !u.Next() {
					return
				}
				x := new(big.Rat).Add(new(big.Rat).SetFloat64(math.Float64frombits(1<<52-1)), new(big.Rat).SetFloat64(math.Float64frombits(1<<52)))
				x.Quo(x, big.NewRat(2, 1))
				x.Add(x, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 1115)))
				s := ratText(x)
				digits := strings.TrimLeft(strings.TrimRight(s[2:], "0"), "0")
				text := digits + "E" + strconv.Itoa(-len(strings.TrimRight(s[2:], "0")))
				var got float64
				err, pan := Unmarshal([]byte("d:"+text+";"), &got)
				if want, _ := x.Float64(); err != nil || pan != nil || got != want {
					u.Fail("(strconv-800-digits) Unmarshal(%s, *float64) = %v, %v, %v; expected %v", clipq("d:"+text+";"), got, err, pan, want)
				}
			}})
			// every short decimal
			digits := 3
			if thorough {
				digits = 4
			}
			units = append(units, chunked("short-decimals", 80, 1, func(u *U, e int) {
				for m := 0; m < int(math.Pow10(digits)); m++ {
					if !u.Next() {
						continue
					}
					for _, text := range []string{fmt.Sprintf("%dE%d", m, e*10-400), fmt.Sprintf("-%d.%de%+d", m/10, m%10, e-45), fmt.Sprintf("%d.%0*d", m/10, e%7+1, m)} {
						decimalCase(u, text)
					}
				}
			})...)
			return
		},
	})
}

var holderCache = map[reflect.Type][]numHolder{}

func holdersOf(t reflect.Type) []numHolder {
	h, ok := holderCache[t]
	if !ok {
		h = numHolders(t, t.Kind() <= reflect.Uint64)
		holderCache[t] = h
	}
	return h
}

func sameBits(got any, want float64) bool {
	f, ok := got.(float64)
	return ok && (f != f && want != want || math.Float64bits(f) == math.Float64bits(want))
}

func mantissas(bits int, rich bool) []uint64 {
	all := uint64(1)<<bits - 1
	seen := map[uint64]bool{}
	var out []uint64
	add := func(m uint64) {
		for _, x := range []uint64{m & all, all &^ m} {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	add(0)
	for i := 0; i < bits; i++ {
		add(1 << i)
		add(all >> i)
		add(1<<i | 1)
		add(1<<i | 1<<(bits-1))
		if rich {
			for j := 0; j < i; j++ {
				add(1<<i | 1<<j)
				add((all >> i) &^ (all >> j))
			}
		}
	}
	add(0x5555555555555555)
	add(0x3333333333333333)
	add(0x123456789abcdef)
	return out
}

// splitFloats takes a document of a list of floats apart.
func splitFloats(u *U, b []byte, n int, f func(i int, text string) bool) bool {
	s := string(b)
	rest, ok := strings.CutPrefix(s, fmt.Sprintf("a:%d:{", n))
	if !ok {
		return false
	}
	for i := 0; i < n; i++ {
		p := "i:" + strconv.Itoa(i) + ";d:"
		if rest, ok = strings.CutPrefix(rest, p); !ok {
			return false
		}
		e := strings.IndexByte(rest, ';')
		if e < 0 || !f(i, rest[:e]) {
			return false
		}
		rest = rest[e+1:]
	}
	return rest == "}"
}

func floatBatch32(u *U, fs []float32) {
	b, err, pan := Marshal(fs)
	if err != nil || pan != nil {
		u.Fail("Marshal of %d float32 from %v failed: %v %v", len(fs), fs[0], err, pan)
		return
	}
	u.State("f32", fmt.Sprint(math.Float32bits(fs[0])))
	steps += int64(len(fs))
	u.Cover("floats", int64(len(fs)))
	bad := -1
	if !splitFloats(u, b, len(fs), func(i int, t string) bool {
		bad = i
		return floatDenotes(t, float64(fs[i]), 32, false)
	}) {
		u.Fail("Marshal of []float32: element %d, %v (bits %#x), is written wrongly near %q", bad, fs[max(bad, 0)], math.Float32bits(fs[max(bad, 0)]), nearIndex(b, bad))
		return
	}
	var back []float32
	if err, pan := Unmarshal(b, &back); err != nil || pan != nil || len(back) != len(fs) {
		u.Fail("Unmarshal of %d float32 from bits %#x failed: %v %v", len(fs), math.Float32bits(fs[0]), err, pan)
		return
	}
	for i, f := range back {
		if math.Float32bits(f) != math.Float32bits(fs[i]) && (f == f || fs[i] == fs[i]) {
			u.Fail("float32 %v (bits %#x) came back as %v (bits %#x)", fs[i], math.Float32bits(fs[i]), f, math.Float32bits(f))
			return
		}
	}
}

func floatBatch64(u *U, fs []float64) {
	b, err, pan := Marshal(fs)
	if err != nil || pan != nil {
		u.Fail("Marshal of %d float64 from %v failed: %v %v", len(fs), fs[0], err, pan)
		return
	}
	var key [8]byte
	binary.LittleEndian.PutUint64(key[:], math.Float64bits(fs[0]))
	u.State("f64", string(key[:]))
	steps += int64(len(fs))
	u.Cover("floats", int64(len(fs)))
	bad := -1
	if !splitFloats(u, b, len(fs), func(i int, t string) bool {
		bad = i
		return floatDenotes(t, fs[i], 64, false)
	}) {
		u.Fail("Marshal of []float64: element %d, %v (bits %#x), is written wrongly near %q", bad, fs[max(bad, 0)], math.Float64bits(fs[max(bad, 0)]), nearIndex(b, bad))
		return
	}
	var back []float64
	var anys []any
	if err, pan := Unmarshal(b, &back); err != nil || pan != nil || len(back) != len(fs) {
		u.Fail("Unmarshal of %d float64 from bits %#x failed: %v %v", len(fs), math.Float64bits(fs[0]), err, pan)
		return
	}
	if err, pan := Unmarshal(b, &anys); err != nil || pan != nil || len(anys) != len(fs) {
		u.Fail("Unmarshal of %d floats from bits %#x into []any failed: %v %v", len(fs), math.Float64bits(fs[0]), err, pan)
		return
	}
	for i, f := range back {
		if !sameBits(f, fs[i]) || !sameBits(anys[i], fs[i]) {
			u.Fail("float64 %v (bits %#x) came back as %v (bits %#x) and %v", fs[i], math.Float64bits(fs[i]), f, math.Float64bits(f), anys[i])
			return
		}
	}
}

func nearIndex(b []byte, i int) string {
	k := strings.Index(string(b), fmt.Sprintf("i:%d;d:", i))
	if k < 0 {
		return ""
	}
	return string(b[k:min(len(b), k+60)])
}

// ratText is x as a decimal with enough digits to be exact (x has a power of two as its denominator).
func ratText(x *big.Rat) string {
	n := x.Denom().BitLen()
	return x.FloatString(n)
}

// midCases: the two neighbours f and g (g further from zero), the exact midpoint and values close to it.
func midCases(u *U, f, g *big.Rat, bits int) {
	mid := new(big.Rat).Add(f, g)
	mid.Quo(mid, big.NewRat(2, 1))
	eps := new(big.Rat).Sub(g, f)
	// a value much closer to the midpoint than double precision can tell
	tiny := new(big.Rat).Quo(eps, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 40)))
	quarter := new(big.Rat).Quo(eps, big.NewRat(4, 1))
	for _, x := range []*big.Rat{f, g, mid, new(big.Rat).Add(mid, tiny), new(big.Rat).Sub(mid, tiny), new(big.Rat).Add(mid, quarter), new(big.Rat).Sub(mid, quarter)} {
		if !u.Next() {
			continue
		}
		s := ratText(x)
		decimalCase(u, s)
		if !strings.Contains(s, ".") {
			decimalCase(u, s+".0")
			continue
		}
		// scientific spelling of the same digits
		digits := strings.TrimRight(strings.Replace(s, ".", "", 1), "0")
		frac := len(s) - strings.IndexByte(s, '.') - 1 - (len(s) - 1 - len(digits))
		if len(strings.TrimLeft(strings.TrimPrefix(digits, "-"), "0")) <= 800 { // see the unit known-input
			decimalCase(u, digits+"E"+strconv.Itoa(-frac))
		}
		decimalCase(u, s+"0000")
		decimalCase(u, strings.Replace(s, "-", "", 1))
	}
}

// decimalCase decodes text into both float sizes and compares with exact rounding.
func decimalCase(u *U, text string) {
	if ok, strict := floatText(text); !ok || !strict {
		return
	}
	x, ok := new(big.Rat).SetString(text)
	if !ok {
		panic("bad decimal " + text)
	}
	neg := text[0] == '-'
	f32, _ := x.Float32()
	f64, _ := x.Float64()
	if neg {
		f32, f64 = float32(math.Copysign(float64(f32), -1)), math.Copysign(f64, -1)
	}
	check := func(doc string, dst any, get func() float64, want float64) {
		err, pan := Unmarshal([]byte(doc), dst)
		if pan != nil {
			u.Fail("Unmarshal(%s, %T) panicked: %s", clipq(doc), dst, pan)
			return
		}
		if math.IsInf(want, 0) {
			if err == nil {
				u.Fail("Unmarshal(%s, %T) = %v, expected an error: out of range", clipq(doc), dst, get())
			}
			return
		}
		if err != nil {
			u.Fail("Unmarshal(%s, %T) failed: %v; expected %v", clipq(doc), dst, err, want)
			return
		}
		if got := get(); math.Float64bits(got) != math.Float64bits(want) {
			u.Fail("Unmarshal(%s, %T) = %v, expected %v", clipq(doc), dst, got, want)
		}
	}
	steps++
	u.State("decimal", text)
	w32 := float64(f32)
	d := "d:" + text + ";"
	var a float32
	var b float64
	check(d, &a, func() float64 { return float64(a) }, w32)
	check(d, &b, func() float64 { return b }, f64)
	var n32 []NF32
	check("a:1:{i:0;"+d+"}", &n32, func() float64 { return float64(n32[0]) }, w32)
	var i any
	check(d, &i, func() float64 { return i.(float64) }, f64)
	var s struct {
		A *float32 `php:",string"`
	}
	check(`a:1:{s:1:"A";`+string(encStr(text))+`}`, &s, func() float64 { return float64(*s.A) }, w32)
	var s2 struct {
		A float64 `php:",string"`
	}
	check(`a:1:{s:1:"A";`+string(encStr(text))+`}`, &s2, func() float64 { return s2.A }, f64)
}

// floatRow is one float in the positions whose code paths differ.
type floatRow[T float32 | float64] struct {
	S T   `php:"s,string"`
	P *T  `php:"p,string"`
	A any `php:"a,string"`
	X any `php:"x"`
	F T   `php:"f"`
}

// floatRows encodes every float as a row of its own fields, and reads it back as the same row and as text.
func floatRows[T float32 | float64](u *U, fs []T, bits int) {
	rows := make([]floatRow[T], len(fs))
	for i := range fs {
		rows[i] = floatRow[T]{fs[i], &fs[i], fs[i], fs[i], fs[i]}
	}
	b, err, pan := Marshal(rows)
	if err != nil || pan != nil {
		u.Fail("Marshal of %d rows of float%d from %v failed: %v %v", len(fs), bits, fs[0], err, pan)
		return
	}
	var back []floatRow[T]
	var text []struct {
		S string `php:"s"`
		P string `php:"p"`
		A string `php:"a"`
		X T      `php:"x"`
		F *T     `php:"f"`
	}
	err, pan = Unmarshal(b, &back)
	if err == nil && pan == nil {
		err, pan = Unmarshal(b, &text)
	}
	if err != nil || pan != nil || len(back) != len(fs) || len(text) != len(fs) {
		u.Fail("Unmarshal of %d rows of float%d from %v failed: %v %v", len(fs), bits, fs[0], err, pan)
		return
	}
	eq := func(a, b T) bool {
		return a != a && b != b || math.Float64bits(float64(a)) == math.Float64bits(float64(b))
	}
	for i, f := range fs {
		r, x := back[i], text[i]
		if !eq(r.S, f) || r.P == nil || !eq(*r.P, f) || !eq(r.F, f) || !eq(x.X, f) || x.F == nil || !eq(*x.F, f) {
			u.Fail("float%d %v (bits of float64 %#x) came back as %+v and %+v", bits, f, math.Float64bits(float64(f)), r, x)
			return
		}
		for _, s := range []string{x.S, x.P, x.A} {
			if !floatDenotes(s, float64(f), bits, true) {
				u.Fail("float%d %v (bits of float64 %#x) is written as %q under the string option", bits, f, math.Float64bits(float64(f)), s)
				return
			}
		}
	}
	u.Cover("float-rows", int64(len(fs)))
	steps += int64(len(fs))
}

func everyNth[T any](fs []T, n int) (out []T) {
	for i := 0; i < len(fs); i += n {
		out = append(out, fs[i])
	}
	return
}
