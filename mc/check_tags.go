package main

// C03 (struct tags), C18 (skipping), C15 (integers), C16 (floats).

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

var tagDomain = []string{
	"", "name", ",omitempty", ",string", "name,omitempty", "name,string", "name,omitempty,string", ",string,omitempty", "-", ",", "-,", "-,omitempty", "-,string",
	"n m", "a.b", "a-b", "!#$%&()*+-./:<=>?@[]^_{|}~ ", "a'b", "a;b", `a\\b`, "é", "名", "1", "0", "name,other", "name,Omitempty", "name, omitempty", "omitempty", "string", "NAME", "f", "_", "name,string,string", "😀x",
	"averylongnamethatgoesonandonandonuntilitisverylongindeed,omitempty",
}

func scalarLeaf(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

var stringTexts = []string{"", "true", "false", "True", "1", "0", "-1", "+1", "007", "-007", "12", "12a", "a12", " 12", "12 ", "1.5", "-1.5", "1E5", "1e-7", "1.0E+25", ".5", "5.", "INF", "-INF", "NAN", "+Inf", "-Inf", "NaN", "inf", "0x10", "1_0",
	"127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "99999999999999999999999999", "1e400", "3.5e38", "-", "--1", "truefalse", "t", "yes", "null", "N;", "\x00", "tru", "truee", "1e", "e1", ".", "-.", "0.1", "16777217", "1e-400"}

func tagStruct(t reflect.Type, tag string) reflect.Type {
	return reflect.StructOf([]reflect.StructField{sf("B", typeOf[int](), "before"), sf("F", t, tag), sf("After", typeOf[string](), "")})
}

type unexportedMix struct {
	hidden int    `php:"h"`
	A      int    `php:"a"`
	lower  string //nolint
	B      *int   `php:"b,omitempty"`
	C      string `php:"-"`
	d      map[string]int
	E      struct {
		x int
		Y int `php:"y,omitempty"`
	} `php:"e"`
	F bool
}

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "every tag of the tag domain on a field of every type of the universe, every value: encoding, decoding of every spelling of the key, of null, of every string text under the string option, into fresh and filled destinations; all pairs of tags on two fields; all omitempty/zero patterns of five fields",
		Units: func(thorough bool) (units []Unit) {
			ts := append(append(append([]reflect.Type{}, leafTypes...), apply([]ctor{ctors[0]}, leafTypes)...), lvlOf(1)...)
			ts = append(ts, typeOf[Plain](), typeOf[[2]string](), typeOf[struct{}](), typeOf[*struct{ A, B int }](), typeOf[map[int][]string](), typeOf[[0]int](), typeOf[NSlice](), typeOf[NMap](), typeOf[NArr]())
			ts = append(ts, lvlOf(2)...)
			if thorough {
				ts = append(ts, apply([]ctor{ctors[0]}, lvlOf(2))...)
				ts = append(ts, apply(extraCtors, lvlOf(1))...)
			}
			units = append(units, chunked("encode", len(ts), 4, func(u *U, i int) {
				for _, tag := range tagDomain {
					st := tagStruct(ts[i], tag)
					dom := vals(ts[i], 2)
					for _, f := range dom {
						if !u.Next() {
							continue
						}
						v := reflect.New(st).Elem()
						v.Field(0).SetInt(5)
						v.Field(1).Set(f)
						v.Field(2).SetString("z")
						encodeCase(u, iface(v))
						encodeCase(u, iface(v.Addr()))
					}
				}
			})...)
			units = append(units, chunked("decode", len(ts), 4, func(u *U, i int) {
				t := ts[i]
				for _, tag := range tagDomain {
					st := tagStruct(t, tag)
					ti := parseTag(st.Field(1))
					docs := docsFor(t, 1)
					if ti.str {
						for _, x := range stringTexts {
							docs = append(docs, string(encStr(x)))
						}
					}
					docs = append(docs, "N;", "i:3;", `s:1:"q";`, "b:1;", "d:2.5;", `s:4:"true";`, `s:2:"15";`)
					full := vals(t, 0)
					for _, key := range []string{ti.key, "F", "f", strings.ToUpper(ti.key), strings.ToLower(ti.key), ti.key + " ", "before", "After", "-", tag, strings.Split(tag, ",")[0], ""} {
						for _, d := range docs {
							doc := `a:3:{s:6:"before";i:9;` + string(encStr(key)) + d + `s:5:"After";s:1:"t";}`
							if key == "before" || key == "After" {
								doc = `a:1:{` + string(encStr(key)) + d + `}`
							}
							n := parseDoc(doc)
							if u.Next() {
								decodeNode(u, doc, n, st)
							}
							if u.Next() {
								// into a filled destination
								want := reflect.New(st)
								want.Elem().Field(0).SetInt(77)
								want.Elem().Field(1).Set(full[len(full)-1])
								want.Elem().Field(2).SetString("old")
								got := reflect.New(st)
								got.Elem().Set(deepCopy(want.Elem()))
								want.Elem().Set(deepCopy(want.Elem()))
								v, why := modelDecode(doc, n, want.Elem())
								decodeInto(u, doc, got, want, v, why)
							}
						}
					}
				}
			})...)
			// two fields: every pair of tags
			units = append(units, chunked("pairs", len(tagDomain), 2, func(u *U, i int) {
				for _, t2 := range tagDomain {
					for _, pair := range [][2]reflect.Type{{typeOf[int](), typeOf[int]()}, {typeOf[any](), typeOf[string]()}} {
						st := reflect.StructOf([]reflect.StructField{sf("A", pair[0], tagDomain[i]), sf("Name", pair[1], t2), sf("Omit", typeOf[int8](), ",omitempty")})
						k1, k2 := parseTag(st.Field(0)), parseTag(st.Field(1))
						for _, doc := range []string{
							"a:0:{}", "N;",
							`a:2:{` + string(encStr(k1.key)) + "i:4;" + string(encStr(k2.key)) + `N;}`,
							`a:2:{` + string(encStr(k2.key)) + `s:1:"5";` + string(encStr(k1.key)) + `s:1:"6";}`,
							`a:2:{s:1:"A";i:1;s:4:"Name";i:2;}`,
							`a:1:{s:4:"Omit";i:2;}`,
						} {
							if u.Next() {
								decodeCase(u, doc, st)
							}
							if u.Next() {
								decodeCase(u, `a:1:{i:0;`+doc+`}`, reflect.SliceOf(st))
							}
						}
						if u.Next() && !structRefused(st) {
							for _, v := range vals(st, 2) {
								encodeCase(u, iface(v))
							}
						}
					}
				}
			})...)
			// omitempty patterns of five fields
			omit := []reflect.Type{typeOf[int](), typeOf[string](), typeOf[[]int](), typeOf[*int](), typeOf[map[string]int](), typeOf[any](), typeOf[[2]int](), typeOf[Plain](), typeOf[bool](), typeOf[float64](), typeOf[[]byte]()}
			units = append(units, chunked("omitempty", len(omit), 1, func(u *U, i int) {
				n := 5
				for tags := 0; tags < 1<<n; tags++ {
					var f []reflect.StructField
					for k := 0; k < n; k++ {
						tag := fmt.Sprintf("k%d", k)
						if tags>>k&1 == 1 {
							tag += ",omitempty"
						}
						f = append(f, sf(fmt.Sprintf("F%d", k), omit[(i+k)%len(omit)], tag))
					}
					st := reflect.StructOf(f)
					for z := 0; z < 1<<n; z++ {
						if !u.Next() {
							continue
						}
						v := reflect.New(st).Elem()
						for k := 0; k < n; k++ {
							if z>>k&1 == 1 {
								v.Field(k).Set(vals(f[k].Type, 0)[1])
							}
						}
						encodeCase(u, iface(v))
						roundTrip(u, v)
						encodeCase(u, []any{iface(v), map[string]any{"k": iface(v.Addr())}})
					}
				}
			})...)
			units = append(units, Unit{"unexported", func(u *U) {
				one := 1
				a := unexportedMix{hidden: 1, A: 2, lower: "x", B: &one, C: "c", d: map[string]int{"q": 1}, F: true}
				a.E.x, a.E.Y = 3, 4
				for _, v := range []any{a, &a, unexportedMix{}, []unexportedMix{a}, map[string]unexportedMix{"k": a}, []any{a, &a}} {
					if u.Next() {
						encodeCase(u, v)
					}
				}
				for _, key := range []string{"h", "hidden", "a", "A", "lower", "b", "C", "-", "d", "e", "E", "F"} {
					for _, d := range []string{"i:6;", "N;", "b:1;", `s:1:"x";`, `a:2:{s:1:"x";i:1;s:1:"y";i:5;}`, `a:0:{}`} {
						doc := `a:1:{` + string(encStr(key)) + d + `}`
						if u.Next() {
							decodeCase(u, doc, typeOf[unexportedMix]())
						}
						if u.Next() {
							got, want := a, a
							v, why := modelDecode(doc, parseDoc(doc), reflect.ValueOf(&want).Elem())
							decodeInto(u, doc, reflect.ValueOf(&got), reflect.ValueOf(&want), v, why)
						}
					}
				}
			}})
			// every list of up to four options (and one option at the end of a longer list): each counts
			optWords := []string{"omitempty", "string", "", "x", "Omitempty", " string", "string ", "inline"}
			var optLists []string
			counter(5, len(optWords)+1, func(d []int) {
				s := ""
				for k, x := range d {
					if x == len(optWords) {
						for _, y := range d[k:] {
							if y != len(optWords) {
								return
							}
						}
						break
					}
					s += "," + optWords[x]
				}
				if strings.Count(s, ",") < 5 || strings.Count(s, ",string,")+strings.Count(s, ",omitempty,") < 2 {
					optLists = append(optLists, s)
				}
			})
			for n := 5; n < 40; n++ {
				optLists = append(optLists, strings.Repeat(",x", n)+",string", strings.Repeat(",x", n)+",omitempty", strings.Repeat(",", n)+"omitempty,string", ",string"+strings.Repeat(",y", n)+",omitempty")
			}
			optTypes := []reflect.Type{typeOf[int](), typeOf[*string](), typeOf[[]int](), typeOf[bool](), typeOf[any]()}
			units = append(units, chunked("option-lists", (len(optLists)+15)/16, 16, func(u *U, i int) {
				for _, t := range optTypes {
					var f []reflect.StructField
					for k, o := range optLists[i*16 : min(i*16+16, len(optLists))] {
						f = append(f, sf("F"+strconv.Itoa(k), t, []string{"n" + strconv.Itoa(k), ""}[k%2]+o))
					}
					st := reflect.StructOf(f)
					for _, d := range []string{"N;", "i:12;", `s:2:"12";`, `s:4:"true";`, "b:1;", "a:1:{i:0;i:3;}"} {
						for _, ff := range f {
							if u.Next() {
								decodeCase(u, "a:1:{"+string(encStr(parseTag(ff).key))+d+"}", st)
							}
						}
					}
					if encRefused(st) {
						for _, ff := range f { // one at a time
							one := reflect.StructOf([]reflect.StructField{ff})
							for _, x := range vals(t, 0) {
								v := reflect.New(one).Elem()
								v.Field(0).Set(x)
								if u.Next() {
									encodeCase(u, iface(v))
								}
							}
						}
						continue
					}
					for _, x := range vals(t, 1) {
						v := reflect.New(st).Elem()
						for k := range f {
							v.Field(k).Set(x)
						}
						if u.Next() {
							encodeCase(u, iface(v))
							if t != anyType {
								roundTrip(u, v)
							}
						}
					}
				}
			})...)
			// wide structs: every field alone zero or alone set, with and without omitempty
			units = append(units, chunked("wide-omitempty", len(widths), 6, func(u *U, i int) {
				n := widths[len(widths)-1-i]
				for _, lt := range []reflect.Type{typeOf[int8](), typeOf[*string](), typeOf[[]int]()} {
					for _, tag := range []func(i int) string{
						func(i int) string { return fmt.Sprintf("f%d,omitempty", i) },
						func(i int) string { return []string{"", ",omitempty"}[i%2] },
					} {
						st := wideStruct(n, lt, tag)
						set := vals(lt, 0)[1]
						for at := 0; at < n; at++ {
							if n > 150 && at%17 > 0 && at != 200 && at&(at-1) != 0 && at&(at+1) != 0 && at != n-1 {
								continue
							}
							for mode := 0; mode < 2; mode++ {
								if !u.Next() {
									continue
								}
								v := reflect.New(st).Elem()
								for k := 0; k < n; k++ {
									if (k == at) == (mode == 0) {
										v.Field(k).Set(set)
									}
								}
								roundTrip(u, v)
								encodeCase(u, iface(v))
							}
						}
					}
				}
			})...)
			// embedded and blank fields, generic types: every value, every spelling of every key
			shapes := shapeTypes()
			for _, t := range refusedShapes() {
				shapes = append(shapes, t)
			}
			units = append(units, chunked("shapes", len(shapes), 1, func(u *U, i int) {
				t := shapes[i]
				for _, v := range vals(t, 2) {
					if u.Next() {
						encodeCase(u, iface(v))
						encodeCase(u, iface(mkSlice(v)))
					}
					if u.Next() {
						roundTrip(u, v)
					}
				}
				if t.Kind() != reflect.Struct {
					return
				}
				full := vals(t, 0)
				keys := []string{"", "-", "A", "B", "_", "Plain", "Tree", "lowInt", "int", "string", "N", "Value", "W", "v"}
				docs := []string{"N;", "i:3;", `s:1:"q";`, "b:1;", "d:2.5;", `s:4:"true";`, `s:2:"15";`, "a:0:{}", `a:1:{i:0;i:4;}`, `a:1:{s:1:"k";i:4;}`, `a:2:{s:1:"A";i:4;s:1:"v";i:9;}`, `O:1:"C":1:{s:1:"A";i:4;}`}
				for k := 0; k < t.NumField(); k++ {
					f := t.Field(k)
					ti := parseTag(f)
					keys = append(keys, f.Name, ti.key, strings.ToLower(f.Name), strings.ToUpper(f.Name), ti.key+" ", f.Type.String(), "main."+f.Name)
					if f.PkgPath == "" {
						docs = append(docs, docsFor(f.Type, 1)...)
					}
				}
				for _, key := range uniq(keys) {
					for _, d := range uniq(docs) {
						doc := "a:2:{" + string(encStr(key)) + d + `s:1:"A";i:41;}`
						if key == "A" {
							doc = "a:1:{" + string(encStr(key)) + d + "}"
						}
						n := parseDoc(doc)
						if u.Next() {
							decodeNode(u, doc, n, t)
						}
						if u.Next() {
							want := reflect.New(t)
							want.Elem().Set(deepCopy(full[len(full)-1]))
							got := reflect.New(t)
							got.Elem().Set(deepCopy(full[len(full)-1]))
							v, why := modelDecode(doc, n, want.Elem())
							decodeInto(u, doc, got, want, v, why)
						}
					}
				}
			})...)
			// every Unicode code point as a tag name of one rune and behind a letter: fields of wide
			// structs, encoded, decoded and read back under both spellings
			const cpPer = 64
			units = append(units, chunked("code-points", (utf8.MaxRune+1)/cpPer, 128, func(u *U, i int) {
				for _, pre := range []string{"", "a"} {
					var f []reflect.StructField
					for r := i * cpPer; r < (i+1)*cpPer; r++ {
						if utf8.ValidRune(rune(r)) {
							f = append(f, reflect.StructField{Name: fmt.Sprintf("F%d", r), Type: typeOf[int](), Tag: reflect.StructTag("php:" + strconv.Quote(pre+string(rune(r))))})
						}
					}
					if len(f) == 0 {
						continue
					}
					st := reflect.StructOf(f)
					v := reflect.New(st).Elem()
					tags, names := "", ""
					for k := 0; k < st.NumField(); k++ {
						v.Field(k).SetInt(int64(k + 1))
						r, _ := strconv.Atoi(f[k].Name[1:])
						tags += string(encStr(pre+string(rune(r)))) + "i:" + strconv.Itoa(k+2) + ";"
						names += string(encStr(f[k].Name)) + "i:" + strconv.Itoa(k+3) + ";"
					}
					if u.Next() {
						encodeCase(u, iface(v))
						roundTrip(u, v)
					}
					n := strconv.Itoa(st.NumField())
					for _, doc := range []string{"a:" + n + ":{" + tags + "}", "a:" + n + ":{" + names + "}"} {
						if u.Next() {
							decodeCase(u, doc, st)
						}
					}
				}
			})...)
			// every tag of two bytes of ASCII, and every single byte that is not UTF-8
			units = append(units, chunked("ascii-tags", 256, 16, func(u *U, i int) {
				var f []reflect.StructField
				for c := 0; c < 129; c++ {
					name := string([]byte{byte(i), byte(c)})
					if c == 128 {
						name = string([]byte{byte(i)})
					}
					f = append(f, reflect.StructField{Name: fmt.Sprintf("F%d", c), Type: typeOf[int](), Tag: reflect.StructTag("php:" + strconv.Quote(name) + ` json:"j"`)})
				}
				st := reflect.StructOf(f)
				v := reflect.New(st).Elem()
				for k := range f {
					v.Field(k).SetInt(int64(k + 1))
				}
				if u.Next() {
					encodeCase(u, iface(v))
				}
				for c := range f {
					tag, _ := f[c].Tag.Lookup("php")
					for _, key := range []string{tag, f[c].Name, strings.Split(tag, ",")[0]} {
						if u.Next() {
							decodeCase(u, "a:1:{"+string(encStr(key))+"i:7;}", st)
						}
					}
				}
			})...)
			// the string option on every boundary number on every boundary number and string length, forth and back
			strTypes := append(append([]reflect.Type{}, intTypes...), typeOf[float32](), typeOf[float64](), typeOf[string]())
			for _, t := range append([]reflect.Type{}, strTypes...) {
				strTypes = append(strTypes, reflect.PointerTo(t))
			}
			units = append(units, chunked("string-numbers", len(strTypes), 1, func(u *U, i int) {
				t := strTypes[i]
				base := t
				if t.Kind() == reflect.Ptr {
					base = t.Elem()
				}
				st := tagStruct(t, "k,string")
				one := func(f reflect.Value) {
					if !u.Next() {
						return
					}
					v := reflect.New(st).Elem()
					v.Field(0).SetInt(5)
					if t.Kind() == reflect.Ptr {
						p := reflect.New(base)
						p.Elem().Set(f)
						f = p
					}
					v.Field(1).Set(f)
					v.Field(2).SetString("z")
					roundTrip(u, v)
					encodeCase(u, struct {
						V any `php:"v,string"`
						Z int
					}{iface(f), 7})
				}
				f := reflect.New(base).Elem()
				switch base.Kind() {
				case reflect.Float32:
					for _, e := range []uint32{0, 1, 2, 0x50, 0x69, 0x6a, 0x6b, 0x6c, 0x7e, 0x7f, 0x80, 0x8a, 0x96, 0x97, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xfd, 0xfe} {
						for _, m := range mantissas(23, thorough) {
							for s := uint32(0); s < 2; s++ {
								f.SetFloat(float64(math.Float32frombits(s<<31 | e<<23 | uint32(m))))
								one(f)
							}
						}
					}
				case reflect.Float64:
					for _, e := range []uint64{0, 1, 2, 0x200, 0x3e9, 0x3ea, 0x3eb, 0x3ec, 0x3fe, 0x3ff, 0x400, 0x410, 0x433, 0x434, 0x43e, 0x43f, 0x444, 0x445, 0x446, 0x7fd, 0x7fe} {
						for _, m := range mantissas(52, thorough) {
							for s := uint64(0); s < 2; s++ {
								f.SetFloat(math.Float64frombits(s<<63 | e<<52 | m))
								one(f)
							}
						}
					}
				case reflect.String:
					for n := 0; n < 1100; n++ {
						for k := 0; k < 3; k++ {
							f.SetString(filler(n, k))
							one(f)
						}
					}
				default:
					for _, x := range boundaryInts(thorough) {
						if v, ok := fitsInt(x, base); ok {
							one(v)
						}
					}
				}
			})...)
			// dynamic types under the string option
			units = append(units, Unit{"string-any", func(u *U) {
				type S struct {
					V any  `php:"v,string"`
					W *any `php:"w,string,omitempty"`
				}
				for _, x := range append(anyDomain(), NU16(3), NI8(-3), uint8(200), uint16(3), uint32(4), int16(-2), int32(9), NF64(1.5), ptrTo(true), ptrTo(1.25), ptrTo(any("s")), ptrTo(any(ptrTo(3))), math.NaN(), math.Inf(1), float32(math.Inf(-1)), math.Copysign(0, -1)) {
					x := x
					for _, v := range []any{S{V: x}, &S{V: x}, []any{S{x, nil}}, S{V: &x}} {
						if u.Next() {
							encodeCase(u, v)
						}
					}
				}
			}})
			return
		},
	})

	register(&Check{
		ID:   "C18",
		Rule: "every struct or fixed-array document of the universe with an unknown member (every junk value, key near-miss) inserted at every position of every struct it holds, with surplus array elements, and with every class name: the result equals that of the document without them, and both equal the reference decoder's",
		Units: func(thorough bool) (units []Unit) {
			junk := junkValues(thorough)
			d := 2
			if thorough {
				d = 3
			}
			var ts []reflect.Type
			for _, t := range append(specialTypes(), typeUniverse(d)...) {
				if hasStructOrArray(t, 0) {
					ts = append(ts, t)
				}
			}
			lim := 6
			units = append(units, chunked("members", len(ts), 10, func(u *U, i int) {
				docs := docsFor(ts[i], 1)
				if len(docs) > lim {
					docs = append(docs[:3:3], docs[len(docs)-3:]...)
				}
				for _, doc := range docs {
					skipCases(u, doc, ts[i], junk)
				}
			})...)
			ts2 := []reflect.Type{typeOf[Plain](), typeOf[[]Plain](), typeOf[map[string]Plain](), typeOf[struct {
				X string `php:"x"`
				Y *Plain
			}](), typeOf[[1]int](), typeOf[[0]string](), typeOf[[2]Plain](), typeOf[struct{ X UR }](), typeOf[Tree](), typeOf[struct {
				V bool    `php:"v,string"`
				W float64 `php:"w,string"`
				S string  `php:"s"`
			}]()}
			units = append(units, chunked("all-junk", len(ts2), 1, func(u *U, i int) {
				for _, doc := range docsFor(ts2[i], 2) {
					skipCases(u, doc, ts2[i], allJunk(thorough))
				}
			})...)
			// class names of every length and content
			units = append(units, chunked("class-names", 300, 10, func(u *U, n int) {
				for kind := 0; kind < 3; kind++ {
					class := filler(n, kind)
					for _, t := range []reflect.Type{typeOf[Plain](), typeOf[map[string]any](), anyType, typeOf[struct{}](), typeOf[*Plain]()} {
						for _, body := range []string{`2:{s:1:"A";i:5;s:1:"b";s:1:"q";}`, `0:{}`, `1:{s:1:"u";` + head('O', class, 0) + `}}`} {
							doc := `O:` + strconv.Itoa(n) + `:"` + class + `":` + body
							if u.Next() {
								decodeCase(u, doc, t)
							}
						}
					}
				}
			})...)
			// skipped strings of every length and with every content that looks like syntax
			units = append(units, chunked("skipped-strings", 400, 10, func(u *U, n int) {
				for kind := 0; kind < 3; kind++ {
					s := string(encStr(filler(n, kind)))
					for _, doc := range []string{`a:3:{s:1:"A";i:5;s:1:"u";` + s + `s:1:"b";s:1:"q";}`, `a:2:{` + string(encStr("key"+filler(n, kind))) + `i:1;s:1:"A";i:4;}`} {
						if u.Next() {
							decodeCase(u, doc, typeOf[Plain]())
						}
					}
					if u.Next() {
						decodeCase(u, `a:2:{i:0;i:1;i:1;`+s+`}`, typeOf[[1]int]())
					}
				}
			})...)
			// near misses: every name of structs of every width with one byte replaced, lost, doubled or swapped
			units = append(units, chunked("near-misses", 40, 1, func(u *U, w int) {
				for _, tag := range []func(int) string{
					func(int) string { return "" },
					func(i int) string { return fmt.Sprintf("common-prefix-%d", i) },
					func(i int) string { return filler(i%9+1, 0) + strconv.Itoa(i) + "tail" },
					func(i int) string { return strings.Repeat(string(rune('a'+i%26)), i/26+1) },
					func(i int) string { return fmt.Sprintf("%c%d%c", 'a'+i%26, i*i, 'z'-i%26) },
				} {
					t := wideStruct(w+1, typeOf[int](), tag)
					known := map[string]bool{}
					for i := 0; i < t.NumField(); i++ {
						known[parseTag(t.Field(i)).key] = true
					}
					want := reflect.New(t).Elem()
					want.Field(w).SetInt(3)
					last := string(encStr(parseTag(t.Field(w)).key)) + "i:3;"
					seen := map[string]bool{}
					try := func(k string) {
						if known[k] || seen[k] {
							return
						}
						seen[k] = true
						for _, doc := range []string{"a:2:{" + string(encStr(k)) + "i:7;" + last + "}", "a:2:{" + last + string(encStr(k)) + "i:7;}"} {
							if !u.Next() {
								continue
							}
							got := reflect.New(t)
							err, pan := Unmarshal([]byte(doc), got.Interface())
							u.State(doc, t.String())
							if err != nil || pan != nil {
								u.Fail("Unmarshal(%s, *%s) failed: %v %v", clipq(doc), t, err, pan)
							} else if s := same(got.Elem(), want); s != "" {
								u.Fail("Unmarshal(%s, *%s) = %s: the unknown member %q left a trace", clipq(doc), t, describeValue(got.Elem(), 6), k)
							}
						}
					}
					var names []string
					for k := range known {
						names = append(names, k)
					}
					sortStrings(names)
					for _, k := range names {
						if w < 4 || w == 39 {
							for c := 0; c < 256; c++ {
								b := string([]byte{byte(c)})
								for _, x := range []string{b + k, k + b, b + k + b, b + b + k, k + b + b, "\x00" + b + "\x00" + k, "\x00Cls" + b + "\x00" + k, b + "*" + b + k, b + "C" + b + k, k + b + k, k + b + "0", "x" + b + k, k + b + "x"} {
									try(x)
								}
							}
							snake := ""
							for i, c := range k {
								if i > 0 && c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
									snake += "_"
								}
								snake += strings.ToLower(string(c))
							}
							for _, x := range []string{strings.ToUpper(k), strings.ToLower(k), strings.Title(k), snake, "$" + k, "->" + k, "$this->" + k, k + "[]", k + "()", "\xef\xbb\xbf" + k, "\\" + k, "\\NS\\C\\" + k, k + k, strings.Repeat(k, 3), "\"" + k + "\"", "'" + k + "'", "`" + k + "`", k + ",omitempty", k + ",string", "F" + strconv.Itoa(w), strconv.Itoa(w), "php:" + k,
								strings.ReplaceAll(k, "-", "_"), strings.ReplaceAll(k, "-", ""), strings.ReplaceAll(k, "a", "\u0430"), "\u212a" + k, strings.ReplaceAll(k, "k", "\u212a"), strings.ReplaceAll(k, "s", "\u017f"), k + "\u200b", k + "\u0301"} {
								try(x)
							}
						}
						for p := 0; p <= len(k); p++ {
							try(k[:p])
							try(k[p:])
							for _, c := range []byte{'a', 'x', 'Z', '0', '-', 0, 0xff, '_', ' '} {
								try(k[:p] + string([]byte{c}) + k[p:])
								if p < len(k) {
									try(k[:p] + string([]byte{c}) + k[p+1:])
								}
							}
							if p < len(k) {
								try(k[:p] + k[p+1:])
								try(k[:p] + string([]byte{k[p] ^ 0x20}) + k[p+1:])
								try(k[:p] + string([]byte{k[p] + 1}) + k[p+1:])
							}
							if p+1 < len(k) {
								try(k[:p] + string([]byte{k[p+1], k[p]}) + k[p+2:])
							}
						}
					}
				}
			})...)
			long := []int{999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 131072, 999999, 1000000, 1 << 20, 1<<20 + 1}
			units = append(units, chunked("long-skips", len(long), 2, func(u *U, i int) {
				n := long[i]
				for kind := 0; kind < 3; kind++ {
					x := filler(n, kind)
					s := string(encStr(x))
					for _, doc := range []string{
						`a:3:{s:1:"A";i:5;s:1:"u";` + s + `s:1:"b";s:1:"q";}`, `a:2:{` + s + `i:1;s:1:"A";i:4;}`,
						`a:2:{s:1:"u";a:2:{` + s + s + `i:1;` + s + `}s:1:"A";i:4;}`, `a:2:{s:1:"u";` + head('O', x, 1) + `i:0;N;}s:1:"A";i:4;}`, head('O', x, 1) + `s:1:"A";i:4;}`,
					} {
						for _, t := range []reflect.Type{typeOf[Plain](), typeOf[*Plain](), typeOf[[1]Plain]()} {
							d := doc
							if t.Kind() == reflect.Array {
								d = "a:2:{i:0;" + doc + "i:1;" + doc + "}"
							}
							if u.Next() {
								decodeCase(u, d, t)
							}
						}
					}
				}
				// as many unknown members and surplus elements
				if n <= 131072 {
					var sb, se strings.Builder
					for k := 0; k < n; k++ {
						sb.WriteString(string(encStr("u"+strconv.Itoa(k))) + "N;")
						fmt.Fprintf(&se, "i:%d;a:1:{i:0;i:%d;}", k, k)
					}
					if u.Next() {
						decodeCase(u, fmt.Sprintf(`a:%d:{s:1:"A";i:5;%ss:1:"b";s:1:"q";}`, n+2, sb.String()), typeOf[Plain]())
					}
					if u.Next() {
						decodeCase(u, fmt.Sprintf(`a:%d:{%s}`, n, se.String()), typeOf[[2]map[int]any]())
					}
				}
			})...)
			units = append(units, sizesC18(thorough)...)
			return
		},
	})
}

func uniq(in []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}

func hasStructOrArray(t reflect.Type, depth int) bool {
	if depth > 5 {
		return false
	}
	switch t.Kind() {
	case reflect.Struct, reflect.Array:
		return true
	case reflect.Ptr, reflect.Slice, reflect.Map:
		return hasStructOrArray(t.Elem(), depth+1)
	}
	return false
}

func junkValues(bool) []string {
	return []string{"N;", "i:-12;", `s:5:"}";a:";`, `a:2:{i:0;a:1:{s:1:"k";N;}i:1;d:1.5;}`, `O:3:"A"b":1:{s:1:"A";O:1:"B":0:{}}`, "d:-1.0E-7;"}
}

func allJunk(thorough bool) []string {
	out := append([]string{}, scalarDocs...)
	cd := containerDocs(false)
	step := 23
	if thorough {
		step = 3
	}
	for i := 0; i < len(cd); i += step {
		out = append(out, cd[i])
	}
	deep := "N;"
	for i := 0; i < 50; i++ {
		deep = `a:1:{i:0;` + deep + `}`
		if i%10 == 9 {
			out = append(out, deep, `O:1:"x":1:{s:1:"A";`+deep+`}`)
		}
	}
	return out
}

// skipCases inserts members at every position of every container that t decodes as a struct or fixed array.
func skipCases(u *U, doc string, t reflect.Type, junk []string) {
	n := parseDoc(doc)
	if v, _ := modelDecode(doc, n, reflect.New(t).Elem()); v != vOK {
		return
	}
	var base reflect.Value
	var sites []skipSite
	findSites(n, t, &sites, 0)
	for _, s := range sites {
		for pos := 0; pos <= len(s.n.E); pos++ {
			at := s.n.End - 1
			if pos < len(s.n.E) {
				at = s.n.E[pos].K.Start
			}
			if s.arr && pos != len(s.n.E) && pos != 0 {
				continue
			}
			for _, k := range s.keys {
				for _, j := range junk {
					if !u.Next() {
						continue
					}
					if !base.IsValid() {
						b := reflect.New(t)
						if err, pan := Unmarshal([]byte(doc), b.Interface()); err != nil || pan != nil {
							u.Fail("Unmarshal(%s, *%s) failed: %v %v", clipq(doc), t, err, pan)
							return
						}
						base = b.Elem()
					}
					cnt := strconv.Itoa(len(s.n.E) + 1)
					cpos := s.n.E2count()
					d2 := doc[:cpos] + cnt + doc[cpos+len(s.n.Count):at] + k + j + doc[at:]
					m := parseDoc(d2)
					want := reflect.New(t)
					v, why := modelDecode(d2, m, want.Elem())
					got := reflect.New(t)
					decodeInto(u, d2, got, want, v, why)
					if v == vOK {
						if x := same(got.Elem(), base); x != "" {
							u.Fail("Unmarshal(%s, *%s) = %s but without the unknown member %s", clipq(d2), t, describeValue(got.Elem(), 6), describeValue(base, 6))
						}
					}
				}
			}
		}
	}
}

// E2count is the position of the declared count.
func (n *Node) E2count() int {
	if n.K == 'O' {
		l := strconv.Itoa(len(n.T))
		return n.Start + 2 + len(l) + 2 + len(n.T) + 2
	}
	return n.Start + 2
}

type skipSite struct {
	n    *Node
	keys []string
	arr  bool
}

func findSites(n *Node, t reflect.Type, out *[]skipSite, depth int) {
	if depth > 5 || n.K != 'a' && n.K != 'O' || isUnm(t) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		findSites(n, t.Elem(), out, depth)
	case reflect.Slice:
		for _, e := range n.E {
			findSites(e.V, t.Elem(), out, depth+1)
		}
	case reflect.Map:
		for _, e := range n.E {
			findSites(e.V, t.Elem(), out, depth+1)
		}
	case reflect.Array:
		*out = append(*out, skipSite{n, []string{fmt.Sprintf("i:%d;", t.Len()), fmt.Sprintf("i:%d;", t.Len()+5), "i:9223372036854775807;"}, true})
		for _, e := range n.E {
			findSites(e.V, t.Elem(), out, depth+1)
		}
	case reflect.Struct:
		keys := map[string]bool{"": true, "unknown": true, "\x00*\x00prot": true, "-": true, `"`: true}
		known := map[string]bool{}
		for i := 0; i < t.NumField(); i++ {
			ti := parseTag(t.Field(i))
			if !ti.ignore {
				known[ti.key] = true
			}
		}
		for k := range known {
			for _, v := range []string{k + "x", "x" + k, k[:len(k)-1], strings.ToLower(k), strings.ToUpper(k), k + " ", k + "\x00", k + k} {
				keys[v] = true
			}
		}
		for i := 0; i < t.NumField(); i++ {
			keys[t.Field(i).Name] = true
		}
		var ks []string
		for k := range keys {
			if !known[k] {
				ks = append(ks, string(encStr(k)))
			}
		}
		sortStrings(ks)
		*out = append(*out, skipSite{n, ks, false})
		for _, e := range n.E {
			for i := 0; i < t.NumField(); i++ {
				ti := parseTag(t.Field(i))
				if !ti.ignore && ti.key == e.K.T && e.K.K == 's' {
					findSites(e.V, t.Field(i).Type, out, depth+1)
				}
			}
		}
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
