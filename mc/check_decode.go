package main

// C04, C05, C06, C18: what Unmarshal does with documents, well-formed or not.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// canon is the value that comes back when v is encoded and decoded into its own type.
// ok is false when v holds something an interface cannot give back (integers beyond int64).
func canon(rv reflect.Value) (reflect.Value, bool) {
	out := reflect.New(rv.Type()).Elem()
	ok := canonInto(out, rv)
	return out, ok
}

// nullish: the value is written as N;
func nullish(rv reflect.Value) bool {
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		return rv.IsNil() || nullish(rv.Elem())
	case reflect.Slice:
		return rv.IsNil() && rv.Type() != bytesType
	case reflect.Map:
		return rv.IsNil()
	}
	return false
}

func canonInto(dst, src reflect.Value) bool {
	switch src.Kind() {
	case reflect.Ptr:
		if nullish(src) {
			return true
		}
		p := reflect.New(src.Type().Elem())
		if !canonInto(p.Elem(), src.Elem()) {
			return false
		}
		dst.Set(p.Convert(dst.Type()))
		return true
	case reflect.Interface:
		if src.Type().NumMethod() > 0 {
			return src.IsNil()
		}
		v, ok := canonAny(src)
		if ok && v != nil {
			dst.Set(reflect.ValueOf(v))
		}
		return ok
	case reflect.Slice:
		if src.IsNil() {
			return true
		}
		s := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			if !canonInto(s.Index(i), src.Index(i)) {
				return false
			}
		}
		dst.Set(s)
		return true
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			if !canonInto(dst.Index(i), src.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if src.IsNil() {
			return true
		}
		m := reflect.MakeMap(src.Type())
		it := src.MapRange()
		for it.Next() {
			v := reflect.New(src.Type().Elem()).Elem()
			if !canonInto(v, it.Value()) {
				return false
			}
			m.SetMapIndex(it.Key(), v)
		}
		dst.Set(m)
		return true
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if parseTag(src.Type().Field(i)).ignore {
				continue
			}
			if !canonInto(dst.Field(i), src.Field(i)) {
				return false
			}
		}
		return true
	}
	dst.Set(src)
	return true
}

// canonAny is what an empty interface receives for v.
func canonAny(rv reflect.Value) (any, bool) {
	if nullish(rv) {
		return nil, true
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		return canonAny(rv.Elem())
	case reflect.Bool:
		return rv.Bool(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(rv.Uint()), rv.Uint() < 1<<63
	case reflect.Float32:
		// the shortest decimal of a float32, read as a float64
		f, err := strconv.ParseFloat(strconv.FormatFloat(rv.Float(), 'g', -1, 32), 64)
		return f, err == nil
	case reflect.Float64:
		return rv.Float(), true
	case reflect.String:
		return rv.String(), true
	case reflect.Slice, reflect.Array:
		if rv.Type() == bytesType {
			return string(rv.Bytes()), true
		}
		m := map[any]any{}
		for i := 0; i < rv.Len(); i++ {
			v, ok := canonAny(rv.Index(i))
			if !ok {
				return nil, false
			}
			m[int64(i)] = v
		}
		return m, true
	case reflect.Map:
		m := map[any]any{}
		it := rv.MapRange()
		for it.Next() {
			v, ok := canonAny(it.Value())
			k, ok2 := canonAny(it.Key())
			if !ok || !ok2 {
				return nil, false
			}
			m[k] = v
		}
		return m, true
	case reflect.Struct:
		m := map[any]any{}
		for i := 0; i < rv.NumField(); i++ {
			ti := parseTag(rv.Type().Field(i))
			if ti.ignore || ti.omitempty && zero(rv.Field(i)) {
				continue
			}
			v, ok := canonAny(rv.Field(i))
			if !ok || ti.str {
				return nil, false
			}
			m[ti.key] = v
		}
		return m, true
	}
	return nil, false
}

func roundTrip(u *U, v reflect.Value) {
	x := iface(v)
	_, want, _ := modelEncode(x)
	if want != vOK || v.Kind() == reflect.Interface || typeRefused(v.Type()) {
		return
	}
	b, err, pan := Marshal(x)
	if pan != nil || err != nil {
		u.Fail("Marshal(%s) failed: %v %v", describe(x), err, pan)
		return
	}
	exp, ok := canon(v)
	got := reflect.New(v.Type())
	err, pan = Unmarshal(b, got.Interface())
	u.State(string(b), v.Type().String())
	if !ok {
		return
	}
	if pan != nil || err != nil {
		u.Fail("Unmarshal(Marshal(%s) = %q) failed: %v %v", describe(x), b, err, pan)
		return
	}
	blurNil = true
	defer func() { blurNil = false }()
	if s := same(got.Elem(), exp); s != "" {
		u.Fail("Unmarshal(Marshal(%s) = %q) gave back %s (differs at %s)", describe(x), b, describeValue(got.Elem(), 6), s)
	}
	// once more, into an any
	ca, ok := canonAny(v)
	if !ok {
		return
	}
	var a any
	if err, pan := Unmarshal(b, &a); err != nil || pan != nil {
		u.Fail("Unmarshal(Marshal(%s) = %q, *any) failed: %v %v", describe(x), b, err, pan)
		return
	}
	if s := same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&ca).Elem()); s != "" {
		u.Fail("Unmarshal(Marshal(%s) = %q, *any) = %s (differs at %s)", describe(x), b, describe(a), s)
	}
}

// ---- corpora for C05 and C06 ----

func destTypes(depth int) []reflect.Type {
	return append(append(specialTypes(), typeUniverse(depth)...), unmDests()...)
}

func unmDests() []reflect.Type {
	return []reflect.Type{typeOf[UR](), typeOf[*UR](), typeOf[[]UR](), typeOf[[]*UStr](), typeOf[map[string]UInt](), typeOf[map[int]*UR](), typeOf[struct{ X UR }](), typeOf[struct{ X *USlice }](), typeOf[[2]UMap]()}
}

var skipWrap = []struct {
	pre, post string
	t         reflect.Type
}{
	{`a:1:{s:1:"u";`, "}", typeOf[struct{ X int }]()},
	{`O:1:"C":2:{s:1:"X";i:4;s:1:"u";`, "}", typeOf[struct{ X int }]()},
	{`a:1:{i:0;`, "}", typeOf[[0]int]()},
	{`a:2:{i:0;i:1;i:1;`, "}", typeOf[[1]int]()},
	{`a:1:{s:1:"X";`, "}", typeOf[struct{ X UR }]()},
	{`a:1:{s:1:"u";a:1:{s:1:"u";`, "}}", typeOf[struct{}]()},
	{`a:1:{i:0;a:1:{s:1:"u";`, "}}", typeOf[[]Plain]()},
}

// faultCorpus: well-formed documents with the types they are decoded into.
type faultDoc struct {
	doc   string
	types []reflect.Type
}

func faultCorpus(thorough bool) (out []faultDoc) {
	gen := []reflect.Type{anyType, typeOf[UR](), typeOf[struct{}](), typeOf[string]()}
	add := func(doc string, ts ...reflect.Type) {
		out = append(out, faultDoc{doc, append(append([]reflect.Type{}, ts...), gen...)})
		// the same data skipped, and at other positions
		for _, w := range skipWrap {
			out = append(out, faultDoc{w.pre + doc + w.post, []reflect.Type{w.t}})
		}
		for _, t := range ts {
			out = append(out,
				faultDoc{`a:2:{i:0;` + doc + `i:1;N;}`, []reflect.Type{reflect.SliceOf(t), reflect.ArrayOf(2, t), reflect.MapOf(typeOf[int](), t)}},
				faultDoc{`a:2:{s:1:"X";` + doc + `s:1:"u";N;}`, []reflect.Type{reflect.StructOf([]reflect.StructField{sf("X", t, "")}), reflect.MapOf(typeOf[string](), t), reflect.StructOf([]reflect.StructField{sf("X", reflect.PointerTo(elemOf(t)), "")})}})
		}
	}
	add("N;", typeOf[*int](), typeOf[[]int](), typeOf[map[string]int](), typeOf[bool](), typeOf[error](), typeOf[UIface](), typeOf[*Plain](), typeOf[NF64](), typeOf[NStr]())
	add("b:1;", typeOf[bool](), typeOf[*bool]())
	add("i:12;", typeOf[int](), typeOf[uint8](), typeOf[int64](), typeOf[*uint]())
	add("i:-5;", typeOf[int8](), typeOf[int64]())
	add("d:0.5;", typeOf[float64](), typeOf[float32]())
	add("d:-1.5E+7;", typeOf[float64]())
	add("d:INF;", typeOf[float64]())
	add("d:NAN;", typeOf[float32]())
	add(`s:0:"";`, typeOf[string](), typeOf[[]byte]())
	add(`s:3:"a";";`, typeOf[string](), typeOf[[]byte]())
	add(`s:11:"0123456789a";`, typeOf[string]())
	add("a:0:{}", typeOf[[]int](), typeOf[map[string]int](), typeOf[[2]int](), typeOf[Plain]())
	add("a:2:{i:0;i:1;i:1;i:2;}", typeOf[[]int](), typeOf[[2]int](), typeOf[[1]int](), typeOf[map[int]int]())
	add(`a:1:{s:1:"A";i:5;}`, typeOf[Plain](), typeOf[map[string]int](), typeOf[map[any]any]())
	add(`a:2:{s:1:"b";s:1:"q";s:1:"A";i:5;}`, typeOf[Plain]())
	add(`O:2:"C1":1:{s:1:"A";i:5;}`, typeOf[Plain](), typeOf[map[string]any]())
	add(`O:0:"":0:{}`, typeOf[Plain](), typeOf[map[string]int]())
	add(`a:1:{i:0;a:1:{i:0;a:0:{}}}`, typeOf[[]any](), typeOf[[][][]int]())
	add(`a:1:{s:1:"k";O:1:"C":1:{s:1:"A";i:1;}}`, typeOf[map[string]Plain]())
	add(`a:10:{i:0;N;i:1;N;i:2;N;i:3;N;i:4;N;i:5;N;i:6;N;i:7;N;i:8;N;i:9;N;}`, typeOf[[]any](), typeOf[[10]*int]())
	add(`a:1:{s:1:"v";s:4:"true";}`, reflect.StructOf([]reflect.StructField{sf("V", typeOf[bool](), "v,string")}))
	add(`a:1:{s:1:"v";s:2:"12";}`, reflect.StructOf([]reflect.StructField{sf("V", typeOf[int](), "v,string")}), reflect.StructOf([]reflect.StructField{sf("V", typeOf[*uint8](), "v,string")}))
	add(`a:1:{s:1:"v";s:3:"1.5";}`, reflect.StructOf([]reflect.StructField{sf("V", typeOf[float64](), "v,string")}))
	if thorough {
		for _, t := range lvlOf(2) {
			for i, d := range docsFor(t, 0) {
				if i < 3 && len(d) < 90 {
					add(d, t)
				}
			}
		}
	}
	return
}

func elemOf(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Ptr {
		return t.Elem()
	}
	return t
}

// faults1 calls f with every document one edit away from doc.
func faults1(doc string, bytes []byte, f func(string)) {
	for i := 0; i < len(doc); i++ {
		f(doc[:i]) // truncation
	}
	for i := 1; i < len(doc); i++ {
		f(doc[i:])
	}
	for i := 0; i < len(doc); i++ {
		f(doc[:i] + doc[i+1:]) // deletion
		f(doc[:i] + doc[i:i+1] + doc[i:])
		if i+1 < len(doc) {
			f(doc[:i] + doc[i+1:i+2] + doc[i:i+1] + doc[i+2:])
		}
		for _, c := range bytes {
			if doc[i] != c {
				f(doc[:i] + string([]byte{c}) + doc[i+1:])
			}
			f(doc[:i] + string([]byte{c}) + doc[i:])
		}
	}
	for _, c := range bytes {
		f(doc + string([]byte{c}))
	}
	f(doc + doc)
}

var allBytes = func() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}()

var syntaxBytes = []byte("NbidsaO:;{}\"0129-+.eE \x00")

// numberEdits replaces every length and count in doc by other texts.
func numberEdits(doc string, f func(string)) {
	n := parseDoc(doc)
	var walk func(n *Node)
	edit := func(start int, old string) {
		v, _ := strconv.Atoi(old)
		for _, s := range []string{"", "-1", "-0", "+" + old, "0" + old, "00000000000000000000000" + old, " " + old, old + " ", old + ".0", "0x" + old, strconv.Itoa(v + 1), strconv.Itoa(v + 2), strconv.Itoa(v - 1), strconv.Itoa(v + 10), old + "0", "1" + old, "9223372036854775807", "9223372036854775808", "18446744073709551616", "4294967296", "2147483648", "18446744073709551615", strconv.FormatUint(1<<32+uint64(v), 10), "1844674407370955161" + strconv.Itoa(6+v), strconv.FormatUint(1<<63+uint64(v), 10), old + "e0", "1_0", old + ":" + old, "\x00" + old} {
			f(doc[:start] + s + doc[start+len(old):])
		}
		// around the limits: offset + length overflows for some of these wherever the number stands
		for k := 0; k < len(doc)+8 && k < 48; k++ {
			f(doc[:start] + strconv.FormatUint(1<<63-1-uint64(k), 10) + doc[start+len(old):])
			if k < 12 {
				f(doc[:start] + strconv.FormatUint(1<<64-1-uint64(k), 10) + doc[start+len(old):])
				f(doc[:start] + strconv.FormatUint(1<<32-1-uint64(k), 10) + doc[start+len(old):])
				f(doc[:start] + strconv.FormatUint(1<<31-1-uint64(k), 10) + doc[start+len(old):])
			}
		}
	}
	walk = func(n *Node) {
		switch n.K {
		case 's', 'O':
			l := strconv.Itoa(len(n.T))
			edit(n.Start+2, l)
			if n.K == 'O' {
				edit(n.Start+2+len(l)+2+len(n.T)+2, n.Count)
			}
		case 'a':
			edit(n.Start+2, n.Count)
		case 'i':
			for _, s := range []string{"", "-", "--1", "1-", " 1", "1 ", "1.", "1e1", "0x1", "1_0", "+", "-+1", "+-1", "١", "1\n"} {
				f(doc[:n.Start+2] + s + doc[n.End-1:])
			}
		case 'd':
			for _, s := range []string{"", "-", ".", "1e", "1e+", "e1", "1..2", "0x1p3", "1_0", "inf", "Inf", "nan", "NaN", "+INF", "INFINITY", "-NAN", "1,5", " 1", "1 ", "--1", "1e1.5", "1.5f", "0b1", "0o7", "1e1e1", "１"} {
				f(doc[:n.Start+2] + s + doc[n.End-1:])
			}
		case 'b':
			for _, s := range []string{"", "2", "t", "true", "00", "01", "-1", " 1", "\x01"} {
				f(doc[:n.Start+2] + s + doc[n.End-1:])
			}
		}
		for _, e := range n.E {
			walk(e.K)
			walk(e.V)
		}
	}
	if n != nil {
		walk(n)
	}
}

// structuralEdits replaces, removes, repeats and adds keys and values of every container.
func structuralEdits(doc string, f func(string)) {
	n := parseDoc(doc)
	if n == nil {
		return
	}
	parts := []string{"N;", "b:1;", "i:1;", "d:1;", `s:1:"z";`, "a:0:{}", `O:1:"C":0:{}`, "}", ";", "{", ""}
	var walk func(n *Node)
	walk = func(n *Node) {
		for _, p := range parts { // any value by any other
			f(doc[:n.Start] + p + doc[n.End:])
			f(doc[:n.End] + p + doc[n.End:])
			f(doc[:n.Start] + p + doc[n.Start:])
		}
		for _, e := range n.E {
			f(doc[:e.K.Start] + doc[e.V.End:])                                                   // entry lost
			f(doc[:e.V.End] + doc[e.K.Start:e.V.End] + doc[e.V.End:])                            // entry twice
			f(doc[:e.K.Start] + doc[e.V.Start:e.V.End] + doc[e.K.Start:])                        // value twice
			f(doc[:e.K.Start] + doc[e.V.Start:e.V.End] + doc[e.K.Start:e.K.End] + doc[e.V.End:]) // key and value swapped
			walk(e.K)
			walk(e.V)
		}
	}
	walk(n)
}

func faultCase(u *U, doc string, types []reflect.Type) {
	var n *Node
	parsed := false
	for _, t := range types {
		if !u.Next() {
			continue
		}
		if !parsed {
			n, parsed = parseDoc(doc), true
		}
		decodeNode(u, doc, n, t)
	}
}

func init() {
	register(&Check{
		ID:   "C04",
		Rule: "every (type, value) of the universe, of special recursive types and of sized, wide and deep values is marshalled and unmarshalled into a fresh variable of its type and into an any; what comes back is compared with the value (modulo the blurring C04 names)",
		Units: func(thorough bool) (units []Unit) {
			depth := 3
			if thorough {
				depth = 4
			}
			ts := append(specialTypes(), typeUniverse(depth)...)
			units = append(units, chunked("values", len(ts), 40, func(u *U, i int) {
				for _, v := range vals(ts[i], 2) {
					if u.Next() {
						roundTrip(u, v)
					}
				}
			})...)
			sz := append(append([]int{}, sizes...), 32769, 65535, 65536, 65537, 100001)
			if thorough {
				sz = append(append([]int{}, sizes...), bigSizes...)
			}
			units = append(units, chunked("sizes", len(sz), 1, func(u *U, i int) {
				for _, v := range sizedValues(sz[i]) {
					if u.Next() {
						roundTrip(u, reflect.ValueOf(v))
					}
				}
			})...)
			units = append(units, chunked("every-size", 600, 20, func(u *U, i int) {
				for _, v := range sizedValues(i) {
					if u.Next() {
						roundTrip(u, reflect.ValueOf(v))
					}
				}
			})...)
			units = append(units, chunked("wide-structs", len(widths), 8, func(u *U, i int) {
				n := widths[i]
				for _, lt := range []reflect.Type{typeOf[int](), typeOf[any](), typeOf[*string](), typeOf[[]int](), typeOf[float32]()} {
					for _, tag := range []func(int) string{
						func(int) string { return "" },
						func(i int) string { return fmt.Sprintf("common-prefix-%d", i) },
						func(i int) string { return filler(i*5+1, 0) },
						func(i int) string { return filler(i%9+1, 0) + strconv.Itoa(i) },
						func(i int) string { return fmt.Sprintf("f%d,omitempty", i) },
						func(i int) string { return strings.Repeat(string(rune('a'+i%26)), i/26+1) },
					} {
						t := wideStruct(n, lt, tag)
						vs := vals(lt, 1)
						for mode := 0; mode < 3; mode++ {
							if !u.Next() {
								continue
							}
							v := reflect.New(t).Elem()
							for f := 0; f < n; f++ {
								switch mode {
								case 1:
									v.Field(f).Set(vs[f%len(vs)])
								case 2:
									v.Field(f).Set(vs[len(vs)-1])
								}
							}
							roundTrip(u, v)
						}
					}
				}
			})...)
			units = append(units, gridUnits(thorough, roundTrip)...)
			// every string of up to two bytes
			units = append(units, chunked("short-strings", 256, 16, func(u *U, i int) {
				var all []string
				if i == 0 {
					all = append(all, "")
				}
				all = append(all, string([]byte{byte(i)}))
				for c := 0; c < 256; c++ {
					all = append(all, string([]byte{byte(i), byte(c)}))
				}
				for _, s := range all {
					for _, v := range []any{s, NStr(s), []byte(s), map[string]string{s: s}, map[NStr]any{NStr(s): s}, map[any]*string{s: &s}, Plain{1, s}, []any{s, s}} {
						if u.Next() {
							roundTrip(u, reflect.ValueOf(v))
						}
					}
				}
			})...)
			depths := []int{1, 2, 10, 100, 1000, 1001, 3000, 4990}
			units = append(units, chunked("nesting", len(depths)*nestKinds, 1, func(u *U, i int) {
				if u.Next() {
					v := reflect.ValueOf(nestedValue(depths[i/nestKinds], i%nestKinds))
					if v.Kind() == reflect.String {
						return
					}
					roundTrip(u, v)
				}
			})...)
			return
		},
	})

	register(&Check{
		ID:   "C05",
		Rule: "every document of an enumerated corpus (scalars; arrays and objects over all key and value combinations) into every destination type of the universe, and documents made from each type's values in every spelling (entry order, object class, leading zeros, float formats), decoded directly and inside containers; compared with an independent reference decoder",
		Units: func(thorough bool) (units []Unit) {
			depth := 1
			if thorough {
				depth = 2
			}
			ts := destTypes(depth)
			docs := append(append([]string{}, scalarDocs...), containerDocs(thorough)...)
			nodes := make([]*Node, len(docs))
			units = append(units, chunked("corpus", len(ts), 4, func(u *U, i int) {
				for k, d := range docs {
					if u.Next() {
						if nodes[k] == nil {
							nodes[k] = parseDoc(d)
						}
						decodeNode(u, d, nodes[k], ts[i])
					}
				}
			})...)
			d2 := 3
			if thorough {
				d2 = 4
			}
			ts2 := append(specialTypes(), typeUniverse(d2)...)
			units = append(units, chunked("fitting", len(ts2), 40, func(u *U, i int) {
				for _, d := range docsFor(ts2[i], 2) {
					n := parseDoc(d)
					last := map[string]bool{}
					for _, r := range renderers {
						s := r.text(n)
						if last[s] {
							continue
						}
						last[s] = true
						if u.Next() {
							decodeCase(u, s, ts2[i])
						}
						if u.Next() {
							decodeCase(u, s, anyType)
						}
					}
				}
			})...)
			// many elements spread over many containers, forwards and backwards
			units = append(units, gridUnits(thorough, func(u *U, v reflect.Value) {
				p, _, _ := modelEncode(iface(v))
				n := parseDoc(patText(p))
				for _, r := range []*renderer{{}, {order: 1}} {
					d := r.text(n)
					decodeCase(u, d, v.Type())
					decodeCase(u, d, anyType)
				}
			})...)
			// documents of one type into another: every pair of the first levels
			ts3 := append(append(specialTypes(), typeUniverse(0)...), lvlOf(1)...)
			var all []string
			for _, t := range ts3 {
				all = append(all, docsFor(t, 1)...)
			}
			if thorough {
				ts3 = append(ts3, lvlOf(2)...)
			}
			units = append(units, chunked("cross", len(ts3), 4, func(u *U, i int) {
				for _, d := range all {
					if u.Next() {
						decodeCase(u, d, ts3[i])
					}
				}
			})...)
			// every string of up to two bytes into every destination that takes strings, and as a key
			unmBytes := []reflect.Type{typeOf[string](), typeOf[[]byte](), anyType, typeOf[NStr](), typeOf[*string](), typeOf[map[string]int](), typeOf[map[any]int](), typeOf[map[NStr]*int](), typeOf[struct {
				S string `php:"s"`
				B []byte `php:"b"`
				V any    `php:"v"`
			}](), typeOf[[]string](), typeOf[map[string]any]()}
			units = append(units, chunked("short-strings", 256, 16, func(u *U, i int) {
				var all []string
				all = append(all, string([]byte{byte(i)}))
				for c := 0; c < 256; c++ {
					all = append(all, string([]byte{byte(i), byte(c)}))
				}
				for _, s := range all {
					e := string(encStr(s))
					for _, doc := range []string{e, "a:1:{" + e + "i:1;}", "a:1:{i:0;" + e + "}", `a:3:{s:1:"s";` + e + `s:1:"b";` + e + `s:1:"v";` + e + "}"} {
						n := parseDoc(doc)
						for _, t := range unmBytes {
							if u.Next() {
								decodeNode(u, doc, n, t)
							}
						}
					}
				}
			})...)
			// long sequences in every order class
			units = append(units, chunked("sequences", 140, 5, func(u *U, n int) {
				for mode := 0; mode < 6; mode++ {
					var es []string
					for i := 0; i < n; i++ {
						k := i
						switch mode {
						case 1:
							k = n - 1 - i
						case 2:
							k = (i*7 + 3) % (n + 1 - n%7/6)
						case 3:
							k = i * 2
						case 4:
							k = i ^ 1
						case 5:
							k = i + n
						}
						es = append(es, fmt.Sprintf("i:%d;i:%d;", k, i+1))
					}
					doc := head('a', "", n) + strings.Join(es, "") + "}"
					for _, t := range []reflect.Type{typeOf[[]int](), typeOf[[]any](), typeOf[[16]int](), typeOf[[]*int](), typeOf[map[int]int](), anyType, typeOf[[]int16]()} {
						if u.Next() {
							decodeCase(u, doc, t)
						}
					}
				}
			})...)
			units = append(units, sizesC05(thorough)...)
			return
		},
	})

	register(&Check{
		ID:   "C06",
		Rule: "every document one fault away (truncation, deletion, insertion and substitution of every byte, transposition, every number replaced, every part replaced, lost, repeated) from a corpus decoded by every kind of decoder or skipped; all strings up to a length over the syntax alphabet; all token sequences up to a length; expectation from the reference grammar and decoder",
		Units: func(thorough bool) (units []Unit) {
			fc := faultCorpus(thorough)
			bytes := syntaxBytes
			units = append(units, chunked("faults", len(fc), 4, func(u *U, i int) {
				c := fc[i]
				faultCase(u, c.doc, c.types)
				bs := bytes
				if len(c.doc) < 40 || thorough {
					bs = allBytes
				}
				f := func(s string) { faultCase(u, s, c.types) }
				faults1(c.doc, bs, f)
				numberEdits(c.doc, f)
				structuralEdits(c.doc, f)
			})...)
			// two faults
			maxDoc := 20
			if thorough {
				maxDoc = 30
			}
			base := fc[:0:0]
			for _, c := range faultCorpus(false) {
				if len(c.doc) <= maxDoc {
					base = append(base, c)
				}
			}
			units = append(units, chunked("two-faults", len(base), 1, func(u *U, i int) {
				c := base[i]
				faults1(c.doc, syntaxBytes, func(s string) {
					faults1(s, syntaxBytes, func(s2 string) { faultCase(u, s2, c.types[:1]) })
				})
			})...)
			// all strings over the alphabet
			alpha := "NbidsaO:;{}\"01-"
			maxLen := 6
			if thorough {
				maxLen = 7
			}
			dests := []reflect.Type{anyType, typeOf[[]int](), typeOf[struct{ X int }](), typeOf[float64](), typeOf[map[string]any]()}
			units = append(units, chunked("strings", len(alpha)*len(alpha), 3, func(u *U, i int) {
				var rec func(s string)
				rec = func(s string) {
					faultCase(u, s, dests)
					if len(s) >= maxLen {
						return
					}
					for k := range alpha {
						rec(s + alpha[k:k+1])
					}
				}
				rec(alpha[i/len(alpha):i/len(alpha)+1] + alpha[i%len(alpha):i%len(alpha)+1])
			})...)
			units = append(units, Unit{"short", func(u *U) {
				for _, a := range allBytes {
					faultCase(u, string([]byte{a}), dests)
					for _, b := range allBytes {
						faultCase(u, string([]byte{a, b}), dests)
					}
				}
				faultCase(u, "", dests)
			}})
			// a document with any two bytes behind it, before it, or inside it
			var short []faultDoc
			for _, c := range fc {
				if n := parseDoc(c.doc); n != nil && n.AllCountOK && (len(short) < 150 || thorough) {
					short = append(short, c)
				}
			}
			units = append(units, chunked("any-two-bytes", len(short)*4, 2, func(u *U, i int) {
				c := short[i/4]
				ts := c.types
				if len(ts) > 2 && !thorough {
					ts = ts[:2]
				}
				var cut []int // where the bytes go
				switch i % 4 {
				case 0:
					cut = []int{len(c.doc)}
				case 1:
					cut = []int{0}
				case 2:
					cut = []int{len(c.doc) / 2}
				default:
					cut = []int{len(c.doc) - 1}
				}
				for _, k := range cut {
					for _, a := range allBytes {
						for _, b := range allBytes {
							faultCase(u, c.doc[:k]+string([]byte{a, b})+c.doc[k:], ts)
						}
					}
				}
			})...)
			// a document with every sequence of up to four blanks and terminators behind it
			units = append(units, chunked("tails", len(short), 2, func(u *U, i int) {
				var rec func(s string, n int)
				rec = func(s string, n int) {
					if n > 0 {
						faultCase(u, short[i].doc+s, short[i].types)
					}
					if n == 4 {
						return
					}
					for _, c := range []string{" ", "\t", "\n", "\r", "\x00", ";", "}", "N;", "\v", "\f", "\xa0", "\ufeff"} {
						rec(s+c, n+1)
					}
				}
				rec("", 0)
			})...)
			// all token sequences
			toks := []string{"N;", "b:1;", "i:0;", "i:1;", "d:1;", `s:1:"X";`, "a:0:{", "a:1:{", "a:2:{", `O:1:"C":1:{`, "}"}
			maxTok := 6
			if thorough {
				maxTok = 7
			}
			dests2 := []reflect.Type{anyType, typeOf[[]any](), typeOf[struct{ X any }](), typeOf[map[string]int](), typeOf[[1]int](), typeOf[map[bool]any](), typeOf[map[any]any](), typeOf[map[int][]struct{ X int }]()}
			units = append(units, chunked("tokens", len(toks)*len(toks)*len(toks), 9, func(u *U, i int) {
				var rec func(s string, k int)
				rec = func(s string, k int) {
					faultCase(u, s, dests2)
					if k >= maxTok {
						return
					}
					for _, t := range toks {
						rec(s+t, k+1)
					}
				}
				rec(toks[i/len(toks)/len(toks)]+toks[i/len(toks)%len(toks)]+toks[i%len(toks)], 3)
			})...)
			units = append(units, sizesC06(thorough)...)
			return
		},
	})
}
