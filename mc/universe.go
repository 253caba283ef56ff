package main

// The type universe (types built from leaves by constructors, to a depth) and
// the value domain of each type.

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

var leafTypes = []reflect.Type{
	typeOf[bool](), typeOf[int](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](),
	typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](),
	typeOf[float32](), typeOf[float64](), typeOf[string](), typeOf[[]byte](), typeOf[any](),
	typeOf[NBool](), typeOf[NI](), typeOf[NU16](), typeOf[NF32](), typeOf[NF64](), typeOf[NStr](),
}

// representatives: one leaf of every class that is treated alike
var repLeaves = []reflect.Type{
	typeOf[bool](), typeOf[int](), typeOf[uint8](), typeOf[float64](), typeOf[string](), typeOf[[]byte](), typeOf[any](),
}

func sf(name string, t reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t}
	if tag != "" {
		f.Tag = reflect.StructTag(`php:"` + tag + `"`)
	}
	return f
}

type ctor struct {
	name string
	make func(t reflect.Type) reflect.Type // nil: not applicable
}

func arrayOf(n int) func(reflect.Type) reflect.Type {
	return func(t reflect.Type) reflect.Type { return reflect.ArrayOf(n, t) }
}

func mapOf(k reflect.Type) func(reflect.Type) reflect.Type {
	return func(t reflect.Type) reflect.Type { return reflect.MapOf(k, t) }
}

var ctors = []ctor{
	{"ptr", func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Ptr {
			return nil
		}
		return reflect.PointerTo(t)
	}},
	{"slice", func(t reflect.Type) reflect.Type { return reflect.SliceOf(t) }},
	{"arr1", arrayOf(1)},
	{"arr2", arrayOf(2)},
	{"mapstr", mapOf(typeOf[string]())},
	{"mapint", mapOf(typeOf[int]())},
	{"struct1", func(t reflect.Type) reflect.Type { return reflect.StructOf([]reflect.StructField{sf("X", t, "")}) }},
	{"struct2", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", typeOf[int8](), ""), sf("X", t, "x,omitempty"), sf("Z", typeOf[string](), "z")})
	}},
	{"struct3", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("X", t, "xx"), sf("I", typeOf[any](), "i"), sf("Y", t, "")})
	}},
}

var extraCtors = []ctor{
	{"arr0", arrayOf(0)},
	{"mapint8", mapOf(typeOf[int8]())},
	{"mapuint64", mapOf(typeOf[uint64]())},
	{"mapnstr", mapOf(typeOf[NStr]())},
	{"mapni", mapOf(typeOf[NI]())},
	{"mapu16", mapOf(typeOf[uint16]())},
}

func apply(cs []ctor, ts []reflect.Type) (out []reflect.Type) {
	for _, c := range cs {
		for _, t := range ts {
			if r := c.make(t); r != nil {
				out = append(out, r)
			}
		}
	}
	return
}

// typeUniverse returns the types of depth 0..depth. Depth 2 and up build on representatives.
func typeUniverse(depth int) []reflect.Type {
	out := append([]reflect.Type{}, leafTypes...)
	if depth == 0 {
		return out
	}
	all := append(append([]ctor{}, ctors...), extraCtors...)
	d1 := apply(all, leafTypes)
	out = append(out, d1...)
	lvl := apply(ctors, repLeaves)
	for d := 2; d <= depth; d++ {
		use := ctors
		if d == 2 {
			use = all
		}
		next := apply(use, lvl)
		out = append(out, next...)
		lvl = next
		if d == 2 {
			lvl = lvlOf(2)
		}
	}
	seen := map[reflect.Type]bool{}
	uniq := out[:0]
	for _, t := range out {
		if !seen[t] {
			seen[t] = true
			uniq = append(uniq, t)
		}
	}
	return uniq
}

func lvlOf(d int) []reflect.Type {
	ts := repLeaves
	for ; d > 0; d-- {
		ts = apply(ctors, ts)
	}
	return ts
}

// specialTypes: named and recursive types that construction does not give.
func specialTypes() []reflect.Type {
	return append([]reflect.Type{
		typeOf[Plain](), typeOf[*Plain](), typeOf[Tree](), typeOf[*Tree](), typeOf[Link](), typeOf[RS](), typeOf[RM](), typeOf[RMI](), typeOf[RMS](), typeOf[RSM](),
		typeOf[RSP](), typeOf[RMP](), typeOf[RAP](), typeOf[RAS](), typeOf[RAM](), typeOf[RSA](), typeOf[RMA](), typeOf[RMK](), typeOf[RSt](), typeOf[RStV](), typeOf[RStM](), typeOf[RStA](),
		typeOf[RStAA](), typeOf[MutA](), typeOf[MutB](), typeOf[RStMix](), typeOf[RNamedIn](), typeOf[RPtrNamed](), typeOf[RIface](), typeOf[RAnyS](), typeOf[RPS](), typeOf[RPM](),
		typeOf[NSlice](), typeOf[NMap](), typeOf[NArr](), typeOf[NAny](), typeOf[map[NAny]int](),
	}, shapeTypes()...)
}

func val(v any) reflect.Value { return reflect.ValueOf(v) }

func intDomain(t reflect.Type) (out []reflect.Value) {
	bits := t.Bits()
	list := []int64{0, 7, -1, math.MinInt64 >> (64 - bits), math.MaxInt64 >> (64 - bits), 10, -10}
	for _, i := range list {
		v := reflect.New(t).Elem()
		v.SetInt(i)
		out = append(out, v)
	}
	return
}

func uintDomain(t reflect.Type) (out []reflect.Value) {
	bits := t.Bits()
	list := []uint64{0, 7, math.MaxUint64 >> (64 - bits), 10, 1<<(bits-1) - 1, 1 << (bits - 1)}
	for _, i := range list {
		v := reflect.New(t).Elem()
		v.SetUint(i)
		out = append(out, v)
	}
	return
}

func floatDomain(t reflect.Type) (out []reflect.Value) {
	list := []float64{0, 1.5, -2, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1e21, 1e-7, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 16777217, 1e10}
	if t.Bits() == 64 {
		list = append(list, math.MaxFloat64, math.SmallestNonzeroFloat64, 1.0/3)
	}
	for _, f := range list {
		v := reflect.New(t).Elem()
		v.SetFloat(f)
		out = append(out, v)
	}
	return
}

var stringDomain = []string{"", "ab", "k", `";i:1;s:1:"`, "h\xc3\xa9\xe4\xb8\x96", "\x00\xff;", "N;", strings.Repeat("x", 10), strings.Repeat("y", 101)}

func anyDomain() []any {
	return []any{
		nil, 5, &Plain{2, "q"}, map[string]any{"k": 1}, []any{1, "x", nil}, "s", true, int8(-3), int64(math.MinInt64), uint(3), uint64(math.MaxUint64), 1.5, float32(0.1), []byte("by"),
		0, "", false, 0.0, math.Copysign(0, -1), uint8(0), float32(0), int64(math.MaxInt64), Plain{}, [2]int{}, NI(0), NStr(""), ptrTo(0), ptrTo(""), ptrTo(false), []any(nil), []byte(nil), []byte{}, map[string]any(nil), math.Inf(-1), uint32(math.MaxUint32),
		[]any{}, map[any]any{}, map[int]string{3: "x"}, []int(nil), []int{4}, map[string]int(nil), map[string]int{},
		Plain{1, "p"}, (*Plain)(nil), (*int)(nil), ptrTo(9), ptrTo("str"), [2]int{1, 2}, [0]string{}, [1]any{"in"}, struct{}{}, NI(4), NStr("ns"), NF32(0.1), NBool(true), ptrTo([]int{1}), ptrTo(map[string]int{"a": 1}),
		ptrTo([1]int{1}), ptrTo(any(5)), ptrTo(any(nil)), [][]byte{[]byte("q")}, ptrTo([]byte("z")), []any{[]any{map[string]any{"d": []any{}}}}, NSlice{1}, NMap{"n": 1}, NArr{1, 2}, []*int{nil, ptrTo(1)}, map[string]*int{"n": nil},
		struct {
			A any `php:"a,omitempty"`
			B any `php:"-"`
		}{B: 1},
	}
}

func ptrTo[T any](v T) *T { return &v }

// vals is the value domain of t. lvl 2 is rich, lvl 1 has a few, lvl 0 two values;
// the second value is never the zero value when the type has another.
func vals(t reflect.Type, lvl int) []reflect.Value { return valsDepth(t, lvl, 0) }

func cut(v []reflect.Value, lvl, n1, n0 int) []reflect.Value {
	n := len(v)
	switch lvl {
	case 1:
		n = n1
	case 0:
		n = n0
	}
	return v[:min(n, len(v))]
}

func box(t reflect.Type, v any) reflect.Value {
	x := reflect.New(t).Elem()
	if v != nil {
		rv := reflect.ValueOf(v)
		if t.Kind() != reflect.Interface {
			rv = rv.Convert(t)
		}
		x.Set(rv)
	}
	return x
}

func valsDepth(t reflect.Type, lvl, depth int) []reflect.Value {
	zero := reflect.New(t).Elem()
	if depth > 6 {
		return []reflect.Value{zero}
	}
	switch t.Kind() {
	case reflect.Bool:
		return []reflect.Value{zero, box(t, true)}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cut(intDomain(t), lvl, 3, 2)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return cut(uintDomain(t), lvl, 3, 2)
	case reflect.Float32, reflect.Float64:
		return cut(floatDomain(t), lvl, 3, 2)
	case reflect.String:
		var out []reflect.Value
		for _, s := range stringDomain {
			out = append(out, box(t, s))
		}
		return cut(out, lvl, 4, 2)
	case reflect.Interface:
		if t.NumMethod() > 0 {
			out := []reflect.Value{zero}
			for _, x := range []any{OtherImpl{3}, &OtherImpl{4}, MStr("i:1;"), MV{`s:1:"m";`}, &MP{"b:1;"}} {
				if reflect.TypeOf(x).Implements(t) {
					out = append(out, box(t, x))
				}
			}
			return cut(out, lvl, 3, 2)
		}
		var out []reflect.Value
		for _, a := range anyDomain() {
			out = append(out, box(t, a))
		}
		return cut(out, lvl, 6, 2)
	}
	out := []reflect.Value{}
	low := max(lvl-1, 0)
	if depth > 3 {
		lvl, low = 0, 0
	}
	switch t.Kind() {
	case reflect.Ptr:
		out = append(out, zero)
		for _, e := range valsDepth(t.Elem(), lvl, depth+1) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			out = append(out, p.Convert(t))
		}
		if len(out) > 2 { // put a pointer to the second value second
			out[1], out[2] = out[2], out[1]
		}
		return cut(out, lvl, 5, 2)
	case reflect.Slice:
		out = append(out, zero)
		if t.Elem().Kind() == reflect.Uint8 {
			for _, s := range []string{"by", "", "\x00\"", strings.Repeat("b", 300)} {
				v := reflect.New(t).Elem()
				v.SetBytes([]byte(s))
				out = append(out, v)
			}
			return cut(out, lvl, 4, 2)
		}
		mk := func(es ...reflect.Value) {
			s := reflect.MakeSlice(t, 0, len(es))
			out = append(out, reflect.Append(s, es...))
		}
		es := valsDepth(t.Elem(), lvl, depth+1)
		lo := valsDepth(t.Elem(), 0, depth+1)
		second := lo[len(lo)-1]
		mk(second)
		mk()
		mk(lo[0], second)
		for _, e := range es {
			mk(e)
			if lvl == 2 {
				mk(second, e)
			}
		}
		mk(second, lo[0], second)
		if lvl == 2 {
			var many []reflect.Value
			for i := 0; i < 11; i++ {
				many = append(many, es[i%len(es)])
			}
			mk(many...)
		}
		return cut(out, lvl, 5, 2)
	case reflect.Array:
		out = append(out, zero)
		if t.Len() == 0 {
			return out
		}
		es := valsDepth(t.Elem(), lvl, depth+1)
		lo := valsDepth(t.Elem(), 0, depth+1)
		second := lo[len(lo)-1]
		full := reflect.New(t).Elem()
		for i := 0; i < t.Len(); i++ {
			full.Index(i).Set(second)
		}
		out = append(out, full)
		for _, e := range es {
			for i := 0; i < t.Len(); i++ {
				a := reflect.New(t).Elem()
				a.Set(full)
				a.Index(i).Set(e)
				out = append(out, a)
			}
		}
		return cut(out, lvl, 4, 2)
	case reflect.Map:
		out = append(out, zero)
		ks := keyDomain(t.Key(), lvl)
		lo := valsDepth(t.Elem(), 0, depth+1)
		second := lo[len(lo)-1]
		mk := func(kv ...reflect.Value) {
			m := reflect.MakeMap(t)
			for i := 0; i < len(kv); i += 2 {
				m.SetMapIndex(kv[i], kv[i+1])
			}
			out = append(out, m)
		}
		k1 := ks[min(1, len(ks)-1)]
		mk(k1, second)
		mk()
		mk(ks[0], lo[0], k1, second)
		for _, e := range valsDepth(t.Elem(), low, depth+1) {
			mk(k1, e)
		}
		for _, k := range ks {
			mk(k, second)
		}
		if lvl == 2 {
			var all []reflect.Value
			for i, k := range ks {
				all = append(all, k, lo[i%len(lo)])
			}
			mk(all...)
		}
		return cut(out, lvl, 5, 2)
	case reflect.Struct:
		out = append(out, zero)
		full := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			lo := valsDepth(t.Field(i).Type, 0, depth+1)
			full.Field(i).Set(lo[len(lo)-1])
		}
		out = append(out, full)
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			for _, e := range valsDepth(t.Field(i).Type, low, depth+1) {
				a := reflect.New(t).Elem()
				a.Set(full)
				a.Field(i).Set(e)
				out = append(out, a)
			}
		}
		return cut(out, lvl, 6, 2)
	}
	return []reflect.Value{zero}
}

func keyDomain(t reflect.Type, lvl int) []reflect.Value {
	switch t.Kind() {
	case reflect.String:
		var out []reflect.Value
		for _, s := range []string{"k", "", "12", "a\"b", "long-key-" + strings.Repeat("z", 30), "\x00"} {
			out = append(out, box(t, s))
		}
		return cut(out, lvl, 3, 2)
	case reflect.Interface:
		if t.NumMethod() == 0 {
			return []reflect.Value{box(t, "k"), box(t, int64(4))}
		}
	}
	return valsDepth(t, lvl, 0)
}

// ---- routes: ways a value can be held when it is encoded ----

type route struct {
	name string
	// wrap returns the value to marshal; ok is false when the route does not apply.
	wrap func(v reflect.Value) (any, bool)
	// pre and post are what surrounds the value's own serialization.
	pre, post string
}

func wrapIn(t reflect.Type, set func(c, v reflect.Value)) func(v reflect.Value) (any, bool) {
	return func(v reflect.Value) (any, bool) {
		c := reflect.New(t).Elem()
		set(c, v)
		return c.Interface(), true
	}
}

func mkPtr(v reflect.Value) (reflect.Value, bool) {
	if v.Kind() == reflect.Ptr {
		return reflect.Value{}, false
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p, true
}

func mkSlice(v reflect.Value) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
	s.Index(0).Set(v)
	return s
}

func mkArray(v reflect.Value, n int) reflect.Value {
	a := reflect.New(reflect.ArrayOf(n, v.Type())).Elem()
	for i := 0; i < n; i++ {
		a.Index(i).Set(v)
	}
	return a
}

func mkMap(v reflect.Value) reflect.Value {
	m := reflect.MakeMap(reflect.MapOf(typeOf[string](), v.Type()))
	m.SetMapIndex(reflect.ValueOf("k"), v)
	return m
}

func mkStruct(v reflect.Value, tag string) reflect.Value {
	s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", typeOf[int](), ""), sf("X", v.Type(), tag)})).Elem()
	s.Field(1).Set(v)
	return s
}

func mkStruct1(v reflect.Value) reflect.Value {
	s := reflect.New(reflect.StructOf([]reflect.StructField{sf("X", v.Type(), "")})).Elem()
	s.Field(0).Set(v)
	return s
}

func iface(v reflect.Value) any { return v.Interface() }

const (
	pre1   = `a:1:{i:0;`
	preK   = `a:1:{s:1:"k";`
	preX   = `a:1:{s:1:"X";`
	preAX  = `a:2:{s:1:"A";i:0;s:1:"X";`
	preAny = `a:1:{s:1:"v";`
)

type anyBox struct {
	V any `php:"v"`
}
type anyPtrBox struct {
	V *any `php:"v"`
}

var routes = []route{
	{"direct", func(v reflect.Value) (any, bool) { return iface(v), true }, "", ""},
	{"pointer", func(v reflect.Value) (any, bool) {
		p, ok := mkPtr(v)
		if !ok {
			return nil, false
		}
		return iface(p), true
	}, "", ""},
	{"*any", func(v reflect.Value) (any, bool) { x := iface(v); return &x, true }, "", ""},
	{"[]any", func(v reflect.Value) (any, bool) { return []any{iface(v)}, true }, pre1, "}"},
	{"[1]any", func(v reflect.Value) (any, bool) { return [1]any{iface(v)}, true }, pre1, "}"},
	{"map[string]any", func(v reflect.Value) (any, bool) { return map[string]any{"k": iface(v)}, true }, preK, "}"},
	{"any field", func(v reflect.Value) (any, bool) { return anyBox{iface(v)}, true }, preAny, "}"},
	{"*any field", func(v reflect.Value) (any, bool) { x := iface(v); return anyPtrBox{&x}, true }, preAny, "}"},
	{"pointer in []any", func(v reflect.Value) (any, bool) {
		p, ok := mkPtr(v)
		if !ok {
			return nil, false
		}
		return []any{iface(p)}, true
	}, pre1, "}"},
	{"slice", func(v reflect.Value) (any, bool) { return iface(mkSlice(v)), true }, pre1, "}"},
	{"slice in any", func(v reflect.Value) (any, bool) { return []any{iface(mkSlice(v))}, true }, pre1 + pre1, "}}"},
	{"array", func(v reflect.Value) (any, bool) { return iface(mkArray(v, 1)), true }, pre1, "}"},
	{"pointer to array", func(v reflect.Value) (any, bool) { p, _ := mkPtr(mkArray(v, 1)); return iface(p), true }, pre1, "}"},
	{"array in any", func(v reflect.Value) (any, bool) { return []any{iface(mkArray(v, 1))}, true }, pre1 + pre1, "}}"},
	{"map", func(v reflect.Value) (any, bool) { return iface(mkMap(v)), true }, preK, "}"},
	{"map in any", func(v reflect.Value) (any, bool) { return []any{iface(mkMap(v))}, true }, pre1 + preK, "}}"},
	{"field", func(v reflect.Value) (any, bool) { return iface(mkStruct(v, "")), true }, preAX, "}"},
	{"single field", func(v reflect.Value) (any, bool) { return iface(mkStruct1(v)), true }, preX, "}"},
	{"field of pointer", func(v reflect.Value) (any, bool) { p, _ := mkPtr(mkStruct1(v)); return iface(p), true }, preX, "}"},
	{"field in any", func(v reflect.Value) (any, bool) { return []any{iface(mkStruct(v, ""))}, true }, pre1 + preAX, "}}"},
	{"pointer field", func(v reflect.Value) (any, bool) {
		p, ok := mkPtr(v)
		if !ok {
			return nil, false
		}
		return iface(mkStruct1(p)), true
	}, preX, "}"},
	{"pointer element", func(v reflect.Value) (any, bool) {
		p, ok := mkPtr(v)
		if !ok {
			return nil, false
		}
		return iface(mkSlice(p)), true
	}, pre1, "}"},
	{"pointer map value", func(v reflect.Value) (any, bool) {
		p, ok := mkPtr(v)
		if !ok {
			return nil, false
		}
		return iface(mkMap(p)), true
	}, preK, "}"},
	{"array in struct in slice", func(v reflect.Value) (any, bool) { return iface(mkSlice(mkStruct1(mkArray(v, 1)))), true }, pre1 + preX + pre1, "}}}"},
	{"map of slices", func(v reflect.Value) (any, bool) { return iface(mkMap(mkSlice(v))), true }, preK + pre1, "}}"},
}

// chunked splits 0..n into units.
func chunked(name string, n, per int, run func(u *U, i int)) (units []Unit) {
	for lo := 0; lo < n; lo += per {
		lo, hi := lo, min(lo+per, n)
		units = append(units, Unit{fmt.Sprintf("%s[%d:%d]", name, lo, hi), func(u *U) {
			for i := lo; i < hi; i++ {
				run(u, i)
			}
		}})
	}
	return
}

// widths are the field counts of wide structs: every small one, then around the sizes of small integer types.
var widths = func() (w []int) {
	for n := 0; n <= 140; n++ {
		w = append(w, n)
	}
	return append(w, 199, 200, 201, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 640, 1000, 1025)
}()
