package main

// C19: types that are not supported.

import (
	"fmt"
	"reflect"
	"strings"
)

type (
	NChan    chan int
	NFunc    func() int
	NComplex complex64
	NPtrPtr  **int
	NIntPtr  *int
	NBadMap  map[bool]int
	embedded struct{ X int }
	Embedded struct{ X int }
	structK  struct{ A int }
)

type badLeaf struct {
	name string
	t    reflect.Type
}

func badLeaves() []badLeaf {
	return []badLeaf{
		{"chan", typeOf[chan int]()}, {"receive chan", typeOf[<-chan string]()}, {"func", typeOf[func()]()}, {"func2", typeOf[func(int) error]()},
		{"complex64", typeOf[complex64]()}, {"complex128", typeOf[complex128]()}, {"unsafe.Pointer", typeOf[unsafePtr]()},
		{"**int", typeOf[**int]()}, {"***int", typeOf[***int]()}, {"**struct", typeOf[**Plain]()}, {"**[]any", typeOf[**[]any]()}, {"**any", typeOf[**any]()},
		{"embedded struct", typeOf[struct{ Embedded }]()}, {"embedded struct, more fields", typeOf[struct {
			A int `php:"a"`
			Embedded
			B string `php:"b"`
		}]()}, {"tagged embedded struct", typeOf[struct {
			Embedded `php:"e"`
		}]()}, {"embedded pointer", typeOf[struct{ *Embedded }]()},
		{"struct with a field embedded in an embedded generic struct", typeOf[EmbAnyStruct]()}, {"embedded func", typeOf[EmbFn]()}, {"embedded chan", typeOf[EmbCh]()}, {"embedded pointer to struct", typeOf[EmbPtrPlain]()}, {"embedded struct after methods", typeOf[ProTwo]()}, {"generic with embedded", typeOf[Gen[EmbPlain]]()},
		{"map[bool]", typeOf[map[bool]int]()}, {"map[float64]", typeOf[map[float64]string]()}, {"map[float32]any", typeOf[map[float32]any]()}, {"map[any]", typeOf[map[any]int]()},
		{"map[struct]", typeOf[map[structK]int]()}, {"map[[1]int]", typeOf[map[[1]int]int]()}, {"map[*int]", typeOf[map[*int]int]()}, {"map[*string]", typeOf[map[*string]any]()},
		{"map[chan]", typeOf[map[chan int]int]()}, {"map[complex]", typeOf[map[complex128]int]()}, {"map[interface]", typeOf[map[fmt.Stringer]int]()}, {"map[uintptr]", typeOf[map[uintptr]int]()},
		{"map[string]chan", typeOf[map[string]chan int]()}, {"map[int]map[bool]", typeOf[map[int]map[bool]bool]()},
		{"named chan", typeOf[NChan]()}, {"named func", typeOf[NFunc]()}, {"named complex", typeOf[NComplex]()}, {"named **int", typeOf[NPtrPtr]()}, {"*named *int", typeOf[*NIntPtr]()}, {"named map[bool]", typeOf[NBadMap]()},
		{"struct with chan", typeOf[struct {
			A int      `php:"a"`
			C chan int `php:"c"`
			B string   `php:"b"`
		}]()},
		{"struct with optional chan", typeOf[struct {
			A int      `php:"a"`
			C chan int `php:"c,omitempty"`
			B string   `php:"b"`
		}]()},
		{"struct with *func", typeOf[struct {
			A int     `php:"a"`
			C *func() `php:"c,omitempty"`
			B string  `php:"b"`
		}]()},
		{"struct with string chan", typeOf[struct {
			A int      `php:"a"`
			C chan int `php:"c,string"`
			B string   `php:"b"`
		}]()},
		{"two fields with one key", typeOf[struct {
			A int `php:"k"`
			B int `php:"k"`
		}]()},
		{"chan, not exported", typeOf[struct {
			A int `php:"a"`
			c chan int
		}]()},
		{"chan, ignored", typeOf[struct {
			A        int      `php:"a"`
			C        chan int `php:"-"`
			Embedded `php:"-"`
		}]()},
		{"recursive with chan", typeOf[RBad]()}, {"recursive with func", typeOf[RBadM]()}, {"recursive pointer", typeOf[RP]()}, {"recursive pointer to pointer", typeOf[RPP]()},
		{"non-empty interface", typeOf[fmt.Stringer]()}, {"uintptr", typeOf[uintptr]()},
	}
}

// present returns values of t in which the unsupported part is there.
func badVals(t reflect.Type) []reflect.Value {
	out := vals(t, 1)
	switch t.Kind() {
	case reflect.Chan:
		out = append(out, reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 0).Convert(t))
	case reflect.Func:
		out = append(out, reflect.MakeFunc(t, nil))
	case reflect.Complex64, reflect.Complex128:
		x := reflect.New(t).Elem()
		x.SetComplex(1i)
		out = append(out, x)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" || t.Field(i).Type.Kind() != reflect.Chan && t.Field(i).Type.Kind() != reflect.Ptr {
				continue
			}
			for _, e := range badVals(t.Field(i).Type) {
				x := reflect.New(t).Elem()
				x.Field(i).Set(e)
				out = append(out, x)
			}
		}
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Func {
			x := reflect.New(t.Elem())
			out = append(out, x.Convert(t))
		}
	}
	return out
}

// staticRoutes hold the value's own type; the others hold an interface.
var staticRoutes = map[string]bool{"pointer": true, "slice": true, "array": true, "pointer to array": true, "map": true, "field": true, "single field": true, "field of pointer": true,
	"pointer field": true, "pointer element": true, "pointer map value": true, "array in struct in slice": true, "map of slices": true}

var canaries = []any{
	Plain{3, "c"}, []int{1, 2}, map[string]any{"k": []any{1.5, true}}, &Tree{1, []*Tree{{2, nil}}}, "text", map[int8]string{3: "x"},
	struct {
		A *int     `php:"a,string"`
		E Embedded `php:"e"`
	}{ptrTo(4), Embedded{1}},
}

// unaffected makes calls on supported types and compares them with the models.
func unaffected(u *U, after string) {
	for _, c := range canaries {
		p, _, _ := modelEncode(c)
		b, err, pan := Marshal(c)
		if pan != nil || err != nil || !matches(p, b) {
			u.Fail("after %s: Marshal(%s) = %q, %v, %v; expected %s", after, describe(c), b, err, pan, patString(p))
			return
		}
		d := reflect.New(reflect.TypeOf(c))
		want := reflect.New(reflect.TypeOf(c))
		modelDecode(string(b), parseDoc(string(b)), want.Elem())
		if err, pan := Unmarshal(b, d.Interface()); pan != nil || err != nil {
			u.Fail("after %s: Unmarshal(%q, %s) = %v, %v", after, b, d.Type(), err, pan)
			return
		}
		if s := same(d.Elem(), want.Elem()); s != "" {
			u.Fail("after %s: Unmarshal(%q, %s) = %s (differs at %s)", after, b, d.Type(), describeValue(d.Elem(), 5), s)
			return
		}
	}
}

// encVerdicts marshals v held in every way, repeatedly, and compares the verdicts with the model and each other.
func encVerdicts(u *U, v reflect.Value, rs []route) {
	direct := 0
	for k, r := range rs {
		w, ok := r.wrap(v)
		if !ok || !u.Next() {
			continue
		}
		p, want, why := modelEncode(w)
		u.State(fmt.Sprintf("%T", w), want.String())
		verdict := 0
		for call := 1; call <= 3; call++ {
			b, err, pan := Marshal(w)
			switch {
			case pan != nil:
				u.Fail("Marshal(%s), call %d, panicked: %s", describe(w), call, pan)
				return
			case err != nil && len(b) > 0:
				u.Fail("Marshal(%s), call %d, failed with %v but returned %q too", describe(w), call, err, b)
				return
			case err == nil && want == vReject:
				u.Fail("Marshal(%s), call %d, = %q; expected an error (%s)", describe(w), call, b, why)
				return
			case err != nil && want == vOK:
				u.Fail("Marshal(%s), call %d, failed: %v; expected %s", describe(w), call, err, patString(p))
				return
			case err == nil && want != vAny && !matches(p, b):
				u.Fail("Marshal(%s), call %d, = %q; expected %s", describe(w), call, b, patString(p))
				return
			}
			got := 1
			if err != nil {
				got = 2
			}
			if verdict != 0 && got != verdict {
				u.Fail("Marshal(%s) = %q, %v in call %d, unlike the call before", describe(w), b, err, call)
				return
			}
			verdict = got
		}
		if k == 0 {
			direct = verdict
		} else if staticRoutes[r.name] && direct != 0 && verdict != direct {
			u.Fail("Marshal(%s) is refused: %v; the same value marshalled directly is refused: %v", describe(w), verdict == 2, direct == 2)
			return
		}
	}
}

type place struct {
	name      string
	t         func(t reflect.Type) reflect.Type
	pre, post string
}

var places = []place{
	{"itself", func(t reflect.Type) reflect.Type { return t }, "", ""},
	{"pointer", func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Ptr {
			return nil
		}
		return reflect.PointerTo(t)
	}, "", ""},
	{"slice", reflect.SliceOf, pre1, "}"},
	{"array", arrayOf(1), pre1, "}"},
	{"map", mapOf(typeOf[string]()), preK, "}"},
	{"field", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", typeOf[int](), ""), sf("X", t, ""), sf("Z", typeOf[string](), "")})
	}, preX, "}"},
	{"field of element", func(t reflect.Type) reflect.Type {
		return reflect.SliceOf(reflect.StructOf([]reflect.StructField{sf("X", t, "")}))
	}, pre1 + preX, "}}"},
	{"pointer field", func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Ptr {
			return nil
		}
		return reflect.StructOf([]reflect.StructField{sf("X", reflect.PointerTo(t), "")})
	}, preX, "}"},
}

// decVerdicts decodes doc into t and into containers of t, repeatedly.
func decVerdicts(u *U, doc string, t reflect.Type, populated bool) {
	direct := 0
	for k, pl := range places {
		ct := pl.t(t)
		if ct == nil || !u.Next() {
			continue
		}
		full := pl.pre + doc + pl.post
		n := parseDoc(full)
		verdict := 0
		for call := 1; call <= 3; call++ {
			want, got := reflect.New(ct), reflect.New(ct)
			if populated {
				x := badVals(ct)
				want.Elem().Set(deepCopy(x[len(x)-1]))
				got.Elem().Set(deepCopy(x[len(x)-1]))
			}
			v, why := modelDecode(full, n, want.Elem())
			err, pan := Unmarshal([]byte(full), got.Interface())
			if call == 1 {
				u.State(ct.String(), full, v.String())
			}
			switch {
			case pan != nil:
				u.Fail("Unmarshal(%q, *%s), call %d, panicked: %s", full, ct, call, pan)
				return
			case err == nil && v == vReject:
				u.Fail("Unmarshal(%q, *%s), call %d, succeeded; expected an error (%s)", full, ct, call, why)
				return
			case err != nil && v == vOK:
				u.Fail("Unmarshal(%q, *%s), call %d, failed: %v", full, ct, call, err)
				return
			case err == nil && v != vAny:
				if s := same(got.Elem(), want.Elem()); s != "" {
					u.Fail("Unmarshal(%q, *%s), call %d, = %s, expected %s (differs at %s)", full, ct, call, describeValue(got.Elem(), 5), describeValue(want.Elem(), 5), s)
					return
				}
			}
			g := 1
			if err != nil {
				g = 2
			}
			if verdict != 0 && g != verdict {
				u.Fail("Unmarshal(%q, *%s) gives %v in call %d, unlike the call before", full, ct, err, call)
				return
			}
			verdict = g
		}
		if k == 0 {
			direct = verdict
		} else if direct != 0 && verdict != direct && !(doc == "N;" && strings.HasPrefix(pl.name, "pointer")) {
			u.Fail("Unmarshal(%q, *%s) is refused: %v; the same data decoded into %s directly is refused: %v", full, ct, verdict == 2, t, direct == 2)
			return
		}
	}
}

// decOne decodes doc into t only.
func decOne(u *U, doc string, t reflect.Type) {
	all := places
	places = places[:1]
	decVerdicts(u, doc, t, false)
	places = all
}

var badDocs = []string{"N;", "i:1;", "b:1;", "d:0.5;", `s:1:"x";`, `s:0:"";`, "a:0:{}", `O:1:"C":0:{}`, "a:1:{i:0;i:1;}", "a:1:{i:0;N;}", `a:1:{s:1:"k";i:1;}`, `a:1:{s:1:"k";N;}`, `a:1:{s:1:"k";a:1:{i:0;i:1;}}`,
	`a:1:{s:1:"c";i:1;}`, `a:1:{s:1:"C";s:1:"x";}`, `a:1:{s:1:"a";i:1;}`, `a:2:{s:1:"a";i:1;s:1:"c";N;}`, `a:2:{s:1:"b";s:1:"q";s:1:"unknown";a:1:{i:0;i:1;}}`, `a:1:{s:1:"X";i:1;}`, `a:1:{s:8:"Embedded";a:1:{s:1:"X";i:1;}}`,
	`a:1:{s:1:"N";a:1:{s:1:"N";N;}}`, `a:1:{s:1:"N";a:1:{s:1:"C";i:1;}}`, `a:1:{s:1:"q";a:1:{s:1:"M";a:0:{}}}`, `a:1:{s:1:"q";a:1:{s:1:"F";i:1;}}`, "a:1:{i:0;a:0:{}}", "a:1:{i:0;a:1:{i:0;i:1;}}", "a:2:{i:0;i:1;i:1;i:1;}"}

// ---- families of related types ----

type (
	gList[T any] struct {
		Next *gList[T]
		V    T `php:"v"`
	}
	gListR[T any] struct {
		V    T `php:"v"`
		Next *gListR[T]
	}
	gTree[T any] struct {
		Kids []gTree[T]
		V    T `php:"v,omitempty"`
	}
	gMap[T any]  map[string]gMapV[T]
	gMapV[T any] struct {
		M gMap[T]
		V T `php:"v"`
	}
	gMutA[T any] struct {
		B *gMutB[T]
		X int `php:"x"`
	}
	gMutB[T any] struct {
		A *gMutA[T]
		V []T `php:"v,omitempty"`
	}
	gArr[T any] struct {
		K [2]*gArr[T]
		V *T `php:"v"`
	}
	gSl[T any]  []gSlV[T]
	gSlV[T any] struct {
		S gSl[T]
		V map[string]T `php:"v"`
	}
	gAny[T any] struct {
		I any
		N *gAny[T]
		V [1]T `php:"v"`
	}
	gPair[T any] struct {
		L, R *gPair[T]
		V    struct{ W T } `php:"v"`
	}
	gThreeA[T any] struct {
		B map[string]gThreeB[T]
	}
	gThreeB[T any] struct {
		C []gThreeC[T]
	}
	gThreeC[T any] struct {
		A *gThreeA[T]
		V T `php:"v"`
	}
)

type family struct {
	name  string
	types []reflect.Type
	docs  []string
}

func familiesOf[T any](leaf string) []family {
	d := func(path string) []string {
		// path has %s where the next level goes
		in := "a:0:{}"
		out := []string{in, "N;"}
		for i := 0; i < 2; i++ {
			in = strings.Replace(path, "%s", in, 1)
			out = append(out, in)
		}
		v := `a:1:{s:1:"v";i:1;}`
		out = append(out, v, strings.Replace(path, "%s", v, 1))
		return out
	}
	next := func(k string) string { return fmt.Sprintf(`a:1:{s:%d:"%s";%%s}`, len(k), k) }
	return []family{
		{"list", []reflect.Type{typeOf[gList[T]](), typeOf[*gList[T]](), typeOf[[]gList[T]](), typeOf[map[string]gList[T]](), typeOf[struct{ X gList[T] }]()}, d(next("Next"))},
		{"list, field first", []reflect.Type{typeOf[gListR[T]](), typeOf[[1]*gListR[T]](), typeOf[struct{ X *gListR[T] }]()}, d(next("Next"))},
		{"tree", []reflect.Type{typeOf[gTree[T]](), typeOf[[]gTree[T]](), typeOf[[]*gTree[T]](), typeOf[map[int]gTree[T]]()}, d(`a:1:{s:4:"Kids";a:1:{i:0;%s}}`)},
		{"map", []reflect.Type{typeOf[gMap[T]](), typeOf[gMapV[T]](), typeOf[[]gMap[T]](), typeOf[*gMapV[T]](), typeOf[map[string]gMapV[T]]()}, d(`a:1:{s:1:"M";a:1:{s:1:"k";%s}}`)},
		{"mutual", []reflect.Type{typeOf[gMutA[T]](), typeOf[gMutB[T]](), typeOf[[]gMutA[T]](), typeOf[*gMutB[T]](), typeOf[struct {
			X gMutB[T]
			Y gMutA[T]
		}]()}, append(d(next("B")), d(`a:1:{s:1:"B";a:1:{s:1:"A";%s}}`)...)},
		{"array", []reflect.Type{typeOf[gArr[T]](), typeOf[[2]*gArr[T]](), typeOf[*gArr[T]](), typeOf[[]gArr[T]]()}, d(`a:1:{s:1:"K";a:1:{i:1;%s}}`)},
		{"slice", []reflect.Type{typeOf[gSl[T]](), typeOf[gSlV[T]](), typeOf[map[string]gSl[T]](), typeOf[*gSl[T]]()}, d(`a:1:{s:1:"S";a:1:{i:0;%s}}`)},
		{"any", []reflect.Type{typeOf[gAny[T]](), typeOf[[]gAny[T]](), typeOf[*gAny[T]]()}, append(d(next("N")), d(next("I"))...)},
		{"pair", []reflect.Type{typeOf[gPair[T]](), typeOf[[]*gPair[T]](), typeOf[map[string]*gPair[T]]()}, append(d(next("L")), d(next("R"))...)},
		{"three", []reflect.Type{typeOf[gThreeA[T]](), typeOf[gThreeB[T]](), typeOf[gThreeC[T]](), typeOf[[]gThreeC[T]](), typeOf[*gThreeB[T]]()},
			append(d(`a:1:{s:1:"B";a:1:{s:1:"k";a:1:{s:1:"C";a:1:{i:0;a:1:{s:1:"A";%s}}}}}`), d(`a:1:{s:1:"C";a:1:{i:0;a:1:{s:1:"A";a:1:{s:1:"B";a:1:{s:1:"k";%s}}}}}`)...)},
	}
}

func allFamilies() (out []family) {
	add := func(leaf string, fs []family) {
		for _, f := range fs {
			f.name += " of " + leaf
			out = append(out, f)
		}
	}
	add("chan", familiesOf[chan int]("chan"))
	add("**int", familiesOf[**int]("**int"))
	add("embedded", familiesOf[struct{ Embedded }]("embedded"))
	add("map[bool]", familiesOf[map[bool]int]("map[bool]"))
	add("int", familiesOf[int]("int"))
	add("func", familiesOf[func()]("func"))
	add("map[string]complex", familiesOf[map[string]complex64]("map[string]complex"))
	add("[]***any", familiesOf[[]***any]("[]***any"))
	return
}

// famVals are values of a family's type: zero, and with pointers, slices and maps one or two levels deep.
func famVals(t reflect.Type) []reflect.Value {
	var fill func(t reflect.Type, depth int) reflect.Value
	fill = func(t reflect.Type, depth int) reflect.Value {
		x := reflect.New(t).Elem()
		if depth == 0 {
			return x
		}
		switch t.Kind() {
		case reflect.Ptr:
			p := reflect.New(t.Elem())
			p.Elem().Set(fill(t.Elem(), depth-1))
			x.Set(p.Convert(t))
		case reflect.Slice:
			s := reflect.MakeSlice(t, 1, 1)
			s.Index(0).Set(fill(t.Elem(), depth-1))
			x.Set(s)
		case reflect.Array:
			x.Index(t.Len() - 1).Set(fill(t.Elem(), depth-1))
		case reflect.Map:
			m := reflect.MakeMap(t)
			if t.Key().Kind() != reflect.String && t.Key().Kind() != reflect.Int {
				return m
			}
			m.SetMapIndex(box(t.Key(), map[bool]any{true: "k", false: 1}[t.Key().Kind() == reflect.String]), fill(t.Elem(), depth-1))
			x.Set(m)
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath == "" && !t.Field(i).Anonymous {
					x.Field(i).Set(fill(t.Field(i).Type, depth-1))
				}
			}
		case reflect.Int:
			x.SetInt(5)
		}
		return x
	}
	return []reflect.Value{fill(t, 0), fill(t, 2), fill(t, 5)}
}

func famOps(f family) (ops []hop) {
	for _, t := range f.types {
		for i, v := range famVals(t) {
			name := fmt.Sprintf("Marshal(%s value %d)", t, i)
			ops = append(ops, hop{name, func(e *henv) string { return e.mar(name, v.Interface()) }})
		}
		for _, doc := range f.docs {
			name := fmt.Sprintf("Unmarshal(%q, *%s)", doc, t)
			ops = append(ops, hop{name, func(e *henv) string { return e.unm(name, doc, reflect.New(t).Interface()) }})
		}
	}
	return
}

func init() {
	for i, f := range allFamilies() {
		histSets[fmt.Sprintf("c19-%d", i)] = func() []hop { return famOps(f) }
	}
	register(&Check{
		ID:   "C19",
		Rule: "every unsupported type (kinds, nested pointers, embedded structs, map keys, duplicate keys, recursive types with such parts) in every position to the depth bound, in values and documents that reach the unsupported part and that do not, each held in every way and each call made three times: the verdict has to be the models', repeat, be the same in every statically typed position, and leave calls on supported types unchanged; for families of mutually recursive types, every pair of first uses in a process of its own has to give the verdicts each call gives alone",
		Units: func(thorough bool) (units []Unit) {
			leaves := badLeaves()
			all := append(append([]ctor{}, ctors...), extraCtors...)
			depth := 2
			if thorough {
				depth = 3
			}
			for _, l := range leaves {
				var ts []reflect.Type
				lvl := []reflect.Type{l.t}
				ts = append(ts, lvl...)
				for d := 1; d <= depth; d++ {
					use := ctors
					if d == 1 {
						use = all
					}
					lvl = apply(use, lvl)
					ts = append(ts, lvl...)
				}
				units = append(units, chunked("encode "+l.name, len(ts), 40, func(u *U, i int) {
					rs := routes
					if i > 40 {
						rs = []route{routes[0], routes[1], routes[3], routes[5], routes[9], routes[13], routes[16]}
					}
					for _, v := range badVals(ts[i]) {
						encVerdicts(u, v, rs)
					}
					if u.Next() {
						unaffected(u, "marshalling "+ts[i].String())
					}
				})...)
				units = append(units, chunked("decode "+l.name, len(ts), 40, func(u *U, i int) {
					if i > 40 {
						for _, doc := range badDocs {
							decOne(u, doc, ts[i])
							decOne(u, pre1+doc+"}", ts[i])
							decOne(u, preX+doc+"}", ts[i])
							decOne(u, preK+doc+"}", ts[i])
							decOne(u, pre1+pre1+doc+"}}", ts[i])
							decOne(u, pre1+preX+doc+"}}", ts[i])
							decOne(u, preX+pre1+doc+"}}", ts[i])
						}
						return
					}
					for _, doc := range badDocs {
						decVerdicts(u, doc, ts[i], false)
						decVerdicts(u, doc, ts[i], true)
						// the same data one level down
						decVerdicts(u, pre1+doc+"}", ts[i], false)
						decVerdicts(u, preX+doc+"}", ts[i], false)
					}
					if u.Next() {
						unaffected(u, "decoding into "+ts[i].String())
					}
				})...)
			}
			// decoders and encoders of the family's types agree with the models
			fams := allFamilies()
			units = append(units, chunked("families", len(fams), 1, func(u *U, i int) {
				for _, t := range fams[i].types {
					for _, v := range famVals(t) {
						encVerdicts(u, v, routes)
					}
					for _, doc := range append(append([]string{}, fams[i].docs...), badDocs...) {
						decVerdicts(u, doc, t, false)
						decVerdicts(u, doc, t, true)
					}
				}
			})...)
			// every self-recursive type, pair and some triples of mutually recursive types
			recDocs := []string{"N;", "i:1;", "a:0:{}", "a:1:{i:0;N;}", "a:1:{s:1:\"X\";N;}", "a:1:{s:1:\"X\";a:1:{i:0;a:1:{s:1:\"X\";N;}}}", "a:1:{i:0;a:1:{i:0;a:1:{s:1:\"X\";a:0:{}}}}",
				"a:1:{s:1:\"X\";a:1:{s:1:\"X\";a:1:{s:1:\"X\";a:0:{}}}}", "a:1:{i:0;a:1:{s:1:\"X\";a:1:{i:0;a:1:{s:1:\"X\";N;}}}}", "a:1:{i:0;a:1:{i:0;a:1:{i:0;a:1:{i:0;N;}}}}"}
			units = append(units, chunked("recursive types", len(recTypes), 25, func(u *U, i int) {
				for _, v := range famVals(recTypes[i]) {
					encVerdicts(u, v, routes)
				}
				for _, doc := range recDocs {
					decVerdicts(u, doc, recTypes[i], false)
					decVerdicts(u, doc, recTypes[i], true)
				}
			})...)
			// orders of first use
			for i, f := range fams {
				set := fmt.Sprintf("c19-%d", i)
				ops := famOps(f)
				n := len(ops)
				units = append(units, chunked("orders "+f.name, n, 8, func(u *U, a int) {
					for _, dir := range []int{1, -1} {
						if !u.Next() {
							continue
						}
						h := []histItem{{a, 1}}
						for b := 0; b < n; b++ {
							j := b
							if dir < 0 {
								j = n - 1 - b
							}
							h = append(h, histItem{j, 1})
						}
						checkHist(u, set, ops, h, dir < 0)
					}
					if thorough {
						for b := 0; b < n; b++ {
							if u.Next() {
								checkHist(u, set, ops, []histItem{{a, 1}, {b, 1}, {a, 1}}, false)
							}
						}
					}
				})...)
			}
			return
		},
	})
}
