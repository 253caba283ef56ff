package main

// C13 (Unmarshaler) and C14 (Marshaler).

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
)

// upos is a position: a type around T and a document around T's document.
type upos struct {
	name string
	t    func(reflect.Type) reflect.Type
	doc  func(d string) string
}

func wrapDoc(pre, post string) func(string) string {
	return func(d string) string { return pre + d + post }
}

func structPos(fields ...reflect.StructField) func(reflect.Type) reflect.Type {
	return func(t reflect.Type) reflect.Type {
		fs := append([]reflect.StructField{}, fields...)
		for i := range fs {
			if fs[i].Type == nil {
				fs[i].Type = t
			}
		}
		return reflect.StructOf(fs)
	}
}

var hole reflect.Type

var positions = []upos{
	{"ptr", ctors[0].make, wrapDoc("", "")},
	{"slice", ctors[1].make, wrapDoc("a:1:{i:0;", "}")},
	{"slice of three", ctors[1].make, wrapDoc("a:3:{i:0;N;i:2;", "i:1;N;}")},
	{"array", arrayOf(2), wrapDoc("a:2:{i:1;", "i:0;N;}")},
	{"array with more", arrayOf(1), wrapDoc("a:2:{i:0;", "i:1;a:1:{i:0;s:3:\"}}}\";}}")},
	{"map", mapOf(typeOf[string]()), wrapDoc(`a:1:{s:1:"k";`, "}")},
	{"int map", mapOf(typeOf[int]()), wrapDoc("a:2:{i:-7;N;i:7;", "}")},
	{"any map", mapOf(typeOf[any]()), wrapDoc(`O:1:"C":1:{s:1:"k";`, "}")},
	{"field", structPos(sf("X", hole, "x")), wrapDoc(`a:1:{s:1:"x";`, "}")},
	{"middle field", structPos(sf("A", typeOf[int](), "a"), sf("X", hole, "x,omitempty"), sf("Z", typeOf[string](), "z")), wrapDoc(`O:8:"stdClass":4:{s:1:"a";i:5;s:1:"u";a:1:{i:0;N;}s:1:"x";`, `s:1:"z";s:2:"zz";}`)},
	{"two fields", structPos(sf("X", hole, "x"), sf("Y", hole, "y")), func(d string) string { return `a:2:{s:1:"y";` + d + `s:1:"x";` + d + "}" }},
	{"pointer field", func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Ptr {
			return nil
		}
		return reflect.StructOf([]reflect.StructField{sf("P", reflect.PointerTo(t), "p"), sf("V", typeOf[any](), "v")})
	}, wrapDoc(`a:2:{s:1:"v";i:1;s:1:"p";`, "}")},
	{"before any", structPos(sf("X", hole, "x"), sf("V", typeOf[any](), "v")), func(d string) string { return `a:2:{s:1:"x";` + d + `s:1:"v";a:1:{i:0;` + d + "}}" }},
}

// compose lists all stacks of at most n positions.
func compose(n int) (out [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		out = append(out, append([]int{}, cur...))
		if len(cur) == n {
			return
		}
		for i := range positions {
			rec(append(cur, i))
		}
	}
	rec(nil)
	return
}

func at(stack []int, t reflect.Type, d string) (reflect.Type, string) {
	for _, i := range stack {
		if t = positions[i].t(t); t == nil {
			return nil, ""
		}
		d = positions[i].doc(d)
	}
	return t, d
}

func stackName(stack []int) string {
	s := "top"
	for _, i := range stack {
		s = positions[i].name + "(" + s + ")"
	}
	return s
}

// EmbUR gets its method from an embedded field.
type EmbUR struct {
	UR
	X int
}

// URec is recursive through its own decoding.
type URec struct {
	Kids map[string]*URec
	Raw  string
}

func (u *URec) UnmarshalPHP(b []byte) error {
	recCalls++
	u.Raw = string(b)
	if len(b) > 0 && b[0] == 'a' {
		_, m := curU, modelCalls
		lastUErr = phpUnmarshal(b, &u.Kids)
		modelCalls = m
		return lastUErr
	}
	return nil
}
func (u *URec) ModelUnmarshal(b []byte) error {
	modelCalls++
	u.Raw = string(b)
	if len(b) > 0 && b[0] == 'a' {
		v, why := modelDecode(string(b), parseDoc(string(b)), reflect.ValueOf(&u.Kids).Elem())
		if v == vAny || v == vMay {
			return errModelAny
		}
		if v == vReject {
			return errors.New(why)
		}
	}
	return nil
}

var customTypes = []reflect.Type{
	typeOf[UR](), typeOf[UStr](), typeOf[UInt](), typeOf[USlice](), typeOf[UMap](), typeOf[UArr](), typeOf[UScribble](), typeOf[UKeep](), typeOf[UNest](), typeOf[UVal](), typeOf[UFn](), typeOf[UMapV](), typeOf[BothT](), typeOf[EmbUR](), typeOf[URec](),
	typeOf[UByte](), typeOf[UI8](), typeOf[UU16](), typeOf[UU64](), typeOf[UBool](), typeOf[UF32](), typeOf[UF64](), typeOf[UBytes](), typeOf[UBArr](), typeOf[UAnyS](), typeOf[UPtrS](), typeOf[UHidden](), typeOf[ProUStr](), typeOf[ProUR](), typeOf[ProUTwo](), typeOf[ProMU](),
	typeOf[struct {
		A int
		UStr
	}](),
}

var customDocs = func() []string {
	d := append([]string{}, scalarDocs...)
	return append(d, `s:6:"a"b;{}";`, `s:3:"é1";`, "s:2:\"\\n\";", `s:4:"\"x"";`, `s:3:"[1]";`, `s:4:"FAIL";`, `a:0:{}`, `a:1:{i:0;i:7;}`, `a:2:{s:1:"a";a:1:{i:0;N;}s:1:"b";s:2:"};";}`, `O:1:"C":1:{s:1:"X";s:1:"w";}`, `O:0:"":0:{}`,
		`a:1:{s:4:"FAIL";i:1;}`, `a:3:{i:2;d:0.5;i:1;b:1;i:0;N;}`, `a:1:{s:1:"k";a:1:{s:1:"k";a:1:{s:1:"k";N;}}}`, `O:3:"a"b":1:{i:0;i:1;}`, encodedBig)
}()

var encodedBig = string(encStr(filler(3000, 2)))

// customCase: values, calls and errors have to be the model's.
func customCase(u *U, doc string, t reflect.Type) {
	n := parseDoc(doc)
	want := reflect.New(t)
	modelCalls, recCalls, lastUErr = 0, 0, nil
	v, why := modelDecode(doc, n, want.Elem())
	expected := modelCalls
	got := reflect.New(t)
	in := []byte(doc)
	recCalls = 0
	err, pan := Unmarshal(in, got.Interface())
	customVerdict(u, doc, t, got, want, v, why, err, pan, expected)
}

func customVerdict(u *U, doc string, t reflect.Type, got, want reflect.Value, v verdict, why string, err error, pan *panicValue, expected int) {
	u.State(v.String(), doc, t.String())
	if pan != nil {
		u.Fail("Unmarshal(%s, *%s) panicked: %s", clipq(doc), t, pan)
		return
	}
	switch v {
	case vReject:
		if err == nil {
			u.Fail("Unmarshal(%s, *%s) succeeded, expected an error (%s)", clipq(doc), t, why)
		} else if why == "unmarshaler error" {
			if !errors.Is(err, errUnmarshal) && (lastUErr == nil || !errors.Is(err, lastUErr)) {
				u.Fail("Unmarshal(%s, *%s) failed with %T %v; expected the error the method returned", clipq(doc), t, err, err)
			}
		}
	case vOK:
		if err != nil {
			u.Fail("Unmarshal(%s, *%s) failed: %v; expected %s", clipq(doc), t, err, describeValue(want.Elem(), 6))
			return
		}
		if recCalls != expected {
			u.Fail("Unmarshal(%s, *%s) called UnmarshalPHP %d times, expected %d", clipq(doc), t, recCalls, expected)
			return
		}
		if s := same(got.Elem(), want.Elem()); s != "" {
			u.Fail("Unmarshal(%s, *%s) = %s, expected %s (differs at %s)", clipq(doc), t, describeValue(got.Elem(), 6), describeValue(want.Elem(), 6), s)
		}
	}
}

// ---- Unmarshalers held in non-empty interfaces ----

type ifaceDest struct {
	A int    `php:"a"`
	X UIface `php:"x"`
	B string `php:"b"`
	Y UIface `php:"y"`
}

type scribbler struct{ seen []string }

func (s *scribbler) UnmarshalPHP(b []byte) error {
	recCalls++
	s.seen = append(s.seen, string(b))
	for i := range b {
		b[i] = 'i'
	}
	_ = append(b, "overwritten"...)
	return nil
}

type wrappedErr struct{ inner error }

func (w wrappedErr) Error() string { return "wrapped: " + w.inner.Error() }
func (w wrappedErr) Unwrap() error { return w.inner }

// errKinds: errors that methods return.
var errKinds = []error{errUnmarshal, errors.New(""), fmt.Errorf("x: %w", errUnmarshal), wrappedErr{errUnmarshal}, &wrappedErr{errMarshal}}

var callbackErr error

type UErr struct{}

func (*UErr) UnmarshalPHP([]byte) error   { recCalls++; lastUErr = callbackErr; return callbackErr }
func (*UErr) ModelUnmarshal([]byte) error { modelCalls++; return callbackErr }

type UErrV struct{}

func (UErrV) UnmarshalPHP([]byte) error { recCalls++; lastUErr = callbackErr; return callbackErr }

type MErr struct{ V int }

func (MErr) MarshalPHP() ([]byte, error)   { return []byte("i:1;"), callbackErr }
func (MErr) ModelMarshal() (string, error) { return "i:1;", callbackErr }

func init() {
	register(&Check{
		ID:   "C13",
		Rule: "Unmarshaler types of every kind (struct, string, int, slice, map, array, func, value receivers, embedded, recursive, nesting Unmarshal, overwriting and appending to their bytes) times every stack of positions to the depth bound times a corpus of values (also as map keys and in non-nil interfaces); values, number of calls and returned errors are compared with the reference decoder; the same into variables that an earlier document filled",
		Units: func(thorough bool) (units []Unit) {
			n := 2
			if thorough {
				n = 3
			}
			stacks := compose(n)
			units = append(units, chunked("positions", len(stacks), 4, func(u *U, i int) {
				for _, ct := range customTypes {
					for _, d := range customDocs {
						if len(stacks[i]) > 2 && len(d) > 1000 {
							continue
						}
						t, doc := at(stacks[i], ct, d)
						if t == nil || !u.Next() {
							continue
						}
						customCase(u, doc, t)
					}
				}
			})...)
			// all pairs of values in two positions with two types
			units = append(units, chunked("pairs", len(customTypes)*len(customTypes), 6, func(u *U, i int) {
				t1, t2 := customTypes[i/len(customTypes)], customTypes[i%len(customTypes)]
				st := reflect.StructOf([]reflect.StructField{sf("A", t1, "a"), sf("L", reflect.SliceOf(t2), "l"), sf("M", reflect.MapOf(typeOf[string](), t1), "m"), sf("I", typeOf[int](), "i")})
				for _, d1 := range customDocs {
					for _, d2 := range customDocs {
						if len(d1)+len(d2) > 2000 || !u.Next() {
							continue
						}
						customCase(u, `a:4:{s:1:"l";a:2:{i:0;`+d2+`i:1;`+d2+`}s:1:"a";`+d1+`s:1:"m";a:2:{s:1:"p";`+d1+`s:1:"q";N;}s:1:"i";i:1234;}`, st)
					}
				}
			})...)
			// into a variable that already holds what an earlier document left
			stacks1 := compose(1)
			if thorough {
				stacks1 = stacks
			}
			fill := []string{`s:3:"old";`, "i:5;", `a:2:{i:0;s:1:"p";s:1:"k";i:2;}`, "b:1;", "N;"}
			units = append(units, chunked("filled", len(stacks1)*len(customTypes), 8, func(u *U, i int) {
				ct := customTypes[i%len(customTypes)]
				for _, d1 := range fill {
					for _, d2 := range customDocs {
						if len(d2) > 1000 {
							continue
						}
						t, doc1 := at(stacks1[i/len(customTypes)], ct, d1)
						if t == nil || !u.Next() {
							continue
						}
						_, doc2 := at(stacks1[i/len(customTypes)], ct, d2)
						want := reflect.New(t)
						modelCalls, recCalls, lastUErr = 0, 0, nil
						if v, _ := modelDecode(doc1, parseDoc(doc1), want.Elem()); v != vOK {
							continue
						}
						got := reflect.New(t)
						if err, pan := Unmarshal([]byte(doc1), got.Interface()); err != nil || pan != nil {
							u.Fail("Unmarshal(%s, *%s) failed: %v %v", clipq(doc1), t, err, pan)
							continue
						}
						modelCalls, recCalls, lastUErr = 0, 0, nil
						v, why := modelDecode(doc2, parseDoc(doc2), want.Elem())
						expected := modelCalls
						recCalls = 0
						err, pan := Unmarshal([]byte(doc2), got.Interface())
						customVerdict(u, doc1+" and then "+doc2, t, got, want, v, why, err, pan, expected)
					}
				}
			})...)
			// map keys
			keyTypes := []reflect.Type{typeOf[map[UKeyed]int](), typeOf[map[UStr]string](), typeOf[map[UInt]UStr](), typeOf[map[UKeyed]UKeyed](), typeOf[map[UArr]any]()}
			units = append(units, chunked("keys", len(keyTypes), 1, func(u *U, i int) {
				for _, k := range docKeys {
					for _, k2 := range docKeys {
						for _, v := range []string{"i:1;", `s:1:"v";`, "N;", "a:0:{}"} {
							for _, doc := range []string{"a:1:{" + k + v + "}", "a:2:{" + k + v + k2 + v + "}", `O:1:"C":1:{` + k + v + "}"} {
								if u.Next() {
									customCase(u, doc, keyTypes[i])
								}
							}
						}
					}
				}
			})...)
			units = append(units, chunked("interfaces", len(customDocs), 2, func(u *U, i int) {
				d := customDocs[i]
				for _, d2 := range customDocs {
					for order := 0; order < 4; order++ {
						for kind := 0; kind < 3; kind++ {
							if u.Next() {
								ifaceCase(u, d, d2, order, kind)
							}
						}
					}
				}
			})...)
			// errors of every kind at every position
			units = append(units, chunked("errors", len(stacks), 40, func(u *U, i int) {
				for _, e := range errKinds {
					for _, d := range []string{"i:1;", "b:1;", `s:1:"x";`, "a:1:{i:0;i:1;}", "N;", `O:1:"C":0:{}`} {
						t, doc := at(stacks[i], typeOf[UErr](), d)
						if t == nil || !u.Next() {
							continue
						}
						callbackErr = e
						got := reflect.New(t)
						err, pan := Unmarshal([]byte(doc), got.Interface())
						u.State("err", fmt.Sprint(e), doc, t.String())
						if pan != nil {
							u.Fail("Unmarshal(%s, *%s) panicked: %s", clipq(doc), t, pan)
						} else if d == "N;" {
							if err != nil {
								u.Fail("Unmarshal(%s, *%s) failed: %v", clipq(doc), t, err)
							}
						} else if !errors.Is(err, e) {
							u.Fail("Unmarshal(%s, *%s) failed with %v, expected the method's error %v", clipq(doc), t, err, e)
						}
					}
				}
			})...)
			// ... held in interfaces
			units = append(units, Unit{"interface-errors", func(u *U) {
				type in1 struct {
					A int    `php:"a"`
					X UIface `php:"x"`
				}
				type in2 struct {
					P *in1 `php:"p"`
					B *int `php:"b"`
				}
				var top UIface
				holders := []struct {
					name, pre, post string
					make            func() any
				}{
					{"interface", "", "", func() any { top = &UErr{}; return &top }},
					{"value in an interface", "", "", func() any { top = UErrV{}; return &top }},
					{"field", `a:2:{s:1:"a";i:1;s:1:"x";`, "}", func() any { return &in1{X: &UErr{}} }},
					{"field of values", `a:2:{s:1:"x";`, `s:1:"a";i:1;}`, func() any { return &in1{X: UErrV{}} }},
					{"pointer's field", `a:2:{s:1:"p";a:1:{s:1:"x";`, `}s:1:"b";i:5;}`, func() any { return &in2{P: &in1{X: &UErr{}}} }},
				}
				for _, h := range holders {
					for _, e := range errKinds {
						for _, d := range customDocs {
							if !u.Next() {
								continue
							}
							callbackErr = e
							recCalls = 0
							dst := h.make()
							err, pan := Unmarshal([]byte(h.pre+d+h.post), dst)
							u.State("iface-err", h.name, fmt.Sprint(e), d)
							switch {
							case pan != nil:
								u.Fail("Unmarshal(%s, %s with a failing Unmarshaler) panicked: %s", clipq(d), h.name, pan)
							case d == "N;" && err != nil:
								u.Fail("Unmarshal(%s, %s with a failing Unmarshaler) failed: %v", clipq(d), h.name, err)
							case d != "N;" && !errors.Is(err, e):
								u.Fail("Unmarshal(%s, %s with a failing Unmarshaler) failed with %T %v, expected the method's error %v", clipq(d), h.name, err, err, e)
							case d != "N;" && recCalls != 1:
								u.Fail("Unmarshal(%s, %s with a failing Unmarshaler): %d calls", clipq(d), h.name, recCalls)
							}
						}
					}
				}
			}})
			// sizes: where the value ends
			maxN := 2600
			if thorough {
				maxN = 9000
			}
			units = append(units, chunked("sizes", maxN, 200, func(u *U, i int) {
				if u.Next() {
					customCase(u, `a:3:{i:0;`+string(encStr(filler(i, 1)))+`i:1;`+string(encStr(filler(i, 0)))+"i:2;i:7;}", typeOf[[]UScribble]())
				}
				if u.Next() {
					customCase(u, `a:2:{s:1:"x";a:1:{i:0;`+string(encStr(filler(i, 1)))+`}s:1:"s";`+string(encStr(filler(i, 2)))+"}", typeOf[struct {
						X UR     `php:"x"`
						S string `php:"s"`
					}]())
				}
			})...)
			units = append(units, sizesC13(thorough)...)
			return
		},
	})

	register(&Check{
		ID:   "C14",
		Rule: "Marshaler types of every kind (value and pointer receivers, struct, string, int, slice, map, array, bytes, bool, float, func, nesting Marshal) times every stack of two routes times outputs (documents, empty and arbitrary bytes, long), nil pointers and interfaces, errors of every kind; outputs are compared with the reference encoder",
		Units: func(thorough bool) (units []Unit) {
			vs := marshalerValues()
			units = append(units, chunked("routes", len(vs), 2, func(u *U, i int) {
				for _, r := range routes {
					x, ok := r.wrap(vs[i])
					if !ok {
						continue
					}
					if u.Next() {
						marCase(u, x)
					}
					for _, r2 := range routes {
						y, ok := r2.wrap(reflect.ValueOf(x))
						if !ok {
							continue
						}
						if u.Next() {
							marCase(u, y)
						}
						if !thorough {
							continue
						}
						for _, r3 := range routes {
							if z, ok := r3.wrap(reflect.ValueOf(y)); ok && u.Next() {
								marCase(u, z)
							}
						}
					}
				}
			})...)
			// several in one value, all pairs
			units = append(units, chunked("pairs", len(vs), 4, func(u *U, i int) {
				for _, w := range vs {
					a, b := iface(vs[i]), iface(w)
					for _, x := range []any{[]any{a, b, 1, a}, map[string]any{"a": a, "b": b}, struct {
						A any `php:"a,omitempty"`
						B any `php:"b"`
						C int
					}{a, b, 3}, []any{[]any{a}, map[int]any{1: b}}} {
						if u.Next() {
							marCase(u, x)
						}
					}
					st := reflect.StructOf([]reflect.StructField{sf("A", vs[i].Type(), "a,omitempty"), sf("B", w.Type(), "b"), sf("S", reflect.SliceOf(w.Type()), "s"), sf("Z", typeOf[string](), "")})
					s := reflect.New(st)
					s.Elem().Field(0).Set(vs[i])
					s.Elem().Field(1).Set(w)
					s.Elem().Field(2).Set(reflect.Append(reflect.Zero(reflect.SliceOf(w.Type())), w, w))
					if u.Next() {
						marCase(u, iface(s))
						marCase(u, iface(s.Elem()))
					}
				}
			})...)
			// output lengths around every buffer threshold
			maxN := 5000
			units = append(units, chunked("lengths", maxN, 250, func(u *U, i int) {
				if u.Next() {
					m := MV{filler(i, 2)}
					marCase(u, m)
					marCase(u, []any{"x", m, &m, MStr(filler(i/2, 1))})
					marCase(u, struct {
						A MStr
						B *MV
						C MIface
					}{MStr(filler(i, 1)), &m, m})
				}
			})...)
			// errors
			errVals := []reflect.Value{val(MErr{1}), val(&MErr{2}), val([]MErr{{1}, {2}}), val(map[string]MErr{"a": {}}), val([]any{1, MErr{}}), val(struct{ A, B any }{1, &MErr{}}), val(struct{ M MIface }{MErr{}}), val([]MIface{MErr{}}), val(struct{ E MErr }{}), val(struct{ E *MErr }{&MErr{}})}
			units = append(units, chunked("errors", len(errVals), 1, func(u *U, i int) {
				for _, e := range errKinds {
					for _, r := range routes {
						for _, r2 := range routes {
							x, ok := r.wrap(errVals[i])
							if !ok {
								continue
							}
							y, ok := r2.wrap(reflect.ValueOf(x))
							if !ok || !u.Next() {
								continue
							}
							if encRefused(reflect.TypeOf(y)) {
								continue
							}
							callbackErr = e
							b, err, pan := Marshal(y)
							u.State("err", fmt.Sprint(e), r.name, r2.name, errVals[i].Type().String())
							switch {
							case pan != nil:
								u.Fail("Marshal(%s) panicked: %s", describe(y), pan)
							case !errors.Is(err, e):
								u.Fail("Marshal(%s) failed with %v, expected the method's error %v", describe(y), err, e)
							case len(b) != 0:
								u.Fail("Marshal(%s) failed with the method's error but returned %q", describe(y), b)
							}
						}
					}
				}
			})...)
			units = append(units, sizesC14(thorough)...)
			return
		},
	})
}

func marshalerValues() (out []reflect.Value) {
	outs := []string{"", "N;", "i:5;", `a:1:{i:0;s:1:"x";}`, "garbage", "\x00\xff", `";}`, "ERR", filler(700, 1), filler(5000, 0)}
	add := func(v any) { out = append(out, reflect.ValueOf(v)) }
	for i, o := range outs {
		add(MV{o})
		add(&MV{o})
		add(&MP{o})
		add(MStr(o))
		if i < 8 {
			add(ptrTo(MStr(o)))
			add(MSlice{o})
			add(&MSlice{o})
			add(MMap{"out": o})
			add(&MMap{"out": o})
			add(MArr{o})
			add(&MArr{o})
			add(MBytes(o))
			add(ptrTo(MBytes(o)))
			add(MFunc(func() string { return o }))
			add([]MIface{MV{o}, nil, &MP{o}})
			add(struct {
				I MIface `php:"i"`
				N MIface `php:"n"`
				O MIface `php:"o,omitempty"`
			}{I: &MP{o}})
			add(map[string]MIface{"k": MStr(o)})
			add(&struct{ P *MP }{&MP{o}})
		}
	}
	add(MP{"plain struct without its method"})
	add(MInt(7))
	add(ptrTo(MInt(-8)))
	add(ptrTo(MPInt(9)))
	add(MPInt(9))
	add(MBool(true))
	add(MBool(false))
	add(MFloat(1))
	for _, v := range []any{MByte(7), MI8(-3), MU16(9), MF32(1), MAnyS{1, 2}, MAnyS{}, MAnyS(nil), MAnyM{"a": 1}, MAnyM{}, MAnyM(nil), []MByte{1, 2}, [2]MByte{3, 4}, []MPByte{1}, []MF32{1}, MPByte(5), ptrTo(MPByte(6)), ptrTo(MByte(8)), map[string]MByte{"k": 1}, MKept{0}, MKept{1}, MKept{7}, &MKept{2}} {
		add(v)
	}
	add(ptrTo(MFloat(2)))
	add((*MV)(nil))
	add((*MP)(nil))
	add((*MStr)(nil))
	add((*MInt)(nil))
	add((*MSlice)(nil))
	add((*MMap)(nil))
	add((*MArr)(nil))
	add(MSlice(nil))
	add(MMap(nil))
	add(MBytes(nil))
	add([]*MV{nil, {"i:1;"}, nil})
	add([]*MP{nil, {"i:1;"}, nil})
	add([]MIface{nil, (*MV)(nil), (*MP)(nil)})
	add(map[string]*MP{"n": nil})
	add(map[int]MIface{0: nil, 5: MV{"b:1;"}})
	add(struct {
		A *MV
		B *MP
		C MIface
		D *MIface
	}{})
	add(struct {
		A *MV    `php:",omitempty"`
		B *MP    `php:",omitempty"`
		C MIface `php:",omitempty"`
		D MV     `php:",omitempty"`
	}{})
	add(MNest{[]any{1, MV{"i:2;"}, &MNest{"deep"}}})
	add(&MNest{MNest{MNest{map[string]any{"k": MNest{nil}}}}})
	add(MNest{make(chan int)})
	add(BothT{"b"})
	add(&BothT{"b"})
	add([2]MV{{"i:1;"}, {"i:2;"}})
	add(&[2]*MP{{"i:1;"}, nil})
	add(EmbMar{MV: MV{"s:3:\"emb\";"}, X: 1})
	add(&EmbMar{MV: MV{"s:3:\"emb\";"}, X: 1})
	// methods promoted from embedded fields of other kinds, to the type or only to its pointer
	add(ProMStr{"i:1;", 2})
	add(&ProMStr{"i:1;", 2})
	add(ProMP{MP{"i:1;"}, 2})
	add(&ProMP{MP{"i:3;"}, 2})
	add((*ProMP)(nil))
	add([]*ProMP{nil, {MP{"i:3;"}, 2}})
	add(map[string]ProMP{"k": {}})
	add(ProMBytes{1, MBytes("N;")})
	add(ProIface{MV{"b:1;"}, 3})
	add(&ProIface{&MP{"b:1;"}, 3})
	add(ProTwo{"x", MBytes("y")})
	add(ProTwo{`i:1;`, MBytes(`i:2;`)})
	add(ProShadow{"i:9;", 4})
	add(ProBoth{BothT{"q"}, 4})
	add(ProMU{"i:7;", 4, 5})
	add(ProUStr{"s", 5})
	add(struct{ MStr }{"i:6;"})
	add(&struct {
		A int
		MP
	}{1, MP{"i:8;"}})
	add(struct {
		A ProMStr  `php:"a,omitempty"`
		B *ProMP   `php:"b,omitempty"`
		C ProIface `php:"c,omitempty"`
		D any      `php:"d,omitempty"`
	}{A: ProMStr{"i:1;", 0}, B: &ProMP{MP{"i:2;"}, 1}, C: ProIface{MStr("i:3;"), 0}, D: ProMBytes{0, MBytes("i:4;")}})
	return
}

// EmbMar gets its method from an embedded field.
type EmbMar struct {
	MV
	X int
}

// marCase is encodeCase without the demand that the output is well-formed, with error identity.
func marCase(u *U, v any) {
	p, want, why := modelEncode(v)
	lastMErr = nil
	b, err, pan := Marshal(v)
	u.State(clip(describe(v), 300), want.String(), string(b))
	if pan != nil {
		u.Fail("Marshal(%s) panicked: %s", describe(v), pan)
		return
	}
	switch want {
	case vAny:
	case vReject:
		if err == nil {
			u.Fail("Marshal(%s) = %q, expected an error (%s)", describe(v), b, why)
		} else if len(b) > 0 {
			u.Fail("Marshal(%s) failed with %v and returned %q", describe(v), err, b)
		} else if why == "marshaler error" && !errors.Is(err, errMarshal) && (lastMErr == nil || !errors.Is(err, lastMErr)) {
			u.Fail("Marshal(%s) failed with %v, expected the method's error", describe(v), err)
		}
	case vOK:
		if err != nil {
			u.Fail("Marshal(%s) failed: %v; expected %s", describe(v), err, clip(patString(p), 1500))
		} else if !matches(p, b) {
			u.Fail("Marshal(%s) = %s, expected %s", describe(v), clipq(string(b)), clip(patString(p), 1500))
		}
	}
}

// ifaceCase decodes into a struct whose interface fields hold Unmarshalers.
func ifaceCase(u *U, d, d2 string, order, kind int) {
	parts := []string{`s:1:"a";i:42;`, `s:1:"x";` + d, `s:1:"b";s:3:"end";`, `s:1:"y";` + d2}
	switch order {
	case 1:
		parts[0], parts[1] = parts[1], parts[0]
	case 2:
		parts = []string{parts[3], parts[2], parts[1], parts[0]}
	case 3:
		parts = []string{parts[1], parts[3], parts[0], parts[2]}
	}
	doc := "a:4:{" + strings.Join(parts, "") + "}"
	u.State(doc, fmt.Sprint(kind))
	s1, s2 := &scribbler{}, &scribbler{}
	var got string
	var x, y UIface = s1, s2
	if kind == 1 {
		x = UVal{&got}
	}
	dst := &ifaceDest{X: x, Y: y}
	var err error
	var pan *panicValue
	if kind == 2 {
		arr := struct {
			P *ifaceDest
			L string
		}{P: dst}
		doc = `a:2:{s:1:"P";` + doc + `s:1:"L";s:1:"l";}`
		err, pan = Unmarshal([]byte(doc), &arr)
		if err == nil && pan == nil && (arr.L != "l" || arr.P != dst) {
			u.Fail("Unmarshal(%s) into a struct with a non-nil pointer: %s", clipq(doc), describeValue(reflect.ValueOf(arr), 6))
			return
		}
	} else {
		err, pan = Unmarshal([]byte(doc), dst)
	}
	if pan != nil || err != nil {
		u.Fail("Unmarshal(%s) into interfaces that hold Unmarshalers failed: %v %v", clipq(doc), err, pan)
		return
	}
	if dst.A != 42 || dst.B != "end" {
		u.Fail("Unmarshal(%s) into interfaces that hold Unmarshalers: other fields are %d, %q", clipq(doc), dst.A, dst.B)
		return
	}
	seen := func(s *scribbler, x UIface, d string, what string) {
		if d == "N;" {
			if len(s.seen) != 0 || x != nil {
				u.Fail("Unmarshal(%s): field %s: null gave calls %q and %v", clipq(doc), what, s.seen, x)
			}
		} else if len(s.seen) != 1 || s.seen[0] != d || x != UIface(s) {
			u.Fail("Unmarshal(%s): field %s: got %q, expected one call with %q", clipq(doc), what, s.seen, d)
		}
	}
	if kind == 1 {
		if want := strings.Replace(d, "N;", "", 1); d == "N;" && (dst.X != nil || got != "") || d != "N;" && got != d {
			u.Fail("Unmarshal(%s): value receiver got %q, expected %q", clipq(doc), got, want)
		}
	} else {
		seen(s1, dst.X, d, "x")
	}
	seen(s2, dst.Y, d2, "y")
}
