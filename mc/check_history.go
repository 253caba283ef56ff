package main

// C11: the outcome of a call does not depend on the calls before it.
// C19 uses the same machinery for the order in which types are first used.

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	php "github.com/trim21/go-phpserialize"
)

type hNode struct {
	V    any    `php:"v"`
	Next *hNode `php:"n"`
}

type hTyped struct {
	N    int     `php:"n,string"`
	F    float64 `php:"f,string"`
	B    bool    `php:"b,string"`
	S    string  `php:"s"`
	Sub  *hTyped `php:"sub"`
	L    []hSub  `php:"l"`
	M    map[string]hSub
	Omit int `php:"o,omitempty"`
}

type hSub struct {
	X int    `php:"x"`
	Y string `php:"y"`
	Z any    `php:"z"`
}

// hMar does what its function says.
type hMar struct{ f func() ([]byte, error) }

func (m hMar) MarshalPHP() ([]byte, error) { return m.f() }

// hUnm does what its bytes say.
type hUnm struct{ Raw string }

func (m *hUnm) UnmarshalPHP(b []byte) error {
	m.Raw = string(b)
	switch {
	case strings.Contains(m.Raw, "PANIC"):
		panic("harness: unmarshaler panic")
	case strings.Contains(m.Raw, "FAIL"):
		return errUnmarshal
	case strings.Contains(m.Raw, "NEST"):
		var v any
		if err := php.Unmarshal(b, &v); err != nil {
			return err
		}
		out, err := php.Marshal(v)
		m.Raw += "->" + string(out)
		return err
	case strings.Contains(m.Raw, "SCRIB"):
		for i := range b {
			b[i] = '#'
		}
		_ = append(b, "################################"...)
	}
	return nil
}

func hList(n int, last any) *hNode {
	var l *hNode
	for i := 0; i < n; i++ {
		l = &hNode{V: i, Next: l}
		if i == 0 {
			l.V = last
		}
	}
	return l
}

func anyList(n int, last any) any {
	x := last
	for i := 0; i < n; i++ {
		x = []any{x}
	}
	return x
}

func hPanic() hMar {
	return hMar{func() ([]byte, error) { panic("harness: marshaler panic") }}
}

type hEnvGC struct{}

// hDeep is the list whose end the history ops exchange: the same objects appear in failing and good calls.
type hDeep struct {
	head, tail *hNode
}

func histOpsC11() []hop {
	var ops []hop
	add := func(name string, f func(e *henv) string) { ops = append(ops, hop{name, f}) }
	mar := func(name string, mk func(e *henv) any) {
		name = "Marshal " + name
		add(name, func(e *henv) string { return e.mar(name, mk(e)) })
	}
	unm := func(name, doc string, mk func() any) {
		name = "Unmarshal " + name
		add(name, func(e *henv) string { return e.unm(name, doc, mk()) })
	}
	typed := func() *hTyped {
		return &hTyped{N: -5, F: 0.25, B: true, S: "str", Sub: &hTyped{F: 1e300, L: []hSub{{1, "y", nil}, {2, "", 1.5}}}, L: []hSub{{3, "q", []any{"in", 4}}}, M: map[string]hSub{"k": {9, "w", hSub{1, "z", true}}}}
	}
	// environment: what the garbage collector may do to pools between calls
	add("GC (pools emptied)", func(e *henv) string { runtime.GC(); runtime.GC(); return "gc" })
	add("GC (pools aged)", func(e *henv) string { runtime.GC(); return "gc" })

	mar("int", func(e *henv) any { return 42 })
	mar("string", func(e *henv) any { return "hello" })
	mar("3000 byte string", func(e *henv) any { return strings.Repeat("abc", 1000) })
	mar("1 MB string in a struct", func(e *henv) any { return hSub{1, strings.Repeat("z", 1<<20), "after"} })
	mar("nil", func(e *henv) any { return nil })
	mar("struct with every option", func(e *henv) any { return typed() })
	mar("structs in structs", func(e *henv) any { return []hSub{{1, "a", hSub{2, "b", hSub{3, "c", &hSub{4, "d", nil}}}}} })
	mar("float as string", func(e *henv) any {
		return struct {
			A float32 `php:"a,string"`
			B any     `php:"b,string"`
			C *uint64 `php:"c,string"`
		}{0.1, -1.5e-7, ptrTo(uint64(1 << 63))}
	})
	mar("[]byte", func(e *henv) any { return []byte("bytes\x00") })
	mar("map", func(e *henv) any { return map[int]any{-3: map[string]any{"k": 1.5}} })
	mar("empty map", func(e *henv) any { return map[int]int{} })
	mar("unsupported type", func(e *henv) any { return make(chan int) })
	mar("unsupported after output", func(e *henv) any { return []any{"out", hSub{1, "a", 2}, func() {}} })
	mar("unsupported in nested structs", func(e *henv) any { return hSub{1, "a", hSub{2, "b", []any{hSub{3, "c", make(chan int)}}}} })
	mar("embedded struct", func(e *henv) any { return struct{ hSub }{} })
	mar("nested pointer", func(e *henv) any { p := ptrTo(1); return &p })
	mar("bad map key in any", func(e *henv) any { return []any{map[bool]int{true: 1}} })
	mar("marshaler", func(e *henv) any { return []any{MV{"i:1;"}, &MP{"N;"}, hSub{1, "a", MStr("b:1;")}} })
	mar("marshaler error", func(e *henv) any { return hSub{1, "a", []any{"x", MV{"ERR"}}} })
	mar("marshaler panic", func(e *henv) any { return hSub{1, "a", []any{"x", hSub{2, "b", hPanic()}}} })
	mar("marshaler panic below 1200 pointers", func(e *henv) any { return hList(1200, hPanic()) })
	mar("marshaler panic on top", func(e *henv) any { return hPanic() })
	mar("marshaler that calls Marshal", func(e *henv) any {
		return []any{"before", hSub{1, "b", hMar{func() ([]byte, error) { return php.Marshal(typed()) }}}, "after"}
	})
	mar("marshaler whose Marshal call fails", func(e *henv) any {
		return []any{"before", hMar{func() ([]byte, error) {
			if _, err := php.Marshal([]any{1, make(chan int)}); err == nil {
				return nil, errors.New("no error")
			}
			return []byte("b:1;"), nil
		}}, "after"}
	})
	mar("marshaler whose Marshal call panics", func(e *henv) any {
		return []any{"before", hSub{1, "c", hMar{func() (b []byte, err error) {
			defer func() { recover(); b = []byte("b:0;") }()
			return php.Marshal(hSub{1, "inner", hPanic()})
		}}}, "after"}
	})
	mar("marshaler that calls Unmarshal", func(e *henv) any {
		return []any{hMar{func() ([]byte, error) {
			var v hTyped
			if err := php.Unmarshal([]byte(`a:2:{s:1:"s";s:2:"in";s:3:"sub";a:1:{s:1:"n";s:1:"7";}}`), &v); err != nil {
				return nil, err
			}
			return php.Marshal(v)
		}}, "after"}
	})
	mar("marshaler that keeps its output", func(e *henv) any {
		b := []byte("s:4:\"kept\";spare")
		return []any{hMar{func() ([]byte, error) { return b[:11], nil }}, "after"}
	})
	// marshalers that return a slice they keep, with room behind it: it stays theirs
	keptMar := func(name string, n int, wrap func(m hMar) any) {
		name = "Marshal a marshaler that keeps its output, " + name
		add(name, func(e *henv) string {
			first := e.objs[name] == nil
			b := obj(e, name, func() []byte {
				return append(make([]byte, 0, n+600), encStr(strings.Repeat("k", n))...)
			})
			if first {
				e.retain(name, "the slice the marshaler keeps", reflect.ValueOf(b[:cap(b)]))
			}
			return e.mar(name, wrap(hMar{func() ([]byte, error) { return b, nil }}))
		})
	}
	keptMar("at the top", 6, func(m hMar) any { return m })
	keptMar("behind a pointer", 2000, func(m hMar) any { return &m })
	keptMar("in a struct", 1000, func(m hMar) any {
		return struct {
			A hMar
			B any
			C []hMar
		}{m, m, []hMar{m, m}}
	})
	mar("cycle of struct pointers", func(e *henv) any { n := &hNode{V: 1}; n.Next = &hNode{V: 2, Next: n}; return n })
	mar("cycle of []any", func(e *henv) any { s := []any{1, nil}; s[1] = s; return s })
	mar("cycle of maps", func(e *henv) any { m := map[string]any{}; m["m"] = []any{m}; return m })
	mar("cycle of any pointers", func(e *henv) any { var x any; x = &x; return &x })
	mar("cycle of typed maps", func(e *henv) any { m := RM{}; m["m"] = m; return m })
	mar("990 pointers deep", func(e *henv) any { return hList(990, "end") })
	mar("1010 pointers deep", func(e *henv) any { return hList(1010, "end") })
	mar("2500 slices deep", func(e *henv) any { return anyList(2500, "end") })
	mar("shared parts", func(e *henv) any {
		s := []any{1, 2}
		m := map[string]any{"s": s}
		n := &hNode{V: s}
		return []any{s, s, m, m, n, n, &n.V, []*hNode{n, n}}
	})
	mar("shared parts below 1100 pointers", func(e *henv) any {
		s := []any{1, 2}
		n := &hNode{V: s}
		return hList(1100, []any{s, s, n, n, []*hNode{n, n}, map[string]any{"n": n}})
	})
	deep := func(e *henv) *hDeep {
		return obj(e, "deep", func() *hDeep {
			d := &hDeep{}
			d.head = hList(1300, "end")
			for d.tail = d.head; d.tail.Next != nil; d.tail = d.tail.Next {
			}
			return d
		})
	}
	persistent := func(name string, end func(d *hDeep) (any, *hNode)) {
		name = "Marshal a kept list of 1300 nodes ending in " + name
		add(name, func(e *henv) string {
			d := deep(e)
			d.tail.V, d.tail.Next = end(d)
			s := e.mar(name, d.head)
			d.tail.V, d.tail.Next = "end", nil
			return s
		})
	}
	persistent("a string", func(d *hDeep) (any, *hNode) { return "end", nil })
	persistent("a channel", func(d *hDeep) (any, *hNode) { return make(chan int), nil })
	persistent("a panic", func(d *hDeep) (any, *hNode) { return hPanic(), nil })
	persistent("a marshaler error", func(d *hDeep) (any, *hNode) { return MV{"ERR"}, nil })
	persistent("itself", func(d *hDeep) (any, *hNode) { return 1, d.head })
	persistent("a cycle further down", func(d *hDeep) (any, *hNode) { return 1, d.head.Next.Next })
	wide := func(e *henv) []any {
		return obj(e, "wide", func() []any { return []any{map[string]any{"p": nil}, &hNode{V: []any{nil}}, nil} })
	}
	persistentAny := func(name string, end func() any) {
		name = "Marshal a kept []any holding " + name
		add(name, func(e *henv) string {
			w := wide(e)
			w[0].(map[string]any)["p"] = end()
			w[1].(*hNode).V.([]any)[0] = end()
			w[2] = end()
			s := e.mar(name, w)
			w[0].(map[string]any)["p"], w[1].(*hNode).V.([]any)[0], w[2] = nil, nil, nil
			return s
		})
	}
	persistentAny("integers", func() any { return 5 })
	persistentAny("channels", func() any { return make(chan int) })
	persistentAny("marshaler errors", func() any { return MV{"ERR"} })
	persistentAny("panics", func() any { return hPanic() })
	add("Marshal a kept []any holding itself", func(e *henv) string {
		w := wide(e)
		w[2] = w
		s := e.mar("kept cycle", w)
		w[2] = nil
		return s
	})

	newAny := func() any { return new(any) }
	unm("int", "i:42;", func() any { return new(int) })
	unm("int range error", "i:300;", func() any { return new(int8) })
	unm("string", `s:5:"hello";`, func() any { return new(string) })
	unm("[]byte", `s:5:"hello";`, func() any { return new([]byte) })
	unm("3000 byte string", `s:3000:"`+strings.Repeat("abc", 1000)+`";`, func() any { return new(string) })
	unm("300 KB of strings", `a:3:{i:0;s:100000:"`+strings.Repeat("x", 100000)+`";i:1;s:100000:"`+strings.Repeat("y", 100000)+`";i:2;s:100000:"`+strings.Repeat("z", 100000)+`";}`, func() any { return new([]string) })
	unm("mixed data into any", `a:3:{i:0;s:3:"abc";s:1:"k";a:2:{i:0;d:1.5;i:1;b:1;}i:7;O:3:"Cls":1:{s:1:"p";s:2:"pv";}}`, newAny)
	full := `a:7:{s:1:"n";s:2:"-5";s:1:"f";s:4:"0.25";s:1:"b";s:4:"true";s:1:"s";s:3:"str";s:3:"sub";a:1:{s:1:"s";s:5:"inner";}s:1:"l";a:2:{i:0;a:2:{s:1:"x";i:1;s:1:"y";s:1:"q";}i:1;a:1:{s:1:"z";a:1:{i:0;s:1:"w";}}}s:1:"M";a:1:{s:1:"k";a:1:{s:1:"y";s:2:"mv";}}}`
	unm("struct with every option", full, func() any { return new(hTyped) })
	unm("struct, skipping unknown members", `a:4:{s:2:"no";a:2:{i:0;s:2:"xx";i:1;O:1:"C":1:{s:1:"p";d:1;}}s:1:"x";i:3;s:4:"more";N;s:1:"y";s:2:"yy";}`, func() any { return new(hSub) })
	unm("struct in the middle of which a value is bad", `a:3:{s:1:"x";i:3;s:1:"y";i:4;s:1:"z";i:1;}`, func() any { return new(hSub) })
	unm("struct with bad string option", `a:1:{s:1:"n";s:3:"5x5";}`, func() any { return new(hTyped) })
	unm("truncated struct", full[:len(full)/2], func() any { return new(hTyped) })
	unm("slice", `a:3:{i:0;i:1;i:1;i:2;i:2;i:3;}`, func() any { return new([]int) })
	unm("slice of slices", `a:3:{i:0;a:2:{i:0;s:1:"a";i:1;s:1:"b";}i:1;a:0:{}i:2;a:1:{i:0;s:1:"c";}}`, func() any { return new([][]string) })
	unm("slice failing at its end", `a:3:{i:0;a:2:{i:0;s:1:"a";i:1;s:1:"b";}i:1;a:0:{}i:2;a:1:{i:0;i:9;}}`, func() any { return new([][]string) })
	unm("array", `a:2:{i:1;s:1:"a";i:5;s:1:"b";}`, func() any { return new([3]string) })
	unm("map", `a:2:{s:1:"a";i:1;s:1:"b";i:2;}`, func() any { return new(map[string]int) })
	unm("map failing at its end", `a:2:{s:1:"a";i:1;s:1:"b";s:1:"q";}`, func() any { return new(map[string]int) })
	unm("data after the value", `i:5;i:6;`, func() any { return new(int) })
	unm("N;", `N;`, func() any { return new(*hTyped) })
	unm("wrong type", `s:1:"a";`, func() any { return new(map[string]int) })
	unm("unsupported destination", `a:1:{s:1:"C";i:1;}`, func() any { return new(struct{ C chan int }) })
	unm("duplicate keys", `a:0:{}`, func() any {
		return new(struct {
			A int `php:"k"`
			B int `php:"k"`
		})
	})
	unm("declared length too large", `a:5:{i:0;i:1;}`, func() any { return new([]int) })
	unm("non-pointer", `i:1;`, func() any { return 5 })
	unm("unmarshalers", `a:3:{i:0;s:1:"a";i:1;a:1:{i:0;i:5;}i:2;s:5:"SCRIB";}`, func() any { return new([]hUnm) })
	unm("unmarshaler error", `a:3:{i:0;s:1:"a";i:1;a:1:{i:0;s:4:"FAIL";}i:2;s:1:"b";}`, func() any { return new([]hUnm) })
	unm("unmarshaler panic", `a:3:{i:0;s:1:"a";i:1;a:1:{i:0;s:5:"PANIC";}i:2;s:1:"b";}`, func() any { return new([]hUnm) })
	unm("unmarshaler panic in a struct", `a:3:{s:1:"x";i:7;s:1:"z";s:5:"PANIC";s:1:"y";s:1:"b";}`, func() any {
		return new(struct {
			X int    `php:"x"`
			Z *hUnm  `php:"z"`
			Y string `php:"y"`
		})
	})
	unm("unmarshaler that calls Unmarshal and Marshal", `a:3:{i:0;s:4:"NEST";i:1;a:2:{i:0;s:4:"NEST";i:1;a:0:{}}i:2;s:1:"b";}`, func() any { return new([]hUnm) })
	deepDoc := func(n int, core string) string {
		return strings.Repeat("a:1:{i:0;", n) + core + strings.Repeat("}", n)
	}
	unm("9999 levels into any", deepDoc(9999, "i:1;"), newAny)
	unm("10001 levels into any", deepDoc(10001, "i:1;"), newAny)
	unm("10001 levels skipped", `a:1:{s:2:"no";`+deepDoc(10000, "i:1;")+`}`, func() any { return new(hSub) })
	unm("9999 levels skipped", `a:1:{s:2:"no";`+deepDoc(9999, "i:1;")+`}`, func() any { return new(hSub) })
	unm("300 levels, bad at the bottom", deepDoc(300, "x"), newAny)
	unm("1500 levels into recursive slices", deepDoc(1500, "a:0:{}"), func() any { return new(RS) })
	unm("empty input", "", newAny)
	return ops
}

func init() {
	histSets["c11"] = histOpsC11
	register(&Check{
		ID:   "C11",
		Rule: "every sequence of calls up to the length bound over an alphabet of calls (plain, failing half way, panicking in custom marshalers, reentrant, at the depth limits, cyclic, on objects kept between calls; emptying or aging the pools is one of the steps), with repetitions up to 3000; each sequence runs in its own process and every call must give what it gives as the only call of a process; all earlier results are compared again at the end; once more with outputs and inputs overwritten after each call",
		Units: func(thorough bool) (units []Unit) {
			ops := histOpsC11()
			n := len(ops)
			units = append(units, chunked("alone", n, 16, func(u *U, i int) {
				if u.Next() {
					checkHist(u, "c11", ops, []histItem{{i, 1}}, true)
				}
			})...)
			units = append(units, chunked("pairs", n, 1, func(u *U, a int) {
				// all pairs that start with a; the histories chain a,b,a,b... to share processes
				for b := 0; b < n; b++ {
					if u.Next() {
						checkHist(u, "c11", ops, []histItem{{a, 1}, {b, 1}, {a, 1}}, (a+b)%2 == 0)
					}
				}
			})...)
			reps := []int{1100}
			if thorough {
				reps = []int{2, 3, 1001, 3000}
			}
			units = append(units, chunked("repeated", n, 1, func(u *U, a int) {
				slow := false
				for _, w := range []string{"99 levels", "10001", "KB", "1 MB", "1500", "2500", "990 ", "1010 ", "1100", "1200", "1300"} {
					slow = slow || strings.Contains(ops[a].name, w)
				}
				for _, r := range reps {
					if slow && r > 30 {
						r = 30
					}
					// after the repetitions: every op once, in one process, forwards and backwards
					for dir := 0; dir < 2; dir++ {
						if !u.Next() {
							continue
						}
						h := []histItem{{a, r}}
						for i := 0; i < n; i++ {
							j := i
							if dir == 1 {
								j = n - 1 - i
							}
							h = append(h, histItem{j, 1})
						}
						checkHist(u, "c11", ops, h, dir == 1)
					}
				}
			})...)
			if thorough {
				units = append(units, chunked("triples", n, 1, func(u *U, a int) {
					for b := 0; b < n; b++ {
						if !u.Next() {
							continue
						}
						// a, b, then every third call; between two third calls a and b again
						for lo := 0; lo < n; lo += 12 {
							var h []histItem
							for c := lo; c < min(lo+12, n); c++ {
								h = append(h, histItem{a, 1}, histItem{b, 1}, histItem{c, 1})
							}
							checkHist(u, "c11", ops, h, lo%24 == 0)
						}
					}
				})...)
			}
			units = append(units, repairUnits(thorough)...)
			return
		},
	})
}

var _ = reflect.TypeOf
var _ = fmt.Sprint
