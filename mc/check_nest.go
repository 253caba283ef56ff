package main

// C17: data at the bottom of populated nested destinations.

import (
	"fmt"
	"reflect"
	"strings"
)

// nestWraps put a value into a populated container and a document on the way to it.
var nestWraps = []struct {
	name string
	t    func(t reflect.Type) reflect.Type
	v    func(v reflect.Value, t reflect.Type) reflect.Value
	doc  func(d string) string
}{
	{"struct", nestStruct, nestStructVal, func(d string) string { return `a:1:{s:1:"X";` + d + "}" }},
	{"*struct", func(t reflect.Type) reflect.Type { return reflect.PointerTo(nestStruct(t)) }, func(v reflect.Value, t reflect.Type) reflect.Value {
		p := reflect.New(t.Elem())
		p.Elem().Set(nestStructVal(v, t.Elem()))
		return p
	}, func(d string) string { return `O:1:"C":2:{s:1:"u";N;s:1:"X";` + d + "}" }},
	{"struct of pointer", func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Ptr {
			return nestStruct(t)
		}
		return nestStruct(reflect.PointerTo(t))
	}, func(v reflect.Value, t reflect.Type) reflect.Value {
		if v.Kind() != reflect.Ptr {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		}
		return nestStructVal(v, t)
	}, func(d string) string { return `a:2:{s:1:"X";` + d + `s:1:"A";i:5;}` }},
	{"array", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }, func(v reflect.Value, t reflect.Type) reflect.Value {
		a := reflect.New(t).Elem()
		a.Index(0).Set(v)
		a.Index(1).Set(v)
		return a
	}, func(d string) string { return `a:1:{i:1;` + d + "}" }},
	{"slice", reflect.SliceOf, func(v reflect.Value, t reflect.Type) reflect.Value {
		return reflect.Append(reflect.MakeSlice(t, 0, 3), v, v)
	}, func(d string) string { return `a:1:{i:0;` + d + "}" }},
	{"map", func(t reflect.Type) reflect.Type { return reflect.MapOf(typeOf[string](), t) }, func(v reflect.Value, t reflect.Type) reflect.Value {
		m := reflect.MakeMap(t)
		m.SetMapIndex(reflect.ValueOf("k"), v)
		m.SetMapIndex(reflect.ValueOf("l"), v)
		return m
	}, func(d string) string { return `a:1:{s:1:"k";` + d + "}" }},
}

func nestStruct(t reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{sf("A", typeOf[int](), ""), sf("X", t, ""), sf("B", typeOf[[]string](), "")})
}

func nestStructVal(v reflect.Value, t reflect.Type) reflect.Value {
	s := reflect.New(t).Elem()
	s.Field(0).SetInt(9)
	s.Field(1).Set(v)
	s.Field(2).Set(reflect.ValueOf([]string{"b", "c"}))
	return s
}

var nestLeaves = []struct {
	v    any
	docs []string
}{
	{7, []string{"i:3;"}},
	{"old", []string{`s:3:"new";`, `s:0:"";`}},
	{true, []string{"b:0;"}},
	{2.5, []string{"d:-1.5;"}},
	{[]int{1, 2, 3}, []string{"a:1:{i:1;i:8;}", "a:0:{}"}},
	{[]byte("old"), []string{`s:1:"n";`, `s:0:"";`, "a:1:{i:0;i:65;}"}},
	{map[string]int{"a": 1, "b": 2}, []string{`a:1:{s:1:"b";i:5;}`, "a:0:{}"}},
	{[2]int{4, 5}, []string{"a:1:{i:1;i:8;}", "a:0:{}"}},
	{Plain{1, "b"}, []string{`a:1:{s:1:"b";s:1:"n";}`, `a:1:{s:1:"A";N;}`, "a:0:{}", `O:1:"D":0:{}`}},
	{[]*Plain{{1, "b"}, nil}, []string{`a:1:{i:0;a:1:{s:1:"A";i:6;}}`, "a:1:{i:1;N;}"}},
	{map[int]*Plain{1: {1, "b"}}, []string{`a:1:{i:1;a:1:{s:1:"A";i:6;}}`, "a:1:{i:1;N;}"}},
	{struct{ V any }{map[string]any{"a": 1}}, []string{`O:1:"D":1:{s:1:"V";O:1:"E":1:{s:1:"b";i:2;}}`, `a:1:{s:1:"V";a:1:{s:1:"b";i:2;}}`, `a:1:{s:1:"V";O:1:"E":0:{}}`, `a:1:{s:1:"V";N;}`}},
	{struct{ V, W any }{map[any]any{}, map[string]any{}}, []string{`O:1:"D":2:{s:1:"V";a:1:{s:1:"b";i:2;}s:1:"W";O:1:"E":1:{s:1:"b";i:2;}}`, `a:2:{s:1:"V";a:0:{}s:1:"W";a:0:{}}`}},
	{[]any{map[any]any{"a": int64(1)}, []any{1}, &Plain{1, "b"}}, []string{`a:2:{i:0;a:1:{s:1:"b";i:2;}i:2;a:0:{}}`, `a:1:{i:2;O:1:"E":1:{s:1:"A";i:2;}}`}},
	{map[string]any{"x": map[any]any{"a": int64(1)}, "y": []any{1}, "z": map[string]any{"a": 1}}, []string{`a:1:{s:1:"x";a:1:{s:1:"b";i:2;}}`, `a:1:{s:1:"z";O:1:"E":1:{s:1:"b";i:2;}}`, `a:1:{s:1:"y";a:0:{}}`}},
	{[2]any{map[any]any{"a": int64(1)}, &[]int{1, 2}}, []string{`a:2:{i:0;a:1:{s:1:"b";i:2;}i:1;a:1:{i:0;i:3;}}`, `a:1:{i:1;O:1:"E":1:{s:1:"A";i:2;}}`, "a:0:{}"}},
	{[1]*Plain{{1, "b"}}, []string{`a:1:{i:0;a:1:{s:1:"A";i:6;}}`, "a:1:{i:0;N;}"}},
	{mergeT1{N: 5, S: []int{1, 2}, M: map[string]int{"x": 1}, A: [2]int{3, 4}, I: "i", Q: &Plain{2, "q"}, B: []byte("bb")}, []string{`a:3:{s:1:"n";s:2:"12";s:1:"a";a:1:{i:0;i:9;}s:1:"i";a:1:{i:0;i:1;}}`, `a:4:{s:1:"n";N;s:1:"a";N;s:1:"q";N;s:1:"s";N;}`, `a:1:{s:1:"q";a:1:{s:1:"A";i:7;}}`}},
}

func nestCase(u *U, pat []int, leaf int) {
	l := nestLeaves[leaf]
	lv := reflect.ValueOf(l.v)
	// the type and the documents from the inside out
	mk := func() reflect.Value {
		v := deepCopy(lv)
		for _, w := range pat {
			v = nestWraps[w].v(v, nestWraps[w].t(v.Type()))
		}
		d := reflect.New(v.Type()).Elem()
		d.Set(v)
		return d
	}
	ds := append([]string{"N;"}, l.docs...)
	nulls := 0
	for _, w := range pat {
		for i := range ds {
			ds[i] = nestWraps[w].doc(ds[i])
		}
		if nulls++; nulls <= 3 || nulls >= len(pat)-2 {
			ds = append(ds, "N;", "a:0:{}")
		}
	}
	var names []string
	for _, w := range pat[:min(len(pat), 4)] {
		names = append(names, nestWraps[w].name)
	}
	name := fmt.Sprintf("a filled %T in %d levels of %s", l.v, len(pat), strings.Join(names, ", "))
	for _, d := range ds {
		if !u.Next() {
			continue
		}
		dst := mk()
		n := parseDoc(d)
		u.State(name, d)
		if mergeStep(u, d, n, dst, name) {
			mergeStep(u, ds[0], parseDoc(ds[0]), dst, name+" + "+clip(d, 200))
		}
	}
}

func nestUnits(thorough bool) (units []Unit) {
	nw := len(nestWraps)
	var pats [][]int
	maxd := 3
	if thorough {
		maxd = 5
	}
	for d := 1; d <= maxd; d++ {
		total := 1
		for i := 0; i < d; i++ {
			total *= nw
		}
		for k := 0; k < total; k++ {
			p := make([]int, d)
			for i, x := 0, k; i < d; i, x = i+1, x/nw {
				p[i] = x % nw
			}
			pats = append(pats, p)
		}
	}
	// deep ones repeat two kinds
	for _, d := range []int{4, 5, 6, 8, 9, 16, 17, 33} {
		for k := 0; k < nw*nw; k++ {
			a, b := k%nw, k/nw
			if d > 9 && (a == 3 || b == 3) {
				continue // 2^n values
			}
			if d > 9 && (a >= 3 || b >= 3) {
				continue
			}
			p := make([]int, d)
			for i := range p {
				p[i] = []int{a, b}[i%2]
			}
			pats = append(pats, p)
		}
	}
	return chunked("nested", len(pats), 8, func(u *U, i int) {
		for leaf := range nestLeaves {
			nestCase(u, pats[i], leaf)
		}
	})
}
