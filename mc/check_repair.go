package main

// C11: a value that could not be encoded is repaired and encoded again. Nothing of the failed
// call - marks on the parts it was in, its depth, its output - may be left.

import (
	"errors"
	"fmt"
	"reflect"
)

type repBox struct {
	V any
	N *repBox
}

type repMar struct{ mode int }

func (m repMar) MarshalPHP() ([]byte, error) {
	switch m.mode {
	case 1:
		return nil, errors.New("harness: not yet")
	case 2:
		panic("harness: not yet")
	}
	return []byte("i:77;"), nil
}
func (m repMar) ModelMarshal() (string, error) { return "i:77;", nil }

var repWraps = []struct {
	name string
	f    func(x any) any
}{
	{"[]any", func(x any) any { return []any{x} }},
	{"map", func(x any) any { return map[string]any{"k": x} }},
	{"*struct", func(x any) any { return &repBox{V: x} }},
	{"*any", func(x any) any { return &x }},
	{"*array", func(x any) any { return &[1]any{x} }},
	{"struct", func(x any) any { return anyBox{V: x} }},
	{"[]*struct", func(x any) any { return []*repBox{{V: x}} }},
	{"*map", func(x any) any { m := map[int]any{3: x}; return &m }},
	{"[]any 3", func(x any) any { return []any{1, x, x}[:2] }},
	{"[][]any", func(x any) any { return [][]any{{x}} }},
	{"map of *struct", func(x any) any { return map[string]*repBox{"k": {V: x}} }},
	{"*[]any", func(x any) any { s := []any{x}; return &s }},
}

// places whose content can be exchanged
var repHolders = []struct {
	name string
	f    func() (x any, set func(v any))
}{
	{"*struct", func() (any, func(any)) { b := &repBox{}; return b, func(v any) { b.V = v } }},
	{"[]any", func() (any, func(any)) { s := []any{nil, 1}; return s, func(v any) { s[0] = v } }},
	{"map", func() (any, func(any)) { m := map[string]any{}; return m, func(v any) { m["x"] = v } }},
	{"*any", func() (any, func(any)) { p := new(any); return p, func(v any) { *p = v } }},
	{"linked", func() (any, func(any)) {
		b := &repBox{N: &repBox{N: &repBox{}}}
		return b, func(v any) { b.N.N.V = v }
	}},
}

func repairCase(u *U, build func(x any) any, holder, bad, times int, what string) {
	if !u.Next() {
		return
	}
	x, set := repHolders[holder].f()
	root := build(x)
	breakIt := func() {
		switch bad {
		case 0:
			set(make(chan int))
		case 1:
			set(repMar{1})
		case 2:
			set(repMar{2})
		case 3:
			set(root) // a cycle
		case 4:
			set([]any{1, map[string]any{"f": func() {}}})
		}
	}
	for r := 0; r < 2; r++ {
		for i := 0; i < times; i++ {
			breakIt()
			b, err, pan := Marshal(root)
			if bad == 2 && pan == nil {
				u.Fail("%s: the panic of a Marshaler was swallowed: %q, %v", what, b, err)
				return
			}
			if bad != 2 && pan != nil {
				u.Fail("%s: Marshal panicked: %s", what, pan)
				return
			}
			if bad != 2 && err == nil {
				u.Fail("%s: Marshal succeeded with %s", what, clipq(string(b)))
				return
			}
		}
		for _, good := range []any{r, repMar{0}, []any{r, "s"}, &repBox{V: 1.5}} {
			set(good)
			if _, ok := encodeCase(u, root); !ok {
				u.Fail("%s: the value is not encoded any more after it was repaired", what)
				return
			}
			if _, ok := encodeCase(u, []any{root, x, root}); !ok {
				u.Fail("%s: shared parts are not encoded any more after the value was repaired", what)
				return
			}
		}
	}
}

func repairUnits(thorough bool) (units []Unit) {
	nw := len(repWraps)
	depths := []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 17, 33, 100}
	deep := []int{500, 998, 1000, 1001, 2500}
	if thorough {
		depths, deep = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 32, 33, 64, 100}, []int{498, 500, 990, 997, 998, 999, 1000, 1001, 1002, 1003, 1005, 1500, 2001, 4000}
	}
	chain := func(d int, pat []int, x any) any {
		for i := d - 1; i >= 0; i-- {
			x = repWraps[pat[i%len(pat)]].f(x)
		}
		return x
	}
	units = append(units, chunked("repaired", nw*nw, 3, func(u *U, i int) {
		pat := []int{i / nw, i % nw}
		ds := depths
		if pat[0] == pat[1] || thorough {
			ds = append(append([]int{}, depths...), deep...)
		}
		for _, d := range ds {
			for h := range repHolders {
				for bad := 0; bad < 5; bad++ {
					for _, times := range []int{1, 3} {
						if (times > 1 && d > 9 || d > 400 && h > 1) && !thorough {
							continue
						}
						repairCase(u, func(x any) any { return chain(d, pat, x) }, h, bad, times, fmt.Sprintf("%d levels of %s and %s, %s, fault %d, %d times", d, repWraps[pat[0]].name, repWraps[pat[1]].name, repHolders[h].name, bad, times))
					}
				}
			}
		}
	})...)
	// many parts before the fault, and the same fault many times
	units = append(units, chunked("repaired-wide", nw, 1, func(u *U, i int) {
		for _, n := range []int{1, 2, 7, 15, 16, 31, 63, 64, 65, 100, 101, 127, 128, 200, 1000} {
			for h := range repHolders {
				for bad := 0; bad < 5; bad++ {
					for _, times := range []int{1, 40} {
						if (times*n > 700 || n > 200 && h > 0) && !thorough {
							continue
						}
						repairCase(u, func(x any) any {
							l := make([]any, 0, n+1)
							for k := 0; k < n; k++ {
								l = append(l, repWraps[i].f(repWraps[(i+k)%nw].f(k)))
							}
							return append(l, repWraps[i].f(x))
						}, h, bad, times, fmt.Sprintf("%d parts before, %s, %s, fault %d, %d times", n, repWraps[i].name, repHolders[h].name, bad, times))
					}
				}
			}
		}
	})...)
	return
}

// C09: cycles of every length over every two kinds of parts, entered after a tail.
func longCycleUnits(thorough bool) []Unit {
	nw := len(repWraps)
	var ns []int
	for n := 0; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 63, 64, 65, 100, 127, 128, 199, 200, 255, 256, 333, 499, 500, 501, 998, 999, 1000, 1001, 1002, 1999, 2001, 3500)
	if thorough {
		for n := 41; n < 300; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 332, 334, 5000, 10000)
	}
	return chunked("long-cycles", nw*nw, 3, func(u *U, i int) {
		pat := []int{i / nw, i % nw}
		for _, n := range ns {
			for h := range repHolders {
				if n > 300 && h != (i+n)%len(repHolders) && !thorough {
					continue
				}
				for _, tail := range []int{0, 1, 7, 1003} {
					if tail > 0 && (n > 12 || h > 1) && !thorough {
						continue
					}
					if !u.Next() {
						continue
					}
					x, set := repHolders[h].f()
					cyc := x
					for k := n - 1; k >= 0; k-- {
						cyc = repWraps[pat[k%2]].f(cyc)
					}
					root := cyc
					for k := 0; k < tail; k++ {
						root = repWraps[pat[1]].f(root)
					}
					what := fmt.Sprintf("a cycle of %d parts %s and %s and %s, behind %d more", n, repWraps[pat[0]].name, repWraps[pat[1]].name, repHolders[h].name, tail)
					set(cyc)
					u.State(what)
					for r := 0; r < 2; r++ {
						if b, err, pan := Marshal(root); pan != nil {
							u.Fail("%s: Marshal panicked: %s", what, pan)
							return
						} else if err == nil {
							u.Fail("%s: Marshal succeeded with %s", what, clipq(string(b)))
							return
						}
					}
					set("end") // the same without the cycle
					if _, ok := encodeCase(u, root); !ok {
						u.Fail("%s: the value without the cycle is not encoded", what)
						return
					}
				}
			}
		}
	})
}

var _ = reflect.TypeOf
