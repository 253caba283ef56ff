package main

// C09: value graphs.

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

// graphCase compares Marshal of a value that may be cyclic with the reference encoder.
func graphCase(u *U, v any, what string) {
	p, want, why := modelEncodeGraph(v)
	b, err, pan := Marshal(v)
	u.State(want.String(), what)
	u.Cover("graphs_"+strings.ToLower(want.String()), 1)
	if u.verbose {
		u.Show("graph %s: model says %s (%s)", what, want, why)
	}
	if pan != nil {
		u.Fail("Marshal of graph %s panicked: %s", what, pan)
		return
	}
	switch want {
	case vAny:
		return
	case vReject:
		if err == nil {
			u.Fail("Marshal of graph %s = %q, expected an error (%s)", what, clip(string(b), 300), why)
		} else if len(b) > 0 {
			u.Fail("Marshal of graph %s failed with %v and returned %q", what, err, clip(string(b), 300))
		}
		return
	}
	if err != nil {
		u.Fail("Marshal of graph %s failed: %v; it has no cycle, expected %s", what, err, clip(patString(p), 600))
		return
	}
	if !matches(p, b) {
		u.Fail("Marshal of graph %s = %q, expected %s", what, clip(string(b), 600), clip(patString(p), 600))
	}
}

// ---- graphs over struct nodes: every edge kind ----

var edgeKinds = []string{"V", "P", "S", "SP", "M", "MA", "SA", "A", "PA", "PAny", "V=*any", "V=[]any", "V=map", "V=value", "V=*[1]any", "V=[]*T"}

func addEdge(from *RCyc, kind int, to *RCyc) {
	switch kind {
	case 0:
		from.V = to
	case 1:
		from.P = to
	case 2:
		// a slice of the node itself: shares memory with it
		from.S = unsafe.Slice(to, 1)
	case 3:
		from.SP = []*RCyc{nil, to}
	case 4:
		from.M = map[string]*RCyc{"m": to}
	case 5:
		from.MA = map[string]any{"ma": to}
	case 6:
		from.SA = []any{to, 1}
	case 7:
		from.A = [1]*RCyc{to}
	case 8:
		from.PA = &[1]any{to}
	case 9:
		var x any = to
		from.PAny = &x
	case 10:
		var x any = to
		from.V = &x
	case 11:
		from.V = []any{"s", to}
	case 12:
		from.V = map[string]any{"v": to}
	case 13:
		from.V = struct{ In any }{to}
	case 14:
		from.V = &[1]any{to}
	case 15:
		from.V = []*RCyc{to}
	}
}

type edge struct{ kind, to int }

// edgeSets: all sets of at most max edges with kinds below nk to n nodes.
func edgeSets(nk, n, max int) (out [][]edge) {
	var rec func(from int, cur []edge)
	rec = func(from int, cur []edge) {
		out = append(out, append([]edge{}, cur...))
		if len(cur) == max {
			return
		}
		for k := from; k < nk; k++ {
			for t := 0; t < n; t++ {
				rec(k+1, append(cur, edge{k, t}))
			}
		}
	}
	rec(0, nil)
	return
}

func structGraph(sets [][]edge, choice []int) []*RCyc {
	nodes := make([]*RCyc, len(choice))
	for i := range nodes {
		nodes[i] = &RCyc{}
	}
	for i, c := range choice {
		for _, e := range sets[c] {
			addEdge(nodes[i], e.kind, nodes[e.to])
		}
	}
	return nodes
}

func showStructGraph(sets [][]edge, choice []int) string {
	s := "RCyc"
	for i, c := range choice {
		s += fmt.Sprintf(" %d:", i)
		for _, e := range sets[c] {
			s += fmt.Sprintf("%s->%d ", edgeKinds[e.kind], e.to)
		}
	}
	return s
}

// ---- graphs over anonymous containers ----

type graphNode struct {
	name string
	make func() (v any, set func(slot int, to any))
}

type otherBox struct{ A, B any }

var graphNodes = []graphNode{
	{"[]any", func() (any, func(int, any)) { s := make([]any, 2); return s, func(i int, x any) { s[i] = x } }},
	{"map[string]any", func() (any, func(int, any)) {
		m := map[string]any{}
		return m, func(i int, x any) { m[[]string{"a", "b"}[i]] = x }
	}},
	{"*any", func() (any, func(int, any)) {
		p := new(any)
		return p, func(i int, x any) {
			if x != nil {
				*p = x
			}
		}
	}},
	{"*[2]any", func() (any, func(int, any)) { p := new([2]any); return p, func(i int, x any) { p[i] = x } }},
	{"*struct", func() (any, func(int, any)) {
		p := new(otherBox)
		return p, func(i int, x any) {
			if i == 0 {
				p.A = x
			} else {
				p.B = x
			}
		}
	}},
	{"*[]any", func() (any, func(int, any)) { s := make([]any, 2); return &s, func(i int, x any) { s[i] = x } }},
	{"map[int]any", func() (any, func(int, any)) { m := map[int]any{}; return m, func(i int, x any) { m[i] = x } }},
	{"RAnyS", func() (any, func(int, any)) { s := make(RAnyS, 2); return s, func(i int, x any) { s[i] = x } }},
	{"[]map[string]any", func() (any, func(int, any)) {
		s := []map[string]any{{}, nil, {}}
		return s, func(i int, x any) { s[2*i]["k"] = x }
	}},
	{"*Link", func() (any, func(int, any)) {
		p := new(Link)
		return p, func(i int, x any) {
			if l, ok := x.(*Link); ok && i == 1 {
				p.Next = l
			} else if i == 0 {
				p.V = x
			} else if x != nil {
				p.Next = &Link{V: x}
			}
		}
	}},
	{"struct{any}", func() (any, func(int, any)) {
		s := make([]any, 1)
		v := struct{ P [][]any }{[][]any{s, s}}
		return v, func(i int, x any) { s[0] = x }
	}},
	{"map[string]*any", func() (any, func(int, any)) {
		m := map[string]*any{}
		return m, func(i int, x any) { m[[]string{"a", "b"}[i]] = &x }
	}},
}

// containerGraph builds n nodes of the given kinds with two slots each; targets: 0 nil, else node-1.
func containerGraph(kinds, targets []int) []any {
	n := len(kinds)
	vs, sets := make([]any, n), make([]func(int, any), n)
	for i, k := range kinds {
		vs[i], sets[i] = graphNodes[k].make()
	}
	for i := 0; i < n; i++ {
		for s := 0; s < 2; s++ {
			if t := targets[2*i+s]; t > 0 {
				sets[i](s, vs[t-1])
			} else {
				sets[i](s, nil)
			}
		}
	}
	return vs
}

func showContainerGraph(kinds, targets []int) string {
	s := ""
	for i, k := range kinds {
		s += fmt.Sprintf("%d:%s{%d,%d} ", i, graphNodes[k].name, targets[2*i]-1, targets[2*i+1]-1)
	}
	return s
}

// counter enumerates all vectors of n digits below base.
func counter(n, base int, f func(d []int)) {
	d := make([]int, n)
	for {
		f(d)
		i := 0
		for ; i < n; i++ {
			d[i]++
			if d[i] < base {
				break
			}
			d[i] = 0
		}
		if i == n {
			return
		}
	}
}

// ---- references into one block of memory ----

type blk [4]any

type blkStruct struct{ X any }
type blkStruct2 struct{ X, Y any }

// blockRefs: everything that can refer to parts of b's first n words.
func blockRefs(b *blk, n int) (refs []any, names []string) {
	add := func(name string, v any) { refs, names = append(refs, v), append(names, name) }
	for i := 0; i < n; i++ {
		for j := i + 1; j <= n; j++ {
			add(fmt.Sprintf("s[%d:%d]", i, j), b[i:j:j])
		}
	}
	for i := 0; i < n; i++ {
		add(fmt.Sprintf("&b[%d]", i), &b[i])
		add(fmt.Sprintf("(*struct)(&b[%d])", i), (*blkStruct)(unsafe.Pointer(&b[i])))
		add(fmt.Sprintf("(*[1]any)(&b[%d])", i), (*[1]any)(unsafe.Pointer(&b[i])))
		if i+1 < n {
			add(fmt.Sprintf("(*struct2)(&b[%d])", i), (*blkStruct2)(unsafe.Pointer(&b[i])))
			add(fmt.Sprintf("(*[2]any)(&b[%d])", i), (*[2]any)(unsafe.Pointer(&b[i])))
		}
	}
	add("[0:0]", b[0:0])
	return
}

// ---- recursive types: every slot to every node of a fitting type ----

type typedNode struct{ v reflect.Value } // a pointer, map or slice

type typedSlot struct {
	set func(reflect.Value)
	t   reflect.Type
	at  string
}

// expand allocates references inside rv to the given depth and collects nodes and slots.
func expand(rv reflect.Value, depth int, at string, nodes *[]typedNode, slots *[]typedSlot, set func(reflect.Value)) {
	t := rv.Type()
	switch t.Kind() {
	case reflect.Interface:
		*slots = append(*slots, typedSlot{set, t, at})
	case reflect.Pointer:
		*slots = append(*slots, typedSlot{set, t, at})
		if depth <= 0 || t.Elem().Kind() == reflect.Pointer {
			return
		}
		p := reflect.New(t.Elem())
		e := p.Elem()
		expand(e, depth-1, at+"*", nodes, slots, func(x reflect.Value) { e.Set(x) })
		set(p.Convert(t))
		*nodes = append(*nodes, typedNode{p.Convert(t)})
	case reflect.Slice:
		*slots = append(*slots, typedSlot{set, t, at})
		if depth <= 0 || t.Elem().Kind() == reflect.Uint8 {
			return
		}
		s := reflect.MakeSlice(t, 2, 2)
		for i := 0; i < 2; i++ {
			e := s.Index(i)
			expand(e, depth-1-i, fmt.Sprintf("%s[%d]", at, i), nodes, slots, func(x reflect.Value) { e.Set(x) })
		}
		set(s)
		*nodes = append(*nodes, typedNode{s})
	case reflect.Map:
		*slots = append(*slots, typedSlot{set, t, at})
		if depth <= 0 {
			return
		}
		m := reflect.MakeMap(t)
		k := keyDomain(t.Key(), 0)[1]
		e := reflect.New(t.Elem()).Elem()
		expand(e, depth-1, at+"{}", nodes, slots, func(x reflect.Value) { e.Set(x); m.SetMapIndex(k, e) })
		m.SetMapIndex(k, e)
		set(m)
		*nodes = append(*nodes, typedNode{m})
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			e := rv.Index(i)
			expand(e, depth, fmt.Sprintf("%s[%d]", at, i), nodes, slots, func(x reflect.Value) { e.Set(x); set(rv) })
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			e := rv.Field(i)
			expand(e, depth, at+"."+t.Field(i).Name, nodes, slots, func(x reflect.Value) { e.Set(x); set(rv) })
		}
	}
}

func cycTypes() []reflect.Type {
	return []reflect.Type{
		typeOf[*Tree](), typeOf[*Link](), typeOf[RS](), typeOf[RM](), typeOf[RMI](), typeOf[RMS](), typeOf[RSM](), typeOf[RSP](), typeOf[RMP](),
		typeOf[*RAP](), typeOf[RAS](), typeOf[RAM](), typeOf[RSA](), typeOf[RMA](), typeOf[RPA](), typeOf[RPS](), typeOf[RPM](), typeOf[*RSt](), typeOf[RStV](), typeOf[*RStV](), typeOf[RStM](), typeOf[*RStA](),
		typeOf[*RStAA](), typeOf[*MutA](), typeOf[MutB](), typeOf[RStMix](), typeOf[RMix](), typeOf[RNamedIn](), typeOf[RNamedSl](), typeOf[RPtrNamed](), typeOf[RPtrN](),
		typeOf[RIface](), typeOf[RAnyS](), typeOf[*RCyc](), typeOf[map[string]any](), typeOf[[]any](), typeOf[*any](), typeOf[[][]any](), typeOf[map[string][]map[int]any](), typeOf[*[1]*[1]any](),
		typeOf[map[string]*Tree](), typeOf[[]*Link](), typeOf[[2]*Link](), typeOf[*struct{ A, B []*Link }](), typeOf[*struct {
			N RMP `php:"n,omitempty"`
			S RSP `php:",omitempty"`
		}](),
		typeOf[RGen[int]](), typeOf[*RGen[RM]](), typeOf[OmitCyc](),
	}
}

type RGen[T any] struct {
	V    T
	Next *RGen[T]
	M    map[int]RGen[T]
}

type OmitCyc struct {
	P *OmitCyc           `php:"p,omitempty"`
	S []OmitCyc          `php:"s,omitempty"`
	M map[string]OmitCyc `php:"m,omitempty"`
	A any                `php:"a,omitempty"`
	I any                `php:"-"`
}

// ---- long chains ----

// A chain kind wraps a value in one more level.
type chainKind struct {
	name string
	wrap func(v any) any
}

var chainKinds = []chainKind{
	{"[]any", func(v any) any { return []any{v} }},
	{"map[string]any", func(v any) any { return map[string]any{"k": v} }},
	{"*anyBox", func(v any) any { return &anyBox{v} }},
	{"anyBox", func(v any) any { return anyBox{v} }},
	{"*any", func(v any) any { return &v }},
	{"*[1]any", func(v any) any { return &[1]any{v} }},
	{"[1]any", func(v any) any { return [1]any{v} }},
	{"*Link", func(v any) any {
		if l, ok := v.(*Link); ok {
			return &Link{Next: l}
		}
		return &Link{V: v}
	}},
	{"*[]any", func(v any) any { return &[]any{v} }},
	{"RAnyS", func(v any) any { return RAnyS{v} }},
	{"[]map", func(v any) any { return []map[string]any{{"x": v}} }},
	{"*v2", func(v any) any { return &v2{v} }},
	{"*RCyc.SA", func(v any) any { return &RCyc{SA: []any{v}} }},
	{"*RCyc.MA", func(v any) any { return &RCyc{MA: map[string]any{"q": v}} }},
}

// tails: what hangs at the end of a chain. first is the chain's root setter.
type tail struct {
	name string
	make func() any
}

func tails() []tail {
	return []tail{
		{"leaf", func() any { return "leaf" }},
		{"nil", func() any { return nil }},
		{"shared slice twice", func() any { s := []any{1}; return []any{s, s} }},
		{"shared map thrice", func() any {
			m := map[string]any{"s": 1}
			return []any{m, map[string]any{"a": m, "b": m}, m}
		}},
		{"shared pointer", func() any { p := &anyBox{1}; return []any{p, p, []any{p}, p} }},
		{"shared *any", func() any { var x any = 1; return []any{&x, &x} }},
		{"shared typed", func() any { l := &Link{V: 1}; return []*Link{l, l, {Next: l, V: l}} }},
		{"shared array", func() any { p := &[1]any{1}; return [3]any{p, p, p} }},
		{"shared prefixes", func() any { s := []any{1, 2, 3}; s2 := []any{s[:1], s[:2], s, s[1:]}; return s2 }},
		{"first field", func() any { b := &blkStruct2{X: 1}; return []any{&b.X, b, &b.X, b, (*blkStruct)(unsafe.Pointer(b))} }},
		{"pointer to itself inside", func() any { b := &blkStruct2{Y: 1}; b.Y = &b.X; return b }},
		{"shared RM", func() any { m := RM{"a": nil}; return RM{"x": m, "y": m, "z": RM{"w": m}} }},
		{"shared RS", func() any { s := RS{nil}; return RS{s, s, RS{s}} }},
		{"shared Tree", func() any { t := &Tree{V: 3}; return &Tree{Kids: []*Tree{t, t, {Kids: []*Tree{t}}}} }},
		{"ladder", func() any {
			var v any = 1
			for i := 0; i < 8; i++ {
				v = []any{v, v}
			}
			return v
		}},
		{"pointer ladder", func() any {
			l := &Link{}
			for i := 0; i < 8; i++ {
				l = &Link{V: l, Next: l}
			}
			return l
		}},
		{"1000 shared", func() any {
			p := &anyBox{1}
			s := make([]any, 1000)
			for i := range s {
				s[i] = p
			}
			return s
		}},
		{"self slice", func() any { s := make([]any, 1); s[0] = s; return s }},
		{"self map", func() any { m := map[string]any{}; m["m"] = m; return m }},
		{"self *any", func() any { p := new(any); *p = p; return p }},
		{"self pointer", func() any { p := &anyBox{}; p.V = p; return p }},
		{"self Link", func() any { p := &Link{}; p.Next = p; return p }},
		{"self RS", func() any { p := make(RS, 1); p[0] = p; return p }},
		{"self RM", func() any { p := RM{}; p["a"] = p; return p }},
		{"self array", func() any { p := &[2]any{}; p[1] = p; return p }},
		{"two step", func() any { a, b := make([]any, 1), map[string]any{}; a[0] = b; b["x"] = a; return a }},
		{"self after shared", func() any { p := &anyBox{1}; s := make([]any, 3); s[0], s[1], s[2] = p, p, s; return s }},
		{"unsupported", func() any { return make(chan int) }},
	}
}

// sizedNodes: containers of n entries, and what replaces one of them.
var sizedNodes = []struct {
	name string
	make func(n int, fill any) (any, func(pos int, v any))
}{
	{"[]any", func(n int, fill any) (any, func(int, any)) {
		s := make([]any, n)
		for i := range s {
			s[i] = fill
		}
		return s, func(p int, v any) { s[p] = v }
	}},
	{"*[]any", func(n int, fill any) (any, func(int, any)) {
		s := make([]any, n)
		for i := range s {
			s[i] = fill
		}
		return &s, func(p int, v any) { s[p] = v }
	}},
	{"[]any with room", func(n int, fill any) (any, func(int, any)) {
		s := make([]any, n, 2*n+3)
		for i := range s {
			s[i] = fill
		}
		return s, func(p int, v any) { s[p] = v }
	}},
	{"map[string]any", func(n int, fill any) (any, func(int, any)) {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = fill
		}
		return m, func(p int, v any) { m[fmt.Sprint("k", p)] = v }
	}},
	{"map[int]any", func(n int, fill any) (any, func(int, any)) {
		m := map[int]any{}
		for i := 0; i < n; i++ {
			m[i-3] = fill
		}
		return m, func(p int, v any) { m[p-3] = v }
	}},
	{"*array of any", func(n int, fill any) (any, func(int, any)) {
		a := reflect.New(reflect.ArrayOf(n, anyType))
		if fill != nil {
			for i := 0; i < n; i++ {
				a.Elem().Index(i).Set(reflect.ValueOf(fill))
			}
		}
		return iface(a), func(p int, v any) { a.Elem().Index(p).Set(reflect.ValueOf(v)) }
	}},
	{"*struct of any", func(n int, fill any) (any, func(int, any)) {
		a := reflect.New(wideStruct(n, anyType, func(int) string { return "" }))
		if fill != nil {
			for i := 0; i < n; i++ {
				a.Elem().Field(i).Set(reflect.ValueOf(fill))
			}
		}
		return iface(a), func(p int, v any) { a.Elem().Field(p).Set(reflect.ValueOf(v)) }
	}},
	{"[]*any", func(n int, fill any) (any, func(int, any)) {
		s := make([]*any, n)
		for i := range s {
			s[i] = &fill
		}
		return s, func(p int, v any) { s[p] = &v }
	}},
	{"[][]any", func(n int, fill any) (any, func(int, any)) {
		s := make([][]any, n)
		for i := range s {
			s[i] = []any{fill}
		}
		return s, func(p int, v any) { s[p] = []any{v} }
	}},
	{"[]map[string]any", func(n int, fill any) (any, func(int, any)) {
		s := make([]map[string]any, n)
		for i := range s {
			s[i] = map[string]any{"k": fill}
		}
		return s, func(p int, v any) { s[p] = map[string]any{"k": v} }
	}},
	{"[]RCyc", func(n int, fill any) (any, func(int, any)) {
		s := make([]RCyc, n)
		for i := range s {
			s[i].V = fill
		}
		return s, func(p int, v any) { s[p].V = v }
	}},
	{"[]*RCyc", func(n int, fill any) (any, func(int, any)) {
		s := make([]*RCyc, n)
		x := &RCyc{V: fill}
		for i := range s {
			s[i] = x
		}
		return s, func(p int, v any) { s[p] = &RCyc{V: v} }
	}},
	{"typed slice", func(n int, fill any) (any, func(int, any)) {
		if fill != 1 {
			return nil, nil
		}
		return make([]int, n), nil
	}},
	{"typed map", func(n int, fill any) (any, func(int, any)) {
		if fill != 1 {
			return nil, nil
		}
		m := map[int]bool{}
		for i := 0; i < n; i++ {
			m[i] = true
		}
		return m, nil
	}},
}

func init() {
	register(&Check{
		ID: "C09",
		Rule: "all graphs of 2 struct nodes with at most 2 of 16 kinds of edges each and of 3 nodes with fewer; all graphs of 2 and 3 anonymous containers (12 kinds) with two slots each; all ways to fill a block of memory with references (slices, pointers, array pointers, struct pointers) into itself; for every recursive type all ways to redirect one or two references; chains of every length around the detection threshold with every tail; cycles of up to 3500 parts of every two of twelve kinds through every of five holders, behind tails, and the same without the cycle; " +
			"the reference encoder follows references exactly: a repeated reference on the path is a cycle, otherwise the unfolded tree has to be the output",
		StackMB: 512,
		Units: func(thorough bool) (units []Unit) {
			nk := len(edgeKinds)
			maxE := 2
			sets := edgeSets(nk, 2, maxE)
			units = append(units, chunked("struct-graphs-2", len(sets), 6, func(u *U, i int) {
				for j := range sets {
					if !u.Next() {
						continue
					}
					ch := []int{i, j}
					g := structGraph(sets, ch)
					graphCase(u, g[0], showStructGraph(sets, ch))
				}
			})...)
			sets3 := edgeSets(nk, 3, 1)
			units = append(units, chunked("struct-graphs-3", len(sets3), 1, func(u *U, i int) {
				for j := range sets3 {
					for k := range sets3 {
						for r := 0; r < 3; r++ {
							if r > 0 && !thorough {
								break
							}
							if !u.Next() {
								continue
							}
							ch := []int{i, j, k}
							g := structGraph(sets3, ch)
							switch r {
							case 0:
								graphCase(u, g[0], showStructGraph(sets3, ch))
							case 1:
								graphCase(u, *g[0], "value "+showStructGraph(sets3, ch))
							default:
								graphCase(u, []any{g[0], g[1], g}, "[]any "+showStructGraph(sets3, ch))
							}
						}
					}
				}
			})...)
			units = append(units, longCycleUnits(thorough)...)
			if thorough {
				few := edgeSets(5, 3, 2)
				units = append(units, chunked("struct-graphs-3x2", len(few), 1, func(u *U, i int) {
					for j := range few {
						for k := range few {
							if !u.Next() {
								continue
							}
							ch := []int{i, j, k}
							graphCase(u, structGraph(few, ch)[0], showStructGraph(few, ch))
						}
					}
				})...)
			}
			// containers of every size: shared (next to each other, one inside the other's sibling) and
			// holding themselves at every position
			units = append(units, chunked("sizes", 72, 2, func(u *U, i int) {
				n := i
				if i >= 64 {
					n = []int{100, 127, 128, 255, 256, 1000, 1024, 4096}[i-64]
				}
				for _, k := range sizedNodes {
					for _, fill := range []any{1, "s", nil, []any{2}} {
						v, _ := k.make(n, fill)
						if v == nil {
							continue
						}
						for j, x := range []any{
							[]any{v, v}, []any{v, []any{v}, v}, map[string]any{"a": []any{v, v}}, struct{ A, B any }{v, &v}, []any{[]any{v}, []any{v}}, [2]any{v, v},
							[]*any{&v, &v}, struct {
								A any
								P *any
								S []any
							}{v, &v, []any{v, v}},
						} {
							if u.Next() {
								graphCase(u, x, fmt.Sprintf("%s of %d times %v, shared in form %d", k.name, n, fill, j))
							}
						}
					}
					for pos := 0; pos < n; pos++ {
						if n > 16 && pos != 0 && pos != n/2 && pos != n-1 {
							continue
						}
						for in := 0; in < 4; in++ {
							v, set := k.make(n, 1)
							if v == nil || set == nil || !u.Next() {
								continue
							}
							switch in {
							case 0:
								set(pos, v)
							case 1:
								set(pos, []any{v})
							case 2:
								set(pos, map[string]any{"x": v})
							case 3:
								w, wset := k.make(n, nil)
								wset(n-1-pos, v)
								set(pos, w)
							}
							graphCase(u, []any{v}, fmt.Sprintf("%s of %d, itself at %d in form %d", k.name, n, pos, in))
						}
					}
				}
			})...)
			nn := len(graphNodes)
			units = append(units, chunked("container-graphs-2", nn*nn, 8, func(u *U, i int) {
				kinds := []int{i / nn, i % nn}
				counter(4, 3, func(d []int) {
					for root := 0; root < 4; root++ {
						if !u.Next() {
							continue
						}
						g := containerGraph(kinds, d)
						var v any = g[0]
						switch root {
						case 1:
							v = g[1]
						case 2:
							v = g
						case 3:
							v = struct{ A, B any }{g[1], &g[0]}
						}
						graphCase(u, v, fmt.Sprintf("root %d %s", root, showContainerGraph(kinds, d)))
					}
				})
			})...)
			n3 := 7
			if thorough {
				n3 = nn
			}
			units = append(units, chunked("container-graphs-3", n3*n3*n3, 4, func(u *U, i int) {
				kinds := []int{i / n3 / n3, i / n3 % n3, i % n3}
				counter(6, 4, func(d []int) {
					if !thorough && d[0] == 0 && d[1] < 2 {
						return // node 0 alone: covered by two nodes
					}
					if !u.Next() {
						return
					}
					graphCase(u, containerGraph(kinds, append([]int{}, d...))[0], showContainerGraph(kinds, d))
				})
			})...)
			words := 2
			_, bn := blockRefs(&blk{}, words)
			units = append(units, chunked("block-2", len(bn), 1, func(u *U, root int) {
				counter(words, len(bn)+1, func(d []int) { blockCase(u, words, d, root) })
			})...)
			_, bn3 := blockRefs(&blk{}, 3)
			step3 := len(bn3)
			units = append(units, chunked("block-3", step3, 1, func(u *U, root int) {
				counter(3, len(bn3)+1, func(d []int) { blockCase(u, 3, d, root) })
			})...)
			// 4 words, slices only
			units = append(units, chunked("slices-4", 10, 1, func(u *U, root int) {
				counter(4, 11, func(d []int) { blockCase(u, 4, d, root) })
			})...)
			ct := cycTypes()
			units = append(units, chunked("typed", len(ct), 1, func(u *U, i int) {
				for depth := 1; depth <= 3; depth++ {
					typedCases(u, ct[i], depth, thorough)
				}
			})...)
			// every self-recursive type and every pair of mutually recursive types
			units = append(units, chunked("recursive-types", len(recTypes), 12, func(u *U, i int) {
				max := 4
				if thorough {
					max = 6
				}
				for depth := 2; depth <= max; depth++ {
					typedCases(u, recTypes[i], depth, thorough)
				}
			})...)
			lens := []int{997, 998, 999, 1000, 1001, 1002, 1003, 1100, 2500}
			if thorough {
				lens = append(lens, 500, 994, 995, 996, 1004, 1005, 1006, 1999, 2000, 2001, 2002, 5000, 9999, 10000, 10001)
			}
			nt := len(tails())
			units = append(units, chunked("chains", len(chainKinds)*len(lens), 1, func(u *U, i int) {
				ck, n := chainKinds[i/len(lens)], lens[i%len(lens)]
				if n > 3000 && strings.HasPrefix(ck.name, "*RCyc") {
					n -= 5000 // the encoder copies the fields of a struct at every level
					if n < 3000 {
						n = 3000
					}
				}
				for t := 0; t < nt; t++ {
					if !u.Next() {
						continue
					}
					v := tails()[t].make()
					for k := 0; k < n; k++ {
						v = ck.wrap(v)
					}
					graphCase(u, v, fmt.Sprintf("%d x %s around %s", n, ck.name, tails()[t].name))
				}
				// the whole chain twice, side by side and inside itself
				if u.Next() {
					var v any = 1
					for k := 0; k < n; k++ {
						v = ck.wrap(v)
					}
					graphCase(u, []any{v, v, map[string]any{"a": v}}, fmt.Sprintf("%d x %s shared", n, ck.name))
				}
				if u.Next() {
					s := make([]any, 1)
					var v any = s
					for k := 0; k < n; k++ {
						v = ck.wrap(v)
					}
					s[0] = v
					graphCase(u, s, fmt.Sprintf("ring of %d x %s", n, ck.name))
				}
				if u.Next() {
					m := map[string]any{}
					var v any = m
					for k := 0; k < n; k++ {
						v = ck.wrap(v)
					}
					m["x"] = v
					graphCase(u, v, fmt.Sprintf("map ring of %d x %s", n, ck.name))
				}
			})...)
			// mixed chains: a prefix of one kind, then one of another
			nc := len(chainKinds)
			units = append(units, chunked("mixed-chains", nc*nc, 2, func(u *U, i int) {
				a, b := chainKinds[i/nc], chainKinds[i%nc]
				for _, n := range []int{499, 500, 501, 999, 1000, 1001} {
					if n < 600 && !thorough && n != 500 {
						continue
					}
					for t := 0; t < nt; t++ {
						if t%3 != 0 && !thorough {
							continue
						}
						for mode := 0; mode < 2; mode++ {
							if !u.Next() {
								continue
							}
							v := tails()[t].make()
							if mode == 0 {
								for k := 0; k < n; k++ {
									v = a.wrap(b.wrap(v))
								}
							} else {
								for k := 0; k < 3; k++ {
									v = b.wrap(v)
								}
								for k := 0; k < n; k++ {
									v = a.wrap(v)
								}
							}
							graphCase(u, v, fmt.Sprintf("%d x (%s,%s) mode %d around %s", n, a.name, b.name, mode, tails()[t].name))
						}
					}
				}
			})...)
			return
		},
	})
}

func blockCase(u *U, words int, d []int, root int) {
	if !u.Next() {
		return
	}
	b := &blk{}
	refs, names := blockRefs(b, words)
	what := fmt.Sprintf("block of %d, root %s:", words, names[root])
	for i, c := range d {
		if c > 0 {
			b[i] = refs[c-1]
			what += fmt.Sprintf(" b[%d]=%s", i, names[c-1])
		}
	}
	graphCase(u, refs[root], what)
}

// typedCases redirects one reference, or two, of a value of type t to every node of a fitting type.
func typedCases(u *U, t reflect.Type, depth int, thorough bool) {
	build := func() (reflect.Value, []typedNode, []typedSlot) {
		root := reflect.New(t).Elem()
		var nodes []typedNode
		var slots []typedSlot
		expand(root, depth, "v", &nodes, &slots, func(x reflect.Value) { root.Set(x) })
		return root, nodes, slots
	}
	_, nodes, slots := build()
	var pairs [][2]int
	for s := range slots {
		for n := range nodes {
			if nodes[n].v.Type().AssignableTo(slots[s].t) {
				pairs = append(pairs, [2]int{s, n})
			}
		}
	}
	run := func(ps ...[2]int) {
		if !u.Next() {
			return
		}
		root, nodes, slots := build()
		what := fmt.Sprintf("%s depth %d", t, depth)
		for _, p := range ps {
			slots[p[0]].set(nodes[p[1]].v)
			what += fmt.Sprintf(" %s=node%d", slots[p[0]].at, p[1])
		}
		graphCase(u, root.Interface(), what)
		if u.Next() {
			graphCase(u, []any{root.Interface(), 1}, what+" in []any")
		}
	}
	run()
	for _, p := range pairs {
		run(p)
	}
	limit := 60
	if thorough {
		limit = 400
	}
	if len(pairs) <= limit {
		for i := range pairs {
			for j := i + 1; j < len(pairs); j++ {
				run(pairs[i], pairs[j])
			}
		}
	}
}
