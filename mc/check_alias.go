package main

// C12: inputs are not modified, results share no memory.
//
// Every call runs under a memory monitor: the memory reachable from the
// argument, the input and the result is collected as address ranges, and the
// ranges are compared. What can be written through one part must not be
// visible through another.

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strings"
	"unsafe"

	php "github.com/trim21/go-phpserialize"
)

type region struct {
	lo, hi   uintptr
	writable bool
	owner    string // what the memory belongs to: "input", "value", "output", ...
	path     string
}

type regions struct {
	r     []region
	seen  map[[2]uintptr]bool
	owner string
}

func (rs *regions) add(p unsafe.Pointer, size uintptr, writable bool, path string) {
	if p != nil && size > 0 {
		rs.r = append(rs.r, region{uintptr(p), uintptr(p) + size, writable, rs.owner, path})
	}
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
		return false
	}
	return t.Kind() > reflect.Complex128
}

// walk adds what rv refers to (not the memory of rv itself).
func (rs *regions) walk(rv reflect.Value, path string, depth int) {
	if !rv.IsValid() || depth > 200 {
		return
	}
	switch rv.Kind() {
	case reflect.String:
		s := rv.String()
		rs.add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), false, path)
	case reflect.Interface:
		if !rv.IsNil() {
			rs.walk(rv.Elem(), path+".("+rv.Elem().Type().String()+")", depth+1)
		}
	case reflect.Ptr:
		if rv.IsNil() || rs.visited(rv.Pointer(), rv.Type()) {
			return
		}
		rs.add(rv.UnsafePointer(), rv.Type().Elem().Size(), true, "*"+path)
		rs.walk(rv.Elem(), "(*"+path+")", depth+1)
	case reflect.Slice:
		if rv.IsNil() || rv.Cap() == 0 || rs.visited(rv.Pointer(), rv.Type()) {
			return
		}
		rs.add(rv.UnsafePointer(), uintptr(rv.Cap())*rv.Type().Elem().Size(), true, path+"[:cap]")
		if !hasPointers(rv.Type().Elem()) {
			return
		}
		for i := 0; i < rv.Len(); i++ {
			rs.walk(rv.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
		}
	case reflect.Array:
		if !hasPointers(rv.Type().Elem()) {
			return
		}
		for i := 0; i < rv.Len(); i++ {
			rs.walk(rv.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
		}
	case reflect.Map:
		if rv.IsNil() || rs.visited(rv.Pointer(), rv.Type()) {
			return
		}
		rs.add(rv.UnsafePointer(), 8, true, path)
		it := rv.MapRange()
		for it.Next() {
			p := path + "[" + clip(describeValue(it.Key(), 2), 40) + "]"
			rs.walk(it.Key(), "key "+p, depth+1)
			rs.walk(it.Value(), p, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if hasPointers(rv.Type().Field(i).Type) {
				rs.walk(rv.Field(i), path+"."+rv.Type().Field(i).Name, depth+1)
			}
		}
	}
}

// visited is only used for arguments, which may share parts: there seen is set.
func (rs *regions) visited(p uintptr, t reflect.Type) bool {
	if rs.seen == nil {
		return false
	}
	k := [2]uintptr{p, reflect.ValueOf(t).Pointer()}
	if rs.seen[k] {
		return true
	}
	rs.seen[k] = true
	return false
}

// overlap reports two ranges of which one can be written and which have a byte in common.
// Within an owner listed in ignore, overlaps do not count.
func (rs *regions) overlap(ignore string) (a, b region, bad bool) {
	r := rs.r
	sort.Slice(r, func(i, j int) bool { return r[i].lo < r[j].lo || r[i].lo == r[j].lo && r[i].hi < r[j].hi })
	// the many places that hold one string constant are one range
	r = slices.CompactFunc(r, func(a, b region) bool {
		return a.lo == b.lo && a.hi == b.hi && !a.writable && !b.writable && a.owner == b.owner
	})
	// the range reaching furthest so far, of any kind and of the writable ones
	for i := range r {
		for j := i + 1; j < len(r) && r[j].lo < r[i].hi; j++ {
			if (r[i].writable || r[j].writable) && !(r[i].owner == r[j].owner && r[i].owner == ignore) {
				return r[i], r[j], true
			}
		}
	}
	return
}

func (r region) String() string { return r.owner + ": " + r.path }

// padded returns a copy of doc in a larger buffer with sentinels behind it, and a check of the buffer.
func padded(doc string) (in []byte, intact func() string) {
	const pad = 24
	buf := make([]byte, pad+len(doc)+pad)
	for i := range buf {
		buf[i] = 0xC3
	}
	copy(buf[pad:], doc)
	want := string(buf)
	return buf[pad : pad+len(doc) : len(buf)], func() string {
		if string(buf) == want {
			return ""
		}
		for i := range buf {
			if buf[i] != want[i] {
				return fmt.Sprintf("byte %d (of %d) was %q and is %q", i-pad, len(doc), want[i], buf[i])
			}
		}
		return ""
	}
}

// aliasDecode checks one Unmarshal call; whether it succeeds is for other checks to judge.
func aliasDecode(u *U, doc string, t reflect.Type) {
	in1, intact1 := padded(doc)
	got1 := reflect.New(t)
	err, pan := Unmarshal(in1, got1.Interface())
	if pan != nil {
		return
	}
	if s := intact1(); s != "" {
		u.Fail("Unmarshal(%s, *%s) = %v changed its input: %s", clipq(doc), t, err, s)
		return
	}
	u.State(fmt.Sprint(err == nil), doc, t.String())
	in2, intact2 := padded(doc)
	got2 := reflect.New(t)
	Unmarshal(in2, got2.Interface())
	// what a failed call stored counts as well
	rs := &regions{}
	rs.owner = "input"
	full := in1[:cap(in1)]
	rs.add(unsafe.Pointer(unsafe.SliceData(full)), uintptr(len(full)), true, "input")
	rs.owner = "input of a second call"
	full2 := in2[:cap(in2)]
	rs.add(unsafe.Pointer(unsafe.SliceData(full2)), uintptr(len(full2)), true, "input")
	rs.owner = "value"
	rs.add(got1.UnsafePointer(), t.Size(), true, "v")
	rs.walk(got1.Elem(), "v", 0)
	rs.owner = "value of a second call"
	rs.add(got2.UnsafePointer(), t.Size(), true, "v")
	rs.walk(got2.Elem(), "v", 0)
	if a, b, bad := rs.overlap(""); bad {
		u.Fail("Unmarshal(%s, *%s) = %v: %s and %s share memory", clipq(doc), t, err, a, b)
		return
	}
	u.Cover("ranges compared", int64(len(rs.r)))
	// the same seen from outside: overwrite the input
	before := dump(got1.Elem())
	for i := range full {
		full[i] = '#'
	}
	if after := dump(got1.Elem()); after != before {
		u.Fail("Unmarshal(%s, *%s): overwriting the input changed the value from %s to %s", clipq(doc), t, clip(before, 800), clip(after, 800))
	}
	if s := intact2(); s != "" {
		u.Fail("Unmarshal(%s, *%s) changed the input of a second call: %s", clipq(doc), t, s)
	}
	// once more into the populated destination
	in3, intact3 := padded(doc)
	err, pan = Unmarshal(in3, got1.Interface())
	if s := intact3(); s != "" {
		u.Fail("Unmarshal(%s, *%s) into a populated destination = %v changed its input: %s", clipq(doc), t, err, s)
		return
	}
	rs = &regions{owner: "input"}
	rs.add(unsafe.Pointer(unsafe.SliceData(in3)), uintptr(cap(in3)), true, "input")
	rs.add(unsafe.Pointer(unsafe.SliceData(full)), uintptr(cap(full)), true, "input of an earlier call")
	rs.owner = "value"
	rs.add(got1.UnsafePointer(), t.Size(), true, "v")
	rs.walk(got1.Elem(), "v", 0)
	if a, b, bad := rs.overlap(""); bad {
		u.Fail("Unmarshal(%s, *%s) into a populated destination = %v: %s and %s share memory", clipq(doc), t, err, a, b)
	}
}

// fatten copies v so that every slice has spare capacity holding other values.
func fatten(rv reflect.Value, depth int) reflect.Value {
	if !rv.IsValid() || depth > 40 {
		return rv
	}
	out := reflect.New(rv.Type()).Elem()
	switch rv.Kind() {
	case reflect.Slice:
		if rv.IsNil() {
			return rv
		}
		n := rv.Len()
		s := reflect.MakeSlice(rv.Type(), n, n+3)
		for i := 0; i < n; i++ {
			s.Index(i).Set(fatten(rv.Index(i), depth+1))
		}
		f := s.Slice(0, n+3)
		vs := vals(rv.Type().Elem(), 0)
		for i := n; i < n+3; i++ {
			f.Index(i).Set(vs[len(vs)-1])
		}
		return s
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			out.Index(i).Set(fatten(rv.Index(i), depth+1))
		}
	case reflect.Struct:
		out.Set(rv)
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).IsExported() {
				out.Field(i).Set(fatten(rv.Field(i), depth+1))
			}
		}
	case reflect.Map:
		if rv.IsNil() {
			return rv
		}
		out.Set(reflect.MakeMap(rv.Type()))
		it := rv.MapRange()
		for it.Next() {
			out.SetMapIndex(it.Key(), fatten(it.Value(), depth+1))
		}
	case reflect.Ptr:
		if rv.IsNil() {
			return rv
		}
		p := reflect.New(rv.Type().Elem())
		p.Elem().Set(fatten(rv.Elem(), depth+1))
		out.Set(p.Convert(rv.Type()))
	case reflect.Interface:
		if rv.IsNil() {
			return rv
		}
		out.Set(fatten(rv.Elem(), depth+1))
	case reflect.String:
		out.SetString(strings.Clone(rv.String()))
	default:
		return rv
	}
	return out
}

// dumpCap is dump with every slice shown to its capacity.
func dumpCap(rv reflect.Value) string {
	var sb strings.Builder
	dumpTo(&sb, rv, 0)
	var rec func(rv reflect.Value, depth int)
	rec = func(rv reflect.Value, depth int) {
		if !rv.IsValid() || depth > 60 {
			return
		}
		switch rv.Kind() {
		case reflect.Slice:
			if rv.IsNil() {
				return
			}
			f := rv.Slice(0, rv.Cap())
			for i := rv.Len(); i < f.Len(); i++ {
				sb.WriteString("|")
				dumpTo(&sb, f.Index(i), 0)
			}
			if !hasPointers(rv.Type().Elem()) {
				return
			}
			for i := 0; i < rv.Len(); i++ {
				rec(rv.Index(i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < rv.Len() && hasPointers(rv.Type()); i++ {
				rec(rv.Index(i), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < rv.NumField(); i++ {
				rec(rv.Field(i), depth+1)
			}
		case reflect.Map:
			switch rv.Type().Elem().Kind() {
			case reflect.Slice, reflect.Array, reflect.Struct, reflect.Map, reflect.Ptr, reflect.Interface:
			default:
				return
			}
			type entry struct {
				k string
				v reflect.Value
			}
			var es []entry
			for it := rv.MapRange(); it.Next(); {
				es = append(es, entry{dump(it.Key()), it.Value()})
			}
			sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
			for _, e := range es {
				rec(e.v, depth+1)
			}
		case reflect.Ptr, reflect.Interface:
			rec(rv.Elem(), depth+1)
		}
	}
	rec(rv, 0)
	return sb.String()
}

// aliasEncode checks Marshal calls of one argument.
func historySizes(thorough bool) []int {
	out := []int{0, 100, 500, 1000, 1030, 2040, 3000, 4090, 5000, 8180, 12000, 16000, 16400, 24000, 30000, 32700, 32800, 36000, 40000, 48000, 60000, 65500, 65600, 80000, 100000, 130000, 140000}
	if thorough {
		out = append(out, 10, 1010, 2060, 4110, 8200, 10000, 20000, 28000, 34000, 41000, 57000, 73000, 90000, 131100, 180000, 262100, 262200, 400000)
	}
	return out
}

// aliasHistory marshals values of about these sizes from an empty pool; every output has memory
// of its own, to its capacity, and is unchanged at the end.
func aliasHistory(u *U, ns []int, kind int) {
	runtime.GC() // pools survive one collection
	runtime.GC()
	var outs [][]byte
	var copies []string
	for k, n := range ns {
		s := strings.Repeat(string(rune('a'+k)), n)
		var v any = s
		switch kind {
		case 1:
			l := make([]any, 0, n/20+1)
			for i := 0; i < n; i += 20 {
				l = append(l, s[i:min(n, i+7)])
			}
			v = l
		case 2:
			v = map[string]any{s[:n/2]: &Plain{k, s[n/2:]}}
		case 3:
			v = []MStr{MStr(encStr(s))}
		}
		b, err, pan := Marshal(v)
		if err != nil || pan != nil {
			u.Fail("histories of sizes %v, kind %d: call %d: %v, %v", ns, kind, k, err, pan)
			return
		}
		for i, o := range outs {
			if cap(o) == 0 || cap(b) == 0 {
				continue
			}
			p, q := uintptr(unsafe.Pointer(unsafe.SliceData(o))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
			if p < q+uintptr(cap(b)) && q < p+uintptr(cap(o)) {
				u.Fail("histories of sizes %v, kind %d: the results of calls %d and %d share memory", ns, kind, i, k)
				return
			}
		}
		outs, copies = append(outs, b), append(copies, string(b))
	}
	for i := range outs {
		if string(outs[i]) != copies[i] {
			u.Fail("histories of sizes %v, kind %d: the result of call %d was changed by a later call", ns, kind, i)
			return
		}
	}
	u.State("history", fmt.Sprint(kind, ns))
}

func aliasEncode(u *U, v any) {
	rv := reflect.ValueOf(v)
	var before string
	if v != nil {
		before = dumpCap(rv)
	}
	kept := dump(reflect.ValueOf(keptOut))
	var outs [3][]byte
	var text [2]string
	for i := range outs {
		b, err, pan := Marshal(v)
		if pan != nil {
			return
		}
		if v != nil {
			if after := dumpCap(rv); after != before {
				u.Fail("Marshal(%s) = %v changed its argument from %s to %s", describe(v), err, clip(before, 1000), clip(after, 1000))
				return
			}
		}
		if err != nil {
			// what comes with an error belongs to the caller as well
			if outs[i] = b; i == 1 && cap(b) > 0 && cap(outs[0]) > 0 && unsafe.SliceData(b) == unsafe.SliceData(outs[0]) {
				u.Fail("Marshal(%s) = %v: the results of two calls share memory", describe(v), err)
			}
			if i == 0 {
				continue
			}
			return
		}
		outs[i] = b
		if i < 2 {
			text[i] = string(b)
		}
		if i == 1 {
			// the first result is the caller's: what is written to it is seen nowhere else
			full := outs[0][:cap(outs[0])]
			for j := range full {
				full[j] = 0xAA
			}
			if string(outs[1]) != text[1] {
				u.Fail("Marshal(%s): writing to one result changed another one", describe(v))
				return
			}
			if v != nil {
				if after := dumpCap(rv); after != before {
					u.Fail("Marshal(%s): writing to the result changed the argument from %s to %s", describe(v), clip(before, 1000), clip(after, 1000))
					return
				}
			}
		}
	}
	u.State(fmt.Sprintf("%T", v), text[1])
	if string(outs[1]) != text[1] {
		u.Fail("Marshal(%s): the result changed during a later call", describe(v))
		return
	}
	if len(outs[0]) != len(outs[2]) || !bytes.Equal(canonDoc(outs[2]), canonDoc([]byte(text[1]))) {
		u.Fail("Marshal(%s) = %s, after writing to an earlier result; before it was %s", describe(v), clipq(string(outs[2])), clipq(text[1]))
		return
	}
	for i := range outs[0] {
		if outs[0][i] != 0xAA {
			u.Fail("Marshal(%s): a later call wrote to an earlier result", describe(v))
			return
		}
	}
	if dump(reflect.ValueOf(keptOut)) != kept {
		u.Fail("Marshal(%s): a slice kept by a Marshaler was changed", describe(v))
		keptReset()
		return
	}
	rs := &regions{owner: "argument", seen: map[[2]uintptr]bool{}}
	rs.walk(rv, "arg", 0)
	rs.walk(reflect.ValueOf(keptOut), "slice returned by MarshalPHP", 0)
	for i, o := range outs {
		rs.owner = fmt.Sprintf("result of call %d", i+1)
		rs.add(unsafe.Pointer(unsafe.SliceData(o)), uintptr(cap(o)), true, "out")
	}
	u.Cover("ranges compared", int64(len(rs.r)))
	if a, b, bad := rs.overlap("argument"); bad {
		u.Fail("Marshal(%s): %s and %s share memory", describe(v), a, b)
	}
}

func keptReset() {
	for i := range keptOut {
		keptOut[i] = append(make([]byte, 0, 4096), encStr(strings.Repeat(string(rune('a'+i)), i*300))...)
	}
}

// ownSlice is a Marshaler returning its own memory.
type ownSlice []byte

func (m ownSlice) MarshalPHP() ([]byte, error) { return m, nil }

type ownField struct{ B []byte }

func (m *ownField) MarshalPHP() ([]byte, error) { return m.B[:len(m.B):cap(m.B)], nil }

func ownDoc(n int) []byte { return append(make([]byte, 0, n+64), encStr(filler(n, 1))...) }

// uSeen is an Unmarshaler that keeps its bytes, as they are and as a string.
type uSeen struct {
	B []byte
	S string
}

func (m *uSeen) UnmarshalPHP(b []byte) error {
	m.B, m.S = b, string(b)
	return nil
}

// uHold calls Unmarshal on its bytes and keeps the result.
type uHold struct {
	V any
	B []byte
}

func (m *uHold) UnmarshalPHP(b []byte) error {
	err := php.Unmarshal(b, &m.V)
	for i := range b {
		b[i] = '!'
	}
	return err
}

var aliasDocs = []string{
	`a:3:{i:0;s:3:"abc";i:1;s:3:"def";i:2;s:3:"ghi";}`,
	`a:3:{i:2;s:3:"abc";i:1;s:3:"def";i:0;s:3:"ghi";}`,
	`a:2:{s:1:"a";s:3:"abc";s:3:"bcd";s:2:"xx";}`,
	`a:3:{s:1:"X";s:3:"abc";s:1:"Y";a:2:{i:0;s:1:"p";i:1;s:1:"q";}s:1:"Z";N;}`,
	`O:3:"Cls":2:{s:3:"abc";a:1:{s:2:"kk";s:2:"vv";}s:1:"b";O:1:"D":1:{s:1:"k";s:1:"v";}}`,
	`a:2:{i:0;a:3:{i:0;i:1;i:1;i:2;i:2;i:3;}i:1;a:2:{i:0;i:4;i:1;i:5;}}`,
	`a:2:{i:0;a:0:{}i:1;a:0:{}}`, `a:2:{s:1:"a";a:0:{}s:1:"b";a:0:{}}`,
	`a:4:{i:0;a:1:{i:0;a:1:{i:0;s:2:"ab";}}i:1;a:1:{i:0;a:1:{i:0;s:2:"cd";}}i:2;a:1:{s:1:"k";s:2:"ef";}i:3;s:0:"";}`,
	`a:3:{i:0;i:1;i:1;i:2;i:2;i:3;}`, `a:3:{i:0;d:1.5;i:1;d:2;i:2;d:0.5;}`, `a:3:{i:0;b:1;i:1;b:0;i:2;b:1;}`,
	`s:11:"some string";`, `s:0:"";`, `s:1:"x";`, `a:0:{}`, `i:5;`, `d:0.5;`, `b:1;`, `N;`,
	`a:2:{i:0;a:1:{s:1:"B";s:2:"ab";}i:1;a:1:{s:1:"B";s:2:"cd";}}`,
	`a:2:{s:1:"a";a:2:{s:1:"x";s:3:"one";s:1:"y";a:1:{i:0;s:1:"z";}}s:1:"b";a:2:{s:1:"x";s:3:"two";s:1:"y";a:1:{i:0;s:1:"w";}}}`,
}

func init() {
	register(&Check{
		ID:   "C12",
		Rule: "every (document, destination type) and every (argument, route) of the universe, custom marshalers and unmarshalers that keep, overwrite and append to their slices, failing inputs (every truncation), sizes across every buffer threshold; histories of calls with outputs of every two of 27 sizes up to 140000 bytes from an empty pool; after each call a memory monitor compares all address ranges reachable from input, argument and results (slices to their capacity): no range that can be written overlaps another; inputs sit in a larger buffer that has to be unchanged as a whole, arguments are compared with their spare capacity, and everything is compared again after inputs and results were overwritten",
		Units: func(thorough bool) (units []Unit) {
			depth, lvl := 2, 1
			if thorough {
				depth, lvl = 3, 2
			}
			ts := append(specialTypes(), typeUniverse(depth)...)
			units = append(units, chunked("decode", len(ts), 30, func(u *U, i int) {
				for _, d := range append(docsFor(ts[i], lvl), `O:1:"C":1:{s:1:"X";s:1:"w";}`, `a:2:{i:1;s:2:"ab";i:0;s:2:"cd";}`, `a:1:{s:1:"k";s:3:"abc";}`) {
					if u.Next() {
						aliasDecode(u, d, ts[i])
					}
				}
			})...)
			dst := []reflect.Type{typeOf[any](), typeOf[[]any](), typeOf[map[string]any](), typeOf[map[any]any](), typeOf[map[string]string](), typeOf[map[any]string](), typeOf[[]string](), typeOf[[][]byte](), typeOf[[2]any](), typeOf[[3][]byte](), typeOf[[]NStr](), typeOf[map[NStr][]byte](), typeOf[map[string][]string](), typeOf[[][]string](), typeOf[[][]int](), typeOf[[]*string](), typeOf[[]*[]byte](), typeOf[map[string]*string](), typeOf[[]map[string]string](), typeOf[[][2]string](), typeOf[*[]*any](), typeOf[[]*int](), typeOf[[]*float64](), typeOf[[]*bool](), typeOf[map[int]*int](), typeOf[RS](), typeOf[RM](), typeOf[[]RS](), typeOf[Tree](), typeOf[[]Plain](), typeOf[[]*Plain](), typeOf[map[string]Plain](), typeOf[map[string]*Plain](),
				typeOf[struct {
					X string
					Y []string
					Z *string
				}](), typeOf[struct {
					X []byte
					Y any
					Z map[string]string
				}](), typeOf[map[string]struct {
					X string         `php:"x"`
					Y []string       `php:"y"`
					A any            `php:"a"`
					B map[string]any `php:"b"`
				}](), typeOf[[]uSeen](), typeOf[map[string]uSeen](), typeOf[[]*uSeen](), typeOf[uSeen](), typeOf[[3]uSeen](), typeOf[[]uHold](), typeOf[map[string]*uHold](), typeOf[[]UKeep](), typeOf[map[string]UKeep](), typeOf[[]UBytes](), typeOf[string](), typeOf[[]byte](), typeOf[*string](), typeOf[*[]byte](), typeOf[NStr](), typeOf[NAny](),
				typeOf[struct {
					X string   `php:"a"`
					Y []byte   `php:"b"`
					K NStr     `php:"k"`
					P *string  `php:"abc"`
					S string   `php:"bcd"`
					B [][]byte `php:"B"`
				}]()}
			docs := append(append([]string{}, aliasDocs...), customDocs...)
			for _, r := range renderers[1:5] {
				for _, d := range aliasDocs {
					docs = append(docs, r.text(parseDoc(d)))
				}
			}
			docs = append(docs, containerDocs(false)...)
			if !thorough {
				docs = thin(docs, 1100)
			}
			units = append(units, chunked("documents", len(docs), 40, func(u *U, i int) {
				for _, t := range dst {
					if u.Next() {
						aliasDecode(u, docs[i], t)
					}
				}
			})...)
			// failing inputs: every truncation and every one-byte replacement of some documents
			units = append(units, chunked("broken", len(aliasDocs), 1, func(u *U, i int) {
				d := aliasDocs[i]
				for _, t := range dst {
					for k := 0; k < len(d); k++ {
						if u.Next() {
							aliasDecode(u, d[:k], t)
						}
						if thorough || k%3 == 0 {
							for _, c := range "\x00;9}" {
								if u.Next() {
									aliasDecode(u, d[:k]+string(c)+d[k+1:], t)
								}
							}
						}
					}
				}
			})...)
			// sizes
			sz := sizes
			if thorough {
				sz = append(append([]int{}, sizes...), bigSizes...)
			}
			units = append(units, chunked("decode-sizes", len(sz), 2, func(u *U, i int) {
				n := sz[i]
				s := string(encStr(filler(n, 1)))
				for _, t := range []reflect.Type{typeOf[any](), typeOf[[]any](), typeOf[[]string](), typeOf[[][]byte](), typeOf[map[any]any](), typeOf[map[int]string](), typeOf[[3]string](), typeOf[[]uSeen](), typeOf[[]uHold](), typeOf[[]*string]()} {
					if u.Next() {
						aliasDecode(u, "a:3:{i:0;"+s+"i:1;"+s+"i:2;N;}", t)
					}
				}
				for _, t := range []reflect.Type{typeOf[any](), typeOf[map[string]any](), typeOf[map[string]string](), typeOf[map[any][]byte](), typeOf[map[string]uSeen](), typeOf[map[string]*string]()} {
					if u.Next() {
						aliasDecode(u, "a:2:{"+s+s+`s:1:"k";`+s+"}", t)
					}
					if u.Next() {
						aliasDecode(u, `O:1:"c":2:{`+s+s+`s:1:"k";`+s+"}", t)
					}
				}
				for _, t := range []reflect.Type{typeOf[any](), typeOf[string](), typeOf[[]byte](), typeOf[uSeen](), typeOf[NStr](), typeOf[*string]()} {
					if u.Next() {
						aliasDecode(u, s, t)
					}
				}
				if n <= 4097 {
					var sb strings.Builder
					for j := 0; j < n; j++ {
						fmt.Fprintf(&sb, `i:%d;s:3:"%03d";`, j, j%1000)
					}
					doc := fmt.Sprintf("a:%d:{%s}", n, sb.String())
					for _, t := range []reflect.Type{typeOf[[]string](), typeOf[[][]byte](), typeOf[[]any](), typeOf[any](), typeOf[map[int]string](), typeOf[[5]string](), typeOf[[]*string]()} {
						if u.Next() {
							aliasDecode(u, doc, t)
						}
						if u.Next() {
							aliasDecode(u, `a:2:{i:0;`+doc+`i:1;`+doc+"}", reflect.SliceOf(t))
						}
					}
				}
			})...)

			units = append(units, chunked("encode", len(ts), 30, func(u *U, i int) {
				for _, v := range vals(ts[i], lvl) {
					v = fatten(v, 0)
					for k, r := range routes {
						if !thorough && k > 3 && (i+k)%4 != 0 {
							continue
						}
						x, ok := r.wrap(v)
						if ok && u.Next() {
							aliasEncode(u, x)
						}
					}
				}
			})...)
			units = append(units, chunked("encode-sizes", len(sz), 2, func(u *U, i int) {
				for _, v := range append(sizedValues(sz[i]), ownSlice(ownDoc(sz[i])), []any{ownSlice(ownDoc(sz[i]))}, &ownField{ownDoc(sz[i])}, []*ownField{{ownDoc(sz[i])}}) {
					if u.Next() {
						aliasEncode(u, v)
					}
				}
			})...)
			units = append(units, chunked("every-size", 1200, 100, func(u *U, i int) {
				for _, v := range []any{filler(i, 1), []byte(filler(i, 1)), ownSlice(ownDoc(i)), []any{ownSlice(ownDoc(i))}, map[string]any{"k": &ownField{ownDoc(i)}}, struct{ F ownField }{ownField{ownDoc(i)}}, &struct{ F ownField }{ownField{ownDoc(i)}}} {
					if u.Next() {
						aliasEncode(u, v)
					}
				}
				d := string(encStr(filler(i, 1)))
				for _, t := range []reflect.Type{typeOf[string](), typeOf[any](), typeOf[[]byte]()} {
					if u.Next() {
						aliasDecode(u, d, t)
					}
				}
			})...)
			hs := historySizes(thorough)
			units = append(units, chunked("histories", len(hs), 1, func(u *U, i int) {
				for _, n := range hs {
					for kind := 0; kind < 4; kind++ {
						if u.Next() {
							aliasHistory(u, []int{hs[i], n, n, hs[i]}, kind)
						}
					}
					if u.Next() {
						aliasHistory(u, []int{hs[i], n, hs[i] / 2, n / 2, 5, n, hs[i]}, 0)
					}
				}
			})...)
			mvs := []reflect.Value{}
			for _, x := range []any{ownSlice(ownDoc(3)), &ownField{ownDoc(3)}, ownSlice("N;"), ownSlice("i:12345;")} {
				mvs = append(mvs, reflect.ValueOf(x))
			}
			for n := range keptOut {
				mvs = append(mvs, reflect.ValueOf(MKept{n}), reflect.ValueOf(&MKept{n}))
			}
			units = append(units, chunked("marshalers", len(mvs), 2, func(u *U, i int) {
				for _, r := range routes {
					for _, r2 := range routes {
						x, ok := r.wrap(mvs[i])
						if !ok || x == nil {
							continue
						}
						y, ok := r2.wrap(reflect.ValueOf(x))
						if ok && u.Next() {
							aliasEncode(u, y)
						}
					}
				}
			})...)
			// decoded values encode, and what was decoded from the output is independent of it
			units = append(units, chunked("round-trip", len(docs), 80, func(u *U, i int) {
				for _, t := range []reflect.Type{typeOf[any](), typeOf[map[any]any](), typeOf[[]any](), typeOf[map[string][]string](), typeOf[[]string]()} {
					if !u.Next() {
						continue
					}
					got := reflect.New(t)
					if err, pan := Unmarshal([]byte(docs[i]), got.Interface()); err == nil && pan == nil {
						aliasEncode(u, got.Elem().Interface())
						aliasEncode(u, got.Interface())
					}
				}
			})...)
			return
		},
	})
}

// thin keeps about n of the documents, evenly spread.
func thin(docs []string, n int) []string {
	if len(docs) <= n {
		return docs
	}
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, docs[i*len(docs)/n])
	}
	return out
}
