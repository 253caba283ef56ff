package main

// C21: the work is proportional to the data.
//
// Every family is run at a size and at eight times that size; the monitor reads the
// CPU time of the thread and the bytes allocated. Eight times the data may cost up to
// 32 times the time (quadratic work costs 64 times); a violation has to show in the
// least of several runs and to be long in absolute terms.

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	workScale   = 8
	workTimes   = 32
	workFloor   = 150 * time.Millisecond // below, the time of the larger run is not looked at
	deepFloor   = 100 * time.Millisecond
	workAlloc   = 24      // eight times the data may allocate this many times the bytes, or ...
	workPerByte = 128     // ... this many times the bytes of the document or output ...
	workAllocC  = 4 << 20 // ... and this much
)

// workFam is a family: mk gives the run for size n, which ought to report ok.
type workFam struct {
	name string
	n    int // the smaller size
	deep bool
	mk   func(n int) (run func() error, bytes int)
	fail bool // the runs fail
}

func threadTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(1, &ru) != nil { // RUSAGE_THREAD
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type workCost struct {
	t     time.Duration
	alloc float64
	err   error
}

// workOnce runs and measures.
func workOnce(run func() error) (c workCost) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	a, t := allocated(), threadTime()
	c.err = run()
	c.t = threadTime() - t
	c.alloc = float64(allocated() - a)
	return
}

func workCase(u *U, f workFam) {
	small, sb := f.mk(f.n)
	large, lb := f.mk(f.n * workScale)
	floor := workFloor
	if f.deep {
		floor = deepFloor
	}
	best := [2]workCost{{t: math.MaxInt64, alloc: math.Inf(1)}, {t: math.MaxInt64, alloc: math.Inf(1)}}
	for try := 0; try < 5; try++ {
		for i, run := range []func() error{large, small} {
			c := workOnce(run)
			best[i].t, best[i].alloc = min(best[i].t, c.t), min(best[i].alloc, c.alloc)
			if (c.err != nil) != f.fail {
				u.Fail("%s (%d bytes): error %v", f.name, []int{lb, sb}[i], c.err)
				return
			}
		}
		slow := best[0].t > floor && best[0].t > workTimes*best[1].t
		big := best[0].alloc > workAllocC+math.Max(workAlloc*best[1].alloc, workPerByte*float64(lb))
		if !slow && !big {
			break
		}
		if sure := slow && best[0].t > 2*time.Second && best[0].t > 40*best[1].t || big && best[0].alloc > 1<<30; sure {
			// no noise does that
		} else if try < 4 && !(try == 1 && big) && !(try == 2 && best[0].t > time.Second) {
			continue // noise affects the time of short runs, hardly the bytes
		}
		if slow {
			u.FailMeasured("%s: %d bytes take %v, %d bytes %v", f.name, sb, best[1].t, lb, best[0].t)
		} else {
			u.FailMeasured("%s: for %d bytes %.0f bytes are allocated, for %d bytes %.0f", f.name, sb, best[1].alloc, lb, best[0].alloc)
		}
		break
	}
	u.State(f.name)
	u.Cover("bytes of documents and values", int64(sb+lb))
}

const (
	typeTime  = 2 * time.Second // of the first call with a type; the tree as given takes milliseconds
	typeAlloc = 64 << 20
)

// typeWork measures the first call with a type. It stops at the first bad one, the next
// would take ages.
func typeWork(u *U, call, name string, run func() error) {
	if len(u.w.violations) > 0 {
		return
	}
	c := workOnce(run)
	u.State(call, name)
	if c.err != nil {
		u.Fail("first %s of %s: %v", call, name, c.err)
	} else if c.t > typeTime || c.alloc > typeAlloc {
		u.FailMeasured("first %s of %s takes %v and %.0f bytes", call, name, c.t, c.alloc)
	}
	u.Cover("first uses of types", 1)
}

// ---- families ----

type workElem struct {
	name string
	doc  func(i int) string
	t    reflect.Type
}

var workElems = []workElem{
	{"integers", func(i int) string { return "i:" + strconv.Itoa(i*7919%100003) + ";" }, typeOf[int]()},
	{"strings", func(i int) string { return string(encStr("value-" + strconv.Itoa(i))) }, typeOf[string]()},
	{"nulls", func(int) string { return "N;" }, typeOf[*int]()},
	{"floats", func(i int) string { return "d:" + strconv.Itoa(i) + ".25;" }, typeOf[float64]()},
	{"booleans", func(i int) string { return "b:" + strconv.Itoa(i&1) + ";" }, typeOf[bool]()},
	{"arrays", func(i int) string { return "a:2:{i:0;i:" + strconv.Itoa(i) + ";i:1;i:5;}" }, typeOf[[]int]()},
	{"empty arrays", func(i int) string { return "a:0:{}" }, typeOf[map[string]int]()},
	{"structs", func(i int) string { return `a:2:{s:1:"A";i:` + strconv.Itoa(i) + `;s:1:"b";s:1:"q";}` }, typeOf[Plain]()},
	{"objects", func(i int) string { return `O:5:"Class":1:{s:4:"prop";i:` + strconv.Itoa(i) + ";}" }, typeOf[map[string]int]()},
	{"bytes", func(i int) string { return `s:4:"";:}";` }, typeOf[[]byte]()},
	{"long strings", func(i int) string { return string(encStr(strings.Repeat(strconv.Itoa(i)+" ", 20))) }, typeOf[string]()},
	{"long bytes", func(i int) string { return string(encStr(strings.Repeat(strconv.Itoa(i)+" ", 40))) }, typeOf[[]byte]()},
	{"long floats", func(i int) string { return "d:0.1234567890123456" + strconv.Itoa(i) + ";" }, typeOf[float64]()},
	{"string options", func(i int) string { return `a:2:{s:1:"X";s:7:"1234567";s:1:"a";s:4:"1.25";}` }, typeOf[struct {
		X int     `php:",string"`
		Y float64 `php:"a,string"`
	}]()},
	{"fixed arrays", func(i int) string { return `a:2:{i:1;s:1:"x";i:2;s:1:"y";}` }, typeOf[[2]string]()},
	{"pointers to strings", func(i int) string { return string(encStr("value-" + strconv.Itoa(i))) }, typeOf[*string]()},
	{"wide structs", func(i int) string { return `a:3:{s:2:"f3";i:1;s:3:"f17";i:3;s:2:"zz";N;}` }, wideStruct(24, typeOf[int8](), func(i int) string { return "f" + strconv.Itoa(i) + ",omitempty" })},
}

type workShape struct {
	name string
	doc  func(n int, e func(i int) string) string
	t    func(e reflect.Type) reflect.Type
	any  bool // data for an any as well
}

func workEntries(n int, key func(i int) string, e func(i int) string, head string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, head, n)
	for i := 0; i < n; i++ {
		sb.WriteString(key(i))
		sb.WriteString(e(i))
	}
	sb.WriteString("}")
	return sb.String()
}

func intKeyAt(f func(i int) int) func(int) string {
	return func(i int) string { return "i:" + strconv.Itoa(f(i)) + ";" }
}

func strKeyAt(i int) string { return string(encStr("key-" + strconv.Itoa(i))) }

func longKeyAt(i int) string {
	return string(encStr(fmt.Sprintf("a-key-that-is-longer-than-the-others-%060d", i)))
}

var workShapes = []workShape{
	{"in order", func(n int, e func(int) string) string {
		return workEntries(n, intKeyAt(func(i int) int { return i }), e, "a:%d:{")
	}, reflect.SliceOf, true},
	{"backwards", func(n int, e func(int) string) string {
		return workEntries(n, intKeyAt(func(i int) int { return n - 1 - i }), e, "a:%d:{")
	}, reflect.SliceOf, false},
	{"shuffled", func(n int, e func(int) string) string {
		return workEntries(n, intKeyAt(func(i int) int { return (i*5 + n/2) % n }), e, "a:%d:{")
	}, reflect.SliceOf, false},
	{"every other index", func(n int, e func(int) string) string {
		return workEntries(n, intKeyAt(func(i int) int { return 2 * i }), e, "a:%d:{")
	}, reflect.SliceOf, false},
	{"in a map of integers", func(n int, e func(int) string) string {
		return workEntries(n, intKeyAt(func(i int) int { return i * 31 }), e, "a:%d:{")
	}, mapOf(typeOf[int]()), false},
	{"in a map of strings", func(n int, e func(int) string) string { return workEntries(n, strKeyAt, e, "a:%d:{") }, mapOf(typeOf[string]()), true},
	{"in a map of long strings", func(n int, e func(int) string) string { return workEntries(n, longKeyAt, e, "a:%d:{") }, mapOf(typeOf[NStr]()), true},
	{"in unknown long members", func(n int, e func(int) string) string { return workEntries(n, longKeyAt, e, "a:%d:{") }, func(reflect.Type) reflect.Type { return typeOf[*Plain]() }, false},
	{"in one key again and again", func(n int, e func(int) string) string {
		return workEntries(n, func(int) string { return "i:5;" }, e, "a:%d:{")
	}, mapOf(typeOf[int]()), false},
	{"in one member again and again", func(n int, e func(int) string) string {
		return workEntries(n, func(int) string { return `s:1:"X";` }, e, "a:%d:{")
	}, func(t reflect.Type) reflect.Type { return reflect.StructOf([]reflect.StructField{sf("X", t, "")}) }, false},
	{"in a map of any keys", func(n int, e func(int) string) string { return workEntries(n, strKeyAt, e, "a:%d:{") }, mapOf(anyType), false},
	{"in an object", func(n int, e func(int) string) string { return workEntries(n, strKeyAt, e, `O:3:"Cls":%d:{`) }, mapOf(typeOf[string]()), true},
	{"in unknown members", func(n int, e func(int) string) string { return workEntries(n, strKeyAt, e, "a:%d:{") }, func(reflect.Type) reflect.Type { return typeOf[Plain]() }, false},
	{"in an unknown member", func(n int, e func(int) string) string {
		return `a:1:{s:1:"u";` + workEntries(n, strKeyAt, e, "a:%d:{") + "}"
	}, func(reflect.Type) reflect.Type { return typeOf[Plain]() }, false},
	{"behind an array's end", func(n int, e func(int) string) string {
		return workEntries(n, intKeyAt(func(i int) int { return i }), e, "a:%d:{")
	}, func(reflect.Type) reflect.Type { return reflect.ArrayOf(1, typeOf[any]()) }, false},
	{"for an Unmarshaler", func(n int, e func(int) string) string { return workEntries(n, strKeyAt, e, "a:%d:{") }, func(reflect.Type) reflect.Type { return typeOf[UR]() }, false},
	{"for an Unmarshaler in a field", func(n int, e func(int) string) string {
		return `a:1:{s:1:"X";` + workEntries(n, strKeyAt, e, "a:%d:{") + "}"
	}, func(reflect.Type) reflect.Type { return typeOf[struct{ X UR }]() }, false},
	{"for Unmarshalers", func(n int, e func(int) string) string {
		return workEntries(n, intKeyAt(func(i int) int { return i }), e, "a:%d:{")
	}, func(reflect.Type) reflect.Type { return typeOf[[]UR]() }, false},
	{"in slices of sixteen", func(n int, e func(int) string) string {
		return workEntries(n/16, intKeyAt(func(i int) int { return i }), func(k int) string {
			return workEntries(16, intKeyAt(func(i int) int { return i }), func(i int) string { return e(k*16 + i) }, "a:%d:{")
		}, "a:%d:{")
	}, func(t reflect.Type) reflect.Type { return reflect.SliceOf(reflect.SliceOf(t)) }, true},
	{"in maps of sixteen in structs", func(n int, e func(int) string) string {
		return workEntries(n/16, intKeyAt(func(i int) int { return i }), func(k int) string {
			return `a:1:{s:1:"X";` + workEntries(16, strKeyAt, func(i int) string { return e(k*16 + i) }, "a:%d:{") + "}"
		}, "a:%d:{")
	}, func(t reflect.Type) reflect.Type {
		return reflect.SliceOf(reflect.StructOf([]reflect.StructField{sf("X", reflect.MapOf(typeOf[string](), t), "")}))
	}, true},
}

func unmRun(doc string, mk func() any) func() error {
	in := []byte(doc)
	return func() error {
		err, pan := Unmarshal(in, mk())
		if pan != nil {
			return fmt.Errorf("panic: %s", pan)
		}
		return err
	}
}

func marRun(v any) func() error {
	return func() error {
		_, err, pan := Marshal(v)
		if pan != nil {
			return fmt.Errorf("panic: %s", pan)
		}
		return err
	}
}

func workFamilies(thorough bool) (out []workFam) {
	N := 4096
	if thorough {
		N = 16384
	}
	decode := func(name string, n int, deep bool, t reflect.Type, doc func(n int) string) {
		out = append(out, workFam{name: "Unmarshal " + name + " into a " + t.String(), n: n, deep: deep, mk: func(n int) (func() error, int) {
			d := doc(n)
			return unmRun(d, func() any { return reflect.New(t).Interface() }), len(d)
		}})
		// the same, malformed at the end
		out = append(out, workFam{name: "Unmarshal " + name + " without the last byte into a " + t.String(), n: n, deep: deep, fail: true, mk: func(n int) (func() error, int) {
			d := doc(n)
			d = d[:len(d)-1]
			return unmRun(d, func() any { return reflect.New(t).Interface() }), len(d)
		}})
		// cut in the middle
		out = append(out, workFam{name: "Unmarshal half of " + name + " into a " + t.String(), n: n, deep: deep, fail: true, mk: func(n int) (func() error, int) {
			d := doc(n)
			d = d[:len(d)/2]
			return unmRun(d, func() any { return reflect.New(t).Interface() }), len(d)
		}})
		if deep { // a bad value at the bottom
			out = append(out, workFam{name: "Unmarshal a bad value in " + name + " into a " + t.String(), n: n, deep: deep, fail: true, mk: func(n int) (func() error, int) {
				d := strings.Replace(doc(n), "N;", "x:5;", 1)
				return unmRun(d, func() any { return reflect.New(t).Interface() }), len(d)
			}})
		}
	}
	for _, s := range workShapes {
		for _, e := range workElems {
			s, e := s, e
			doc := func(n int) string { return s.doc(n, e.doc) }
			decode(e.name+" "+s.name, N, false, s.t(e.t), doc)
			if s.any {
				decode(e.name+" "+s.name, N, false, anyType, doc)
				decode(e.name+" "+s.name, N, false, s.t(anyType), doc)
			}
		}
	}
	// filled destinations
	for _, s := range workShapes[:6] {
		for _, e := range workElems[:2] {
			s, e := s, e
			t := s.t(e.t)
			out = append(out, workFam{name: "Unmarshal " + e.name + " " + s.name + " three times into one " + t.String(), n: N, mk: func(n int) (func() error, int) {
				d := s.doc(n, e.doc)
				in := []byte(d)
				return func() error {
					dst := reflect.New(t).Interface()
					for i := 0; i < 3; i++ {
						if err, pan := Unmarshal(in, dst); err != nil || pan != nil {
							return fmt.Errorf("%v %v", err, pan)
						}
					}
					return nil
				}, 3 * len(d)
			}})
		}
	}
	// one long scalar
	str := func(n int) string { return string(encStr(filler(n, 2))) }
	zeros := func(n int) string { return "i:" + strings.Repeat("0", n) + "7;" }
	frac := func(n int) string { return "d:1." + strings.Repeat("0", n) + ";" }
	tags := func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("V", t, "v,string")})
	}
	long := N * 16
	for _, w := range []struct {
		name      string
		pre, post string
		t         func(reflect.Type) reflect.Type
	}{
		{"", "", "", func(t reflect.Type) reflect.Type { return t }},
		{" in a slice", "a:1:{i:0;", "}", reflect.SliceOf},
		{" in a field", `a:1:{s:1:"X";`, "}", func(t reflect.Type) reflect.Type { return reflect.StructOf([]reflect.StructField{sf("X", t, "")}) }},
		{" skipped", `a:1:{s:1:"u";`, "}", func(t reflect.Type) reflect.Type { return typeOf[Plain]() }},
		{" in a skipped array", `a:1:{s:1:"u";a:1:{i:0;`, "}}", func(t reflect.Type) reflect.Type { return typeOf[Plain]() }},
		{" for an Unmarshaler", "", "", func(t reflect.Type) reflect.Type { return typeOf[UR]() }},
	} {
		w := w
		for _, x := range []struct {
			name string
			doc  func(n int) string
			ts   []reflect.Type
		}{
			{"a string", str, []reflect.Type{typeOf[string](), typeOf[[]byte](), anyType, typeOf[*string](), typeOf[NStr]()}},
			{"an integer with leading zeros", zeros, []reflect.Type{typeOf[int](), typeOf[int8](), typeOf[uint64](), anyType}},
			{"a float with trailing zeros", frac, []reflect.Type{typeOf[float64](), typeOf[float32](), anyType}},
			{"an object's class", func(n int) string { return head('O', filler(n, 1), 1) + `s:1:"A";i:1;}` }, []reflect.Type{typeOf[Plain](), typeOf[map[string]int](), anyType}},
			{"a key", func(n int) string { return "a:1:{" + str(n) + "i:1;}" }, []reflect.Type{typeOf[Plain](), typeOf[map[string]int](), anyType}},
			{"an integer key with leading zeros", func(n int) string { return "a:1:{" + zeros(n) + "i:1;}" }, []reflect.Type{typeOf[[]int](), typeOf[map[int]int](), typeOf[map[uint8]int](), typeOf[[2]int](), anyType}},
		} {
			for i, t := range x.ts {
				if w.t(t) == w.t(typeOf[Plain]()) && i > 0 || w.t(t) == typeOf[UR]() && i > 0 {
					continue
				}
				decode(x.name+w.name, long, false, w.t(t), func(n int) string { return w.pre + x.doc(n) + w.post })
			}
		}
	}
	for _, t := range []reflect.Type{typeOf[int](), typeOf[uint16](), typeOf[float64](), typeOf[float32]()} {
		decode("digits under the string option", long, false, tags(t), func(n int) string {
			return `a:1:{s:1:"v";` + string(encStr(strings.Repeat("0", n)+"5")) + "}"
		})
	}
	decode("a string under the string option", long, false, tags(typeOf[string]()), func(n int) string { return `a:1:{s:1:"v";` + str(n) + "}" })
	// depth
	D := 1200
	for _, x := range []struct {
		name, pre, core, post string
		ts                    []reflect.Type
	}{
		{"nested arrays", "a:1:{i:0;", "N;", "}", []reflect.Type{anyType, typeOf[RS](), typeOf[[]any](), typeOf[RMI](), typeOf[UR](), typeOf[[0]int](), typeOf[[1]any]()}},
		{"nested maps", `a:1:{s:1:"k";`, "N;", "}", []reflect.Type{anyType, typeOf[RM](), typeOf[map[string]any](), typeOf[Plain](), typeOf[UR](), typeOf[*any]()}},
		{"nested objects", `O:3:"abc":1:{s:1:"k";`, "N;", "}", []reflect.Type{anyType, typeOf[RM](), typeOf[map[string]any](), typeOf[Plain](), typeOf[UR]()}},
		{"nested structs", `a:1:{s:1:"S";`, "N;", "}", []reflect.Type{typeOf[RSt]()}},
		{"nested structs with siblings", `a:2:{s:1:"v";i:1;s:1:"n";`, "N;", "}", []reflect.Type{typeOf[Link](), typeOf[*Link](), anyType, typeOf[struct{ X int }](), typeOf[UR]()}},
		{"nested structs with siblings behind", `a:2:{s:1:"n";`, "N;", `s:1:"v";i:1;}`, []reflect.Type{typeOf[Link](), typeOf[*Link](), anyType, typeOf[struct{ X int }](), typeOf[UR]()}},
		{"nested trees", `a:2:{s:1:"v";i:1;s:1:"k";a:1:{i:0;`, "N;", "}}", []reflect.Type{typeOf[Tree](), anyType}},
	} {
		x := x
		d := D
		if strings.Contains(x.name, "trees") {
			d = D / 2
		}
		for _, t := range x.ts {
			decode(x.name, d, true, t, func(n int) string { return strings.Repeat(x.pre, n) + x.core + strings.Repeat(x.post, n) })
		}
	}
	// structs of many fields
	wide := func(elem reflect.Type, tag string) func(n int) reflect.Type {
		return func(n int) reflect.Type {
			return wideStruct(n, elem, func(i int) string { return "k" + strconv.Itoa(i) + tag })
		}
	}
	const fields = 2000
	for _, x := range []struct {
		name string
		t    func(n int) reflect.Type
		val  string
	}{
		{"integers", wide(typeOf[int8](), ""), "i:5;"},
		{"strings", wide(typeOf[string](), ""), `s:1:"x";`},
		{"anys", wide(anyType, ",omitempty"), `a:1:{i:0;b:1;}`},
		{"numbers in strings", wide(typeOf[int](), ",string"), `s:2:"12";`},
		{"many kinds", faultStruct, "N;"},
	} {
		for _, k := range []struct {
			name string
			key  func(n, i int) string
		}{
			{"in order", func(n, i int) string { return "k" + strconv.Itoa(i) }},
			{"backwards", func(n, i int) string { return "k" + strconv.Itoa(n-1-i) }},
			{"in the last one again and again", func(n, i int) string { return "k" + strconv.Itoa(n-1) }},
			{"in unknown members", func(n, i int) string { return "k" + strconv.Itoa(i) + "x" }},
			{"in unknown members with long names", func(n, i int) string { return longKeyAt(i) }},
		} {
			x, k := x, k
			out = append(out, workFam{name: "Unmarshal " + x.name + " into a wide struct, " + k.name, n: fields, mk: func(n int) (func() error, int) {
				d := workEntries(n, func(i int) string { return string(encStr(k.key(n, i))) }, func(int) string { return x.val }, "a:%d:{")
				t := x.t(n)
				run := unmRun(d, func() any { return reflect.New(t).Interface() })
				run() // the first use of the type is not looked at
				return run, len(d)
			}})
		}
	}
	for _, x := range []struct {
		name string
		t    func(n int) reflect.Type
	}{
		{"integers", wide(typeOf[int8](), "")},
		{"integers that are omitted", wide(typeOf[int8](), ",omitempty")},
		{"strings", wide(typeOf[string](), "")},
		{"anys", wide(anyType, ",omitempty")},
		{"numbers in strings", wide(typeOf[int](), ",string")},
		{"many kinds", faultStruct},
	} {
		x := x
		out = append(out, workFam{name: "Marshal a wide struct of " + x.name, n: fields, mk: func(n int) (func() error, int) {
			run := marRun([]any{iface(reflect.New(x.t(n)).Elem())})
			run()
			return run, 16 * n
		}})
	}
	// Marshal
	encode := func(name string, n int, deep bool, mk func(n int) any) {
		small, bytes := n, 0
		out = append(out, workFam{name: "Marshal " + name, n: n, deep: deep, mk: func(n int) (func() error, int) {
			v := mk(n)
			if n == small { // the larger output is at least about eight times as long
				b, _, _ := Marshal(v)
				bytes = len(b)
			}
			return marRun(v), bytes * (n / small)
		}})
	}
	for _, s := range workShapes {
		for _, e := range workElems {
			s, e := s, e
			fromDoc := func(t reflect.Type) func(n int) any {
				return func(n int) any {
					v := reflect.New(t)
					if err, pan := Unmarshal([]byte(s.doc(n, e.doc)), v.Interface()); err != nil || pan != nil {
						panic(fmt.Sprint("harness: ", err, pan))
					}
					return iface(v.Elem())
				}
			}
			t := s.t(e.t)
			if isUnm(t) || t == typeOf[Plain]() || t == typeOf[struct{ X UR }]() || t == typeOf[[]UR]() || t.Kind() == reflect.Array || encRefused(t) {
				continue
			}
			mk := fromDoc(t)
			encode(e.name+" "+s.name+" from a "+t.String(), N, false, mk)
			encode(e.name+" "+s.name+" from a "+t.String()+" in an any", N, false, func(n int) any { return []any{mk(n)} })
			encode(e.name+" "+s.name+" from a *"+t.String()+", three times", N, false, func(n int) any {
				p := reflect.New(t)
				p.Elem().Set(reflect.ValueOf(mk(n)))
				return []any{iface(p), iface(p), iface(p)}
			})
		}
	}
	for _, e := range workElems {
		e := e
		elem := func(i int) any {
			v := reflect.New(e.t)
			if err, pan := Unmarshal([]byte(e.doc(i)), v.Interface()); err != nil || pan != nil {
				panic(fmt.Sprint("harness: ", err, pan))
			}
			return iface(v.Elem())
		}
		encode(e.name+" in a []any", N, false, func(n int) any {
			s := make([]any, n)
			for i := range s {
				s[i] = elem(i)
			}
			return s
		})
		encode(e.name+" in a map[string]any", N, false, func(n int) any {
			s := make(map[string]any, n)
			for i := 0; i < n; i++ {
				s[strconv.Itoa(i)] = elem(i)
			}
			return s
		})
		encode(e.name+" in fields of structs in a []any", N, false, func(n int) any {
			s := make([]any, n)
			for i := range s {
				s[i] = struct {
					A int
					V any `php:"v,omitempty"`
				}{i, elem(i)}
			}
			return s
		})
		encode("an array of "+e.name, N, false, func(n int) any {
			a := reflect.New(reflect.ArrayOf(n, e.t)).Elem()
			for i := 0; i < n; i++ {
				a.Index(i).Set(reflect.ValueOf(elem(i)))
			}
			return iface(a.Addr())
		})
	}
	for kind := 0; kind < 3; kind++ {
		kind := kind
		encode("a string", long, false, func(n int) any { return filler(n, kind) })
		encode("a string in a struct", long, false, func(n int) any { return Plain{1, filler(n, kind)} })
		encode("a []byte", long, false, func(n int) any { return []byte(filler(n, kind)) })
		encode("a string in an any", long, false, func(n int) any { return []any{filler(n, kind), []byte(filler(n, kind))} })
		encode("a key", long, false, func(n int) any { return map[string]any{filler(n, kind): filler(n, kind)} })
		encode("a marshaler's output", long, false, func(n int) any { return []any{MStr(encStr(filler(n, kind)))} })
	}
	encode("marshalers", N, false, func(n int) any {
		s := make([]any, n)
		for i := range s {
			s[i] = MInt(i)
		}
		return s
	})
	encode("pointer marshalers", N, false, func(n int) any {
		s := make([]*MP, n)
		for i := range s {
			s[i] = &MP{"i:1;"}
		}
		return s
	})
	encode("marshalers that call Marshal", N, false, func(n int) any {
		s := make([]any, n)
		for i := range s {
			s[i] = MNest{[]int{i}}
		}
		return s
	})
	encode("one pointer many times", N, false, func(n int) any {
		s := make([]*Plain, n)
		p := &Plain{1, "x"}
		for i := range s {
			s[i] = p
		}
		return s
	})
	encode("one map many times", N, false, func(n int) any {
		s := make([]any, n)
		p := map[string]any{"k": []any{1}}
		for i := range s {
			s[i] = p
		}
		return s
	})
	deepN := 6000
	encode("a list of struct pointers", deepN, true, func(n int) any { return hList(n, "end") })
	encode("nested []any", deepN, true, func(n int) any { return anyList(n, "end") })
	encode("nested pointers to any", deepN, true, func(n int) any {
		var x any = 1
		for i := 0; i < n; i++ {
			y := []any{x}
			x = &y
		}
		return x
	})
	encode("nested map[string]any", deepN, true, func(n int) any {
		var x any = 1
		for i := 0; i < n; i++ {
			x = map[string]any{"k": x}
		}
		return x
	})
	encode("nested typed slices", deepN, true, func(n int) any {
		var x RS
		for i := 0; i < n; i++ {
			x = RS{x}
		}
		return x
	})
	encode("nested typed maps", deepN, true, func(n int) any {
		x := RM{}
		for i := 0; i < n; i++ {
			x = RM{"k": x}
		}
		return x
	})
	encode("wide below a deep list", N, false, func(n int) any { return hList(1500, elemList(n)) })
	encode("many pointers below a deep list", N, false, func(n int) any {
		s := make([]any, n)
		for i := range s {
			s[i] = &hNode{V: i}
		}
		return hList(1500, s)
	})
	for _, end := range []any{func() {}, MV{"ERR"}} {
		end := end
		out = append(out, workFam{name: fmt.Sprintf("Marshal a deep list ending in a %T", end), n: deepN, deep: true, fail: true, mk: func(n int) (func() error, int) {
			return marRun(hList(n, end)), n * 20
		}}, workFam{name: fmt.Sprintf("Marshal a []any ending in a %T", end), n: N, fail: true, mk: func(n int) (func() error, int) {
			return marRun(append(elemList(n), end)), n * 20
		}})
	}
	return
}

func elemList(n int) []any {
	s := make([]any, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func init() {
	register(&Check{
		ID:     "C21",
		Enough: 2,
		Rule:   "every family of documents (ten kinds of elements in sixteen shapes, long scalars in every position, deep nestings; each whole and without its last byte) into every fitting destination, and of values for Marshal (the same, nested, shared, failing at the end), at a size and at eight times that size: thread CPU time and bytes allocated may grow up to 32 and 24 times; the first use of types whose reference graphs have very many paths (cliques, diamonds, orders of up to 40 types over six kinds of edges); structs of 2000 and 16000 fields, with every member, in any order, one again and again, and only unknown ones",
		Units: func(thorough bool) (units []Unit) {
			fs := workFamilies(thorough)
			units = chunked("families", len(fs), 8, func(u *U, i int) {
				if u.Next() {
					workCase(u, fs[i])
				}
			})
			// the first use of a type: types are only new once in a process
			return append(units, Unit{"types-decode", func(u *U) {
				for _, x := range workTypes {
					if u.Next() {
						typeWork(u, "Unmarshal", x.name, func() error { return unmRun("a:0:{}", func() any { return reflect.New(x.t).Interface() })() })
					}
				}
			}}, Unit{"types-encode", func(u *U) {
				for _, x := range workTypes {
					if u.Next() {
						typeWork(u, "Marshal", x.name, marRun(iface(reflect.New(x.t))))
					}
				}
			}})
		},
	})
}
