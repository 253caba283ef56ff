package main

// The concurrent programs of C10 and the process that explores a segment of
// the schedules of one of them.

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	php "github.com/trim21/go-phpserialize"

	"verifmc/sched"
	shimsync "verifmc/shim/sync"
)

// ---- the types; T makes them new ----

type cG[T any] struct {
	A int               `php:"a"`
	S string            `php:"s,omitempty"`
	F float64           `php:"f,string"`
	N *cG[T]            `php:"n"`
	L []cH[T]           `php:"l"`
	M map[string]*cG[T] `php:"m"`
	I any               `php:"i"`
	z [0]T
}

type cH[T any] struct {
	X int      `php:"x"`
	Y []string `php:"y"`
	P *cG[T]   `php:"p"`
	B []byte   `php:"b"`
	z [0]T
}

type cBad[T any] struct {
	A int
	C chan T
}

type cBadRec[T any] struct {
	A string
	N *cBadRec[T]
	D cBad[T]
}

type cDup[T any] struct {
	A int `php:"k"`
	B int `php:"k"`
	z [0]T
}

type (
	cSl[T any] []cSl[T]
	cMp[T any] map[string]cMp[T]
)

// cMar calls f at the place where a marshaler runs.
type cMar[T any] struct{ f func() ([]byte, error) }

func (m cMar[T]) MarshalPHP() ([]byte, error) {
	sched.Point(sched.KUser)
	defer sched.Point(sched.KUser)
	return m.f()
}

// cUnm keeps its bytes; it does what they say.
type cUnm[T any] struct {
	Raw []byte
	V   any
	G   *cG[T]
}

func (u *cUnm[T]) UnmarshalPHP(b []byte) error {
	sched.Point(sched.KUser)
	defer sched.Point(sched.KUser)
	u.Raw = b
	switch {
	case strings.Contains(string(b), "PANIC"):
		panic("harness: unmarshaler panic")
	case strings.Contains(string(b), "FAIL"):
		return errUnmarshal
	case strings.Contains(string(b), "NEST"):
		if err := php.Unmarshal(b, &u.V); err != nil {
			return err
		}
		u.G = new(cG[T])
		return php.Unmarshal([]byte(`a:2:{s:1:"a";i:5;s:1:"l";a:1:{i:0;a:1:{s:1:"x";i:6;}}}`), u.G)
	}
	return nil
}

// ---- operations ----

// outcome is what a call returned. It is rendered when all threads have ended.
type outcome struct {
	out  []byte
	copy string // of out, right after the call
	err  error
	pan  any
	dst  reflect.Value
	src  []byte // input, to be unchanged
	doc  string
}

type concShared struct {
	doc  []byte // an input given to several threads
	kept []byte // a slice several marshalers return
	objs map[string]any
}

func newConcShared() *concShared {
	d := []byte(concDoc + "TAIL")
	return &concShared{doc: d[:len(concDoc)], kept: append(make([]byte, 0, 700), encStr(strings.Repeat("kept", 100))...), objs: map[string]any{}}
}

// shObj returns an argument that is given to several threads.
func shObj[T any](sh *concShared, name string, mk func() T) T {
	if o, ok := sh.objs[name]; ok {
		return o.(T)
	}
	o := mk()
	sh.objs[name] = o
	return o
}

type concOp struct {
	name string
	slow bool                   // fewer schedules
	few  bool                   // also in programs of three calls
	prep func() func() *outcome // prep runs before the threads start
}

const concDoc = `a:7:{s:1:"a";i:-5;s:1:"s";s:3:"str";s:1:"f";s:4:"0.25";s:1:"n";a:1:{s:1:"s";s:5:"inner";}s:1:"l";a:2:{i:0;a:3:{s:1:"x";i:1;s:1:"y";a:2:{i:0;s:1:"q";i:1;s:1:"r";}s:1:"b";s:2:"by";}i:1;a:1:{s:1:"p";a:1:{s:1:"a";i:9;}}}s:1:"m";a:2:{s:1:"k";a:1:{s:1:"s";s:2:"mv";}s:2:"k2";N;}s:1:"i";a:2:{i:0;s:1:"w";s:1:"z";d:1.5;}}`

func callMarshal(v any) func() *outcome {
	return func() (o *outcome) {
		o = &outcome{}
		defer func() {
			if r := recover(); r != nil {
				if sched.IsAbort(r) {
					panic(r)
				}
				o.pan = r
			}
		}()
		o.out, o.err = php.Marshal(v)
		o.copy = string(o.out)
		return
	}
}

func callUnmarshal(src []byte, dst any) func() *outcome {
	return func() (o *outcome) {
		o = &outcome{src: src, doc: string(src)}
		defer func() {
			if r := recover(); r != nil {
				if sched.IsAbort(r) {
					panic(r)
				}
				o.pan = r
			}
		}()
		o.err = php.Unmarshal(src, dst)
		if o.err == nil {
			o.dst = reflect.ValueOf(dst).Elem()
		}
		return
	}
}

func conG[T any](n int) *cG[T] {
	return &cG[T]{A: n, S: "str", F: 0.5, N: &cG[T]{A: -n}, L: []cH[T]{{X: 1, Y: []string{"q", "r"}, P: &cG[T]{S: "deep"}, B: []byte("by")}, {}}, M: map[string]*cG[T]{"k": {S: "mv", F: 1e-7}}, I: []any{"w", 1.5, map[string]any{"z": nil}}}
}

// conPanic panics where a marshaler runs.
func conPanic[T any]() cMar[T] {
	return cMar[T]{func() ([]byte, error) { panic("harness: marshaler panic") }}
}

func concOps[T any](sh *concShared) (ops []concOp) {
	few := func() { ops[len(ops)-1].few = true }
	mar := func(name string, mk func() any) {
		ops = append(ops, concOp{"Marshal " + name, strings.Contains(name, "deep") || name == "cycle", false, func() func() *outcome { return callMarshal(mk()) }})
	}
	unm := func(name, doc string, mk func() any) {
		ops = append(ops, concOp{"Unmarshal " + name, false, false, func() func() *outcome { return callUnmarshal([]byte(doc), mk()) }})
	}
	mar("struct", func() any { return *conG[T](5) })
	few()
	mar("pointer to struct", func() any { return conG[T](6) })
	mar("structs in interfaces", func() any {
		return []any{conG[T](7), cH[T]{X: 3, Y: []string{"y"}}, map[int]any{1: conG[T](8)}, "text", 2.5, nil}
	})
	mar("builtin types", func() any { return map[string][]int{"list": {1, 2, 3}} })
	mar("6000 byte strings", func() any {
		return &cG[T]{S: strings.Repeat("S", 6000), L: []cH[T]{{Y: []string{strings.Repeat("Y", 3000)}}}, I: strings.Repeat("I", 5000)}
	})
	mar("a channel after output", func() any { return []any{*conG[T](9), map[string]any{"c": make(chan T)}} })
	few()
	mar("unsupported type", func() any { return cBadRec[T]{A: "x", N: &cBadRec[T]{}} })
	mar("marshaler that calls Marshal", func() any {
		return []any{"before", cMar[T]{func() ([]byte, error) { return php.Marshal(conG[T](10)) }}, "after"}
	})
	few()
	mar("marshaler error", func() any {
		return &cG[T]{A: 1, I: cMar[T]{func() ([]byte, error) { return nil, errMarshal }}}
	})
	mar("marshaler panic", func() any { return &cG[T]{A: 1, I: []any{"x", conPanic[T]()}} })
	few()
	mar("cycle", func() any { l := []any{cH[T]{X: 2}, nil}; l[1] = l; return l })
	mar("1010 slices deep", func() any { return anyList(1010, cH[T]{X: 1}) })
	mar("a value used by others", func() any {
		return shObj(sh, "g", func() *cG[T] { return conG[T](12) })
	})
	mar("interfaces used by others", func() any {
		return shObj(sh, "any", func() []any { return []any{*conG[T](13), cMp[T]{"m": {}}, [2]any{1, "x"}, conG[T](14)} })
	})
	mar("marshaler returning a slice others return", func() any {
		return []any{cMar[T]{func() ([]byte, error) { return sh.kept, nil }}, "after"}
	})
	few()
	mar("marshaler returning a slice others return, on top", func() any { return cMar[T]{func() ([]byte, error) { return sh.kept, nil }} })
	mar("recursive defined types", func() any { return []any{cSl[T]{{}, {{}}}, cMp[T]{"a": {"b": {}}}} })
	unm("struct", concDoc, func() any { return new(cG[T]) })
	few()
	unm("any", concDoc, func() any { return new(any) })
	unm("map of pointers to structs", `a:1:{s:3:"one";`+concDoc+`}`, func() any { return new(map[string]*cG[T]) })
	unm("slice of structs", `a:2:{i:1;a:2:{s:1:"x";i:7;s:1:"y";a:1:{i:0;s:2:"yy";}}i:0;a:2:{s:1:"b";s:2:"bb";s:1:"p";a:1:{s:1:"a";i:4;}}}`, func() any { return new([]cH[T]) })
	unm("array of structs", `a:3:{i:1;a:1:{s:1:"x";i:7;}i:5;a:1:{s:1:"x";i:8;}i:0;a:1:{s:1:"x";i:9;}}`, func() any { return new([2]cH[T]) })
	unm("struct, skipping members", `a:4:{s:4:"skip";a:2:{i:0;s:2:"xx";i:1;O:1:"C":1:{s:1:"p";d:1;}}s:1:"a";i:3;s:2:"no";N;s:1:"s";s:2:"yy";}`, func() any { return new(cG[T]) })
	unm("a bad value late in a struct", concDoc[:len(concDoc)-10]+"X"+concDoc[len(concDoc)-9:], func() any { return new(cG[T]) })
	few()
	unm("a truncated struct", concDoc[:len(concDoc)/2], func() any { return new(cG[T]) })
	unm("unmarshalers", `a:3:{s:1:"p";s:4:"text";s:1:"q";a:1:{i:0;s:4:"NEST";}s:1:"r";N;}`, func() any { return new(map[string]cUnm[T]) })
	few()
	unm("unmarshaler error", `a:2:{i:0;s:4:"text";i:1;s:4:"FAIL";}`, func() any { return new([]cUnm[T]) })
	unm("unmarshaler panic", `a:2:{i:0;s:4:"text";i:1;s:5:"PANIC";}`, func() any { return new([]*cUnm[T]) })
	unm("unsupported type", `a:1:{s:1:"A";s:1:"x";}`, func() any { return new(cBadRec[T]) })
	unm("duplicate keys", `a:1:{s:1:"k";i:1;}`, func() any { return new(cDup[T]) })
	unm("recursive defined types", `a:2:{i:0;a:0:{}i:1;a:1:{i:0;a:0:{}}}`, func() any { return new(cSl[T]) })
	unm("recursive defined maps", `a:1:{s:1:"a";a:1:{s:1:"b";a:0:{}}}`, func() any { return new(cMp[T]) })
	unm("3000 byte strings", `a:2:{s:1:"s";s:3000:"`+strings.Repeat("abc", 1000)+`";s:1:"i";s:3000:"`+strings.Repeat("def", 1000)+`";}`, func() any { return new(cG[T]) })
	ops = append(ops, concOp{"Unmarshal an input used by others", false, false, func() func() *outcome { return callUnmarshal(sh.doc, new(cG[T])) }})
	return
}

var familyName = regexp.MustCompile(`\*\[\d+\]int`)

func (o *outcome) render() string {
	if o == nil {
		return "did not return"
	}
	if o.pan != nil {
		return "panic " + fmt.Sprint(o.pan)
	}
	s := ""
	if o.err != nil {
		s = "error " + familyName.ReplaceAllString(o.err.Error(), "T") + " "
		switch {
		case errors.Is(o.err, errMarshal):
			s += "(the marshaler's) "
		case errors.Is(o.err, errUnmarshal):
			s += "(the unmarshaler's) "
		}
	}
	if o.out != nil || o.copy != "" {
		if string(o.out) != o.copy {
			s += "CHANGED AFTER IT WAS RETURNED from " + short([]byte(o.copy)) + " to "
		}
		s += "bytes " + short(canonDoc(o.out))
	}
	if o.dst.IsValid() {
		s += "value " + short([]byte(familyName.ReplaceAllString(dump(o.dst), "T")))
	}
	if string(o.src) != o.doc {
		s += " INPUT CHANGED"
	}
	return s
}

// ---- programs ----

// A concProg is what the threads do: per thread a list of (operation, family offset).
type concProg struct {
	Threads [][]int
	Offset  []int // family offset of each thread
	Oldest  bool  // a pool may also return the object put first
	Warm    bool  // every operation has run before
	Bound   int   // preemptions and unusual pool choices
}

func (p concProg) describe(ops []concOp) string {
	var t []string
	for i, th := range p.Threads {
		var s []string
		for _, o := range th {
			s = append(s, ops[o].name)
		}
		x := strings.Join(s, "; ")
		if p.Offset[i] != 0 {
			x += " (types of its own)"
		}
		t = append(t, x)
	}
	k := "first use of the types"
	if p.Warm {
		k = "types in use"
	}
	return strings.Join(t, "  ||  ") + " [" + k + "]"
}

type concResult struct {
	Execs, Steps, Choices int64
	MaxChoices            int
	Next                  []int // prefix of the next schedule; nil: all explored
	Outcomes              [][]map[string]int
	Schedules             map[string][]int // a schedule for each outcome
	Fail                  string
	FailSchedule          []int
	Kinds                 [16]int64
	Diverged              int64
	Free                  bool
	Seen                  int64
}

// concMain explores up to max schedules of prog from prefix on, in this process.
func concMain(progJSON, prefixS string, max int, errFile string) {
	runtime.GOMAXPROCS(1)
	var p concProg
	if err := json.Unmarshal([]byte(progJSON), &p); err != nil {
		fatal(err)
	}
	var prefix []int
	for _, x := range strings.Split(prefixS, ",") {
		if x != "" {
			n, _ := strconv.Atoi(x)
			prefix = append(prefix, n)
		}
	}
	f, err := os.OpenFile(errFile, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o600)
	if err != nil {
		fatal(err)
	}
	if err := syscall.Dup3(int(f.Fd()), 2, 0); err != nil {
		fatal(err)
	}
	size := func() int64 {
		st, err := f.Stat()
		if err != nil {
			return 0
		}
		return st.Size()
	}
	r := concResult{Schedules: map[string][]int{}}
	for _, th := range p.Threads {
		r.Outcomes = append(r.Outcomes, make([]map[string]int, len(th)))
		for j := range th {
			r.Outcomes[len(r.Outcomes)-1][j] = map[string]int{}
		}
	}
	finish := func() {
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		os.Exit(0)
	}
	if *fFree {
		r.Free = true
		concFree(p, &r, max, size)
		finish()
	}
	sched.SetPrefix(prefix)
	sched.PoolOldest = p.Oldest
	k := 0
	maxOff := 0
	for _, o := range p.Offset {
		maxOff = maxInt(maxOff, o)
	}
	t0 := time.Now()
	for {
		if p.Warm {
			k = 0
		}
		threads, outs := concThreads(p, k)
		shimsync.Drain()
		if p.Warm {
			// the types are compiled, the pools hold what these calls put there
			w, _ := concThreads(p, k)
			for _, f := range w {
				f()
			}
		}
		sched.Run(threads, p.Bound)
		r.Execs++
		r.Steps += sched.Steps
		r.Choices += int64(sched.Choices())
		r.MaxChoices = maxInt(r.MaxChoices, sched.Choices())
		if sched.Diverged {
			r.Diverged++
		}
		if size() > 0 {
			r.Fail = "the race detector reports a data race"
		}
		if sched.Deadlock {
			r.Fail = "deadlock: every thread waits"
		}
		if sched.TooLong {
			r.Fail = "no end after 400000 synchronisation operations"
		}
		if r.Fail != "" {
			r.FailSchedule = sched.Schedule()
			finish()
		}
		for i := range outs {
			for j, o := range outs[i] {
				s := o.render()
				r.Outcomes[i][j][s]++
				if key := fmt.Sprint(i, j, s); r.Schedules[key] == nil {
					r.Schedules[key] = sched.Schedule()
				}
			}
		}
		more := sched.Next()
		k += maxOff + 1
		if !more {
			break
		}
		if int(r.Execs) >= max || k+maxOff >= len(concFamilies) || time.Since(t0) > 20*time.Second {
			r.Next = sched.Prefix()
			break
		}
	}
	r.Kinds = sched.Kinds
	r.Seen = sched.Seen
	finish()
}

// concThreads prepares the threads of one execution with the types of family k on.
func concThreads(p concProg, k int) (threads []func(), outs [][]*outcome) {
	sh := newConcShared()
	ops := map[int][]concOp{}
	outs = make([][]*outcome, len(p.Threads))
	for i, th := range p.Threads {
		off := k + p.Offset[i]
		if ops[off] == nil {
			s := sh
			if p.Offset[i] != 0 {
				s = newConcShared()
			}
			ops[off] = concFamilies[off%len(concFamilies)](s)
		}
		calls := make([]func() *outcome, len(th))
		for j, o := range th {
			calls[j] = ops[off][o].prep()
		}
		res := make([]*outcome, len(th))
		outs[i] = res
		threads = append(threads, func() {
			for j, c := range calls {
				sched.Point(sched.KUser)
				res[j] = c()
				sched.Point(sched.KUser)
			}
		})
	}
	return
}

// concFree runs the threads as ordinary goroutines: only when the code cannot be scheduled.
func concFree(p concProg, r *concResult, max int, size func() int64) {
	runtime.GOMAXPROCS(4)
	for k := 0; k < max && k < 60; k++ {
		kk := k * 3 % (len(concFamilies) - 3)
		if p.Warm {
			kk = 0
		}
		threads, outs := concThreads(p, kk)
		var wg sync.WaitGroup
		for _, f := range threads {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
		r.Execs++
		if size() > 0 {
			r.Fail = "the race detector reports a data race"
			return
		}
		for i := range outs {
			for j, o := range outs[i] {
				r.Outcomes[i][j][o.render()]++
			}
		}
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
