package main

// Histories of calls, each explored in a process of its own, so that every
// history starts from the state the library has when a program starts.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// An hop is one call (or environment event) of a history.
type hop struct {
	name string
	// run makes the call and renders everything the caller can see of it.
	run func(e *henv) string
}

// henv is what a history keeps between its calls.
type henv struct {
	scribble bool // overwrite what belongs to the caller after each call
	keep     []kept
	objs     map[string]any
}

type kept struct {
	op   string
	what string
	v    reflect.Value
	dump string
}

// obj returns the object of that name, made on first use.
func obj[T any](e *henv, name string, mk func() T) T {
	if o, ok := e.objs[name]; ok {
		return o.(T)
	}
	o := mk()
	e.objs[name] = o
	return o
}

func (e *henv) retain(op, what string, v reflect.Value) {
	if v.IsValid() {
		e.keep = append(e.keep, kept{op, what, v, dump(v)})
	}
}

// mar calls Marshal; the rendering is exact except for the order of map entries.
func (e *henv) mar(op string, v any) string {
	b, err, pan := Marshal(v)
	if pan != nil {
		return "panic " + fmt.Sprint(pan.v)
	}
	s := ""
	if err != nil {
		s = "error " + err.Error() + " "
	}
	if b != nil {
		s += "bytes " + short(canonDoc(b))
		if e.scribble {
			full := b[:cap(b)]
			for i := range full {
				full[i] = 0xAA
			}
		} else {
			e.retain(op, "output", reflect.ValueOf(b))
		}
	}
	return s
}

// unm calls Unmarshal on a new destination (a pointer).
func (e *henv) unm(op, doc string, dst any) string {
	src := append(make([]byte, 0, len(doc)+16), doc...)
	err, pan := Unmarshal(src, dst)
	if pan != nil {
		return "panic " + fmt.Sprint(pan.v)
	}
	s := ""
	if string(src) != doc {
		s = "INPUT MODIFIED "
	}
	if e.scribble {
		full := src[:cap(src)]
		for i := range full {
			full[i] = 0x55
		}
	}
	if err != nil {
		// what a failed call leaves in the destination is not specified
		return s + "error " + err.Error()
	}
	s += "value " + short([]byte(dump(reflect.ValueOf(dst).Elem())))
	if !e.scribble {
		e.retain(op, "value", reflect.ValueOf(dst).Elem())
	}
	return s
}

func short(b []byte) string {
	if len(b) < 160 {
		return strconv.Quote(string(b))
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d bytes %s %q...", len(b), hex.EncodeToString(h[:8]), b[:60])
}

// canonDoc sorts the entries of every array by key where they are all distinct.
func canonDoc(b []byte) []byte {
	s := string(b)
	var n *Node
	if len(b) <= 1<<25 {
		n = parseDoc(s)
	}
	if n == nil || n.Height > 2000 { // in any order
		if len(b) < 1<<12 {
			return b
		}
		var hist [256]int
		for _, c := range b {
			hist[c]++
		}
		return fmt.Append(nil, "bytes ", hist)
	}
	var sb strings.Builder
	var rec func(n *Node)
	rec = func(n *Node) {
		if n.K != 'a' {
			sb.WriteString(s[n.Start:n.End])
			return
		}
		idx := make([]int, len(n.E))
		for i := range idx {
			idx[i] = i
		}
		key := func(i int) string { return s[n.E[i].K.Start:n.E[i].K.End] }
		sort.SliceStable(idx, func(i, j int) bool { return key(idx[i]) < key(idx[j]) })
		fmt.Fprintf(&sb, "a:%d:{", len(n.E))
		for _, i := range idx {
			sb.WriteString(key(i))
			rec(n.E[i].V)
		}
		sb.WriteString("}")
	}
	rec(n)
	return []byte(sb.String())
}

// dump renders a value completely (to a depth), floats by their bits, nil and empty apart.
func dump(rv reflect.Value) string {
	var sb strings.Builder
	dumpTo(&sb, rv, 0)
	return sb.String()
}

func dumpTo(sb *strings.Builder, rv reflect.Value, depth int) {
	if !rv.IsValid() {
		sb.WriteString("nil")
		return
	}
	if depth > 12000 {
		sb.WriteString("...")
		return
	}
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(rv.Elem().Type().String() + ":")
		dumpTo(sb, rv.Elem(), depth+1)
	case reflect.Ptr:
		if rv.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		dumpTo(sb, rv.Elem(), depth+1)
	case reflect.Slice:
		if rv.IsNil() {
			sb.WriteString("nil")
			return
		}
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%q", rv.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteString("[")
		for i := 0; i < rv.Len(); i++ {
			dumpTo(sb, rv.Index(i), depth+1)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		if rv.IsNil() {
			sb.WriteString("nil")
			return
		}
		it := rv.MapRange()
		if rv.Len() == 1 {
			it.Next()
			sb.WriteString("map{")
			dumpTo(sb, it.Key(), depth+1)
			sb.WriteString("=")
			dumpTo(sb, it.Value(), depth+1)
			sb.WriteString("}")
			return
		}
		var es []string
		for it.Next() {
			var eb strings.Builder
			dumpTo(&eb, it.Key(), depth+1)
			eb.WriteString("=")
			dumpTo(&eb, it.Value(), depth+1)
			es = append(es, eb.String())
		}
		sort.Strings(es)
		sb.WriteString("map{" + strings.Join(es, ",") + "}")
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < rv.NumField(); i++ {
			dumpTo(sb, rv.Field(i), depth+1)
			sb.WriteString(";")
		}
		sb.WriteString("}")
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "f%x", math.Float64bits(rv.Float()))
	case reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%q", describeValue(rv, 1))
		if rv.Kind() == reflect.String {
			fmt.Fprintf(sb, "%q", rv.String())
		}
	default:
		if (rv.Kind() == reflect.Chan || rv.Kind() == reflect.Func || rv.Kind() == reflect.UnsafePointer) && rv.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(rv.Kind().String())
	}
}

// ---- running a history in this process (the child) ----

type histItem struct{ op, times int }

func parseHist(s string) (out []histItem) {
	for _, p := range strings.Split(s, ",") {
		a, b, ok := strings.Cut(p, "x")
		i, err := strconv.Atoi(a)
		n := 1
		if ok {
			n, _ = strconv.Atoi(b)
		}
		if err == nil {
			out = append(out, histItem{i, n})
		}
	}
	return
}

func showHist(h []histItem) string {
	var p []string
	for _, x := range h {
		if x.times == 1 {
			p = append(p, strconv.Itoa(x.op))
		} else {
			p = append(p, fmt.Sprintf("%dx%d", x.op, x.times))
		}
	}
	return strings.Join(p, ",")
}

var histSets = map[string]func() []hop{}

// histMain runs the histories given on the command line's file descriptor 0, one, and prints its outcome.
func histMain(set, hist string, scribble bool) {
	debug.SetMaxStack(384 << 20)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	lim := uint64(6 << 30)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	ops := histSets[set]()
	e := &henv{scribble: scribble, objs: map[string]any{}}
	var out bytes.Buffer
	for k, it := range parseHist(hist) {
		op := ops[it.op]
		first := ""
		for i := 0; i < it.times; i++ {
			r := op.run(e)
			if i == 0 {
				first = r
			} else if r != first {
				r = fmt.Sprintf("call 1: %s; call %d: %s", first, i+1, r)
				first = r
				break
			}
			if it.times > 100 && len(e.keep) > 200 {
				e.keep = e.keep[:100]
			}
		}
		fmt.Fprintf(&out, "%d %s\n", k, strings.ReplaceAll(first, "\n", "\\n"))
	}
	for _, k := range e.keep {
		if d := dump(k.v); d != k.dump {
			fmt.Fprintf(&out, "! the %s of %q changed from %s to %s\n", k.what, k.op, short([]byte(k.dump)), short([]byte(d)))
		}
	}
	out.WriteString("end\n")
	os.Stdout.Write(out.Bytes())
}

// runHist runs one history in a process of its own.
// It returns the outcomes of its calls and what else went wrong.
func runHist(set string, h []histItem, scribble bool) (res []string, bad string) {
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	args := []string{"-histset", set, "-hist", showHist(h)}
	if scribble {
		args = append(args, "-scribble")
	}
	for attempt := 0; ; attempt++ {
		cmd := exec.Command(self, args...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &limitedBuffer{b: &se, max: 64 << 10}
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		runtime.LockOSThread()
		err := cmd.Start()
		if err != nil {
			runtime.UnlockOSThread()
			if attempt < 5 {
				time.Sleep(time.Second)
				continue
			}
			fatal(err)
		}
		timer := time.AfterFunc(250*time.Second, func() { _ = cmd.Process.Kill() })
		err = cmd.Wait()
		slow := !timer.Stop()
		runtime.UnlockOSThread()
		lines := strings.Split(strings.TrimSuffix(so.String(), "\n"), "\n")
		if err != nil || lines[len(lines)-1] != "end" {
			if attempt < 2 {
				continue
			}
			if slow {
				return nil, "the history did not end within 250 s"
			}
			if isCodeCrash(se.String()) {
				return nil, "the process crashed: " + clip(se.String(), 2500)
			}
			fatal("history", set, showHist(h), err, clip(se.String(), 500))
		}
		for _, l := range lines[:len(lines)-1] {
			if strings.HasPrefix(l, "!") {
				bad += l + "\n"
				continue
			}
			_, r, _ := strings.Cut(l, " ")
			res = append(res, r)
		}
		return res, bad
	}
}

var aloneCache = map[string]string{}

// alone is the outcome of op when it is the first and only call of a process.
func alone(u *U, set string, op int) string {
	k := set + "/" + strconv.Itoa(op)
	if r, ok := aloneCache[k]; ok {
		return r
	}
	res, bad := runHist(set, []histItem{{op, 1}}, false)
	r := ""
	if bad != "" {
		r = "BAD " + bad
	} else {
		r = res[0]
	}
	aloneCache[k] = r
	return r
}

// checkHist compares every call of a history with the same call made alone.
func checkHist(u *U, set string, ops []hop, h []histItem, scribble bool) {
	u.w.calls += int64(len(h))
	for _, it := range h {
		u.w.calls += int64(it.times - 1)
	}
	res, bad := runHist(set, h, scribble)
	name := func() string {
		var p []string
		for _, it := range h {
			s := ops[it.op].name
			if it.times > 1 {
				s += fmt.Sprintf(" (%d times)", it.times)
			}
			p = append(p, s)
		}
		return "[" + strings.Join(p, "; ") + "]"
	}
	if bad != "" {
		u.Fail("after the calls %s: %s (mc -histset %s -hist %s)", name(), bad, set, showHist(h))
		return
	}
	for i, it := range h {
		if a := alone(u, set, it.op); res[i] != a {
			u.Fail("in the history %s, call %d (%s) gives %s; made alone it gives %s (mc -histset %s -hist %s)", name(), i+1, ops[it.op].name, clip(res[i], 800), clip(a, 800), set, showHist(h))
			return
		}
		steps++
	}
	if u.verbose {
		u.Show("history %s: %q", name(), res)
	}
	u.State(append([]string{set, showHist(h)}, res...)...)
	if u.w.cases == 40 {
		u.Sample("%s: history %s gives %s, as each call alone", u.name, name(), clip(strings.Join(res, " | "), 200))
	}
}
