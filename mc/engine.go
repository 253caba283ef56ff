package main

// The exploration engine: a parent process that spreads the units of a check
// over worker processes, notices crashes and hangs, replays what it noticed
// and writes the evidence file.
//
// A check is a list of units; a unit enumerates its cases deterministically.
// A case is therefore identified by (unit, case number) and can be run again.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	php "github.com/trim21/go-phpserialize"
)

type Unit struct {
	Name string
	Run  func(u *U)
}

type Check struct {
	ID    string
	Units func(thorough bool) []Unit
	Rule  string // how cases are made and when they count
	// MemMB bounds the memory of one worker, StackMB its goroutine stacks.
	MemMB, StackMB int
	Workers        int
	Enough         int // violations that end the run (0: three)
	Assumptions    []string
}

// enough violations end a worker's run, and then all of them.
var enough = 3

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// U is what a unit sees.
type U struct {
	name    string
	idx     int
	n       int64 // case number, 1-based
	only    int64 // run only this case (0: all)
	upto    int64 // stop after this case (0: none)
	verbose bool
	w       *worker
}

type Violation struct {
	Unit string
	UIdx int
	Case int64
	Msg  string
	Seq  []int // units this worker ran before, in order (ends with UIdx)
	Kind string
}

type worker struct {
	slot       *slot
	stop       *int64
	seq        []int
	violations []Violation
	known      []Violation // violations listed as known findings, one of each
	knownList  []knownFinding
	calls      int64 // API calls made
	cases      int64
	states     map[uint64]struct{}
	stateCap   bool
	samples    []string
	thorough   bool
	incomplete bool
	deadline   time.Time
	coverage   map[string]int64
}

type slot struct {
	unit int64
	cas  int64
	done int64
	_    [5]int64
	note [448]byte
}

type shared struct {
	next int64
	stop int64 // enough violations are known: no worker goes on
	_    [62]int64
	slot [64]slot
}

var curU *U

// steps counts the steps the reference models take (one per value encoded, decoded or parsed).
var steps int64

// Next starts a case; it returns false when the case is not to be run.
func (u *U) Next() bool {
	u.n++
	if u.only != 0 && u.n != u.only {
		return false
	}
	if u.upto != 0 && u.n > u.upto {
		return false
	}
	if u.w.slot != nil {
		atomic.StoreInt64(&u.w.slot.cas, u.n)
	}
	u.w.cases++
	if u.w.stop != nil && atomic.LoadInt64(u.w.stop) != 0 {
		u.w.incomplete = true
		panic(deadlineExceeded{})
	}
	if u.w.cases&0x3f == 0 && time.Now().After(u.w.deadline) {
		u.w.incomplete = true
		panic(deadlineExceeded{})
	}
	return true
}

type deadlineExceeded struct{}

// State records a distinct model state/outcome reached.
func (u *U) State(parts ...string) {
	if len(u.w.states) >= 4_000_000 {
		u.w.stateCap = true
		return
	}
	var h maphash.Hash
	h.SetSeed(seed)
	for _, p := range parts {
		h.WriteString(p)
		h.WriteByte(0)
	}
	h.WriteString(u.name)
	u.w.states[h.Sum64()] = struct{}{}
}

var seed = maphash.MakeSeed()

func (u *U) Sample(format string, a ...any) {
	if len(u.w.samples) < 6 {
		u.w.samples = append(u.w.samples, clip(fmt.Sprintf(format, a...), 300))
	}
}

func (u *U) Cover(name string, n int64) { u.w.coverage[name] += n }

func (u *U) Show(format string, a ...any) {
	if u.verbose {
		fmt.Printf("  %s\n", clip(fmt.Sprintf(format, a...), 4000))
	}
}

func (u *U) Fail(format string, a ...any) { u.fail("mismatch", format, a...) }

// FailMeasured reports a violation that rests on a measurement; it needs confirmation.
func (u *U) FailMeasured(format string, a ...any) { u.fail("measured", format, a...) }

func (u *U) fail(kind, format string, a ...any) {
	if len(u.w.violations) >= 5 {
		return
	}
	msg := clip(fmt.Sprintf(format, a...), 6000)
	seq := append([]int{}, u.w.seq...)
	v := Violation{Unit: u.name, UIdx: u.idx, Case: u.n, Msg: msg, Seq: seq, Kind: kind}
	if k := matchKnown(u.w.knownList, v); k != nil {
		// a listed finding does not use up the places for other violations
		for _, o := range u.w.known {
			if matchKnown(u.w.knownList, o) == k {
				return
			}
		}
		u.w.known = append(u.w.known, v)
		return
	}
	u.w.violations = append(u.w.violations, v)
	if u.w.stop != nil && len(u.w.violations) >= enough {
		atomic.StoreInt64(u.w.stop, 1)
	}
	if u.verbose {
		fmt.Printf("FAIL %s: %s\n", u.name, msg)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// ---- API wrappers: every call to the code under test goes through these ----

type panicValue struct {
	v     any
	stack string
}

func (p *panicValue) String() string { return fmt.Sprintf("panic: %v\n%s", p.v, p.stack) }

func guard(f func()) (p *panicValue) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadlineExceeded); ok {
				panic(r)
			}
			p = &panicValue{r, clip(string(debug.Stack()), 2500)}
		}
	}()
	f()
	return nil
}

func phpUnmarshal(b []byte, v any) error { return php.Unmarshal(b, v) }

func Marshal(v any) (b []byte, err error, p *panicValue) {
	if curU != nil {
		curU.w.calls++
		if curU.verbose {
			curU.Show("Marshal(%s)", describe(v))
		}
	}
	p = guard(func() { b, err = php.Marshal(v) })
	if curU != nil && sampled(curU.w.calls) {
		curU.Sample("%s: Marshal(%s) = %q, %v", curU.name, clip(describe(v), 150), clip(string(b), 100), err)
	}
	return
}

func Unmarshal(data []byte, v any) (err error, p *panicValue) {
	if curU != nil {
		curU.w.calls++
		if curU.verbose {
			curU.Show("Unmarshal(%s, %s)", clip(fmt.Sprintf("%q", data), 3000), typeName(v))
		}
	}
	p = guard(func() { err = php.Unmarshal(data, v) })
	if curU != nil && sampled(curU.w.calls) {
		curU.Sample("%s: Unmarshal(%q, %s) = %v", curU.name, clip(string(data), 150), clip(typeName(v), 100), err)
	}
	return
}

func sampled(n int64) bool { return n == 17 || n == 303 || n == 5003 }

func typeName(v any) string {
	if v == nil {
		return "nil"
	}
	return clip(reflect.TypeOf(v).String(), 1000)
}

// describe never follows pointers more than a little (values may be cyclic).
func describe(v any) string {
	if v == nil {
		return "nil"
	}
	return clip(typeName(v)+" "+describeValue(reflect.ValueOf(v), 4), 3000)
}

func describeValue(rv reflect.Value, depth int) string {
	if !rv.IsValid() {
		return "nil"
	}
	if depth == 0 {
		return "..."
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			return "nil"
		}
		s := "&"
		if rv.Kind() == reflect.Interface {
			s = rv.Elem().Type().String() + ":"
		}
		return s + describeValue(rv.Elem(), depth-1)
	case reflect.Slice, reflect.Array:
		if rv.Kind() == reflect.Slice && rv.IsNil() {
			return "nil"
		}
		var p []string
		for i := 0; i < rv.Len() && i < 8; i++ {
			p = append(p, describeValue(rv.Index(i), depth-1))
		}
		return fmt.Sprintf("[%d]{%s}", rv.Len(), strings.Join(p, ", "))
	case reflect.Map:
		if rv.IsNil() {
			return "nil"
		}
		var p []string
		it := rv.MapRange()
		for i := 0; it.Next() && i < 8; i++ {
			p = append(p, describeValue(it.Key(), depth-1)+": "+describeValue(it.Value(), depth-1))
		}
		sort.Strings(p)
		return fmt.Sprintf("map[%d]{%s}", rv.Len(), strings.Join(p, ", "))
	case reflect.Struct:
		var p []string
		for i := 0; i < rv.NumField() && i < 12; i++ {
			p = append(p, rv.Type().Field(i).Name+": "+describeValue(rv.Field(i), depth-1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case reflect.String:
		return clip(fmt.Sprintf("%q", rv.String()), 200)
	case reflect.Bool:
		return strconv.FormatBool(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(rv.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(rv.Float(), 'g', -1, 64)
	}
	return rv.Kind().String()
}

// ---- worker side ----

func runUnit(w *worker, units []Unit, idx int, only, upto int64, verbose bool) {
	u := &U{name: units[idx].Name, idx: idx, only: only, upto: upto, verbose: verbose, w: w}
	curU = u
	w.seq = append(w.seq, idx)
	if w.slot != nil {
		atomic.StoreInt64(&w.slot.cas, 0)
		atomic.StoreInt64(&w.slot.unit, int64(idx))
	}
	if verbose {
		fmt.Printf("unit %d %s (case %d)\n", idx, u.name, only)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadlineExceeded); ok {
				return
			}
			panic(r)
		}
	}()
	units[idx].Run(u)
}

type workerResult struct {
	Violations []Violation
	Calls      int64
	Steps      int64
	Cases      int64
	States     int64
	StateCap   bool
	Samples    []string
	Seq        []int
	Incomplete bool
	Coverage   map[string]int64
	MaxRSSKB   int64
}

func mapShared(path string) *shared {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fatal(err)
	}
	size := int(unsafe.Sizeof(shared{}))
	if err := f.Truncate(int64(size)); err != nil {
		fatal(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal(err)
	}
	f.Close()
	return (*shared)(unsafe.Pointer(&b[0]))
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

var (
	fProp     = flag.String("prop", "", "property")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fEvidence = flag.String("evidence", "", "evidence file")
	fReplays  = flag.String("replays", "", "replay directory")
	fWorker   = flag.Int("worker", -1, "internal")
	fShared   = flag.String("shared", "", "internal")
	fOut      = flag.String("out", "", "internal")
	fSeq      = flag.String("seq", "", "run exactly these units (comma separated)")
	fOnly     = flag.Int64("only", 0, "run only this case of the last unit")
	fUpto     = flag.Int64("upto", 0, "stop the last unit after this case")
	fUnit     = flag.String("unit", "", "run exactly the unit with this name")
	fVerbose  = flag.Bool("v", false, "verbose")
	fList     = flag.Bool("list", false, "list units")
	fDeadline = flag.Int("deadline", 0, "seconds")
	fRun      = flag.String("run", "", "replay this file")
	fKnown    = flag.String("known", "", "known findings file")
	fHistSet  = flag.String("histset", "", "run a history of this set in this process")
	fHist     = flag.String("hist", "", "the history: operation numbers, 3x100 for repetition")
	fInstr    = flag.String("instrument", "", "write an instrumented overlay of -repo to this directory")
	fRepo     = flag.String("repo", "/repo", "the library's source")
	fConc     = flag.String("conc", "", "internal: explore schedules of this program")
	fConcPre  = flag.String("concprefix", "", "internal")
	fConcMax  = flag.Int("concmax", 1, "internal")
	fConcErr  = flag.String("concerr", "", "internal")
	fFree     = flag.Bool("free", false, "C10: the library is not instrumented")
	fScribble = flag.Bool("scribble", false, "overwrite outputs and inputs after each call of the history")
)

func main() {
	flag.Parse()
	if *fRun != "" {
		os.Exit(replayFile(*fRun))
	}
	if *fInstr != "" {
		if err := instrument(*fRepo, *fInstr); err != nil {
			fmt.Fprintln(os.Stderr, "cannot instrument:", err)
			os.Exit(4)
		}
		return
	}
	if *fConc != "" {
		concMain(*fConc, *fConcPre, *fConcMax, *fConcErr)
		return
	}
	if *fHistSet != "" {
		histMain(*fHistSet, *fHist, *fScribble)
		return
	}
	c := checks[*fProp]
	if c == nil {
		fatal("unknown property", *fProp)
	}
	if c.Enough > 0 {
		enough = c.Enough
	}
	thorough := *fTier == "thorough"
	if *fDeadline == 0 {
		*fDeadline = 420
		if thorough {
			*fDeadline = 780
		}
	}
	units := c.Units(thorough)
	if *fList {
		for i, u := range units {
			fmt.Println(i, u.Name)
		}
		return
	}
	if *fWorker >= 0 || *fSeq != "" || *fUnit != "" {
		workerMain(c, units, thorough)
		return
	}
	os.Exit(parentMain(c, units, thorough))
}

func workerMain(c *Check, units []Unit, thorough bool) {
	stack := 384
	if c.StackMB != 0 {
		stack = c.StackMB
	}
	debug.SetMaxStack(stack << 20)
	debug.SetGCPercent(200)
	mem := 2800
	if c.MemMB != 0 {
		mem = c.MemMB
	}
	debug.SetMemoryLimit(int64(mem) << 20)
	if (*fWorker >= 0 || *fSeq != "") && !raceEnabled {
		// address-space limit: runaway allocation ends this worker, not the sandbox
		lim := uint64(mem+stack+4096) << 20
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	w := &worker{states: map[uint64]struct{}{}, thorough: thorough, coverage: map[string]int64{}}
	w.deadline = time.Now().Add(time.Duration(*fDeadline) * time.Second)
	w.knownList = knownFindings(c.ID)
	if *fUnit != "" {
		for i, u := range units {
			if u.Name == *fUnit {
				runUnit(w, units, i, *fOnly, *fUpto, *fVerbose)
			}
		}
	} else if *fSeq != "" {
		if *fShared != "" {
			w.slot = &mapShared(*fShared).slot[0]
		}
		parts := strings.Split(*fSeq, ",")
		for k, p := range parts {
			i, err := strconv.Atoi(p)
			if err != nil || i >= len(units) {
				fatal("bad -seq")
			}
			if k == len(parts)-1 {
				runUnit(w, units, i, *fOnly, *fUpto, *fVerbose)
			} else {
				runUnit(w, units, i, 0, 0, false)
			}
		}
	} else {
		sh := mapShared(*fShared)
		w.slot = &sh.slot[*fWorker]
		w.stop = &sh.stop
		for {
			i := atomic.AddInt64(&sh.next, 1) - 1
			if i >= int64(len(units)) {
				break
			}
			if time.Now().After(w.deadline) || atomic.LoadInt64(&sh.stop) != 0 {
				w.incomplete = true
				break
			}
			runUnit(w, units, int(i), 0, 0, false)
			if len(w.violations) >= enough {
				w.incomplete = true
				break
			}
		}
		atomic.StoreInt64(&w.slot.done, 1)
	}
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	res := workerResult{append(w.violations, w.known...), w.calls, steps, w.cases, int64(len(w.states)), w.stateCap, w.samples, w.seq, w.incomplete, w.coverage, ru.Maxrss}
	if *fOut != "" {
		b, err := json.Marshal(res)
		if err != nil {
			fatal(err)
		}
		if err := os.WriteFile(*fOut, b, 0o600); err != nil {
			fatal(err)
		}
		return
	}
	fmt.Printf("cases=%d calls=%d states=%d violations=%d\n", res.Cases, res.Calls, res.States, len(res.Violations))
	for _, v := range res.Violations {
		fmt.Printf("FAIL %s case %d: %s\n", v.Unit, v.Case, v.Msg)
	}
	if len(res.Violations) > 0 {
		os.Exit(1)
	}
}

// ---- parent side ----

type child struct {
	cmd    *exec.Cmd
	stderr *bytes.Buffer
	out    string
	exited chan error
	hung   bool
	last   [2]int64
	cpu    float64
	since  time.Time
}

const hangCPU = 40.0   // seconds of CPU time spent in a single case
const hangWall = 300.0 // seconds without progress

func cpuTime(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	return (ut + st) / 100
}

func start(args []string, out string) *child {
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	c := &child{cmd: exec.Command(self, args...), stderr: &bytes.Buffer{}, out: out, exited: make(chan error, 1)}
	c.cmd.Stderr = &limitedBuffer{b: c.stderr, max: 64 << 10}
	c.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.cmd.Start(); err != nil {
		fatal(err)
	}
	go func() { c.exited <- c.cmd.Wait() }()
	return c
}

type limitedBuffer struct {
	b   *bytes.Buffer
	max int
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	if n := l.max - l.b.Len(); n > 0 {
		l.b.Write(p[:min(n, len(p))])
	}
	return len(p), nil
}

// watch waits for c, killing it when one case uses too much CPU time.
func watch(c *child, s *slot) error {
	c.since = time.Now()
	t := time.NewTicker(500 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case err := <-c.exited:
			return err
		case <-t.C:
			cur := [2]int64{atomic.LoadInt64(&s.unit), atomic.LoadInt64(&s.cas)}
			if cur != c.last {
				c.last, c.cpu, c.since = cur, cpuTime(c.cmd.Process.Pid), time.Now()
				continue
			}
			used := cpuTime(c.cmd.Process.Pid) - c.cpu
			if used > hangCPU || time.Since(c.since).Seconds() > hangWall {
				c.hung = true
				_ = c.cmd.Process.Kill()
				return <-c.exited
			}
		}
	}
}

func commonArgs() []string {
	a := []string{"-prop", *fProp, "-tier", *fTier, "-deadline", strconv.Itoa(*fDeadline), "-known", *fKnown}
	if *fFree {
		a = append(a, "-free")
	}
	return a
}

func readResult(path string) (r workerResult, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return r, false
	}
	return r, json.Unmarshal(b, &r) == nil
}

// isCodeCrash tells a crash of the Go program from an end by memory limits.
func isCodeCrash(stderr string) bool {
	switch {
	case strings.Contains(stderr, "out of memory"), strings.Contains(stderr, "cannot allocate memory"),
		strings.Contains(stderr, "failed to create new OS thread"):
		return false
	case strings.Contains(stderr, "fatal error:"), strings.Contains(stderr, "panic:"), strings.Contains(stderr, "SIGSEGV"),
		strings.Contains(stderr, "goroutine stack exceeds"), strings.Contains(stderr, "unexpected fault address"):
		return true
	}
	return false
}

func parentMain(c *Check, units []Unit, thorough bool) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+c.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	shPath := filepath.Join(dir, "shared")
	sh := mapShared(shPath)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if c.Workers != 0 && n > c.Workers {
		n = c.Workers
	}
	if n > len(units) {
		n = len(units)
	}
	type crash struct {
		unit, cas int64
		stderr    string
		hung      bool
	}
	var (
		results []workerResult
		crashes []crash
		notes   []string
	)
	type done struct {
		i   int
		c   *child
		err error
	}
	ch := make(chan done, n)
	launch := func(i int) {
		out := filepath.Join(dir, fmt.Sprintf("out%d", i))
		ch2 := start(append(commonArgs(), "-worker", strconv.Itoa(i), "-shared", shPath, "-out", out), out)
		go func() { err := watch(ch2, &sh.slot[i]); ch <- done{i, ch2, err} }()
	}
	slots := n
	for i := 0; i < n; i++ {
		launch(i)
	}
	running := n
	incomplete := false
	for running > 0 {
		d := <-ch
		running--
		if d.err == nil {
			if r, ok := readResult(d.c.out); ok {
				results = append(results, r)
				continue
			}
		}
		// crashed: remember where, let a fresh worker go on with the next unit
		cr := crash{atomic.LoadInt64(&sh.slot[d.i].unit), atomic.LoadInt64(&sh.slot[d.i].cas), d.c.stderr.String(), d.c.hung}
		crashes = append(crashes, cr)
		if len(crashes) < 4 && slots < 60 && time.Since(t0) < time.Duration(*fDeadline)*time.Second {
			launch(slots)
			slots++
			running++
		} else {
			incomplete = true
		}
	}

	var violations []Violation
	var total workerResult
	total.Coverage = map[string]int64{}
	for _, r := range results {
		total.Cases += r.Cases
		total.Calls += r.Calls
		total.Steps += r.Steps
		total.States += r.States
		total.StateCap = total.StateCap || r.StateCap
		total.Incomplete = total.Incomplete || r.Incomplete
		for _, s := range r.Samples {
			if len(total.Samples) < 9 {
				total.Samples = append(total.Samples, s)
			}
		}
		for k, v := range r.Coverage {
			total.Coverage[k] += v
		}
		violations = append(violations, r.Violations...)
	}
	confirmed := []Violation{}
	sort.SliceStable(violations, func(i, j int) bool {
		if violations[i].UIdx != violations[j].UIdx {
			return violations[i].UIdx < violations[j].UIdx
		}
		return violations[i].Case < violations[j].Case
	})
	known, seenKnown := knownFindings(c.ID), map[*knownFinding]bool{}
	var listed []Violation
	for _, v := range violations {
		if k := matchKnown(known, v); k != nil {
			if !seenKnown[k] {
				seenKnown[k] = true
				listed = append(listed, v)
			}
			continue
		}
		if len(confirmed) >= enough {
			continue
		}
		how := confirm(dir, v)
		if how == "" && v.Kind == "measured" {
			notes = append(notes, fmt.Sprintf("unconfirmed measurement in %s case %d: %s", v.Unit, v.Case, clip(v.Msg, 200)))
			continue
		}
		if how == "" {
			how = "observed once, did not recur when replayed"
		}
		v.Msg += "\n[" + how + "]"
		confirmed = append(confirmed, v)
	}
	for _, cr := range crashes {
		if len(confirmed) >= enough {
			break
		}
		v := Violation{Unit: units[cr.unit].Name, UIdx: int(cr.unit), Case: cr.cas, Seq: []int{int(cr.unit)}, Kind: "crash"}
		if cr.hung {
			v.Msg = fmt.Sprintf("no end of the call after %v s of CPU time", hangCPU)
		} else {
			v.Msg = "process crashed: " + clip(cr.stderr, 3000)
		}
		how := confirmCrash(dir, &v, cr.hung)
		if how == "" {
			notes = append(notes, fmt.Sprintf("unconfirmed crash in %s case %d: %s", v.Unit, v.Case, clip(cr.stderr, 300)))
			incomplete = true
			continue
		}
		v.Msg += "\n[" + how + "]"
		confirmed = append(confirmed, v)
	}
	incomplete = incomplete || total.Incomplete
	return finish(c, thorough, t0, len(units), total, append(listed, confirmed...), notes, incomplete)
}

// confirm replays a violation: alone, then with everything the worker ran before it.
func confirm(dir string, v Violation) string {
	out := filepath.Join(dir, "confirm")
	run := func(seq []int, only, upto int64) bool {
		os.Remove(out)
		var p []string
		for _, s := range seq {
			p = append(p, strconv.Itoa(s))
		}
		args := append(commonArgs(), "-seq", strings.Join(p, ","), "-out", out)
		if only != 0 {
			args = append(args, "-only", strconv.FormatInt(only, 10))
		}
		if upto != 0 {
			args = append(args, "-upto", strconv.FormatInt(upto, 10))
		}
		shp := filepath.Join(dir, "shconfirm")
		sh := mapShared(shp)
		ch := start(append(args, "-shared", shp), out)
		err := watch(ch, &sh.slot[0])
		r, ok := readResult(out)
		if err != nil || !ok {
			return false
		}
		for _, x := range r.Violations {
			if x.Unit == v.Unit && x.Case == v.Case {
				return true
			}
		}
		return false
	}
	for i := 0; i < 3; i++ {
		if run([]int{v.UIdx}, v.Case, 0) {
			return fmt.Sprintf("recurs when the case runs alone: mc -prop %s -tier %s -seq %d -only %d -v", *fProp, *fTier, v.UIdx, v.Case)
		}
	}
	if run([]int{v.UIdx}, 0, v.Case) {
		return fmt.Sprintf("recurs when the unit runs from its start: mc -prop %s -tier %s -seq %d -upto %d", *fProp, *fTier, v.UIdx, v.Case)
	}
	if run(v.Seq, 0, v.Case) {
		return fmt.Sprintf("recurs with the units run before it: mc -prop %s -tier %s -seq %s -upto %d", *fProp, *fTier, strings.Trim(strings.ReplaceAll(fmt.Sprint(v.Seq), " ", ","), "[]"), v.Case)
	}
	return ""
}

func confirmCrash(dir string, v *Violation, hung bool) string {
	out := filepath.Join(dir, "confirm")
	tries := 2
	for i := 0; i < 2*tries; i++ {
		os.Remove(out)
		shp := filepath.Join(dir, "shconfirm")
		sh := mapShared(shp)
		args := append(commonArgs(), "-seq", strconv.Itoa(v.UIdx), "-out", out, "-shared", shp)
		alone := i < tries
		if alone {
			args = append(args, "-only", strconv.FormatInt(v.Case, 10))
		} else {
			args = append(args, "-upto", strconv.FormatInt(v.Case, 10))
		}
		sh.slot[0].cas = 0
		ch := start(args, out)
		err := watch(ch, &sh.slot[0])
		if err == nil && !ch.hung {
			continue
		}
		if sh.slot[0].cas != v.Case && sh.slot[0].cas != 0 {
			continue
		}
		what := "the unit runs from its start"
		if alone {
			what = "the case runs alone"
		}
		if ch.hung && hung || isCodeCrash(ch.stderr.String()) {
			if !hung {
				v.Msg = "process crashed: " + clip(ch.stderr.String(), 3000)
			}
			return fmt.Sprintf("recurs when %s: mc -prop %s -tier %s -seq %d -only %d -v", what, *fProp, *fTier, v.UIdx, v.Case)
		}
		if !ch.hung && !hung && strings.Contains(ch.stderr.String(), "out of memory") {
			// memory exhaustion that recurs alone in a case built to need little memory
			v.Msg = "memory exhausted: " + clip(ch.stderr.String(), 2000)
			if alone && i > 0 {
				return "memory exhaustion recurs when the case runs alone"
			}
		}
	}
	return ""
}

func finish(c *Check, thorough bool, t0 time.Time, nunits int, total workerResult, viol []Violation, notes []string, incomplete bool) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states":                        total.States,
		"transitions":                   total.Steps,
		"traces_validated_against_impl": total.Cases,
		"units":                         nunits,
		"samples":                       total.Samples,
		"exhaustive":                    !incomplete,
		"rule":                          c.Rule,
		"explanation": "states: distinct (input, model outcome) pairs reached; transitions: steps of the reference models (one per value parsed, encoded or decoded); implementation_calls: calls of the real Marshal/Unmarshal; " +
			"traces_validated_against_impl: enumerated cases whose outcome was compared with the reference model",
	}
	if total.Calls != total.Cases {
		cov["implementation_calls"] = total.Calls
	}
	if total.StateCap {
		cov["states_capped"] = true
	}
	for k, v := range total.Coverage {
		cov[k] = v
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	known := knownFindings(c.ID)
	var report []Violation
	for _, v := range viol {
		if k := matchKnown(known, v); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.what)
			continue
		}
		report = append(report, v)
	}
	ev := map[string]any{
		"property": c.ID, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(report),
		"assumptions": append([]string{"only the exported API (Marshal, Unmarshal) is observed", "error texts and types are not compared"}, c.Assumptions...),
	}
	if *fEvidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*fEvidence, append(b, '\n'), 0o644); err != nil {
			fatal(err)
		}
	}
	for _, s := range notes {
		fmt.Println("note:", s)
	}
	fmt.Printf("%s %s: units=%d cases=%d calls=%d states=%d exhaustive=%v wall=%.1fs violations=%d\n", c.ID, *fTier, nunits, total.Cases, total.Calls, total.States, !incomplete, time.Since(t0).Seconds(), len(report))
	if len(report) == 0 {
		return 0
	}
	_ = os.MkdirAll(*fReplays, 0o755)
	for i, v := range report {
		path := filepath.Join(*fReplays, fmt.Sprintf("%s-%d.json", c.ID, i+1))
		b, _ := json.MarshalIndent(map[string]any{
			"property": c.ID, "tier": *fTier, "unit": v.Unit, "unit_index": v.UIdx, "case": v.Case, "seq": v.Seq, "message": v.Msg,
			"replay": "bash check.sh replay " + path,
		}, "", " ")
		_ = os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  unit %s case %d: %s\n", v.Unit, v.Case, strings.ReplaceAll(v.Msg, "\n", "\n  "))
	}
	return 1
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var r struct {
		Property, Tier, Unit, Message string
		Case                          int64
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	fmt.Println("recorded:", r.Message)
	self, _ := os.Executable()
	cmd := exec.Command(self, "-prop", r.Property, "-tier", r.Tier, "-unit", r.Unit, "-only", strconv.FormatInt(r.Case, 10), "-v")
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		fmt.Println("replayed:", err)
		return 1
	}
	fmt.Println("the case passes when it runs alone; see \"seq\" in the file for the units that ran before it")
	return 0
}

// ---- known findings ----

type knownFinding struct{ match, what string }

// A line "finding: property=<id> match=<text> :: <what fails>" suppresses violations
// whose message contains <text>. Lines "fixed: ..." suppress nothing.
func knownFindings(id string) (l []knownFinding) {
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property="+id+" match=")
		if !ok {
			continue
		}
		m, what, ok := strings.Cut(rest, " :: ")
		if ok && len(m) > 8 {
			l = append(l, knownFinding{m, what})
		}
	}
	return l
}

func matchKnown(l []knownFinding, v Violation) *knownFinding {
	for i := range l {
		if strings.Contains(v.Unit+"#"+strconv.FormatInt(v.Case, 10)+" "+v.Msg, l[i].match) {
			return &l[i]
		}
	}
	return nil
}
