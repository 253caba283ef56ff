package main

// C10: concurrent calls.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var concAloneCache = map[int]string{}

// runConc explores one segment in a process of its own.
func runConc(p concProg, prefix []int, max int) (r concResult, stderr string, err error) {
	self, err := os.Executable()
	if err != nil {
		return r, "", err
	}
	dir, err := os.MkdirTemp("", "conc-")
	if err != nil {
		return r, "", err
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(p)
	var ps []string
	for _, x := range prefix {
		ps = append(ps, strconv.Itoa(x))
	}
	ef := filepath.Join(dir, "err")
	args := []string{"-conc", string(b), "-concprefix", strings.Join(ps, ","), "-concmax", strconv.Itoa(max), "-concerr", ef}
	if *fFree {
		args = append(args, "-free")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	cmd.Stdout = &out
	err = cmd.Run()
	se, _ := os.ReadFile(ef)
	stderr = clip(string(se), 5000)
	if ctx.Err() != nil {
		return r, stderr, errConcHang
	}
	if err == nil {
		err = json.Unmarshal(out.Bytes(), &r)
	}
	return r, stderr, err
}

var errConcHang = fmt.Errorf("no end after 240 s")

// concAlone is what an operation returns as the only call of a process.
func concAlone(u *U, op int) (string, bool) {
	if s, ok := concAloneCache[op]; ok {
		return s, true
	}
	r, stderr, err := runConc(concProg{Threads: [][]int{{op}}, Offset: []int{0}}, nil, 1)
	if err != nil || r.Fail != "" {
		u.Fail("a single call in a fresh process: %v %s %s", err, r.Fail, stderr)
		return "", false
	}
	for s := range r.Outcomes[0][0] {
		concAloneCache[op] = s
		return s, true
	}
	return "", false
}

// concCase explores all schedules of p (at most limit).
func concCase(u *U, ops []concOp, p concProg, limit int64) {
	var prefix []int
	var execs int64
	hangs := 0
	for {
		if time.Now().After(u.w.deadline) {
			u.w.incomplete = true
			panic(deadlineExceeded{})
		}
		seg := 400
		if execs == 0 {
			seg = 60 // a short first segment: the next ones start in fresh processes again
		}
		r, stderr, err := runConc(p, prefix, seg)
		if err == errConcHang {
			if hangs++; hangs < 2 {
				continue
			}
			u.Fail("%s\nno end of the execution (schedule prefix %v)\n%s", p.describe(ops), prefix, stderr)
			return
		}
		if err != nil {
			if isCodeCrash(stderr) {
				u.Fail("%s\nthe process crashed (schedule prefix %v): %s", p.describe(ops), prefix, stderr)
			} else {
				u.Cover("segments without a result", 1)
				u.w.incomplete = true
			}
			return
		}
		execs += r.Execs
		u.w.calls += r.Execs * int64(len(p.Threads))
		u.Cover("schedules executed", r.Execs)
		steps += r.Steps
		u.Cover("scheduling points passed", r.Steps)
		u.Cover("scheduling decisions", r.Choices)
		u.Cover("processes", 1)
		u.Cover("schedules that could not follow their prefix", r.Diverged)
		for k, n := range map[string]int64{"atomic loads": r.Kinds[0], "atomic stores": r.Kinds[1], "pool gets": r.Kinds[2], "pool puts": r.Kinds[3], "lock operations": r.Kinds[4] + r.Kinds[5], "sync.Map operations": r.Kinds[6], "callback and call boundaries": r.Kinds[7]} {
			if n > 0 {
				u.Cover(k, n)
			}
		}
		if r.Free {
			u.Cover("free-running executions (the code cannot be scheduled)", r.Execs)
		}
		if u.verbose {
			u.Show("segment from prefix %v: %d schedules, up to %d decisions", prefix, r.Execs, r.MaxChoices)
		}
		if r.Fail != "" {
			u.Fail("%s\n%s\nschedule %v\n%s", p.describe(ops), r.Fail, r.FailSchedule, stderr)
			return
		}
		for i := range r.Outcomes {
			for j, set := range r.Outcomes[i] {
				want, ok := concAlone(u, p.Threads[i][j])
				if !ok {
					return
				}
				for s := range set {
					u.State(p.describe(ops), fmt.Sprint(i, j), s)
					if s != want {
						u.Fail("%s\nthread %d call %d gives\n  %s\nalone it gives\n  %s\nschedule %v", p.describe(ops), i+1, j+1, s, want, r.Schedules[fmt.Sprint(i, j, s)])
						return
					}
				}
			}
		}
		if r.Next == nil {
			u.Cover("programs explored completely within the bound", 1)
			u.Sample("%s: %d schedules", clip(p.describe(ops), 250), execs)
			return
		}
		if execs >= limit {
			u.Cover("programs cut at the limit of schedules", 1)
			return
		}
		prefix = r.Next
	}
}

func init() {
	register(&Check{
		ID:   "C10",
		Rule: "concurrent programs of two and three threads over an alphabet of calls (first use and later use of types, shared arguments, inputs and marshaler results, nested calls in callbacks, errors, panics); the library is built with sync and sync/atomic replaced by equivalents that are scheduling points; for each program all schedules up to the preemption bound and all choices of the pools are executed one after another; every call must give what it gives alone, results are compared again at the end, and the race detector watches every execution",
		Assumptions: []string{
			"interleavings are explored at synchronisation operations, pool operations, callbacks and call boundaries; code between them is covered by the race detector: without a data race a finer interleaving cannot be observed",
			"a pool returns the object put last, the one put first, or a new one",
		},
		Units: func(thorough bool) (units []Unit) {
			ops := concFamilies[0](newConcShared())
			n := len(ops)
			var jobs []concJob
			add := func(limit int64, p concProg) {
				for _, th := range p.Threads {
					for _, o := range th {
						if ops[o].slow {
							limit = minInt64(limit, limit/10+20)
						}
					}
				}
				jobs = append(jobs, concJob{p, limit})
			}
			batch := func(name string, per int) {
				js := jobs
				jobs = nil
				units = append(units, chunked(name, len(js), per, func(u *U, i int) {
					if u.Next() {
						concCase(u, ops, js[i].p, js[i].limit)
					}
				})...)
			}
			th := func(t ...int) [][]int {
				var out [][]int
				for _, o := range t {
					out = append(out, []int{o})
				}
				return out
			}
			// every pair of calls, on types used for the first time and on types in use
			bound, limit := 2, int64(700)
			if thorough {
				bound, limit = 3, 6000
			}
			for a := range n {
				for b := a; b < n; b++ {
					add(limit, concProg{Threads: th(a, b), Offset: []int{0, 0}, Bound: bound})
					add(limit, concProg{Threads: th(a, b), Offset: []int{0, 0}, Warm: true, Oldest: thorough, Bound: bound})
					if thorough || a == b {
						add(limit, concProg{Threads: th(a, b), Offset: []int{0, 1}, Bound: bound})
					}
				}
			}
			batch("two threads, one call each", 12)
			// the calls that do most with what calls share
			var few []int
			for i, o := range ops {
				if o.few {
					few = append(few, i)
				}
			}
			bound, limit = 1, 200
			if thorough {
				bound, limit = 2, 3000
			}
			for i, a := range few {
				for j, b := range few {
					for _, c := range few {
						// two calls in the first thread; what the first left behind is used by the second
						add(limit, concProg{Threads: [][]int{{a, b}, {c}}, Offset: []int{0, 0}, Bound: bound, Warm: true})
						if thorough {
							add(limit, concProg{Threads: [][]int{{a, b}, {c}}, Offset: []int{0, 0}, Bound: bound})
							for _, d := range few[:3] {
								add(limit/3, concProg{Threads: [][]int{{a, b}, {c, d}}, Offset: []int{0, 0}, Bound: bound, Warm: true})
							}
						}
					}
					for _, c := range few[j:] {
						if j < i {
							continue
						}
						add(limit, concProg{Threads: th(a, b, c), Offset: []int{0, 0, 0}, Bound: bound})
						if thorough {
							add(limit, concProg{Threads: th(a, b, c), Offset: []int{0, 0, 0}, Bound: bound, Warm: true})
							add(limit/3, concProg{Threads: th(a, b, c), Offset: []int{0, 1, 0}, Bound: bound})
						}
					}
				}
			}
			batch("three calls", 12)
			return
		},
	})
}

type concJob struct {
	p     concProg
	limit int64
}

func minInt64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
