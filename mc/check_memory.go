package main

// C20: what an input declares is not what it costs.
//
// The monitor is the allocation counter of the runtime, read before and after
// every call; each call has a bound computed from the input's length and the
// destination type alone.

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
)

// perByte and perCall bound what one call may allocate; the unchanged tree needs
// about a tenth of them (a map[any]any of one entry for every 9 bytes is the most expensive).
const (
	perByte = 600
	perCall = 48 << 10
)

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// fixedSize is what values of t need at most without any content: t itself and, once, what it refers to.
func fixedSize(t reflect.Type, seen map[reflect.Type]bool) float64 {
	s := float64(t.Size())
	if seen[t] {
		return 0
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		s += fixedSize(t.Elem(), seen)
	case reflect.Map:
		s += fixedSize(t.Elem(), seen) + fixedSize(t.Key(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			s += fixedSize(t.Field(i).Type, seen)
		}
	}
	return s
}

func memBound(n int, t reflect.Type) float64 {
	f := fixedSize(t, map[reflect.Type]bool{})
	return perCall + 64*f + perByte*float64(n)*math.Max(1, f/400)
}

// measure returns what the call allocates: the least of up to three calls.
func measure(doc []byte, t reflect.Type, enough float64) (cost float64, err error) {
	cost = math.Inf(1)
	for i := 0; i < 3; i++ {
		dst := reflect.New(t).Interface()
		a := allocated()
		e, _ := Unmarshal(doc, dst)
		c := float64(allocated() - a)
		err = e
		cost = math.Min(cost, c)
		if cost <= enough {
			return
		}
	}
	return
}

func memCase(u *U, doc string, t reflect.Type) (cost float64) {
	in := []byte(doc)
	b := memBound(len(in), t)
	cost, err := measure(in, t, b)
	u.State(fmt.Sprint(err == nil), clip(doc, 200), t.String())
	if err != nil && len(in) < 400 {
		u.Cover("rejected declarations", 1)
	}
	u.Cover("bytes of input", int64(len(in)))
	u.Cover("bytes allocated", int64(cost))
	if cost > b {
		u.FailMeasured("Unmarshal of %d bytes %s into *%s allocated %.0f bytes, the bound is %.0f (err %v)", len(in), clip(fmt.Sprintf("%q", doc), 300), t, cost, b, err)
	}
	return cost
}

// counts are declared; in this order, so that a moderate one fails before a fatal one.
var declared = []string{"10000000", "99999999", "1000000", "65536", "1000", "2147483647", "2147483648", "4294967295", "8589934592", "1099511627776", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "100000000000000000000000000000", "000000000000000000099999999", "+99999999", "-1", "-99999999"}

// declarations use # for the length.
var declarations = []string{
	"a:#:{", "a:#:{}", "a:#:{i:0;", "a:#:{i:0;i:1;", "a:#:{i:0;i:1;}", "a:#:{i:0;N;i:1;N;}", `a:#:{s:1:"X";i:1;}`, `a:#:{s:1:"a";s:1:"b";`, "a:#:{i:1;i:1;i:0;i:1;}",
	`O:1:"C":#:{`, `O:1:"C":#:{}`, `O:1:"C":#:{s:1:"X";i:1;}`, `O:1:"C":#:{i:0;i:1;`, `O:#:"C":1:{i:0;i:1;}`, `O:#:"`, `O:#:"C":0:{}`,
	`s:#:"`, `s:#:"x";`, `s:#:"xyz";`, `a:1:{s:#:"k";i:1;}`, `a:1:{s:#:"k`, `C:1:"C":#:{x}`, `a:#`, `s:#`, "i:#;", "d:#;", "d:#.5;",
	`a:2:{i:0;a:#:{i:0;i:1;}i:1;i:1;}`, `a:1:{i:0;s:#:"x";}`, `a:1:{s:1:"X";a:#:{i:0;i:1;}}`, `a:1:{s:1:"X";s:#:"y";}`, `a:2:{s:6:"nobody";a:#:{i:0;s:1:"a";}s:1:"X";i:1;}`, `a:1:{s:6:"nobody";s:#:"a";}`,
	`a:2:{i:7;a:#:{i:0;i:1;}i:8;i:1;}`, `a:1:{i:0;a:1:{i:0;a:#:{i:0;N;}}}`, `a:1:{s:1:"k";a:1:{s:1:"k";O:1:"C":#:{s:1:"k";N;}}}`, `a:1:{i:0;O:1:"C":#:{}}`,
}

type memWide struct {
	X  int                 `php:"X"`
	A  []int               `php:"a"`
	M  map[string]any      `php:"m"`
	S  string              `php:"s"`
	P  *memWide            `php:"p"`
	Y  []memWide           `php:"y"`
	Q  int                 `php:"q,string"`
	B  [4]string           `php:"b"`
	I  any                 `php:"i"`
	K  map[int]map[int]int `php:"k"`
	By []byte              `php:"by"`
}

type memBig struct {
	A [1000]int
	S string
}

var memTypes = []reflect.Type{
	typeOf[any](), typeOf[[]any](), typeOf[map[any]any](), typeOf[map[string]any](), typeOf[map[int]any](), typeOf[[3]any](), typeOf[[]int](), typeOf[[]int8](), typeOf[[]uint16](), typeOf[[]bool](), typeOf[[]float64](), typeOf[[]float32](), typeOf[[]string](), typeOf[[]byte](), typeOf[string](), typeOf[NStr](), typeOf[int](), typeOf[uint64](), typeOf[float64](), typeOf[bool](),
	typeOf[[][]int](), typeOf[[][][]int](), typeOf[[][]string](), typeOf[[][]byte](), typeOf[[]map[string]int](), typeOf[map[string][]int](), typeOf[map[string]string](), typeOf[map[int]string](), typeOf[map[uint8]bool](), typeOf[map[string]map[string]any](), typeOf[map[NStr]NStr](),
	typeOf[[]*int](), typeOf[*[]*string](), typeOf[[]Plain](), typeOf[[]*Plain](), typeOf[map[string]Plain](), typeOf[map[string]*Plain](), typeOf[Plain](), typeOf[*Plain](), typeOf[[4]Plain](), typeOf[[2][]int](), typeOf[[0]int](), typeOf[[1][1]int](), typeOf[[]struct{}](), typeOf[map[string]struct{}](), typeOf[struct{}](),
	typeOf[memWide](), typeOf[*memWide](), typeOf[[]memWide](), typeOf[map[string]memWide](), typeOf[memBig](), typeOf[[2]memBig](), typeOf[[]memBig](), typeOf[*memBig](),
	typeOf[RS](), typeOf[RM](), typeOf[RSM](), typeOf[RSP](), typeOf[Tree](), typeOf[Link](), typeOf[RSt](), typeOf[RStV](), typeOf[RStM](), typeOf[RNamedIn](), typeOf[NSlice](), typeOf[NMap](), typeOf[NArr](), typeOf[NAny](),
	typeOf[UR](), typeOf[[]UR](), typeOf[map[string]UR](), typeOf[*UR](), typeOf[struct{ X UR }](), typeOf[[]UBytes](), typeOf[map[UKeyed]int](), typeOf[[2]UStr](), typeOf[struct{ X struct{ Y []any } }](), typeOf[struct{ X []int }](), typeOf[struct{ X map[string]string }](), typeOf[struct{ X *[]string }](), typeOf[struct{ X any }](), typeOf[struct{ X string }](), typeOf[struct {
		X int     `php:",string"`
		Y float64 `php:"a,string"`
	}](), typeOf[struct {
		X *string `php:",string"`
	}](),
}

var memRecursive = []reflect.Type{typeOf[any](), typeOf[[]any](), typeOf[map[string]any](), typeOf[RS](), typeOf[RM](), typeOf[RSP](), typeOf[RSM](), typeOf[Tree](), typeOf[RSt](), typeOf[RStV](), typeOf[RStM](), typeOf[RStA](), typeOf[RAS](), typeOf[RMI](), typeOf[RStMix](), typeOf[memWide](), typeOf[Plain](), typeOf[[1]any](), typeOf[map[int]any](), typeOf[UR]()}

var memKeys = []string{"i:0;", `s:1:"a";`, `s:4:"Kids";`, `s:1:"S";`, `s:1:"M";`, `s:1:"p";`, `s:2:"zz";`, "i:9;"}

func init() {
	register(&Check{
		ID:   "C20",
		Rule: fmt.Sprintf("declared counts and lengths up to 10^29 in every place of a grammar of %d shapes, in every position, times destination types; nested declarations of every depth class with long tails; siblings in structs with wrong counts; sequences, maps and objects of n entries for n up to the bound in several orders; the allocation counter around each call must stay below %d bytes per input byte plus %d plus the type's fixed size, and quadrupling a sequence may not cost more than 7 times as much", len(declarations), perByte, perCall),
		Units: func(thorough bool) (units []Unit) {
			ts := append([]reflect.Type{}, memTypes...)
			if thorough {
				ts = append(append(ts, specialTypes()...), typeUniverse(2)...)
			}
			heads := declarations
			units = append(units, chunked("declared", len(ts), 1, func(u *U, i int) {
				memWarm(ts[i])
				for _, h := range heads {
					for _, n := range declared {
						if u.Next() {
							memCase(u, strings.ReplaceAll(h, "#", n), ts[i])
						}
						if len(u.w.violations) > 0 {
							return
						}
					}
				}
			})...)
			units = append(units, chunked("declared-deeper", len(ts), 1, func(u *U, i int) {
				memWarm(ts[i])
				for _, pre := range []string{"a:1:{i:0;", `a:1:{s:1:"X";`, `a:1:{s:1:"a";`, `a:2:{i:0;N;i:1;`, `O:1:"C":1:{s:1:"k";`, `a:1:{s:1:"p";`, `a:1:{s:1:"y";a:1:{i:0;`, `a:3:{s:2:"no";`, "a:1:{"} {
					for _, h := range heads {
						for _, n := range declared[:4] {
							if u.Next() {
								memCase(u, pre+strings.ReplaceAll(h, "#", n), ts[i])
							}
							if len(u.w.violations) > 0 {
								return
							}
						}
					}
				}
			})...)
			// declarations behind and before much data
			units = append(units, chunked("with-data", len(ts), 4, func(u *U, i int) {
				memWarm(ts[i])
				for _, n := range []string{"100", "5000", "20000", "30000", "10000000"} {
					for _, body := range []string{strings.Repeat("i:0;", 6000), strings.Repeat(`s:1:"a";`, 3000), strings.Repeat("x", 20000), strings.Repeat("}", 20000)} {
						for _, h := range []string{"a:#:{", `O:1:"C":#:{`, `s:#:"`, `O:#:"`, `a:1:{s:#:"`, `a:1:{s:1:"X";a:#:{`, `a:1:{i:0;a:#:{`, `a:1:{s:1:"a";s:#:"`} {
							if u.Next() {
								memCase(u, strings.ReplaceAll(h, "#", n)+body, ts[i])
							}
						}
					}
				}
			})...)
			// nested declarations: every level claims much
			depths := []int{1, 2, 3, 10, 100, 1000, 9990}
			type nd struct {
				t reflect.Type
				k string
			}
			var nds []nd
			for _, t := range memRecursive {
				for _, k := range memKeys {
					nds = append(nds, nd{t, k})
				}
			}
			units = append(units, chunked("nested", len(nds), 4, func(u *U, i int) {
				memWarm(nds[i].t)
				for _, d := range depths {
					for _, tail := range []int{0, 3000, 100000, 1000000} {
						if tail == 1000000 && !thorough && (d != 1000 || i%4 != 0) {
							continue
						}
						for _, claim := range []int{1, 2, 9, 100, -8, -4, 99999999} {
							for kind := 0; kind < 2; kind++ {
								if !u.Next() {
									continue
								}
								var sb strings.Builder
								est := tail + d*12
								for l := 0; l < d; l++ {
									c := claim
									if c < 0 {
										c = est / -c // as many as could be there
									}
									est -= 12
									if kind == 0 {
										fmt.Fprintf(&sb, "a:%d:{%s", c, nds[i].k)
									} else {
										fmt.Fprintf(&sb, `O:1:"C":%d:{%s`, c, nds[i].k)
									}
								}
								sb.WriteString(string(encStr(filler(tail, 0))))
								sb.WriteString(strings.Repeat("}", d))
								memCase(u, sb.String(), nds[i].t)
								if len(u.w.violations) > 0 {
									return
								}
							}
						}
					}
				}
			})...)
			// structs may have wrong counts: many of them
			sib := []reflect.Type{typeOf[[]Plain](), typeOf[[]*Plain](), typeOf[map[int]Plain](), typeOf[[2]Plain](), typeOf[[]struct{}](), typeOf[[]memWide](), typeOf[map[int]*memWide](), typeOf[map[string]Plain](), typeOf[any](), typeOf[[]any](), typeOf[Plain](), typeOf[[][]Plain](), typeOf[[]Tree]()}
			units = append(units, chunked("siblings", len(sib), 1, func(u *U, i int) {
				memWarm(sib[i])
				for _, n := range []int{1, 10, 1000, 5000} {
					for _, c := range declared[:8] {
						for _, in := range []string{"a:#:{}", `O:1:"C":#:{}`, `a:#:{s:1:"A";i:1;}`, `a:#:{s:2:"no";a:0:{}}`, `a:#:{s:1:"y";a:1:{i:0;a:#:{}}}`, `a:1:{i:0;a:#:{}}`} {
							if !u.Next() {
								continue
							}
							var sb strings.Builder
							fmt.Fprintf(&sb, "a:%d:{", n)
							el := strings.ReplaceAll(in, "#", c)
							for j := 0; j < n; j++ {
								fmt.Fprintf(&sb, "i:%d;%s", j, el)
							}
							sb.WriteString("}")
							memCase(u, sb.String(), sib[i])
							if len(u.w.violations) > 0 {
								return
							}
						}
					}
				}
			})...)
			// growth
			elems := []struct {
				text string
				t    reflect.Type
			}{
				{string(encStr(filler(40, 2))), typeOf[string]()}, {string(encStr(filler(300, 0))), typeOf[any]()}, {"i:1;", typeOf[int]()}, {"i:1;", typeOf[int8]()}, {"i:1;", typeOf[uint32]()}, {"i:1;", typeOf[any]()}, {"N;", typeOf[any]()}, {"N;", typeOf[*int]()}, {"b:1;", typeOf[bool]()}, {"d:0.5;", typeOf[float64]()}, {`s:1:"a";`, typeOf[string]()}, {`s:3:"abc";`, typeOf[[]byte]()}, {"a:0:{}", typeOf[[]int]()}, {"a:0:{}", typeOf[any]()}, {"a:0:{}", typeOf[map[string]int]()}, {"a:0:{}", typeOf[Plain]()}, {"a:0:{}", typeOf[*Plain]()}, {"a:1:{i:0;i:1;}", typeOf[[]int]()}, {"a:1:{i:0;i:1;}", typeOf[any]()}, {`a:1:{s:1:"A";i:4;}`, typeOf[Plain]()}, {`a:1:{i:0;s:1:"x";}`, typeOf[[2]string]()}, {"N;", typeOf[struct{}]()}, {"i:7;", typeOf[UInt]()}, {"i:7;", typeOf[*UR]()}, {`s:1:"q";`, typeOf[UStr]()}, {`O:1:"C":1:{s:1:"k";N;}`, typeOf[any]()}, {"a:0:{}", typeOf[memBig]()}, {`a:1:{s:2:"no";a:1:{i:0;N;}}`, typeOf[Plain]()},
			}
			maxN := 1 << 14
			if thorough {
				maxN = 1 << 18
			}
			units = append(units, chunked("growth", len(elems), 1, func(u *U, i int) {
				e := elems[i]
				for form := 0; form < 8; form++ {
					var t reflect.Type
					switch form {
					case 0, 4, 5:
						t = reflect.SliceOf(e.t)
					case 1:
						t = reflect.MapOf(typeOf[int](), e.t)
					case 2, 6:
						t = reflect.MapOf(typeOf[string](), e.t)
					case 7:
						t = reflect.MapOf(typeOf[any](), e.t)
					case 3:
						t = reflect.ArrayOf(3, e.t)
					}
					memWarm(t)
					for order := 0; order < 4; order++ {
						prev := map[int]float64{}
						for n := 64; n <= maxN; n *= 4 {
							if e.t == typeOf[memBig]() && n > 1024 {
								break
							}
							if !u.Next() && prev[n/4] == 0 {
								continue
							}
							var sb strings.Builder
							if form == 4 {
								fmt.Fprintf(&sb, `O:8:"stdClass":%d:{`, n)
							} else {
								fmt.Fprintf(&sb, "a:%d:{", n)
							}
							for j := 0; j < n; j++ {
								k := j
								switch order {
								case 1:
									k = n - 1 - j
								case 2:
									k = j ^ 1
								case 3:
									k = j * 2 % n
									if j >= n/2 {
										k++
									}
								}
								if form >= 6 {
									sb.WriteString(string(encStr(fmt.Sprintf("a-long-key-with-more-bytes-than-usual-%40d", k))))
								} else if form == 2 {
									fmt.Fprintf(&sb, `s:%d:"k%d";`, 1+len(fmt.Sprint(k)), k)
								} else {
									fmt.Fprintf(&sb, "i:%d;", k)
								}
								sb.WriteString(e.text)
							}
							if form != 5 { // form 5: not terminated
								sb.WriteString("}")
							}
							c := memCase(u, sb.String(), t)
							if p := prev[n/4]; p > 16<<10 && c > 7*p {
								u.FailMeasured("Unmarshal of %d elements %s (order %d, form %d) into *%s allocated %.0f bytes, a quarter of them %.0f", n, e.text, order, form, t, c, p)
							}
							prev[n] = c
							if len(u.w.violations) > 0 {
								return
							}
						}
					}
				}
			})...)
			units = append(units, chunked("skipped", len(elems), 2, func(u *U, i int) {
				for _, t := range []reflect.Type{typeOf[Plain](), typeOf[[1]int](), typeOf[struct{}](), typeOf[map[string]Plain]()} {
					memWarm(t)
					for n := 64; n <= maxN*4; n *= 4 {
						var sb strings.Builder
						for j := 0; j < n; j++ {
							fmt.Fprintf(&sb, "i:%d;%s", j, elems[i].text)
						}
						for _, d := range []string{fmt.Sprintf(`a:1:{s:2:"no";a:%d:{%s}}`, n, sb.String()), fmt.Sprintf(`a:1:{i:5;a:%d:{%s}}`, n, sb.String()), fmt.Sprintf(`a:%d:{%s}`, n, sb.String())} {
							if u.Next() {
								memCase(u, d, t)
							}
						}
					}
				}
			})...)
			// strings
			units = append(units, chunked("strings", 12, 2, func(u *U, i int) {
				n := 1 << (2 * i)
				if n > 1<<22 {
					n = 1<<22 + i
				}
				s := string(encStr(filler(n, 0)))
				for _, t := range []reflect.Type{typeOf[any](), typeOf[string](), typeOf[[]byte](), typeOf[*string](), typeOf[NStr](), typeOf[UStr](), typeOf[int](), typeOf[Plain]()} {
					memWarm(t)
					for _, d := range []string{s, s[:len(s)-1], s[:len(s)-2], s[:len(s)/2], s + "x"} {
						if u.Next() {
							memCase(u, d, t)
						}
					}
				}
				for _, t := range []reflect.Type{typeOf[any](), typeOf[map[string]string](), typeOf[map[any]any](), typeOf[Plain](), typeOf[map[string]UR](), typeOf[map[UKeyed]string]()} {
					memWarm(t)
					for _, d := range []string{"a:1:{" + s + s + "}", "a:1:{" + s, "a:1:{" + s + s + "x", "a:1:{" + s + "N;}", `O:1:"x":1:{` + s + s + "}", fmt.Sprintf(`O:%d:"%s":0:{}`, n, filler(n, 0)), fmt.Sprintf(`a:1:{s:2:"no";O:%d:"%s":0:{}}`, n, filler(n, 0))} {
						if u.Next() {
							memCase(u, d, t)
						}
					}
				}
			})...)
			return
		},
	})
}

// memWarm lets everything that is made once per type be made.
func memWarm(t reflect.Type) {
	_, _ = Unmarshal([]byte("a:0:{}"), reflect.New(t).Interface())
	_, _ = Unmarshal([]byte("N;"), reflect.New(t).Interface())
	_, _ = Unmarshal([]byte("i:1;"), reflect.New(t).Interface())
}
