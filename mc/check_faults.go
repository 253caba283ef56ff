package main

// C06 at every size: one fault in a document one of whose parts has grown.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// faultStruct has n fields k0..kn-1 of kinds that cycle.
func faultStruct(n int) reflect.Type {
	kinds := []reflect.Type{anyType, typeOf[int](), typeOf[*string](), typeOf[[]int](), typeOf[map[string]any](), typeOf[[1]bool](), typeOf[Plain](), typeOf[float64]()}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, sf("F"+strconv.Itoa(i), kinds[i%len(kinds)], "k"+strconv.Itoa(i)))
	}
	return reflect.StructOf(fs)
}

var faultLeaves = []string{"N;", "b:1;", "i:7;", "d:0.5;", `s:2:"ab";`, "a:0:{}", `O:1:"C":1:{i:0;b:0;}`, "a:1:{s:1:\"k\";d:-INF;}"}

// grownDocs are documents one of whose parts has size n, with types that store and types that skip it.
func grownDocs(n int) (out []faultDoc) {
	add := func(doc string, ts ...reflect.Type) { out = append(out, faultDoc{doc, ts}) }
	skip := func(doc string) {
		add(`a:2:{s:1:"u";`+doc+`s:1:"A";i:5;}`, typeOf[Plain]())
		add(`a:2:{i:1;`+doc+`i:0;i:1;}`, typeOf[[1]int]())
	}
	f := filler(n, 0)
	e := string(encStr(f))
	add(e, typeOf[string](), typeOf[[]byte](), anyType, typeOf[UR]())
	add(`a:1:{`+e+`i:1;}`, typeOf[map[string]int](), typeOf[Plain](), typeOf[map[any]any]())
	skip(e)
	cls := head('O', f, 2) + `s:1:"A";i:5;s:1:"b";s:1:"q";}`
	add(cls, typeOf[Plain](), anyType, typeOf[map[string]any](), typeOf[*UR]())
	skip(cls)
	// numbers of n+1 digits
	skip("i:" + strings.Repeat("1", n+1) + ";")
	skip("d:" + strings.Repeat("1", n/2+1) + "." + strings.Repeat("5", n/2+1) + "E-" + strings.Repeat("1", n%3+1) + ";")
	if n < 40 {
		add("d:"+strings.Repeat("1", n/2+1)+"."+strings.Repeat("5", n/2+1)+";", typeOf[float64](), typeOf[float32](), anyType)
	}
	// sequences, maps and objects of n elements
	leaf := func(i int) string { return faultLeaves[i%len(faultLeaves)] }
	seq := seqDoc(n, intKey, leaf)
	add(seq, typeOf[[]any](), anyType, typeOf[map[int]any](), reflect.ArrayOf(n, anyType), typeOf[[]UR]())
	skip(seq)
	ints := seqDoc(n, intKey, func(i int) string { return intKey(i % 10) })
	add(ints, typeOf[[]int8](), typeOf[[3]int](), typeOf[map[uint16]int]())
	mp := seqDoc(n, strKey, leaf)
	add(mp, typeOf[map[string]any](), typeOf[map[any]any](), typeOf[struct{}]())
	skip(`O:1:"C"` + mp[1:])
	if n < 260 {
		w := faultStruct(n)
		var sb strings.Builder
		sb.WriteString(head('a', "", n))
		for i := 0; i < n; i++ {
			sb.WriteString(strKey(i))
			sb.WriteString([]string{"d:1.5;", "i:-3;", `s:1:"x";`, "a:1:{i:0;i:1;}", `a:1:{s:1:"k";N;}`, "a:1:{i:0;b:1;}", `a:1:{s:1:"A";i:5;}`, "d:2;"}[i%8])
		}
		add(sb.String()+"}", w, reflect.PointerTo(w))
	}
	// levels
	if n <= 2000 {
		for k, l := range faultLeaves {
			if n > 9 && k != n%len(faultLeaves) {
				continue
			}
			rep := func(s string) string { return strings.Repeat(s, n) }
			deep := rep("a:1:{i:0;") + l + rep("}")
			add(deep, anyType, typeOf[RSlice]())
			skip(deep)
			add(rep(`O:1:"C":1:{s:4:"Next";`)+l+rep("}"), typeOf[*RNext](), anyType)
			add(rep(`a:1:{s:1:"k";`)+l+rep("}"), typeOf[RMap](), typeOf[map[string]UR]())
		}
	}
	return
}

type (
	RSlice []RSlice
	RMap   map[string]RMap
	RNext  struct {
		Next *RNext
		V    any
	}
)

// marks are the positions of a document where its syntax shows: all of short nodes, the beginnings
// and ends of long ones, for the outermost and innermost levels and the first, middle and last entries.
func marks(doc string, n *Node, most int) (pos []int, nodes []*Node) {
	seen := map[int]bool{}
	put := func(a, b int) {
		for ; a < b; a++ {
			if a >= 0 && a < len(doc) && !seen[a] && len(pos) < most {
				seen[a] = true
				pos = append(pos, a)
			}
		}
	}
	var walk func(n *Node, d int)
	walk = func(n *Node, d int) {
		near := d < 2 || n.Height <= 1
		if near {
			nodes = append(nodes, n)
			if n.End-n.Start <= 24 {
				put(n.Start, n.End)
			} else {
				first := strings.IndexAny(doc[n.Start:n.End], "\"{") + 1
				put(n.Start, n.Start+min(max(first, 4), 12))
				put(n.End-4, n.End)
				if n.K == 'O' {
					c := n.Start + len(`O::"`) + len(strconv.Itoa(len(n.T))) + len(n.T)
					put(c-2, c+len(`":`)+len(n.Count)+2)
				}
			}
		}
		for i, e := range n.E {
			if i < 1 || i == len(n.E)/2 || i >= len(n.E)-1 {
				walk(e.K, d+1)
				walk(e.V, d+1)
			}
		}
	}
	walk(n, 0)
	return
}

func grownFaults(u *U, c faultDoc, full bool) {
	doc := c.doc
	n := parseDoc(doc)
	if n == nil {
		panic("grownFaults: " + clipq(doc))
	}
	f := func(s string) { faultCase(u, s, c.types) }
	f(doc)
	alpha := "\";:}9sNd \x00"
	most := 100
	if !full {
		alpha, most = "\";}9s", 80
	}
	pos, nodes := marks(doc, n, most)
	for _, p := range pos {
		f(doc[:p] + doc[p+1:])
		f(doc[:p])
		if p > 0 {
			f(doc[p:])
		}
		for k := range alpha {
			if doc[p] != alpha[k] {
				f(doc[:p] + alpha[k:k+1] + doc[p+1:])
			}
			if full && k%3 == p%3 {
				f(doc[:p] + alpha[k:k+1] + doc[p:])
			}
		}
	}
	for _, t := range []string{" ", "\n", "\r\n", "\t", "\x00", ";", "}", "N;", "i:1;", "\xff", "0", "a:0:{}"} {
		f(doc + t)
		f(t + doc)
	}
	number := func(at int, old string) {
		v, _ := strconv.Atoi(old)
		for _, s := range []string{strconv.Itoa(v + 1), strconv.Itoa(v - 1), strconv.Itoa(v + 2), strconv.Itoa(v + 10), strconv.Itoa(v * 2), strconv.Itoa(v + 256), strconv.Itoa(v + 65536), strconv.FormatUint(1<<32+uint64(v), 10), "-" + old, "", old + " "} {
			if s != old {
				f(doc[:at] + s + doc[at+len(old):])
			}
		}
	}
	for _, x := range nodes {
		switch x.K {
		case 's', 'O':
			l := strconv.Itoa(len(x.T))
			number(x.Start+2, l)
			if x.K == 'O' {
				number(x.Start+2+len(l)+2+len(x.T)+2, x.Count)
			}
		case 'a':
			number(x.Start+2, x.Count)
		}
		for i, e := range x.E {
			if i < 1 || i == len(x.E)/2 || i == len(x.E)-1 {
				f(doc[:e.K.Start] + doc[e.V.End:])
				f(doc[:e.V.End] + doc[e.K.Start:e.V.End] + doc[e.V.End:])
				f(doc[:e.K.Start] + doc[e.K.End:])
				f(doc[:e.V.Start] + doc[e.V.End:])
				for _, k := range []string{"N;", "b:1;", "d:1;", "a:0:{}", `O:1:"C":0:{}`, "}", "i:;", `s:1:"";`, `i:-1;`} {
					f(doc[:e.K.Start] + k + doc[e.K.End:])
					if full {
						f(doc[:e.V.Start] + k + doc[e.V.End:])
					}
				}
			}
		}
	}
}

func sizesC06(thorough bool) (units []Unit) {
	every, th := 140, []int{199, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192}
	if thorough {
		every, th = 300, thresholds(false)
	}
	units = append(units, chunked("grown-faults", every, 1, func(u *U, i int) {
		for _, c := range grownDocs(i) {
			grownFaults(u, c, true)
		}
	})...)
	units = append(units, chunked("grown-faults-big", len(th), 1, func(u *U, i int) {
		for _, c := range grownDocs(th[len(th)-1-i]) {
			grownFaults(u, c, false)
		}
	})...)
	// numbers of every length in place of every number
	fc := faultCorpus(false)
	lens := 140
	if thorough {
		lens = 400
	}
	units = append(units, chunked("long-numbers", len(fc), 4, func(u *U, i int) {
		c := fc[i]
		var at [][2]int
		for p := 0; p < len(c.doc); p++ {
			q := p
			for q < len(c.doc) && isDigit(c.doc[q]) {
				q++
			}
			if q > p {
				at = append(at, [2]int{p, q})
				p = q
			}
		}
		for _, a := range at {
			old := c.doc[a[0]:a[1]]
			for k := 1; k <= lens; k++ {
				for _, s := range []string{strings.Repeat("9", k), "1" + strings.Repeat("0", k-1) + old, strings.Repeat("1", k) + old, strconv.Itoa(k%9+1) + strings.Repeat("4", k), fmt.Sprintf("18446744073709551616%0*d", k, 0)} {
					if d := c.doc[:a[0]] + s + c.doc[a[1]:]; !hugeIndex(d) {
						faultCase(u, d, c.types)
					}
				}
			}
		}
	})...)
	return
}
