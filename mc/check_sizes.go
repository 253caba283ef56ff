package main

// Sizes: the same properties at every number of elements, members, occurrences and bytes,
// below, at and above every power of two and ten.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// thresholds are the sizes at which counters, buffers and digit counts change.
func thresholds(thorough bool) []int {
	out := append(append([]int{}, sizes...), 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100001)
	if thorough {
		out = append(out, 131071, 131072, 131073, 262145, 1000001)
	}
	return out
}

func seqDoc(n int, key func(int) string, val func(int) string) string {
	var sb strings.Builder
	sb.WriteString(head('a', "", n))
	for i := 0; i < n; i++ {
		sb.WriteString(key(i))
		sb.WriteString(val(i))
	}
	sb.WriteString("}")
	return sb.String()
}

func intKey(i int) string { return "i:" + strconv.Itoa(i) + ";" }
func strKey(i int) string { return string(encStr("k" + strconv.Itoa(i))) }

type sizedDoc struct {
	doc   string
	types []reflect.Type
}

func sizedDocs(n int) (out []sizedDoc) {
	add := func(doc string, types ...reflect.Type) { out = append(out, sizedDoc{doc, types}) }
	for kind := 0; kind < 3; kind++ {
		f := filler(n, kind)
		e := string(encStr(f))
		add(e, typeOf[string](), typeOf[[]byte](), typeOf[NStr](), typeOf[*string](), anyType)
		add("a:2:{i:0;"+e+"i:1;"+e+"}", typeOf[[]string](), typeOf[[][]byte](), typeOf[[]any](), typeOf[[2]string](), typeOf[map[int]string](), anyType, typeOf[[1]*string]())
		add("a:2:{"+e+"i:1;s:5:\"other\";i:2;}", typeOf[map[string]int](), typeOf[map[any]int](), anyType, typeOf[map[NStr]int](), typeOf[Plain]())
		add(`a:2:{s:1:"A";i:5;s:1:"b";`+e+"}", typeOf[Plain](), typeOf[*Plain](), typeOf[map[string]any]())
		add(`a:2:{s:1:"b";`+e+`s:1:"A";i:5;}`, typeOf[Plain](), anyType)
		add(`O:`+strconv.Itoa(n)+`:"`+f+`":2:{s:1:"A";i:5;s:1:"b";s:1:"q";}`, typeOf[Plain](), anyType, typeOf[map[string]any](), typeOf[*Plain]())
	}
	one := func(i int) string { return "i:" + strconv.Itoa(i+1) + ";" }
	arr := func(d int) reflect.Type { return reflect.ArrayOf(max(0, n+d), typeOf[int32]()) }
	for mode := 0; mode < 4; mode++ {
		key := intKey
		switch mode {
		case 1:
			key = func(i int) string { return intKey(n - 1 - i) }
		case 2:
			key = func(i int) string { return intKey(2*i + 1) }
		case 3:
			key = func(i int) string { return intKey(i/2 + i%2*(n/2)) }
		}
		add(seqDoc(n, key, one), typeOf[[]int](), typeOf[[]any](), typeOf[[]int16](), arr(0), arr(-1), arr(1), typeOf[[3]any](), typeOf[map[int]int](), typeOf[map[uint16]int](), anyType)
	}
	add(seqDoc(n, intKey, func(i int) string { return []string{"N;", "i:7;"}[i%2] }), typeOf[[]*int](), typeOf[map[int]*int](), typeOf[[]any](), reflect.ArrayOf(n, typeOf[*int8]()))
	add(seqDoc(n, intKey, func(i int) string { return "a:1:{i:0;" + one(i) + "}" }), typeOf[[][]int](), typeOf[[]map[int]int](), typeOf[[][1]int](), typeOf[[]*[]int](), anyType)
	add(seqDoc(n, intKey, func(i int) string { return `a:1:{s:1:"A";` + one(i) + "}" }), typeOf[[]Plain](), typeOf[[]*Plain](), typeOf[map[int]Plain](), reflect.ArrayOf(n, typeOf[Plain]()))
	add(seqDoc(n, intKey, func(i int) string { return string(encStr(filler(i%5, i%3))) }), typeOf[[]string](), typeOf[[][]byte](), typeOf[map[int64]string]())
	add(seqDoc(n, intKey, func(i int) string { return "d:" + strconv.Itoa(i) + ".5;" }), typeOf[[]float64](), typeOf[[]float32](), anyType)
	add(seqDoc(n, intKey, func(i int) string { return "b:" + strconv.Itoa(i%2) + ";" }), typeOf[[]bool](), anyType)
	s := seqDoc(n, strKey, one)
	st := reflect.StructOf([]reflect.StructField{sf("A", typeOf[int](), "k0"), sf("B", typeOf[int](), "k"+strconv.Itoa(n/2)), sf("C", typeOf[int](), "k"+strconv.Itoa(max(n-1, 2)))})
	ts := []reflect.Type{typeOf[map[string]int](), typeOf[map[NStr]any](), anyType, typeOf[Plain]()}
	if n > 4 {
		ts = append(ts, st)
	}
	add(s, ts...)
	add(`O:3:"Cls"`+s[1:], ts...)
	return
}

func sizesC05(thorough bool) (units []Unit) {
	th := thresholds(thorough)
	run := func(u *U, n int) {
		for _, d := range sizedDocs(n) {
			var node *Node
			for _, t := range d.types {
				if u.Next() {
					if node == nil {
						node = parseDoc(d.doc)
					}
					decodeNode(u, d.doc, node, t)
				}
			}
		}
	}
	units = append(units, chunked("sizes", len(th), 1, func(u *U, i int) { run(u, th[len(th)-1-i]) })...)
	every := 150
	if thorough {
		every = 1100
	}
	return append(units, chunked("every-size", every, 5, run)...)
}

// wide levels with a deep last member: what comes before does not count, and does not hide what follows.
func sizesC08(thorough bool) (units []Unit) {
	counts := []int{1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024, 4096, 10001}
	if thorough {
		counts = append(counts, 9999, 10000, 20000, 32768, 65537, 100001)
	}
	type chain struct {
		t         reflect.Type
		pre, post string
	}
	chains := []chain{
		{typeOf[RS](), "a:1:{i:0;", "}"}, {typeOf[RM](), `a:1:{s:1:"k";`, "}"}, {typeOf[RMI](), "a:1:{i:3;", "}"}, {typeOf[RSP](), "a:1:{i:0;", "}"}, {typeOf[RSt](), `a:1:{s:1:"S";`, "}"}, {typeOf[RSt](), `O:3:"RSt":1:{s:1:"S";`, "}"},
		{anyType, "a:1:{i:0;", "}"}, {anyType, `O:1:"x":1:{s:1:"p";`, "}"}, {typeOf[struct{}](), `a:1:{s:1:"k";`, "}"}, {typeOf[[0]int](), "a:1:{i:0;", "}"}, {typeOf[UR](), "a:1:{i:0;", "}"}, {typeOf[*any](), "a:1:{i:0;", "}"}, {typeOf[RAnyS](), "a:1:{i:0;", "}"},
	}
	units = append(units, chunked("wide-then-deep", len(chains)*len(counts), 2, func(u *U, i int) {
		c, n := chains[i/len(counts)], counts[i%len(counts)]
		for _, sib := range []string{"N;", c.pre + "N;" + c.post} {
			for _, total := range []int{10000, 10001} {
				deep := strings.Repeat(c.pre, total-1) + "N;" + strings.Repeat(c.post, total-1)
				val := func(i int) string {
					if i == n {
						return deep
					}
					return sib
				}
				doc := seqDoc(n+1, intKey, val)
				ts := []reflect.Type{reflect.SliceOf(c.t), reflect.MapOf(typeOf[int](), c.t), reflect.ArrayOf(n+1, c.t), typeOf[[0]int](), anyType, typeOf[UR]()}
				node := parseDoc(doc)
				for _, t := range ts {
					if u.Next() {
						decodeNode(u, doc, node, t)
					}
				}
				doc = seqDoc(n+1, strKey, val)
				node = parseDoc(doc)
				for _, t := range []reflect.Type{typeOf[Plain](), reflect.StructOf([]reflect.StructField{sf("Z", c.t, "k"+strconv.Itoa(n))}), reflect.StructOf([]reflect.StructField{sf("A", c.t, "k0"), sf("Z", typeOf[int](), "z")}), reflect.MapOf(typeOf[string](), c.t)} {
					if u.Next() {
						decodeNode(u, doc, node, t)
					}
				}
			}
		}
	})...)
	// siblings at every level
	widths := []int{1, 2, 3, 5, 9}
	if thorough {
		widths = append(widths, 17, 40)
	}
	units = append(units, chunked("combs", len(widths)*3, 1, func(u *U, i int) {
		w := widths[i/3]
		for _, sib := range []string{"N;", "a:0:{}", `a:1:{i:0;a:0:{}}`} {
			for _, last := range []int{0, w / 2, w} {
				var pre, post strings.Builder
				pre.WriteString(head([]byte("aOa")[i%3], "cls", w+1))
				for k := 0; k <= w; k++ {
					key := intKey(k)
					if i%3 > 0 {
						key = strKey(k)
					}
					if k < last {
						pre.WriteString(key + sib)
					} else if k == last {
						pre.WriteString(key)
					} else {
						post.WriteString(key + sib)
					}
				}
				post.WriteString("}")
				h := 1 + strings.Count(sib, "a:") - 1
				for _, total := range []int{100, 9999, 10000, 10001} {
					doc := strings.Repeat(pre.String(), total-h) + sib + strings.Repeat(post.String(), total-h)
					node := parseDoc(doc)
					ts := []reflect.Type{anyType, typeOf[RM](), typeOf[Plain](), typeOf[map[string]any](), typeOf[UR](), typeOf[map[any]any]()}
					if i%3 == 0 {
						ts = []reflect.Type{anyType, typeOf[RS](), typeOf[RMI](), typeOf[[0]int](), typeOf[[]any](), typeOf[UR](), typeOf[RAnyS]()}
					}
					for _, t := range ts {
						if u.Next() {
							decodeNode(u, doc, node, t)
						}
					}
				}
			}
		}
	})...)
	return
}

func sizesC13(thorough bool) (units []Unit) {
	th := thresholds(thorough)
	units = append(units, chunked("long-values", len(th)*len(positions), 4, func(u *U, i int) {
		n, p := th[len(th)-1-i/len(positions)], i%len(positions)
		docs := []string{string(encStr(filler(n, 1))), string(encStr(filler(n, 2))), head('O', filler(n, 1), 0) + "}"}
		if n <= 10001 {
			docs = append(docs, seqDoc(n, intKey, func(i int) string { return "N;" }), seqDoc(n, strKey, func(i int) string { return `s:1:"}";` }))
		}
		for _, d := range docs {
			for _, ct := range []reflect.Type{typeOf[UR](), typeOf[UScribble](), typeOf[UKeep](), typeOf[UBytes](), typeOf[UVal]()} {
				t, doc := at([]int{p}, ct, d)
				if t != nil && u.Next() {
					customCase(u, doc, t)
				}
			}
		}
	})...)
	units = append(units, chunked("many", len(th), 1, func(u *U, i int) {
		n := th[len(th)-1-i]
		for mode := 0; mode < 3; mode++ {
			val := func(i int) string {
				switch mode {
				case 0:
					return "i:" + strconv.Itoa(i) + ";"
				case 1:
					return []string{"N;", "b:1;", `s:2:"ab";`, "a:1:{i:0;N;}"}[i%4]
				}
				return string(encStr(filler(i%40, i%3)))
			}
			doc := seqDoc(n, intKey, val)
			for _, t := range []reflect.Type{typeOf[[]UR](), typeOf[[]*UR](), typeOf[[]UScribble](), typeOf[map[int]UR](), reflect.ArrayOf(n, typeOf[UR]()), reflect.ArrayOf(max(n-1, 0), typeOf[*UKeep]())} {
				if u.Next() {
					customCase(u, doc, t)
				}
			}
			doc = seqDoc(n, strKey, val)
			for _, t := range []reflect.Type{typeOf[map[string]UR](), typeOf[map[string]*UStr](), reflect.StructOf([]reflect.StructField{sf("A", typeOf[UR](), "k0"), sf("Z", typeOf[UR](), "k"+strconv.Itoa(max(n-1, 1)))})} {
				if u.Next() {
					customCase(u, doc, t)
				}
			}
		}
	})...)
	return
}

func sizesC14(thorough bool) (units []Unit) {
	th := thresholds(thorough)
	units = append(units, chunked("long-outputs", len(th), 1, func(u *U, i int) {
		o := filler(th[len(th)-1-i], 2)
		for _, m := range []any{MV{o}, &MV{o}, &MP{o}, MStr(o), MBytes(o), MSlice{o}, MMap{"out": o}, MArr{o}} {
			for _, r := range routes {
				if x, ok := r.wrap(reflect.ValueOf(m)); ok && u.Next() {
					marCase(u, x)
				}
			}
		}
	})...)
	units = append(units, chunked("many", len(th), 1, func(u *U, i int) {
		n := th[len(th)-1-i]
		mv := make([]MV, n)
		mp := make([]*MP, n)
		mi := make([]MIface, n)
		an := make([]any, n)
		mm := make(map[int]MStr, n)
		for k := range mv {
			o := filler(k%60, k%3)
			mv[k] = MV{o}
			if k%5 > 0 {
				mp[k] = &MP{o}
				mi[k] = []MIface{MV{o}, &MP{o}, MStr(o)}[k%3]
				an[k] = []any{MV{o}, &MP{o}, MStr(o), k}[k%4]
			}
			mm[k] = MStr(o)
		}
		a := reflect.New(reflect.ArrayOf(n, typeOf[MV]())).Elem()
		reflect.Copy(a, reflect.ValueOf(mv))
		for _, x := range []any{mv, mp, mi, an, mm, iface(a), []any{mv, 1, mp}, struct {
			A []MV
			B map[int]MStr
			C any
		}{mv, mm, mi}, map[string]any{"k": an}} {
			if u.Next() {
				marCase(u, x)
			}
		}
	})...)
	return
}

func sizesC17(thorough bool) (units []Unit) {
	ns := []int{0, 1, 3, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257, 1000, 1025, 4097}
	if thorough {
		ns = append(ns, 513, 9999, 32769, 65537)
	}
	types := []reflect.Type{typeOf[[]int](), typeOf[[]*int](), typeOf[[]any](), typeOf[[]byte](), typeOf[string](), typeOf[map[int]int](), typeOf[map[string]any](), typeOf[map[int]*Plain](), typeOf[map[string][]int](), typeOf[[]Plain](), typeOf[[]string](), typeOf[*[]int](), typeOf[*map[int]int](), typeOf[[][]int](), anyType, typeOf[map[any]any](), typeOf[[100]int](), typeOf[[1000]*int](), typeOf[struct {
		S []int          `php:"k0"`
		M map[string]int `php:"k1"`
		X int            `php:"k2"`
	}]()}
	for _, w := range []int{8, 9, 33, 79} {
		types = append(types, wideStruct(w, typeOf[int](), func(i int) string { return "k" + strconv.Itoa(i) }), wideStruct(w, typeOf[*int](), func(i int) string { return "k" + strconv.Itoa(i) }))
	}
	docs := func(t reflect.Type, n int) (out []string) {
		el := t
		for el.Kind() == reflect.Ptr {
			el = el.Elem()
		}
		val := func(i int) string { return "i:" + strconv.Itoa(i%100+1) + ";" }
		switch el.Kind() {
		case reflect.String:
			return []string{string(encStr(filler(n, 0))), string(encStr(filler(n, 2)))}
		case reflect.Struct:
			if el.Field(0).Type.Kind() == reflect.Slice {
				return []string{`a:3:{s:2:"k0";` + seqDoc(n, intKey, val) + `s:2:"k1";` + seqDoc(n, strKey, val) + `s:2:"k2";i:5;}`, `a:1:{s:2:"k1";` + seqDoc(n, func(i int) string { return strKey(i + n/2) }, val) + "}"}
			}
			return []string{seqDoc(n, strKey, val), seqDoc(n, func(i int) string { return strKey(i * 3) }, func(i int) string { return "N;" }), seqDoc(n, func(i int) string { return strKey(n - i) }, val)}
		case reflect.Slice, reflect.Array, reflect.Map:
			switch el.Elem().Kind() {
			case reflect.Slice:
				val = func(i int) string { return []string{"a:1:{i:0;i:7;}", "N;", "a:2:{i:1;i:4;i:0;i:5;}"}[i%3] }
			case reflect.Struct, reflect.Ptr:
				e := el.Elem()
				if e.Kind() == reflect.Ptr {
					e = e.Elem()
				}
				if e.Kind() == reflect.Struct {
					val = func(i int) string {
						return `a:1:{s:1:"` + string("Ab"[i%2]) + `";` + []string{"i:3;", `s:1:"n";`}[i%2] + "}"
					}
				}
			case reflect.String:
				val = func(i int) string { return string(encStr(filler(i%5, 0))) }
			}
		}
		if el.Kind() == reflect.Map && el.Key().Kind() == reflect.String {
			return []string{seqDoc(n, strKey, val), seqDoc(n, func(i int) string { return strKey(2 * i) }, val)}
		}
		out = append(out, seqDoc(n, intKey, val), seqDoc(n, func(i int) string { return intKey(n - 1 - i) }, val), seqDoc(n, func(i int) string { return intKey(2 * i) }, val))
		if el == typeOf[[]byte]() || el.Kind() == reflect.Interface {
			out = append(out, string(encStr(filler(n, 0))))
		}
		return
	}
	units = append(units, chunked("sizes", len(types)*len(ns), 2, func(u *U, i int) {
		t, m := types[i%len(types)], ns[len(ns)-1-i/len(types)]
		pre := docs(t, m)
		if m == 0 {
			pre = append(pre, "")
		}
		for k, first := range pre {
			if k == 1 && !thorough {
				continue
			}
			for _, n := range ns {
				for _, doc := range docs(t, n) {
					for mode := 0; mode < 2; mode++ {
						if mode == 1 && !hasSlice(t, 0) || !u.Next() {
							continue
						}
						d := reflect.New(t).Elem()
						if first != "" {
							if v, _ := modelDecode(first, parseDoc(first), d); v != vOK {
								continue
							}
						}
						if mode == 1 {
							inflate(d, 0)
						}
						u.State(fmt.Sprint(i, k), doc, strconv.Itoa(mode))
						mergeStep(u, doc, parseDoc(doc), d, fmt.Sprintf("%d entries (%s)", m, clip(first, 60)))
					}
				}
			}
		}
	})...)
	return
}

// many and long unknown members around the known ones.
func sizesC18(thorough bool) (units []Unit) {
	th := thresholds(thorough)
	st := reflect.StructOf([]reflect.StructField{sf("A", typeOf[int](), "A"), sf("B", typeOf[string](), "b"), sf("C", typeOf[[2]int](), "c")})
	want := reflect.New(st).Elem()
	want.Field(0).SetInt(5)
	want.Field(1).SetString("q")
	want.Field(2).Index(0).SetInt(1)
	want.Field(2).Index(1).SetInt(2)
	known := []string{`s:1:"A";i:5;`, `s:1:"b";s:1:"q";`, `s:1:"c";`}
	junk := []string{"N;", "i:7;", "d:0.5;", `s:3:"};a";`, `a:1:{i:0;a:0:{}}`, `O:1:"C":1:{s:1:"A";i:9;}`}
	run := func(u *U, n int) {
		try := func(doc string, extra ...string) {
			if !u.Next() {
				return
			}
			got := reflect.New(st)
			err, pan := Unmarshal([]byte(doc), got.Interface())
			u.State(doc)
			if err != nil || pan != nil {
				u.Fail("Unmarshal(%s, *%s) failed: %v %v", clipq(doc), st, err, pan)
			} else if s := same(got.Elem(), want); s != "" {
				u.Fail("Unmarshal(%s, *%s) = %s: unknown members left a trace (%d, %s)", clipq(doc), st, describeValue(got.Elem(), 6), n, s)
			}
		}
		two := "a:2:{i:0;i:1;i:1;i:2;}"
		members := func(pos int, mk func(i int) string) string {
			var sb strings.Builder
			for k := 0; k <= 3; k++ {
				if k == pos || pos == 4 {
					for i := 0; i < n; i++ {
						sb.WriteString(mk(k*n + i))
					}
				}
				if k < 3 {
					sb.WriteString(known[k])
				}
				if k == 2 {
					sb.WriteString(two)
				}
			}
			m := n
			if pos == 4 {
				m *= 4
			}
			return head([]byte("aO")[pos%2], "Cls", 3+m) + sb.String() + "}"
		}
		for pos := 0; pos < 5; pos++ {
			for _, j := range junk {
				try(members(pos, func(i int) string { return strKey(i) + j }))
			}
			try(members(pos, func(i int) string { return strKey(i) + junk[i%len(junk)] }))
			try(members(pos, func(i int) string { return `s:1:"u";` + junk[i%len(junk)] }))
		}
		// one big member
		for kind := 0; kind < 3; kind++ {
			e := string(encStr(filler(n, kind)))
			bigs := []string{e, "a:1:{i:0;" + e + "}", "a:1:{" + e + "N;}", head('O', filler(n, kind), 1) + `s:1:"A";i:9;}`, "i:" + strings.Repeat("0", n+1) + ";", "d:0." + strings.Repeat("1", min(n, 300)+1) + ";"}
			if kind == 0 {
				bigs = append(bigs, seqDoc(n, intKey, func(i int) string { return junk[i%len(junk)] }), seqDoc(n, strKey, func(i int) string { return junk[i%len(junk)] }))
				if n <= 9990 {
					bigs = append(bigs, strings.Repeat("a:1:{i:0;", n)+"N;"+strings.Repeat("}", n), strings.Repeat(`O:1:"C":1:{s:1:"b";`, n)+"N;"+strings.Repeat("}", n))
				}
			}
			for _, b := range bigs {
				for k := 0; k <= 3; k++ {
					parts := []string{known[0], known[1], known[2] + two}
					try("a:4:{" + strings.Join(parts[:k], "") + `s:1:"u";` + b + strings.Join(parts[k:], "") + "}")
				}
				// beyond the end of the array
				try("a:3:{" + known[0] + known[2] + "a:3:{i:2;" + b + "i:0;i:1;i:1;i:2;}" + known[1] + "}")
				try("a:3:{" + known[0] + known[2] + "a:4:{i:0;i:1;i:1;i:2;i:5;" + b + "i:6;" + b + "}" + known[1] + "}")
			}
			if e != `s:1:"A";` {
				try("a:4:{" + known[0] + known[1] + string(encStr("key "+filler(n, kind))) + "i:1;" + known[2] + two + "}")
			}
			try(head('O', filler(n, kind), 3) + known[0] + known[1] + known[2] + two + "}")
		}
		// many surplus elements
		for _, j := range junk {
			try("a:3:{" + known[2] + seqDoc(n+2, intKey, func(i int) string {
				if i < 2 {
					return "i:" + strconv.Itoa(i+1) + ";"
				}
				return j
			}) + known[0] + known[1] + "}")
			try("a:3:{" + known[2] + seqDoc(n+2, func(i int) string { return intKey(n + 1 - i) }, func(i int) string {
				if i >= n {
					return "i:" + strconv.Itoa(n+2-i) + ";"
				}
				return j
			}) + known[0] + known[1] + "}")
		}
	}
	// elements at any index beyond the end
	bi := boundaryInts(thorough)
	units = append(units, chunked("surplus-indexes", len(bi), 100, func(u *U, i int) {
		if bi[i].Sign() < 0 || bi[i].BitLen() > 63 || bi[i].BitLen() < 2 {
			return
		}
		x := bi[i].String()
		for _, j := range junk {
			for _, arr := range []string{"a:3:{i:" + x + ";" + j + "i:0;i:1;i:1;i:2;}", "a:3:{i:0;i:1;i:1;i:2;i:" + x + ";" + j + "}", "a:3:{i:1;i:2;i:" + x + ";" + j + "i:0;i:1;}"} {
				if !u.Next() {
					continue
				}
				got := reflect.New(st)
				doc := "a:3:{" + known[0] + known[2] + arr + known[1] + "}"
				err, pan := Unmarshal([]byte(doc), got.Interface())
				u.State(doc)
				if err != nil || pan != nil {
					u.Fail("Unmarshal(%s, *%s) failed: %v %v", clipq(doc), st, err, pan)
				} else if s := same(got.Elem(), want); s != "" {
					u.Fail("Unmarshal(%s, *%s) = %s: an element beyond the end left a trace (%s)", clipq(doc), st, describeValue(got.Elem(), 6), s)
				}
			}
		}
	})...)
	units = append(units, chunked("sizes", len(th), 1, func(u *U, i int) { run(u, th[len(th)-1-i]) })...)
	every := 300
	if thorough {
		every = 1500
	}
	return append(units, chunked("every-size", every, 10, run)...)
}

// grids are values whose many elements are spread over many containers.
func grids(thorough bool) [][2]int {
	g := [][2]int{{2, 32769}, {32769, 2}, {300, 400}, {65537, 1}, {1, 65537}, {1001, 101}, {101, 1001}, {256, 257}, {40, 40}}
	if thorough {
		g = append(g, [2]int{1000, 1100}, [2]int{16, 65537}, [2]int{262145, 4}, [2]int{5, 5}, [2]int{127, 129})
	}
	return g
}

const gridKinds = 14

func gridValue(m, n, kind int) reflect.Value {
	in := func(k, i int) int { return (k*31+i)%1000 - 3 }
	switch kind {
	case 0:
		return gridOf(m, func(k int) []int { return sliceBy(n, func(i int) int { return in(k, i) }) })
	case 1:
		return gridOf(m, func(k int) []any {
			return sliceBy(n, func(i int) any { return []any{in(k, i), "s", nil, 2.5, true}[i%5] })
		})
	case 2:
		return gridOf(m, func(k int) []string { return sliceBy(n, func(i int) string { return filler(in(k, i)%7+7, i%3) }) })
	case 3:
		return gridOf(m, func(k int) map[int]int { return mapBy(n, func(i int) (int, int) { return i * 3, in(k, i) }) })
	case 4:
		return reflect.ValueOf(mapBy(m, func(k int) (int, []int) { return k, sliceBy(n, func(i int) int { return in(k, i) }) }))
	case 5:
		return gridOf(m, func(k int) struct {
			A []int          `php:"a"`
			M map[string]int `php:"m,omitempty"`
		} {
			return struct {
				A []int          `php:"a"`
				M map[string]int `php:"m,omitempty"`
			}{sliceBy(n/2, func(i int) int { return i }), mapBy(n-n/2, func(i int) (string, int) { return "k" + strconv.Itoa(i), k })}
		})
	case 6:
		return gridOf(m, func(k int) []Plain { return sliceBy(n, func(i int) Plain { return Plain{in(k, i), "b"} }) })
	case 7:
		return gridOf(m, func(k int) []*int { return sliceBy(n, func(i int) *int { return ptrTo(in(k, i)) }) })
	case 8:
		return reflect.ValueOf(mapBy(m, func(k int) (string, map[string]int) {
			return "o" + strconv.Itoa(k), mapBy(n, func(i int) (string, int) { return "k" + strconv.Itoa(i), in(k, i) })
		}))
	case 9:
		return gridOf(m, func(k int) [][]byte { return sliceBy(n, func(i int) []byte { return []byte(filler(i%4, 2)) }) })
	case 10:
		return gridOf(m, func(k int) any { return sliceBy(n, func(i int) any { return []any{i} }) })
	case 11:
		return gridOf(m, func(k int) *[]float64 { return ptrTo(sliceBy(n, func(i int) float64 { return float64(i) / 4 })) })
	case 12:
		a := reflect.New(reflect.ArrayOf(m, reflect.ArrayOf(n, typeOf[int16]()))).Elem()
		for k := 0; k < m; k++ {
			for i := 0; i < n; i++ {
				a.Index(k).Index(i).SetInt(int64(in(k, i)))
			}
		}
		return a
	}
	return gridOf(m, func(k int) [][]bool { return sliceBy(n, func(i int) []bool { return []bool{i%2 == 0} }) })
}

func gridOf[T any](m int, f func(int) T) reflect.Value { return reflect.ValueOf(sliceBy(m, f)) }

func sliceBy[T any](n int, f func(int) T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

func mapBy[K comparable, V any](n int, f func(int) (K, V)) map[K]V {
	out := make(map[K]V, n)
	for i := 0; i < n; i++ {
		k, v := f(i)
		out[k] = v
	}
	return out
}

func gridUnits(thorough bool, run func(u *U, v reflect.Value)) []Unit {
	g := grids(thorough)
	return chunked("grids", len(g)*gridKinds, 1, func(u *U, i int) {
		if u.Next() {
			run(u, gridValue(g[i/gridKinds][0], g[i/gridKinds][1], i%gridKinds))
		}
	})
}
