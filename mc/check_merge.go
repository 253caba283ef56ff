package main

// C17: decoding into destinations that already hold data.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// heapCopy copies a finite value and remembers which reference became which.
type heapCopy struct {
	refs   []refPair
	byOrig map[ref]int
	byCopy map[ref]int
}

type refPair struct{ orig, copy reflect.Value }

func newHeapCopy() *heapCopy { return &heapCopy{byOrig: map[ref]int{}, byCopy: map[ref]int{}} }

func refOf(rv reflect.Value) ref { return ref{rv.Type(), rv.Pointer(), 0} }

func (h *heapCopy) note(orig, cp reflect.Value) {
	h.byOrig[refOf(orig)] = len(h.refs)
	h.byCopy[refOf(cp)] = len(h.refs)
	// detached from the variables that hold them
	h.refs = append(h.refs, refPair{reflect.ValueOf(orig.Interface()), reflect.ValueOf(cp.Interface())})
}

func (h *heapCopy) into(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		if i, ok := h.byOrig[refOf(src)]; ok {
			dst.Set(h.refs[i].copy)
			return
		}
		p := reflect.New(src.Type().Elem()).Convert(src.Type())
		h.note(src, p)
		h.into(p.Elem(), src.Elem())
		dst.Set(p)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := reflect.New(src.Elem().Type()).Elem()
		h.into(e, src.Elem())
		dst.Set(e)
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		s := reflect.MakeSlice(src.Type(), src.Cap(), src.Cap())
		full := src.Slice(0, src.Cap())
		for i := 0; i < src.Cap(); i++ {
			h.into(s.Index(i), full.Index(i))
		}
		if src.Cap() > 0 {
			// the old array stays as it was, and belongs to whoever else refers to it
			h.refs = append(h.refs, refPair{full, s})
		}
		dst.Set(s.Slice(0, src.Len()))
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			h.into(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		if i, ok := h.byOrig[refOf(src)]; ok {
			dst.Set(h.refs[i].copy)
			return
		}
		m := reflect.MakeMapWithSize(src.Type(), src.Len())
		h.note(src, m)
		it := src.MapRange()
		for it.Next() {
			v := reflect.New(src.Type().Elem()).Elem()
			h.into(v, it.Value())
			m.SetMapIndex(it.Key(), v)
		}
		dst.Set(m)
	case reflect.Struct:
		dst.Set(src)
		for i := 0; i < src.NumField(); i++ {
			if src.Type().Field(i).PkgPath == "" {
				h.into(dst.Field(i), src.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}

// identity walks two equal values and reports where got refers to other things than want.
// got is made of originals, want of copies.
func (h *heapCopy) identity(got, want reflect.Value, path string, depth int) string {
	if depth > 40 {
		return ""
	}
	check := func() string {
		i, old := h.byCopy[refOf(want)]
		j, oldGot := h.byOrig[refOf(got)]
		switch {
		case old && (!oldGot || i != j):
			return path + ": the " + got.Kind().String() + " was replaced, expected it to be kept"
		case !old && oldGot && got.Type().Elem().Size() > 0:
			return path + ": an old " + got.Kind().String() + " was kept, expected a new one"
		}
		return ""
	}
	switch want.Kind() {
	case reflect.Ptr:
		if want.IsNil() {
			return ""
		}
		if want.Type().Elem().Size() > 0 {
			if s := check(); s != "" {
				return s
			}
		}
		return h.identity(got.Elem(), want.Elem(), "*"+path, depth+1)
	case reflect.Interface:
		if want.IsNil() {
			return ""
		}
		return h.identity(got.Elem(), want.Elem(), path, depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < want.Len() && i < got.Len(); i++ {
			if s := h.identity(got.Index(i), want.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); s != "" {
				return s
			}
		}
	case reflect.Map:
		if want.IsNil() {
			return ""
		}
		if s := check(); s != "" {
			return s
		}
		it := want.MapRange()
		for it.Next() {
			g := got.MapIndex(it.Key())
			if !g.IsValid() {
				continue
			}
			if s := h.identity(g, it.Value(), path+"["+describeValue(it.Key(), 1)+"]", depth+1); s != "" {
				return s
			}
		}
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			if want.Type().Field(i).PkgPath == "" {
				if s := h.identity(got.Field(i), want.Field(i), path+"."+want.Type().Field(i).Name, depth+1); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// inflate gives every slice extra capacity that holds stale elements.
func inflate(rv reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch rv.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			inflate(rv.Elem(), depth+1)
		}
	case reflect.Interface:
		if !rv.IsNil() {
			e := reflect.New(rv.Elem().Type()).Elem()
			e.Set(rv.Elem())
			inflate(e, depth+1)
			rv.Set(e)
		}
	case reflect.Slice:
		if rv.IsNil() {
			return
		}
		n := rv.Len()
		s := reflect.MakeSlice(rv.Type(), n+3, n+3)
		lo := valsDepth(rv.Type().Elem(), 0, 2)
		for i := 0; i < n+3; i++ {
			if i < n {
				s.Index(i).Set(rv.Index(i))
				inflate(s.Index(i), depth+1)
			} else {
				s.Index(i).Set(deepCopy(lo[len(lo)-1]))
			}
		}
		rv.Set(s.Slice(0, n))
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			inflate(rv.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			e := reflect.New(rv.Type().Elem()).Elem()
			e.Set(rv.MapIndex(k))
			inflate(e, depth+1)
			rv.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" {
				inflate(rv.Field(i), depth+1)
			}
		}
	}
}

// variations of a document: one entry missing, one value null, one value of another kind, reversed, as objects.
func variations(doc string) (out []string) {
	seen := map[string]bool{doc: true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	n := parseDoc(doc)
	if n == nil {
		return nil
	}
	var nodes []*Node
	var walk func(n *Node)
	walk = func(n *Node) {
		nodes = append(nodes, n)
		for _, e := range n.E {
			walk(e.V)
		}
	}
	walk(n)
	if len(nodes) > 40 {
		nodes = nodes[:40]
	}
	for _, x := range nodes {
		add(doc[:x.Start] + "N;" + doc[x.End:])
		switch x.K {
		case 'a', 'O':
			add(doc[:x.Start] + "a:0:{}" + doc[x.End:])
			for i := range x.E {
				es := ""
				for j, e := range x.E {
					if i != j {
						es += doc[e.K.Start:e.V.End]
					}
				}
				add(doc[:x.Start] + head(x.K, x.T, len(x.E)-1) + es + "}" + doc[x.End:])
			}
		case 'i':
			add(doc[:x.Start] + "i:1;" + doc[x.End:])
		case 's':
			add(doc[:x.Start] + `s:3:"new";` + doc[x.End:])
		}
	}
	for _, r := range renderers[:4] {
		add(r.text(n))
	}
	return
}

// mergeDocs are the operations explored on destinations of type t.
func mergeDocs(t reflect.Type, max int) []string {
	docs := docsFor(t, 1)
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] && len(out) < max {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, d := range docs {
		add(d)
	}
	for _, d := range []string{"N;", "a:0:{}", `O:1:"C":0:{}`, "i:1;", `s:1:"q";`, `a:2:{i:1;i:8;i:0;N;}`, `a:1:{s:1:"k";N;}`, `a:1:{s:1:"X";a:1:{i:0;i:6;}}`, `a:1:{i:1;a:1:{s:1:"k";s:1:"w";}}`} {
		add(d)
	}
	for i := len(docs) - 1; i >= 0; i-- {
		for _, v := range variations(docs[i]) {
			add(v)
		}
	}
	return out
}

// mergeStep decodes doc into dst and compares the value and all its references with the model.
// It returns the model's value, or nil when the history ends here.
func mergeStep(u *U, doc string, n *Node, dst reflect.Value, hist string) bool {
	h := newHeapCopy()
	want := reflect.New(dst.Type())
	h.into(want.Elem(), dst)
	v, why := modelDecode(doc, n, want.Elem())
	err, pan := Unmarshal([]byte(doc), dst.Addr().Interface())
	t := dst.Type()
	if pan != nil {
		u.Fail("Unmarshal(%s, *%s) into %s panicked: %s", clipq(doc), t, hist, pan)
		return false
	}
	if v == vReject && err == nil {
		u.Fail("Unmarshal(%s, *%s) into %s succeeded with %s, expected an error (%s)", clipq(doc), t, hist, describeValue(dst, 6), why)
		return false
	}
	if v == vReject || v == vAny || v == vMay && err != nil {
		return false
	}
	if err != nil {
		u.Fail("Unmarshal(%s, *%s) into %s failed: %v", clipq(doc), t, hist, err)
		return false
	}
	if s := same(dst, want.Elem()); s != "" {
		u.Fail("Unmarshal(%s, *%s) into %s = %s, expected %s (differs at %s)", clipq(doc), t, hist, describeValue(dst, 6), describeValue(want.Elem(), 6), s)
		return false
	}
	if s := h.identity(dst, want.Elem(), "v", 0); s != "" {
		u.Fail("Unmarshal(%s, *%s) into %s = %s: %s", clipq(doc), t, hist, describeValue(dst, 6), s)
		return false
	}
	for _, r := range h.refs {
		got, exp := r.orig, r.copy
		if got.Kind() == reflect.Ptr {
			got, exp = got.Elem(), exp.Elem()
		}
		if s := same(got, exp); s != "" {
			u.Fail("Unmarshal(%s, *%s) into %s: something the destination refers or referred to (%s) became %s, expected %s", clipq(doc), t, hist, got.Type(), describeValue(got, 5), describeValue(exp, 5))
			return false
		}
	}
	return true
}

func mergeTypes(thorough bool) []reflect.Type {
	ts := append(append([]reflect.Type{}, leafTypes...), apply(append(append([]ctor{}, ctors...), extraCtors...), leafTypes)...)
	ts = append(ts, lvlOf(2)...)
	for _, t := range specialTypes() {
		if !typeRefused(t) {
			ts = append(ts, t)
		}
	}
	ts = append(ts, typeOf[mergeT1](), typeOf[*mergeT1](), typeOf[[]mergeT1](), typeOf[map[string]mergeT1](), typeOf[map[string]*mergeT1](), typeOf[[2]mergeT1](), typeOf[map[string]map[string][]int](), typeOf[map[int]map[int]*int](), typeOf[*map[string]*[]int](),
		typeOf[struct{ A, B *Plain }](), typeOf[struct {
			M map[string][]*Plain
			S []map[string]Plain
		}](), typeOf[*[2]*[]any](), typeOf[[]*[]*int](), typeOf[unexportedMix]())
	if thorough {
		ts = append(ts, lvlOf(3)...)
	}
	return ts
}

type mergeT1 struct {
	N int            `php:"n,string"`
	P *bool          `php:"p,string"`
	S []int          `php:"s,omitempty"`
	M map[string]int `php:"m"`
	A [2]int         `php:"a"`
	I any            `php:"i"`
	Q *Plain         `php:"q"`
	B []byte         `php:"b"`
}

func init() {
	register(&Check{
		ID:   "C17",
		Rule: "for every type of the universe, every initial value (also with stale elements in the spare capacity of every slice), every sequence of documents to the depth bound (type-directed documents, and each with one entry removed, one value null, other orders, as objects); after every step the value, the identity of every pointer and map, and everything the destination referred to before are compared with the merge model",
		Units: func(thorough bool) (units []Unit) {
			ts := mergeTypes(thorough)
			nd, ns, n3 := 60, 30, 4
			if thorough {
				nd, ns, n3 = 100, 60, 12
			}
			units = append(units, chunked("merge", len(ts), 4, func(u *U, i int) {
				t := ts[i]
				if typeRefused(t) {
					return
				}
				ndi, nsi := nd, ns
				if i > 1500 {
					ndi, nsi = 30, 10
				}
				docs := mergeDocs(t, ndi)
				nodes := make([]*Node, len(docs))
				for k := range docs {
					nodes[k] = parseDoc(docs[k])
				}
				inits := vals(t, 1)
				for k, init := range inits {
					for mode := 0; mode < 2; mode++ {
						if mode == 1 && !hasSlice(t, 0) {
							continue
						}
						mk := func() reflect.Value {
							d := reflect.New(t).Elem()
							d.Set(deepCopy(init))
							if mode == 1 {
								inflate(d, 0)
							}
							return d
						}
						for a, da := range docs {
							if !u.Next() {
								continue
							}
							d := mk()
							u.State(t.String(), strconv.Itoa(k), da)
							if !mergeStep(u, da, nodes[a], d, describeValue(init, 5)) || len(docs) == 0 {
								continue
							}
							// every second step on the very same variable
							for b := 0; b < len(docs) && b < nsi; b++ {
								d := mk()
								h := describeValue(init, 5) + " + " + clip(da, 200)
								if err, pan := Unmarshal([]byte(da), d.Addr().Interface()); err != nil || pan != nil {
									break
								}
								if mergeStep(u, docs[b], nodes[b], d, h) && b < n3 && i < 1500 {
									// and a third
									for c := 0; c < len(docs) && c < n3; c++ {
										d := mk()
										_, _ = Unmarshal([]byte(da), d.Addr().Interface())
										_, _ = Unmarshal([]byte(docs[b]), d.Addr().Interface())
										mergeStep(u, docs[c], nodes[c], d, h+" + "+clip(docs[b], 200))
									}
								}
							}
						}
					}
				}
			})...)
			// long histories on one variable
			units = append(units, chunked("histories", len(ts), 25, func(u *U, i int) {
				t := ts[i]
				if typeRefused(t) || !u.Next() {
					return
				}
				docs := mergeDocs(t, 60)
				d := reflect.New(t).Elem()
				var hist []string
				for k := 0; k < 4*len(docs); k++ {
					doc := docs[k*7%len(docs)]
					if strings.Contains(doc, "99999") {
						continue
					}
					n := parseDoc(doc)
					if v, _ := modelDecode(doc, n, reflect.New(t).Elem()); v != vOK {
						continue
					}
					hist = append(hist, clip(doc, 60))
					if !mergeStep(u, doc, n, d, "after "+strings.Join(hist[max(0, len(hist)-6):len(hist)-1], " ")) {
						break
					}
				}
			})...)
			units = append(units, nestUnits(thorough)...)
			units = append(units, sizesC17(thorough)...)
			return
		},
	})
}

func hasSlice(t reflect.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Interface:
		return true
	case reflect.Ptr, reflect.Array, reflect.Map:
		return hasSlice(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasSlice(t.Field(i).Type, depth+1) {
				return true
			}
		}
	}
	return false
}
