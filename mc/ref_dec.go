package main

// Reference decoder: what Unmarshal has to do with a parsed document.

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	php "github.com/trim21/go-phpserialize"
)

type verdict int

const (
	vOK     verdict = iota // must succeed with the model's value
	vMay                   // may fail; if it succeeds, with the model's value
	vAny                   // unspecified
	vReject                // must fail
)

func (v verdict) String() string { return [...]string{"OK", "MAY", "ANY", "REJECT"}[v] }

var (
	unmarshalerType = reflect.TypeOf((*php.Unmarshaler)(nil)).Elem()
	marshalerType   = reflect.TypeOf((*php.Marshaler)(nil)).Elem()
	anyType         = reflect.TypeOf((*any)(nil)).Elem()
	bytesType       = reflect.TypeOf([]byte(nil))
)

// modelUnmarshaler is implemented by the test types next to UnmarshalPHP.
type modelUnmarshaler interface{ ModelUnmarshal(src []byte) error }

type decModel struct {
	src string
	v   verdict
	why string
}

func (m *decModel) up(v verdict, why string) {
	if v > m.v {
		m.v, m.why = v, why
	}
}

const maxDepth = 10000

// modelDecode decodes doc (already parsed as n; nil if outside L) into rv.
func modelDecode(src string, n *Node, rv reflect.Value) (verdict, string) {
	m := &decModel{src: src}
	if n == nil {
		return vReject, "malformed"
	}
	if n.Height > maxDepth {
		return vReject, "too deep"
	}
	if !n.AllStrict {
		m.up(vMay, "not in W")
	}
	m.assign(n, rv)
	if m.v < vAny && typeRefused(rv.Type()) {
		m.up(vMay, "type has refused parts")
	}
	return m.v, m.why
}

func unsupportedDec(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer, reflect.Invalid:
		return true
	case reflect.Ptr:
		return t.Elem().Kind() == reflect.Ptr
	}
	return false
}

var refusedCache = map[reflect.Type]bool{}

// typeRefused: the type contains, anywhere, a part that makes the whole type questionable.
func typeRefused(t reflect.Type) bool {
	v, ok := refusedCache[t]
	if !ok {
		v = refusedIn(t, map[reflect.Type]bool{})
		refusedCache[t] = v
	}
	return v
}

func refusedIn(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] || isUnm(t) {
		return false
	}
	seen[t] = true
	if unsupportedDec(t) {
		return true
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return refusedIn(t.Elem(), seen)
	case reflect.Map:
		return !keyTypeOK(t.Key()) || refusedIn(t.Elem(), seen)
	case reflect.Struct:
		if structRefused(t) {
			return true
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ti := parseTag(f)
			if !ti.ignore && (refusedIn(f.Type, seen) || ti.str && !decStringOK(f.Type)) {
				return true
			}
		}
	}
	return false
}

// decStringOK: types the string option is specified for.
func decStringOK(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
		if t.Kind() == reflect.Interface {
			return false
		}
	}
	return !isUnm(t) && (scalarLeaf(t) || t.Kind() == reflect.Interface)
}

func keyTypeOK(t reflect.Type) bool {
	if isUnm(t) {
		return true
	}
	switch t.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return true
	case reflect.Interface:
		return true
	}
	return false
}

type tagInfo struct {
	key                    string
	omitempty, str, ignore bool
	embedStruct            bool
}

const tagPunct = "!#$%&()*+-./:<=>?@[]^_{|}~ "

func parseTag(f reflect.StructField) tagInfo {
	t := tagInfo{key: f.Name}
	raw := f.Tag.Get("php")
	if f.PkgPath != "" {
		t.ignore = true
		return t
	}
	if raw == "-" {
		t.ignore = true
		return t
	}
	parts := strings.Split(raw, ",")
	if name := parts[0]; name != "" {
		valid := true
		for _, c := range name {
			if !unicode.IsLetter(c) && !unicode.IsDigit(c) && !strings.ContainsRune(tagPunct, c) {
				valid = false
			}
		}
		if valid {
			t.key = name
		}
	}
	for _, o := range parts[1:] {
		if o == "omitempty" {
			t.omitempty = true
		}
		if o == "string" {
			t.str = true
		}
	}
	if f.Anonymous {
		t.embedStruct = f.Type.Kind() == reflect.Struct || f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct
	}
	return t
}

// structRefused: embedded structs or fields that share a key.
func structRefused(t reflect.Type) bool {
	seen := map[string]bool{}
	for i := 0; i < t.NumField(); i++ {
		ti := parseTag(t.Field(i))
		if ti.ignore {
			continue
		}
		if ti.embedStruct || seen[ti.key] {
			return true
		}
		seen[ti.key] = true
	}
	return false
}

func (m *decModel) badCount(n *Node) {
	if !n.CountOK {
		m.up(vReject, "count mismatch")
	}
}

// skip: data that is not stored has to be well formed all the same.
func (m *decModel) skip(n *Node) {
	if !n.AllCountOK {
		m.up(vReject, "count mismatch in skipped data")
	}
	if n.AnyOdd {
		m.up(vReject, "bool key in skipped data")
	}
}

func (m *decModel) mismatch(n *Node, t reflect.Type) {
	m.up(vReject, fmt.Sprintf("%c does not fit %s", n.K, t))
}

func (m *decModel) assign(n *Node, rv reflect.Value) {
	if m.v == vReject {
		return
	}
	steps++
	t := rv.Type()
	if isUnm(t) {
		m.skip(n)
		if n.K == 'N' {
			rv.SetZero()
			return
		}
		p := reflect.New(t)
		if err := p.Interface().(modelUnmarshaler).ModelUnmarshal([]byte(m.src[n.Start:n.End])); err == errModelAny {
			m.up(vAny, "unspecified in a method")
			return
		} else if err != nil {
			m.up(vReject, "unmarshaler error")
			return
		}
		rv.Set(p.Elem())
		return
	}
	if unsupportedDec(t) {
		m.up(vReject, "unsupported type")
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if n.K == 'N' {
			rv.SetZero()
			return
		}
		if rv.IsNil() {
			rv.Set(reflect.New(t.Elem()))
		}
		m.assign(n, rv.Elem())
	case reflect.Bool:
		switch n.K {
		case 'b':
			rv.SetBool(n.T == "1")
		case 'N':
		default:
			m.mismatch(n, t)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch n.K {
		case 'i':
			m.setInt(n.T, rv)
		case 'N':
		default:
			m.mismatch(n, t)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		switch n.K {
		case 'i':
			m.setUint(n.T, rv)
		case 'N':
		default:
			m.mismatch(n, t)
		}
	case reflect.Float32, reflect.Float64:
		switch n.K {
		case 'd':
			m.setFloat(n.T, rv)
		case 'N':
		default:
			m.mismatch(n, t)
		}
	case reflect.String:
		switch n.K {
		case 's':
			rv.SetString(n.T)
		case 'N':
		default:
			m.mismatch(n, t)
		}
	case reflect.Slice:
		m.assignSlice(n, rv)
	case reflect.Array:
		m.assignArray(n, rv)
	case reflect.Map:
		m.assignMap(n, rv)
	case reflect.Struct:
		m.assignStruct(n, rv)
	case reflect.Interface:
		m.assignInterface(n, rv)
	}
}

func (m *decModel) setInt(text string, rv reflect.Value) {
	v, ok := intValue(text, rv.Type().Bits())
	if !ok {
		m.up(vReject, "integer out of range")
		return
	}
	rv.SetInt(v)
}

func (m *decModel) setUint(text string, rv reflect.Value) {
	v, ok := uintValue(text, rv.Type().Bits())
	if !ok {
		m.up(vReject, "integer out of range")
		return
	}
	rv.SetUint(v)
}

func (m *decModel) setFloat(text string, rv reflect.Value) {
	switch text {
	case "INF":
		rv.SetFloat(math.Inf(1))
		return
	case "-INF":
		rv.SetFloat(math.Inf(-1))
		return
	case "NAN":
		rv.SetFloat(math.NaN())
		return
	}
	v, err := nearestFloat(text, rv.Type().Bits())
	if err != nil {
		m.up(vReject, "float out of range")
		return
	}
	rv.SetFloat(v)
}

// nearestFloat relies on strconv's correct rounding, in the size asked for.
func nearestFloat(text string, bits int) (float64, error) { return strconv.ParseFloat(text, bits) }

const maxSparse = 1 << 16

func (m *decModel) index(k *Node) (int, bool) {
	if k.K != 'i' {
		if k.K == 'b' {
			m.up(vReject, "bool index")
		} else {
			m.up(vReject, "string index")
		}
		return 0, false
	}
	v, ok := intValue(k.T, 64)
	if !ok || v < 0 {
		m.up(vReject, "negative or huge index")
		return 0, false
	}
	return int(v), true
}

func (m *decModel) assignSlice(n *Node, rv reflect.Value) {
	t := rv.Type()
	isBytes := t.Elem().Kind() == reflect.Uint8
	if isBytes && isUnm(t.Elem()) && n.K != 'a' {
		m.up(vAny, "slice of byte-kind unmarshalers")
		return
	}
	switch {
	case n.K == 'N' && isBytes:
		// unchanged
	case n.K == 'N':
		rv.SetZero()
	case n.K == 's' && isBytes:
		rv.SetBytes([]byte(n.T))
	case n.K == 'a':
		m.badCount(n)
		if n.DupKeys {
			m.up(vAny, "duplicate keys")
		}
		hi := -1
		for _, e := range n.E {
			i, ok := m.index(e.K)
			if !ok {
				return
			}
			hi = max(hi, i)
		}
		if hi >= maxSparse {
			m.up(vAny, "sparse index")
			for _, e := range n.E {
				m.assign(e.V, reflect.New(t.Elem()).Elem())
			}
			return
		}
		s := reflect.MakeSlice(t, hi+1, hi+1)
		for _, e := range n.E {
			i, _ := m.index(e.K)
			m.assign(e.V, s.Index(i))
		}
		rv.Set(s)
	default:
		m.mismatch(n, t)
	}
}

func (m *decModel) assignArray(n *Node, rv reflect.Value) {
	switch n.K {
	case 'N':
	case 'a':
		m.badCount(n)
		if n.DupKeys {
			m.up(vAny, "duplicate keys")
		}
		rv.SetZero()
		for _, e := range n.E {
			i, ok := m.index(e.K)
			if !ok {
				return
			}
			if i < rv.Len() {
				m.assign(e.V, rv.Index(i))
			} else {
				m.skip(e.V)
			}
		}
	default:
		m.mismatch(n, rv.Type())
	}
}

func (m *decModel) assignMap(n *Node, rv reflect.Value) {
	t := rv.Type()
	switch n.K {
	case 'N':
		rv.SetZero()
	case 'a', 'O':
		m.badCount(n)
		if n.DupKeys {
			m.up(vAny, "duplicate keys")
		}
		if rv.IsNil() {
			rv.Set(reflect.MakeMap(t))
		}
		for _, e := range n.E {
			k := reflect.New(t.Key()).Elem()
			m.assignKey(e.K, k)
			v := reflect.New(t.Elem()).Elem()
			m.assign(e.V, v)
			if m.v == vReject {
				return
			}
			if m.v == vAny && !k.Comparable() {
				continue
			}
			rv.SetMapIndex(k, v)
		}
	default:
		m.mismatch(n, t)
	}
}

func (m *decModel) assignKey(k *Node, rv reflect.Value) {
	t := rv.Type()
	if k.K == 'b' && t.Kind() != reflect.Bool {
		m.up(vReject, "bool key")
		return
	}
	if isUnm(t) {
		m.assign(k, rv)
		return
	}
	switch t.Kind() {
	case reflect.Interface:
		if t.NumMethod() > 0 {
			m.up(vReject, "non-empty interface key")
			return
		}
		if k.K == 's' {
			rv.Set(reflect.ValueOf(k.T))
			return
		}
		v, ok := intValue(k.T, 64)
		if !ok {
			m.up(vReject, "integer key out of range")
			return
		}
		rv.Set(reflect.ValueOf(v))
	case reflect.Bool:
		// the only keys that are not integers or strings
		if k.K != 'b' {
			m.up(vReject, "bool key expected")
			return
		}
		m.assign(k, rv)
	case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		m.assign(k, rv)
	default:
		m.up(vReject, "unsupported key type")
	}
}

func (m *decModel) assignStruct(n *Node, rv reflect.Value) {
	t := rv.Type()
	if n.K == 'N' {
		return
	}
	if n.K != 'a' && n.K != 'O' {
		m.mismatch(n, t)
		return
	}
	if structRefused(t) {
		m.up(vReject, "refused struct type")
		return
	}
	if !n.CountOK {
		m.up(vMay, "struct count") // documented exception of C06
	}
	if n.DupKeys {
		m.up(vAny, "duplicate keys")
	}
	for _, e := range n.E {
		if e.K.K != 's' {
			m.up(vReject, "struct key is not a string")
			m.skip(e.V)
			continue
		}
		found := false
		for i := 0; i < t.NumField(); i++ {
			ti := parseTag(t.Field(i))
			if ti.ignore || ti.key != e.K.T {
				continue
			}
			found = true
			if ti.str {
				m.assignString(e.V, rv.Field(i))
			} else {
				m.assign(e.V, rv.Field(i))
			}
		}
		if !found {
			m.skip(e.V)
		}
	}
}

// assignString handles fields with the string option.
func (m *decModel) assignString(n *Node, rv reflect.Value) {
	t := rv.Type()
	base := t
	if t.Kind() == reflect.Ptr {
		base = t.Elem()
	}
	if isUnm(base) {
		m.up(vAny, "string option on an unmarshaler")
		return
	}
	switch base.Kind() {
	case reflect.Interface:
		if t.Kind() == reflect.Ptr {
			m.up(vAny, "string option on *any")
			return
		}
		m.assign(n, rv)
		return
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
	default:
		m.up(vAny, "string option on other kinds")
		return
	}
	if n.K == 'N' {
		if t.Kind() == reflect.Ptr {
			rv.SetZero()
		}
		return
	}
	if n.K != 's' {
		m.mismatch(n, t)
		return
	}
	dst := reflect.New(base).Elem()
	s := n.T
	switch base.Kind() {
	case reflect.String:
		dst.SetString(s)
	case reflect.Bool:
		switch s {
		case "true":
			dst.SetBool(true)
		case "false":
		case "1", "t", "T", "TRUE", "True", "0", "f", "F", "FALSE", "False":
			m.up(vAny, "other spelling of a bool")
		default:
			m.up(vReject, "not a bool")
		}
	case reflect.Float32, reflect.Float64:
		switch s {
		case "+Inf", "INF":
			s = "INF"
		case "-Inf":
			s = "-INF"
		case "NaN":
			s = "NAN"
		case "-INF", "NAN":
		default:
			if ok, strict := floatText(s); !ok {
				if _, err := strconv.ParseFloat(s, 64); err != nil {
					m.up(vReject, "not a float")
				} else {
					m.up(vAny, "other spelling of a float")
				}
				return
			} else if !strict {
				m.up(vMay, "lenient float")
			}
		}
		m.setFloat(s, dst)
	default:
		body := strings.TrimPrefix(s, "-")
		if body == "" || strings.Trim(body, "0123456789") != "" {
			if strings.HasPrefix(s, "+") {
				m.up(vAny, "plus sign")
			} else {
				m.up(vReject, "not an integer")
			}
			return
		}
		if s != body && strings.Trim(body, "0") == "" {
			m.up(vMay, "-0")
		}
		if base.Kind() >= reflect.Uint {
			m.setUint(s, dst)
		} else {
			m.setInt(s, dst)
		}
	}
	if t.Kind() == reflect.Ptr {
		if rv.IsNil() {
			rv.Set(reflect.New(base))
		}
		rv.Elem().Set(dst)
		return
	}
	rv.Set(dst)
}

func (m *decModel) assignInterface(n *Node, rv reflect.Value) {
	t := rv.Type()
	if t.NumMethod() > 0 {
		if !rv.IsNil() {
			el := rv.Elem()
			nilPtr := el.Kind() == reflect.Pointer && el.IsNil()
			if u, ok := rv.Interface().(modelUnmarshaler); ok && !nilPtr {
				m.skip(n)
				if n.K == 'N' {
					rv.SetZero()
					return
				}
				if err := u.ModelUnmarshal([]byte(m.src[n.Start:n.End])); err != nil {
					m.up(vReject, "unmarshaler error")
				}
				return
			}
		}
		if n.K == 'N' {
			rv.SetZero()
			return
		}
		m.up(vReject, "non-empty interface")
		return
	}
	v, ok := m.generic(n)
	if !ok {
		return
	}
	if v == nil {
		rv.SetZero()
		return
	}
	rv.Set(reflect.ValueOf(v))
}

// generic is the value an empty interface receives.
func (m *decModel) generic(n *Node) (any, bool) {
	switch n.K {
	case 'N':
		return nil, true
	case 'b':
		return n.T == "1", true
	case 'i':
		v, ok := intValue(n.T, 64)
		if !ok {
			m.up(vReject, "integer out of range")
		}
		return v, ok
	case 'd':
		var f float64
		rv := reflect.ValueOf(&f).Elem()
		m.setFloat(n.T, rv)
		return f, m.v != vReject
	case 's':
		return n.T, true
	case 'a':
		var v map[any]any
		m.assignMap(n, reflect.ValueOf(&v).Elem())
		return v, m.v != vReject
	case 'O':
		for _, e := range n.E {
			if e.K.K == 'i' {
				m.up(vAny, "integer property name")
				for _, e := range n.E {
					m.generic(e.V)
				}
				return nil, false
			}
		}
		var v map[string]any
		m.assignMap(n, reflect.ValueOf(&v).Elem())
		return v, m.v != vReject
	}
	m.up(vReject, "bad tag")
	return nil, false
}

// ---- comparison of values ----

// blurNil makes nil and empty slices and maps equal (C04).
var blurNil bool

// same reports "" if got equals want. A want of nil asks for nil; an empty
// want accepts nil or empty.
func same(got, want reflect.Value) string { return sameAt(got, want, "v", 0) }

func sameAt(got, want reflect.Value, path string, depth int) string {
	if depth > 30000 {
		return path + ": comparison too deep"
	}
	if got.IsValid() != want.IsValid() {
		return fmt.Sprintf("%s: got valid=%v, want valid=%v", path, got.IsValid(), want.IsValid())
	}
	if !got.IsValid() {
		return ""
	}
	if got.Type() != want.Type() {
		return fmt.Sprintf("%s: got type %s, want %s", path, got.Type(), want.Type())
	}
	bad := func() string {
		return fmt.Sprintf("%s: got %s, want %s", path, describeValue(got, 3), describeValue(want, 3))
	}
	switch got.Kind() {
	case reflect.Bool:
		if got.Bool() != want.Bool() {
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if got.Int() != want.Int() {
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if got.Uint() != want.Uint() {
			return bad()
		}
	case reflect.Float32, reflect.Float64:
		if !sameFloat(got.Float(), want.Float()) {
			return bad()
		}
	case reflect.String:
		if got.String() != want.String() {
			return bad()
		}
	case reflect.Ptr:
		if got.IsNil() != want.IsNil() {
			return bad()
		}
		if !got.IsNil() && got.Pointer() != want.Pointer() {
			return sameAt(got.Elem(), want.Elem(), "*"+path, depth+1)
		}
	case reflect.Interface:
		if got.IsNil() != want.IsNil() {
			return bad()
		}
		if !got.IsNil() {
			return sameAt(got.Elem(), want.Elem(), path, depth+1)
		}
	case reflect.Slice:
		if want.IsNil() && !got.IsNil() && !blurNil || got.Len() != want.Len() {
			return bad()
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < got.Len(); i++ {
			if s := sameAt(got.Index(i), want.Index(i), path, depth+1); s != "" {
				return fmt.Sprintf("[%d]", i) + s
			}
		}
	case reflect.Map:
		if want.IsNil() && !got.IsNil() && !blurNil || got.Len() != want.Len() {
			return bad()
		}
		it := want.MapRange()
		for it.Next() {
			g := got.MapIndex(it.Key())
			if !g.IsValid() {
				return fmt.Sprintf("%s: key %s missing", path, describeValue(it.Key(), 2))
			}
			if s := sameAt(g, it.Value(), path, depth+1); s != "" {
				return "[" + describeValue(it.Key(), 2) + "]" + s
			}
		}
	case reflect.Struct:
		for i := 0; i < got.NumField(); i++ {
			if s := sameAt(got.Field(i), want.Field(i), path, depth+1); s != "" {
				return "." + got.Type().Field(i).Name + s
			}
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if got.IsNil() != want.IsNil() {
			return bad()
		}
	case reflect.Complex64, reflect.Complex128:
		if got.Complex() != want.Complex() {
			return bad()
		}
	}
	return ""
}

func sameFloat(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return math.Float64bits(a) == math.Float64bits(b)
}

// deepCopy copies a finite acyclic value.
func deepCopy(rv reflect.Value) reflect.Value {
	out := reflect.New(rv.Type()).Elem()
	copyInto(out, rv)
	return out
}

func copyInto(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			p := reflect.New(src.Type().Elem())
			copyInto(p.Elem(), src.Elem())
			if p.Type() != dst.Type() {
				p = p.Convert(dst.Type())
			}
			dst.Set(p)
		}
	case reflect.Interface:
		if !src.IsNil() {
			e := reflect.New(src.Elem().Type()).Elem()
			copyInto(e, src.Elem())
			dst.Set(e)
		}
	case reflect.Slice:
		if !src.IsNil() {
			s := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
			for i := 0; i < src.Len(); i++ {
				copyInto(s.Index(i), src.Index(i))
			}
			dst.Set(s)
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if !src.IsNil() {
			mm := reflect.MakeMapWithSize(src.Type(), src.Len())
			it := src.MapRange()
			for it.Next() {
				v := reflect.New(src.Type().Elem()).Elem()
				copyInto(v, it.Value())
				mm.SetMapIndex(it.Key(), v)
			}
			dst.Set(mm)
		}
	case reflect.Struct:
		dst.Set(src)
		for i := 0; i < src.NumField(); i++ {
			if src.Type().Field(i).PkgPath == "" {
				copyInto(dst.Field(i), src.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}

var unmCache = map[reflect.Type]bool{}

// isUnm: values of type t are decoded by their own method.
func isUnm(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Interface:
		return false
	case reflect.Struct:
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Array:
		if t.Name() == "" {
			return false
		}
	default:
		if t.PkgPath() == "" {
			return false
		}
	}
	v, ok := unmCache[t]
	if !ok {
		v = reflect.PointerTo(t).Implements(unmarshalerType)
		unmCache[t] = v
	}
	return v
}
