package main

// Reference encoder: a pattern that Marshal's output has to match, byte for
// byte except for the order of map entries and the spelling of floats.

import (
	"math"
	"reflect"
	"strconv"
	"strings"
)

type pat interface {
	// match returns the position after the match at pos, or -1.
	match(b string, pos int) int
	show(sb *strings.Builder)
}

type lit string

func (l lit) match(b string, pos int) int {
	if len(b)-pos >= len(l) && b[pos:pos+len(l)] == string(l) {
		return pos + len(l)
	}
	return -1
}
func (l lit) show(sb *strings.Builder) { sb.WriteString(string(l)) }

type seqPat []pat

func (s seqPat) match(b string, pos int) int {
	for _, p := range s {
		if pos = p.match(b, pos); pos < 0 {
			return -1
		}
	}
	return pos
}
func (s seqPat) show(sb *strings.Builder) {
	for _, p := range s {
		if sb.Len() > 4000 {
			return
		}
		p.show(sb)
	}
}

// altPat is one or the other.
type altPat [2]pat

func (a altPat) match(b string, pos int) int {
	if e := a[0].match(b, pos); e >= 0 {
		return e
	}
	return a[1].match(b, pos)
}
func (a altPat) show(sb *strings.Builder) {
	sb.WriteString("<")
	a[0].show(sb)
	sb.WriteString(" or ")
	a[1].show(sb)
	sb.WriteString(">")
}

type mapPat struct {
	keys []string
	vals []pat
}

func (m mapPat) match(b string, pos int) int {
	used := make([]bool, len(m.keys))
	if len(m.keys) > 8 {
		idx := make(map[string]int, len(m.keys))
		for i, k := range m.keys {
			idx[k] = i
		}
		p := parser{b}
		for range m.keys {
			k, end := p.value(pos, 0)
			if k == nil || k.K != 's' && k.K != 'i' {
				return -1
			}
			i, ok := idx[b[pos:end]]
			if !ok || used[i] {
				return -1
			}
			used[i] = true
			if pos = m.vals[i].match(b, end); pos < 0 {
				return -1
			}
		}
		return pos
	}
	for range m.keys {
		found := false
		for i, k := range m.keys {
			if !used[i] && strings.HasPrefix(b[pos:], k) {
				used[i], found = true, true
				if pos = m.vals[i].match(b, pos+len(k)); pos < 0 {
					return -1
				}
				break
			}
		}
		if !found {
			return -1
		}
	}
	return pos
}
func (m mapPat) show(sb *strings.Builder) {
	sb.WriteString("<any order:")
	for i, k := range m.keys {
		if sb.Len() > 4000 {
			return
		}
		sb.WriteString(" " + k)
		m.vals[i].show(sb)
	}
	sb.WriteString(">")
}

// floatPat is `d:<text>;`: a text of W that denotes exactly v.
type floatPat struct {
	v    float64
	bits int
}

func (f floatPat) match(b string, pos int) int {
	if !strings.HasPrefix(b[pos:], "d:") {
		return -1
	}
	end := strings.IndexByte(b[pos:], ';')
	if end < 0 {
		return -1
	}
	if t := b[pos+2 : pos+end]; !floatDenotes(t, f.v, f.bits, false) {
		return -1
	}
	return pos + end + 1
}
func (f floatPat) show(sb *strings.Builder) {
	sb.WriteString("d:<" + strconv.FormatFloat(f.v, 'g', -1, f.bits) + ">;")
}

func floatDenotes(t string, v float64, bits int, inString bool) bool {
	switch {
	case math.IsNaN(v):
		return t == "NAN" || inString && t == "NaN"
	case math.IsInf(v, 1):
		return t == "INF" || inString && t == "+Inf"
	case math.IsInf(v, -1):
		return t == "-INF" || inString && t == "-Inf"
	}
	if ok, strict := floatText(t); !ok || !strict || t == "INF" || t == "-INF" || t == "NAN" {
		return false
	}
	w, err := strconv.ParseFloat(t, bits)
	return err == nil && math.Float64bits(w) == math.Float64bits(v)
}

// floatStrPat is a float under the string option.
type floatStrPat floatPat

func (f floatStrPat) match(b string, pos int) int {
	p := parser{b}
	if !p.has(pos, 's') {
		return -1
	}
	l, j := p.length(pos + 1)
	if j < 0 || !canonLen(l) {
		return -1
	}
	t, j := p.quoted(j, l)
	if j < 0 || !p.has(j, ';') || !floatDenotes(t, f.v, f.bits, true) {
		return -1
	}
	return j + 1
}
func (f floatStrPat) show(sb *strings.Builder) {
	sb.WriteString("s:<\"" + strconv.FormatFloat(f.v, 'g', -1, f.bits) + "\">;")
}

func matches(p pat, b []byte) bool { return p.match(string(b), 0) == len(b) }

func patString(p pat) string {
	var sb strings.Builder
	p.show(&sb)
	return clip(sb.String(), 4000)
}

// modelMarshaler is implemented by the test types next to MarshalPHP.
type modelMarshaler interface{ ModelMarshal() (string, error) }

type encModel struct {
	v       verdict
	why     string
	refused bool             // some type, static or dynamic, has refused parts
	path    map[ref]struct{} // references being followed; nil: values are known to be finite
}

// ref identifies what a pointer, map or slice refers to.
type ref struct {
	t reflect.Type
	p uintptr
	n int
}

// enter reports a cycle and otherwise notes that the reference is being followed.
func (m *encModel) enter(rv reflect.Value) (r ref, cyclic bool) {
	r = ref{rv.Type(), rv.Pointer(), 0}
	if rv.Kind() == reflect.Slice {
		r.n = rv.Len()
	}
	if _, ok := m.path[r]; ok {
		m.up(vReject, "cycle through "+rv.Type().String())
		return r, true
	}
	m.path[r] = struct{}{}
	return r, false
}

// modelEncodeGraph is modelEncode for values that may be cyclic.
func modelEncodeGraph(v any) (pat, verdict, string) {
	m := &encModel{path: map[ref]struct{}{}}
	if v == nil {
		return lit("N;"), vOK, ""
	}
	rv := reflect.ValueOf(v)
	p := m.enc(rv)
	if m.v < vAny && encRefused(rv.Type()) {
		m.up(vMay, "type has refused parts")
	}
	return p, m.v, m.why
}

func (m *encModel) up(v verdict, why string) {
	if v > m.v {
		m.v, m.why = v, why
	}
}

// modelEncode gives the pattern for v and whether Marshal has to succeed.
func modelEncode(v any) (pat, verdict, string) {
	m := &encModel{}
	if v == nil {
		return lit("N;"), vOK, ""
	}
	rv := reflect.ValueOf(v)
	p := m.enc(rv)
	if m.v < vAny && encRefused(rv.Type()) {
		m.up(vMay, "type has refused parts")
	}
	if m.why == "marshaler error" && (m.refused || encRefused(rv.Type())) {
		m.why = "marshaler error or refused type" // which of them is met first is open
	}
	return p, m.v, m.why
}

func isMar(t reflect.Type) bool {
	if t.Kind() != reflect.Ptr && t.Kind() != reflect.Struct && t.Name() == "" {
		return false
	}
	v, ok := marCache[t]
	if !ok {
		v = t.Implements(marshalerType)
		marCache[t] = v
	}
	return v
}

var marCache = map[reflect.Type]bool{}
var encRefusedCache = map[reflect.Type]bool{}

func encKeyOK(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

// encRefused: a part of the type, seen statically, is not supported.
func encRefused(t reflect.Type) bool {
	v, ok := encRefusedCache[t]
	if !ok {
		v = encRefusedIn(t, map[reflect.Type]bool{})
		encRefusedCache[t] = v
	}
	return v
}

func encRefusedIn(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] || isMar(t) {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer, reflect.Uintptr:
		return true
	case reflect.Ptr:
		return t.Elem().Kind() == reflect.Ptr || encRefusedIn(t.Elem(), seen)
	case reflect.Slice, reflect.Array:
		return encRefusedIn(t.Elem(), seen)
	case reflect.Map:
		return !encKeyOK(t.Key()) || encRefusedIn(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			ti := parseTag(t.Field(i))
			if ti.ignore {
				continue
			}
			if ti.embedStruct {
				return true
			}
			if ti.str && !encStringOK(t.Field(i).Type) {
				return true
			}
			if encRefusedIn(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func encStringOK(t reflect.Type) bool {
	if isMar(t) {
		return false
	}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if isMar(t) {
		return false
	}
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64, reflect.Interface,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func encStr(s string) lit {
	return lit("s:" + strconv.Itoa(len(s)) + ":\"" + s + "\";")
}

func (m *encModel) enc(rv reflect.Value) pat {
	steps++
	t := rv.Type()
	if t.Kind() == reflect.Interface {
		if rv.IsNil() {
			return lit("N;")
		}
		e := rv.Elem()
		if e.Kind() == reflect.Ptr && !isMar(e.Type()) && e.Type().Elem().Kind() == reflect.Ptr {
			// nested pointers cannot be encoded when typed statically
			m.up(vAny, "nested pointer in an interface")
			return lit("?")
		}
		if encRefused(e.Type()) {
			m.refused = true
			m.up(vMay, "type in interface has refused parts")
		}
		return m.enc(e)
	}
	if isMar(t) {
		if rv.Kind() == reflect.Ptr && rv.IsNil() {
			return lit("N;")
		}
		s, err := rv.Interface().(modelMarshaler).ModelMarshal()
		if err != nil {
			m.up(vReject, "marshaler error")
			return lit("?")
		}
		return lit(s)
	}
	switch t.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return lit("b:1;")
		}
		return lit("b:0;")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return lit("i:" + decInt(rv.Int()) + ";")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return lit("i:" + decUint(rv.Uint()) + ";")
	case reflect.Float32:
		return floatPat{rv.Float(), 32}
	case reflect.Float64:
		return floatPat{rv.Float(), 64}
	case reflect.String:
		return encStr(rv.String())
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Ptr {
			if rv.IsNil() {
				m.up(vAny, "nil nested pointer")
			} else {
				m.up(vReject, "nested pointer")
			}
			return lit("?")
		}
		if rv.IsNil() {
			return lit("N;")
		}
		if m.path != nil {
			r, cyclic := m.enter(rv)
			if cyclic {
				return lit("?")
			}
			defer delete(m.path, r)
		}
		return m.enc(rv.Elem())
	case reflect.Slice:
		if t == bytesType {
			return encStr(string(rv.Bytes()))
		}
		if t.Elem().Kind() == reflect.Uint8 && t.Name() != "" {
			if rv.IsNil() {
				return altPat{lit("N;"), lit(`s:0:"";`)}
			}
			return altPat{encStr(string(rv.Bytes())), m.list(rv)}
		}
		if rv.IsNil() {
			return lit("N;")
		}
		if m.path != nil && rv.Len() > 0 {
			r, cyclic := m.enter(rv)
			if cyclic {
				return lit("?")
			}
			defer delete(m.path, r)
		}
		return m.list(rv)
	case reflect.Array:
		return m.list(rv)
	case reflect.Map:
		if rv.IsNil() {
			return lit("N;")
		}
		if !encKeyOK(t.Key()) {
			if rv.Len() == 0 {
				m.up(vAny, "empty map with unsupported keys")
			} else {
				m.up(vReject, "unsupported map keys")
			}
			return lit("?")
		}
		if m.path != nil && rv.Len() > 0 {
			r, cyclic := m.enter(rv)
			if cyclic {
				return lit("?")
			}
			defer delete(m.path, r)
		}
		mp := mapPat{}
		it := rv.MapRange()
		for it.Next() {
			var k string
			switch key := it.Key(); key.Kind() {
			case reflect.String:
				k = string(encStr(key.String()))
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				k = "i:" + decInt(key.Int()) + ";"
			default:
				k = "i:" + decUint(key.Uint()) + ";"
			}
			mp.keys = append(mp.keys, k)
			mp.vals = append(mp.vals, m.enc(it.Value()))
		}
		return seqPat{lit("a:" + strconv.Itoa(rv.Len()) + ":{"), mp, lit("}")}
	case reflect.Struct:
		return m.structure(rv)
	}
	if t.Kind() == reflect.Uintptr {
		m.up(vAny, "uintptr")
	} else {
		m.up(vReject, "unsupported kind "+t.Kind().String())
	}
	return lit("?")
}

func (m *encModel) list(rv reflect.Value) pat {
	s := make(seqPat, 0, rv.Len()*2+2)
	s = append(s, lit("a:"+strconv.Itoa(rv.Len())+":{"))
	for i := 0; i < rv.Len(); i++ {
		s = append(s, lit("i:"+strconv.Itoa(i)+";"), m.enc(rv.Index(i)))
	}
	return append(s, lit("}"))
}

func (m *encModel) structure(rv reflect.Value) pat {
	t := rv.Type()
	var body seqPat
	n := 0
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ti := parseTag(f)
		if ti.ignore {
			continue
		}
		if ti.embedStruct {
			m.up(vReject, "embedded struct")
			continue
		}
		if ti.omitempty && zero(rv.Field(i)) {
			continue
		}
		if ti.omitempty && zeroOr(rv.Field(i), true) {
			m.up(vAny, "negative zero and omitempty")
		}
		n++
		body = append(body, encStr(ti.key))
		if ti.str {
			body = append(body, m.encString(rv.Field(i)))
		} else {
			body = append(body, m.enc(rv.Field(i)))
		}
	}
	return seqPat{lit("a:" + strconv.Itoa(n) + ":{"), body, lit("}")}
}

func (m *encModel) encString(rv reflect.Value) pat {
	if !encStringOK(rv.Type()) {
		m.up(vAny, "string option on other kinds")
		return lit("?")
	}
	if rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return lit("N;")
		}
		rv = rv.Elem()
	}
	for rv.Kind() == reflect.Interface || rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return lit("N;")
		}
		rv = rv.Elem()
		if isMar(rv.Type()) {
			m.up(vAny, "string option on a marshaler")
			return lit("?")
		}
	}
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return encStr("true")
		}
		return encStr("false")
	case reflect.String:
		return encStr(rv.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return encStr(decInt(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return encStr(decUint(rv.Uint()))
	case reflect.Float32:
		return floatStrPat{rv.Float(), 32}
	case reflect.Float64:
		return floatStrPat{rv.Float(), 64}
	}
	m.up(vReject, "string option on an unsupported dynamic type")
	return lit("?")
}

// zero: the zero value of its type.
func zero(rv reflect.Value) bool { return zeroOr(rv, false) }

func zeroOr(rv reflect.Value, neg bool) bool {
	switch rv.Kind() {
	case reflect.Bool:
		return !rv.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return rv.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(rv.Float()) == 0 || neg && rv.Float() == 0
	case reflect.String:
		return rv.Len() == 0
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			if !zeroOr(rv.Index(i), neg) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if !zeroOr(rv.Field(i), neg) {
				return false
			}
		}
		return true
	case reflect.Complex64, reflect.Complex128:
		return rv.Complex() == 0
	}
	return rv.IsNil()
}

// decInt and decUint write decimals digit by digit.
func decUint(v uint64) string {
	if v == 0 {
		return "0"
	}
	var d []byte
	for v > 0 {
		d = append([]byte{byte('0' + v%10)}, d...)
		v /= 10
	}
	return string(d)
}

func decInt(v int64) string {
	if v < 0 {
		return "-" + decUint(uint64(-(v+1))+1)
	}
	return decUint(uint64(v))
}
