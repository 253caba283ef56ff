package main

// Documents: enumerated corpora, type-directed documents and their edits.

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// patText is one document a pattern describes.
func patText(p pat) string {
	var sb strings.Builder
	writePat(&sb, p)
	return sb.String()
}

func phpFloat(f float64, bits int) string {
	switch {
	case math.IsNaN(f):
		return "NAN"
	case math.IsInf(f, 1):
		return "INF"
	case math.IsInf(f, -1):
		return "-INF"
	}
	return strings.ToUpper(strconv.FormatFloat(f, 'g', -1, bits))
}

func writePat(sb *strings.Builder, p pat) {
	switch p := p.(type) {
	case lit:
		sb.WriteString(string(p))
	case seqPat:
		for _, x := range p {
			writePat(sb, x)
		}
	case altPat:
		writePat(sb, p[0])
	case mapPat:
		for i, k := range p.keys {
			sb.WriteString(k)
			writePat(sb, p.vals[i])
		}
	case floatPat:
		sb.WriteString("d:" + phpFloat(p.v, p.bits) + ";")
	case floatStrPat:
		sb.WriteString(string(encStr(phpFloat(p.v, p.bits))))
	}
}

// render writes n with hook able to replace the text of any node.
type renderer struct {
	order  int    // 0 forward, 1 reversed, 2 rotated
	object bool   // arrays become objects ...
	class  string // ... of this class
	zeros  int    // leading zeros of integers
	float  int    // spelling of floats
	hook   func(n *Node, entries []string) (string, bool)
	extra  func(n *Node, entries []string) []string
	intKey bool // apply zeros to keys too
}

func (r *renderer) text(n *Node) string {
	switch n.K {
	case 'N':
		return "N;"
	case 's':
		return string(encStr(n.T))
	case 'i':
		return "i:" + r.int(n.T) + ";"
	case 'd':
		return "d:" + r.floatText(n.T) + ";"
	case 'b':
		return "b:" + n.T + ";"
	}
	var es []string
	for _, e := range n.E {
		es = append(es, r.text(e.K)+r.text(e.V))
	}
	switch r.order {
	case 1:
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	case 2:
		if len(es) > 1 {
			es = append(es[1:], es[0])
		}
	}
	if r.extra != nil {
		es = r.extra(n, es)
	}
	if r.hook != nil {
		if s, ok := r.hook(n, es); ok {
			return s
		}
	}
	return r.container(n, es)
}

func (r *renderer) container(n *Node, es []string) string {
	k, class := n.K, n.T
	if r.object {
		k, class = 'O', r.class
	}
	return head(k, class, len(es)) + strings.Join(es, "") + "}"
}

func head(k byte, class string, n int) string {
	if k == 'O' {
		return "O:" + strconv.Itoa(len(class)) + ":\"" + class + "\":" + strconv.Itoa(n) + ":{"
	}
	return "a:" + strconv.Itoa(n) + ":{"
}

func (r *renderer) int(t string) string {
	if r.zeros == 0 {
		return t
	}
	z := strings.Repeat("0", r.zeros)
	if strings.HasPrefix(t, "-") {
		return "-" + z + t[1:]
	}
	return z + t
}

func (r *renderer) floatText(t string) string {
	switch t {
	case "INF", "-INF", "NAN":
		return t
	}
	switch r.float {
	case 1: // lower-case exponent, trailing zeros
		t = strings.ToLower(t)
		if !strings.ContainsAny(t, ".e") {
			t += ".0"
		}
	case 2: // explicit exponent
		if !strings.ContainsAny(t, "Ee") {
			t += "E+0"
		}
	case 3: // many digits
		if f, err := strconv.ParseFloat(t, 64); err == nil {
			t = strconv.FormatFloat(f, 'f', 20, 64)
		}
	}
	return t
}

// scalars in W
var scalarDocs = []string{
	"N;", "b:0;", "b:1;", "i:0;", "i:1;", "i:-1;", "i:127;", "i:128;", "i:-129;", "i:256;", "i:65536;", "i:2147483648;", "i:4294967296;",
	"i:9223372036854775807;", "i:9223372036854775808;", "i:-9223372036854775808;", "i:18446744073709551615;", "i:18446744073709551616;", "i:007;",
	"d:0;", "d:-0;", "d:1.5;", "d:1.0E+25;", "d:INF;", "d:-INF;", "d:NAN;", "d:0.1;", "d:1E+400;", "d:3.5E+38;", "d:5;",
	`s:0:"";`, `s:1:"a";`, `s:2:"12";`, `s:5:"a";b:";`, "s:3:\"\x00\xff\"\";", `s:4:"true";`,
}

var someScalars = []string{"N;", "b:1;", "i:3;", "i:300;", "d:1.5;", `s:1:"v";`, "a:0:{}", `a:1:{i:0;i:7;}`, `O:1:"C":1:{s:1:"X";s:1:"w";}`}

var docKeys = []string{"i:0;", "i:1;", "i:2;", "i:-1;", "i:5;", `s:1:"a";`, `s:1:"X";`, `s:1:"x";`, `s:1:"k";`, `s:1:"1";`, `s:0:"";`, `s:2:"xx";`}

// containerDocs enumerates arrays and objects over keys and values.
func containerDocs(rich bool) (out []string) {
	add := func(es ...string) {
		body := strings.Join(es, "")
		out = append(out, head('a', "", len(es))+body+"}", head('O', "Cl", len(es))+body+"}")
	}
	add()
	all := append(append([]string{}, scalarDocs...), `a:0:{}`, `a:1:{i:0;i:7;}`, `a:1:{s:1:"a";i:7;}`, `a:2:{i:1;N;i:0;s:1:"q";}`, `O:1:"C":1:{s:1:"X";s:1:"w";}`, `O:0:"":0:{}`, `a:1:{i:0;a:1:{i:0;a:1:{i:0;i:1;}}}`)
	for _, k := range docKeys {
		for _, v := range all {
			add(k + v)
		}
	}
	vs := []string{"N;", "i:3;", `s:1:"v";`, `a:1:{i:0;i:7;}`}
	if rich {
		vs = someScalars
	}
	for i, k := range docKeys {
		for j, k2 := range docKeys {
			if i == j {
				continue
			}
			for _, v := range vs {
				for _, v2 := range vs {
					add(k+v, k2+v2)
				}
			}
		}
	}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {5, 6, 7}, {7, 0, 6}, {0, 1, 4}, {4, 1, 0}, {4, 0, 2}}
	for _, p := range perms {
		for _, v := range vs {
			for _, v2 := range vs {
				add(docKeys[p[0]]+v, docKeys[p[1]]+v2, docKeys[p[2]]+v)
			}
		}
	}
	return
}

// docsFor are documents that fit t, from t's values.
func docsFor(t reflect.Type, lvl int) (out []string) {
	seen := map[string]bool{}
	for _, v := range vals(t, lvl) {
		p, want, _ := modelEncode(iface(v))
		if want != vOK {
			continue
		}
		if s := patText(p); !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}

var renderers = []*renderer{
	{},
	{order: 1},
	{order: 2},
	{object: true, class: "stdClass"},
	{object: true, class: `A":1:{s:1:"X`, order: 1},
	{object: true, class: ""},
	{zeros: 1}, {zeros: 25},
	{float: 1}, {float: 2}, {float: 3},
}

// decodeCase decodes doc into a fresh variable of type t and compares with the reference decoder.
func decodeCase(u *U, doc string, t reflect.Type) {
	decodeNode(u, doc, parseDoc(doc), t)
}

func decodeNode(u *U, doc string, n *Node, t reflect.Type) {
	want := reflect.New(t)
	v, why := modelDecode(doc, n, want.Elem())
	got := reflect.New(t)
	decodeInto(u, doc, got, want, v, why)
}

// decodeInto runs Unmarshal(doc, got) and compares with the model's verdict and value.
func decodeInto(u *U, doc string, got, want reflect.Value, v verdict, why string) {
	in := []byte(doc)
	err, pan := Unmarshal(in, got.Interface())
	u.State(v.String(), doc, got.Type().String())
	t := got.Type().Elem()
	if pan != nil {
		u.Fail("Unmarshal(%s, *%s) panicked: %s", clipq(doc), t, pan)
		return
	}
	switch v {
	case vAny:
		return
	case vReject:
		if err == nil {
			u.Fail("Unmarshal(%s, *%s) succeeded with %s, expected an error (%s)", clipq(doc), t, describeValue(got.Elem(), 6), why)
		}
		return
	case vOK:
		if err != nil {
			u.Fail("Unmarshal(%s, *%s) failed: %v; expected %s", clipq(doc), t, err, describeValue(want.Elem(), 6))
			return
		}
	case vMay:
		if err != nil {
			return
		}
	}
	if s := same(got.Elem(), want.Elem()); s != "" {
		u.Fail("Unmarshal(%s, *%s) = %s, expected %s (differs at %s)", clipq(doc), t, describeValue(got.Elem(), 6), describeValue(want.Elem(), 6), s)
	}
}

func clipq(s string) string { return clip(fmt.Sprintf("%q", s), 1200) }
