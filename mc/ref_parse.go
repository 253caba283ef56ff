package main

// Reference grammar of PHP's serialize() format.
//
// parseDoc accepts the lenient language L. A node is Strict when it is also
// in the language W that serialize() itself writes. Input outside L must be
// rejected; input in W must be accepted (if its type fits); input between
// the two may be accepted or rejected.

import (
	"strings"
)

type Node struct {
	K          byte   // N b i d s a O
	T          string // text of b/i/d, content of s, class name of O
	E          []Entry
	Count      string
	CountOK    bool // declared count == number of entries
	Strict     bool // this node's own syntax is in W
	AllStrict  bool // ... and that of everything below, counts match, keys differ
	AllCountOK bool
	DupKeys    bool
	AnyOdd     bool // OddKeys here or below
	OddKeys    bool // keys other than i and s
	Height     int
	Start, End int
}

type Entry struct{ K, V *Node }

type parser struct {
	s string
}

const maxParse = 200000

func parseDoc(s string) *Node {
	p := parser{s}
	n, end := p.value(0, 0)
	if n == nil || end != len(s) {
		return nil
	}
	return n
}

func isDigit(c byte) bool { return '0' <= c && c <= '9' }

func (p *parser) digits(i int) int {
	for i < len(p.s) && isDigit(p.s[i]) {
		i++
	}
	return i
}

func (p *parser) has(i int, c byte) bool { return i < len(p.s) && p.s[i] == c }

// length parses ":123:" and returns the digits.
func (p *parser) length(i int) (string, int) {
	if !p.has(i, ':') {
		return "", -1
	}
	j := p.digits(i + 1)
	if j == i+1 || !p.has(j, ':') {
		return "", -1
	}
	return p.s[i+1 : j], j + 1
}

func canonLen(t string) bool { return t == "0" || t[0] != '0' }

// smallInt converts digits to an int, or -1 when they exceed max.
func smallInt(t string, max int) int {
	v := 0
	for i := 0; i < len(t); i++ {
		v = v*10 + int(t[i]-'0')
		if v > max {
			return -1
		}
	}
	return v
}

// quoted parses `"<n bytes>"` and returns the content.
func (p *parser) quoted(i int, length string) (string, int) {
	n := smallInt(length, len(p.s))
	if n < 0 || !p.has(i, '"') || i+1+n >= len(p.s) || p.s[i+1+n] != '"' {
		return "", -1
	}
	return p.s[i+1 : i+1+n], i + n + 2
}

func (p *parser) value(i, depth int) (*Node, int) {
	if i >= len(p.s) || depth > maxParse {
		return nil, -1
	}
	steps++
	n := &Node{K: p.s[i], Start: i, CountOK: true, Strict: true}
	end := -1
	switch n.K {
	case 'N':
		if p.has(i+1, ';') {
			end = i + 2
		}
	case 'b':
		if p.has(i+1, ':') && (p.has(i+2, '0') || p.has(i+2, '1')) && p.has(i+3, ';') {
			n.T, end = p.s[i+2:i+3], i+4
		}
	case 'i':
		if p.has(i+1, ':') {
			j := i + 2
			if p.has(j, '-') {
				j++
			} else if p.has(j, '+') {
				n.Strict = false
				j++
			}
			k := p.digits(j)
			if k > j && p.has(k, ';') {
				n.T, end = p.s[i+2:k], k+1
				if n.T[0] == '-' && strings.Trim(n.T, "-0") == "" {
					n.Strict = false // -0
				}
			}
		}
	case 'd':
		if p.has(i+1, ':') {
			if j := strings.IndexByte(p.s[i+2:], ';'); j >= 0 {
				n.T = p.s[i+2 : i+2+j]
				ok, strict := floatText(n.T)
				if ok {
					n.Strict = strict
					end = i + 2 + j + 1
				}
			}
		}
	case 's':
		l, j := p.length(i + 1)
		if j < 0 {
			break
		}
		n.Strict = canonLen(l)
		n.T, j = p.quoted(j, l)
		if j >= 0 && p.has(j, ';') {
			end = j + 1
		}
	case 'O', 'a':
		j := i + 1
		if n.K == 'O' {
			var l string
			l, j = p.length(j)
			if j < 0 {
				break
			}
			n.Strict = canonLen(l)
			n.T, j = p.quoted(j, l)
			if j < 0 {
				break
			}
		}
		n.Count, j = p.length(j)
		if j < 0 || !p.has(j, '{') {
			break
		}
		n.Strict = n.Strict && canonLen(n.Count)
		j++
		n.AllStrict, n.AllCountOK = true, true
		for {
			if p.has(j, '}') {
				end = j + 1
				break
			}
			var k, v *Node
			if k, j = p.value(j, depth+1); k == nil {
				return nil, -1
			}
			if v, j = p.value(j, depth+1); v == nil {
				return nil, -1
			}
			switch k.K {
			case 'i', 's':
			case 'b':
				n.OddKeys = true
			default:
				return nil, -1
			}
			n.E = append(n.E, Entry{k, v})
			n.Height = max(n.Height, v.Height)
			n.AllStrict = n.AllStrict && k.AllStrict && v.AllStrict
			n.AllCountOK = n.AllCountOK && v.AllCountOK
			n.AnyOdd = n.AnyOdd || v.AnyOdd || k.K == 'b'
		}
		n.Height++
		n.CountOK = smallInt(n.Count, len(p.s)) == len(n.E)
		n.AllCountOK = n.AllCountOK && n.CountOK
		n.DupKeys = dupKeys(n.E)
		n.AllStrict = n.AllStrict && n.Strict && n.CountOK && !n.DupKeys && !n.OddKeys
		n.End = end
		return n, end
	}
	if end < 0 {
		return nil, -1
	}
	n.AllStrict, n.AllCountOK, n.End = n.Strict, true, end
	return n, end
}

func keyID(k *Node) string {
	if k.K == 'i' {
		return "i" + canonInt(k.T)
	}
	return string(k.K) + k.T
}

func dupKeys(e []Entry) bool {
	if len(e) < 2 {
		return false
	}
	if len(e) < 8 {
		for i := range e {
			for j := 0; j < i; j++ {
				if e[i].K.K == e[j].K.K && keyID(e[i].K) == keyID(e[j].K) {
					return true
				}
			}
		}
		return false
	}
	m := make(map[string]bool, len(e))
	for _, x := range e {
		id := keyID(x.K)
		if m[id] {
			return true
		}
		m[id] = true
	}
	return false
}

// canonInt removes leading zeros, a plus sign and the sign of zero.
func canonInt(t string) string {
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimLeft(strings.TrimLeft(t, "+-"), "0")
	if t == "" {
		return "0"
	}
	if neg {
		return "-" + t
	}
	return t
}

// cmpMag compares canonical unsigned decimals.
func cmpMag(a, b string) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	return strings.Compare(a, b)
}

// intValue returns the value of a decimal if it fits a signed integer of the given size.
func intValue(t string, bits int) (int64, bool) {
	t = canonInt(t)
	neg := t[0] == '-'
	mag := strings.TrimPrefix(t, "-")
	var limit string
	switch bits {
	case 8:
		limit = "127"
		if neg {
			limit = "128"
		}
	case 16:
		limit = "32767"
		if neg {
			limit = "32768"
		}
	case 32:
		limit = "2147483647"
		if neg {
			limit = "2147483648"
		}
	default:
		limit = "9223372036854775807"
		if neg {
			limit = "9223372036854775808"
		}
	}
	if cmpMag(mag, limit) > 0 {
		return 0, false
	}
	var v int64
	for i := 0; i < len(mag); i++ {
		v = v*10 - int64(mag[i]-'0') // negative accumulation covers the minimum
	}
	if !neg {
		v = -v
	}
	return v, true
}

func uintValue(t string, bits int) (uint64, bool) {
	t = canonInt(t)
	if t[0] == '-' {
		return 0, false
	}
	limit := map[int]string{8: "255", 16: "65535", 32: "4294967295", 64: "18446744073709551615"}[bits]
	if cmpMag(t, limit) > 0 {
		return 0, false
	}
	var v uint64
	for i := 0; i < len(t); i++ {
		v = v*10 + uint64(t[i]-'0')
	}
	return v, true
}

// floatText tells whether t is a float in L and in W.
func floatText(t string) (ok, strict bool) {
	switch t {
	case "INF", "-INF", "NAN":
		return true, true
	}
	strict = true
	i := 0
	dig := func() int {
		j := i
		for i < len(t) && isDigit(t[i]) {
			i++
		}
		return i - j
	}
	if i < len(t) && (t[i] == '-' || t[i] == '+') {
		strict = t[i] == '-'
		i++
	}
	n := dig()
	if n == 0 {
		strict = false
	}
	if i < len(t) && t[i] == '.' {
		i++
		f := dig()
		if f == 0 {
			strict = false
		}
		n += f
	}
	if n == 0 {
		return false, false
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '-' || t[i] == '+') {
			i++
		}
		if dig() == 0 {
			return false, false
		}
	}
	return i == len(t), strict && i == len(t)
}
