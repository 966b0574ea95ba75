package vrt

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// NK is the kind of a JSON node.
type NK int

const (
	NNull NK = iota
	NBool
	NNum
	NStr
	NArr
	NObj
)

func (k NK) String() string {
	return [...]string{"null", "bool", "number", "string", "array", "object"}[k]
}

// Node of a JSON document; keeps member order and duplicates.
type Node struct {
	K    NK
	B    bool
	S    string // decoded string, or the number literal
	Arr  []*Node
	Keys []string
	Vals []*Node
}

func nNull() *Node          { return &Node{K: NNull} }
func nBool(b bool) *Node    { return &Node{K: NBool, B: b} }
func nNum(s string) *Node   { return &Node{K: NNum, S: s} }
func nStr(s string) *Node   { return &Node{K: NStr, S: s} }
func nArr(a ...*Node) *Node { return &Node{K: NArr, Arr: a} }
func nObj() *Node           { return &Node{K: NObj} }

func (n *Node) add(k string, v *Node) *Node {
	n.Keys = append(n.Keys, k)
	n.Vals = append(n.Vals, v)
	return n
}

func (n *Node) get(k string) *Node {
	for i := range n.Keys {
		if n.Keys[i] == k {
			return n.Vals[i]
		}
	}
	return nil
}

func (n *Node) count(k string) int {
	c := 0
	for i := range n.Keys {
		if n.Keys[i] == k {
			c++
		}
	}
	return c
}

func (n *Node) clone() *Node {
	m := *n
	m.Arr = nil
	for _, a := range n.Arr {
		m.Arr = append(m.Arr, a.clone())
	}
	m.Keys = append([]string(nil), n.Keys...)
	m.Vals = nil
	for _, a := range n.Vals {
		m.Vals = append(m.Vals, a.clone())
	}
	return &m
}

func (n *Node) size() int {
	c := 1
	for _, a := range n.Arr {
		c += a.size()
	}
	for _, a := range n.Vals {
		c += a.size()
	}
	return c
}

// Style of serialisation: a stream of small choices (0 - canonical).
type Style func(n int) int

func canon(int) int { return 0 }

func ws(b *strings.Builder, st Style) {
	switch st(8) {
	case 1:
		b.WriteByte(' ')
	case 2:
		b.WriteString("\n\t")
	case 3:
		b.WriteString("\r\n ")
	}
}

func quote(b *strings.Builder, s string, st Style) {
	b.WriteByte('"')
	for _, r := range s {
		esc := st(12)
		switch {
		case r == '"' || r == '\\':
			if esc == 1 {
				fmt.Fprintf(b, "\\u%04x", r)
			} else {
				b.WriteByte('\\')
				b.WriteRune(r)
			}
		case r == '/' && esc == 1:
			b.WriteString("\\/")
		case r == '\n' && esc != 1:
			b.WriteString("\\n")
		case r == '\t' && esc != 1:
			b.WriteString("\\t")
		case r == '\r' && esc != 1:
			b.WriteString("\\r")
		case r == '\b' && esc != 1:
			b.WriteString("\\b")
		case r == '\f' && esc != 1:
			b.WriteString("\\f")
		case r < 0x20:
			fmt.Fprintf(b, "\\u%04x", r)
		case esc == 1 || esc == 2:
			f := "\\u%04x"
			if esc == 2 {
				f = "\\u%04X"
			}
			if r > 0xffff {
				h, l := utf16.EncodeRune(r)
				fmt.Fprintf(b, f, h)
				fmt.Fprintf(b, f, l)
			} else {
				fmt.Fprintf(b, f, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

func (n *Node) write(b *strings.Builder, st Style) {
	switch n.K {
	case NNull:
		b.WriteString("null")
	case NBool:
		b.WriteString(strconv.FormatBool(n.B))
	case NNum:
		b.WriteString(n.S)
	case NStr:
		quote(b, n.S, st)
	case NArr:
		b.WriteByte('[')
		for i, a := range n.Arr {
			if i > 0 {
				b.WriteByte(',')
			}
			ws(b, st)
			a.write(b, st)
			ws(b, st)
		}
		b.WriteByte(']')
	case NObj:
		b.WriteByte('{')
		ws(b, st)
		for i := range n.Keys {
			if i > 0 {
				b.WriteByte(',')
				ws(b, st)
			}
			quote(b, n.Keys[i], st)
			ws(b, st)
			b.WriteByte(':')
			ws(b, st)
			n.Vals[i].write(b, st)
			ws(b, st)
		}
		b.WriteByte('}')
	}
}

func (n *Node) String() string { return n.Text(canon) }

// Text renders the document.
func (n *Node) Text(st Style) string {
	var b strings.Builder
	ws(&b, st)
	n.write(&b, st)
	ws(&b, st)
	return b.String()
}

// ParseJSON is a strict RFC 8259 parser.
func ParseJSON(data []byte) (*Node, error) {
	p := &jp{s: string(data)}
	p.ws()
	n, err := p.val(0)
	if err != nil {
		return nil, fmt.Errorf("invalid JSON at offset %d: %w", p.i, err)
	}
	p.ws()
	if p.i != len(p.s) {
		return nil, fmt.Errorf("invalid JSON: unexpected tail at offset %d", p.i)
	}
	return n, nil
}

type jp struct {
	s string
	i int
}

func (p *jp) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *jp) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *jp) val(depth int) (*Node, error) {
	if depth > 2000 {
		return nil, errors.New("too deep")
	}
	rest := p.s[p.i:]
	switch c := p.peek(); {
	case strings.HasPrefix(rest, "null"):
		p.i += 4
		return nNull(), nil
	case strings.HasPrefix(rest, "true"):
		p.i += 4
		return nBool(true), nil
	case strings.HasPrefix(rest, "false"):
		p.i += 5
		return nBool(false), nil
	case c == '"':
		s, err := p.str()
		return nStr(s), err
	case c == '[':
		p.i++
		n := nArr()
		p.ws()
		if p.peek() == ']' {
			p.i++
			return n, nil
		}
		for {
			p.ws()
			v, err := p.val(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Arr = append(n.Arr, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case ']':
				p.i++
				return n, nil
			default:
				return nil, errors.New("expected , or ]")
			}
		}
	case c == '{':
		p.i++
		n := nObj()
		p.ws()
		if p.peek() == '}' {
			p.i++
			return n, nil
		}
		for {
			p.ws()
			if p.peek() != '"' {
				return nil, errors.New("expected a key")
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.peek() != ':' {
				return nil, errors.New("expected :")
			}
			p.i++
			p.ws()
			v, err := p.val(depth + 1)
			if err != nil {
				return nil, err
			}
			n.add(k, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case '}':
				p.i++
				return n, nil
			default:
				return nil, errors.New("expected , or }")
			}
		}
	case c == '-' || c >= '0' && c <= '9':
		st := p.i
		if p.peek() == '-' {
			p.i++
		}
		digits := func() bool {
			s := p.i
			for p.peek() >= '0' && p.peek() <= '9' {
				p.i++
			}
			return p.i > s
		}
		if p.peek() == '0' {
			p.i++
		} else if !digits() {
			return nil, errors.New("bad number")
		}
		if p.peek() == '.' {
			p.i++
			if !digits() {
				return nil, errors.New("bad number")
			}
		}
		if p.peek() == 'e' || p.peek() == 'E' {
			p.i++
			if p.peek() == '+' || p.peek() == '-' {
				p.i++
			}
			if !digits() {
				return nil, errors.New("bad number")
			}
		}
		return nNum(p.s[st:p.i]), nil
	}
	return nil, errors.New("unexpected token")
}

func (p *jp) str() (string, error) {
	p.i++
	var b []byte
	for {
		if p.i >= len(p.s) {
			return "", errors.New("unterminated string")
		}
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return string(b), nil
		case c < 0x20:
			return "", errors.New("control character in string")
		case c == '\\':
			p.i++
			e := p.peek()
			p.i++
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				r, err := p.hex4()
				if err != nil {
					return "", err
				}
				if utf16.IsSurrogate(r) && strings.HasPrefix(p.s[p.i:], "\\u") {
					sv := p.i
					p.i += 2
					r2, err := p.hex4()
					if err != nil {
						return "", err
					}
					if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
						r = d
					} else {
						p.i = sv
						r = utf8.RuneError
					}
				} else if utf16.IsSurrogate(r) {
					r = utf8.RuneError
				}
				b = utf8.AppendRune(b, r)
			default:
				return "", errors.New("bad escape")
			}
		default:
			if c >= 0x80 {
				r, w := utf8.DecodeRuneInString(p.s[p.i:])
				if r == utf8.RuneError && w == 1 {
					return "", errors.New("invalid UTF-8 in string")
				}
				b = append(b, p.s[p.i:p.i+w]...)
				p.i += w
				continue
			}
			b = append(b, c)
			p.i++
		}
	}
}

func (p *jp) hex4() (rune, error) {
	if p.i+4 > len(p.s) {
		return 0, errors.New("bad \\u escape")
	}
	v, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
	if err != nil {
		return 0, errors.New("bad \\u escape")
	}
	p.i += 4
	return rune(v), nil
}
