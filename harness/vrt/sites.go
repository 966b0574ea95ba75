package vrt

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/google/uuid"
)

// site is a place of a document together with what the type expects there.
type site struct {
	d    *Desc
	f    *FDesc // the member, nil for elements and the document itself
	n    *Node
	path []string
	elem bool
	top  bool
	mapv bool // a value of a map
	par  *Desc
}

// rangeKnown tells which range violations of narrow numbers are known findings at the site:
// the lower bound of members, and both bounds behind named or double pointers and in maps that are members.
func (s *site) rangeKnown() (below, above bool) {
	e := s.d.base()
	if e.Bits == 64 {
		return false, false
	}
	if s.mapv && s.par != nil && !s.par.Named {
		return true, true
	}
	if s.f != nil {
		if s.d.K == DPtr && (s.d.Named || s.d.Elem.K == DPtr || s.d.Elem.Named && s.d.Elem.K == DPtr) {
			return true, true
		}
		return true, false
	}
	return false, false
}

func (s *site) at() string { return strings.Join(s.path, ".") }

// sites lists every place of a valid document.
func (d *Desc) sites(n *Node) []*site {
	var out []*site
	var rec func(d *Desc, f *FDesc, n *Node, path []string, par *Desc)
	sub := func(p []string, s string) []string { return append(append([]string(nil), p...), s) }
	var members func(d *Desc, n *Node, path []string)
	members = func(d *Desc, n *Node, path []string) {
		for _, f := range d.Fields {
			if f.Whole {
				members(f.D, n, path)
				continue
			}
			if m := n.get(f.JSON); m != nil {
				rec(f.D, f, m, sub(path, f.JSON), nil)
			}
		}
	}
	rec = func(d *Desc, f *FDesc, n *Node, path []string, par *Desc) {
		out = append(out, &site{d: d, f: f, n: n, path: path, elem: par != nil, top: par == nil && f == nil, par: par, mapv: par != nil && par.K == DMap})
		e := d.base()
		if n.K == NNull {
			return
		}
		switch e.K {
		case DSlice, DArray:
			for i, x := range n.Arr {
				rec(e.Elem, nil, x, sub(path, strconv.Itoa(i)), e)
			}
		case DMap:
			for i, x := range n.Vals {
				rec(e.Elem, nil, x, sub(path, n.Keys[i]), e)
			}
		case DStruct:
			members(e, n, path)
		}
	}
	rec(d, nil, n, nil, nil)
	return out
}

// base strips pointers.
func (d *Desc) base() *Desc {
	for d.K == DPtr {
		d = d.Elem
	}
	return d
}

// objects lists the places that hold struct objects.
func (d *Desc) objects(n *Node) []*site {
	var out []*site
	for _, s := range d.sites(n) {
		if s.n.K == NObj && s.d.base().K == DStruct {
			out = append(out, s)
		}
	}
	return out
}

// allFields are the members of a struct's object, those of structs embedded as a whole included.
func (d *Desc) allFields() []*FDesc {
	var out []*FDesc
	for _, f := range d.Fields {
		if f.Whole {
			out = append(out, f.D.allFields()...)
			continue
		}
		out = append(out, f)
	}
	return out
}

// nullOK tells what null means at a site: accepted, rejected or unspecified.
func (s *site) nullOK() (accepted, specified bool) {
	if s.top {
		switch s.d.K {
		case DSlice, DMap, DArray, DBytes, DByteArr, DPtr:
			return true, false
		}
		return false, true
	}
	if s.d.nullUnspecified() {
		return true, false
	}
	if s.elem {
		if s.d.nullableElem() {
			return true, true
		}
		switch s.d.K {
		case DMap, DArray, DBytes, DByteArr:
			return true, false
		}
		return false, true
	}
	return s.f.nullAbsent(), true
}

// bad draws a value that the type at the site must reject, and names the kind of breakage.
func (g *G) bad(s *site) (*Node, string) {
	var kinds []NK
	e := s.d.base()
	layout := ""
	if s.f != nil {
		layout = s.f.Layout
	}
	if acc, spec := s.nullOK(); !acc && spec {
		kinds = append(kinds, NNull)
	}
	for _, k := range []NK{NBool, NNum, NStr, NArr, NObj} {
		if k != e.want() {
			kinds = append(kinds, k)
		}
	}
	special := e.K == DInt || e.K == DUint || e.K == DTime || e.K == DUUID || e.K == DBytes || e.K == DByteArr || e.K == DArray || e.K == DFloat && e.Bits == 32
	if special && g.n(2) == 1 {
		switch e.K {
		case DInt, DUint:
			return g.badInt(e, s)
		case DFloat:
			below, above := s.rangeKnown()
			if !above {
				x := []string{"3.5e38", "1e39", "1e308", "4e38"}[g.n(4)]
				if !below && g.n(2) == 1 {
					x = "-" + x
				}
				return nNum(x), "float32 out of range"
			}
		case DTime:
			return g.badTime(layout)
		case DUUID:
			for {
				u := []rune(g.uuid().String())
				switch g.n(5) {
				case 0:
					u = u[:len(u)-1]
				case 1:
					u[g.n(len(u))] = 'x'
				case 2:
					u = append(u, '0')
				case 3:
					return nStr(""), "empty uuid"
				case 4:
					u[8] = '0'
				}
				if _, err := uuid.Parse(string(u)); err != nil {
					return nStr(string(u)), "malformed uuid"
				}
			}
		case DBytes:
			return g.badBase64(), "malformed base64"
		case DByteArr:
			if g.n(2) == 1 {
				return g.badBase64(), "malformed base64"
			}
			n := e.T.Len()
			k := g.n(n + 1)
			if k == n {
				// one byte too many; longer texts are a known finding
				k = n + 1
				if base64.StdEncoding.DecodedLen(base64.StdEncoding.EncodedLen(k)) > base64.StdEncoding.DecodedLen(base64.StdEncoding.EncodedLen(n)) {
					k = n - 1
				}
			}
			return nStr(base64.StdEncoding.EncodeToString(g.bytes(k))), "wrong length"
		case DArray:
			m := s.n.clone()
			if m.K != NArr {
				break
			}
			if g.n(2) == 1 || len(m.Arr) == 0 {
				m.Arr = append(m.Arr, g.docElem(e.Elem))
			} else {
				m.Arr = m.Arr[:len(m.Arr)-1-g.n(len(m.Arr))]
			}
			return m, "wrong length"
		}
	}
	k := kinds[g.n(len(kinds))]
	why := k.String() + " instead of " + e.want().String()
	switch k {
	case NNull:
		return nNull(), why
	case NBool:
		return nBool(g.n(2) == 1), why
	case NNum:
		return nNum([]string{"0", "1", "-1", "1.5", "42", "1e3"}[g.n(6)]), why
	case NStr:
		var p []string
		switch s.n.K {
		case NNum:
			p = append(p, s.n.S) // the right number, quoted
		case NBool:
			p = append(p, strconv.FormatBool(s.n.B))
		}
		p = append(p, "", "0", "true", "null", "x", "{}", "[]", "12", "-1.5")
		return nStr(p[g.n(len(p))]), why
	case NArr:
		a := nArr()
		switch g.n(3) {
		case 1:
			a.Arr = append(a.Arr, s.n.clone())
		case 2:
			a.Arr = append(a.Arr, nNum("1"), nNum("2"))
		}
		return a, why
	default:
		o := nObj()
		switch g.n(3) {
		case 1:
			o.add("a", s.n.clone())
		case 2:
			o.add("0", nNum("1"))
		}
		return o, why
	}
}

func (d *Desc) want() NK {
	switch d.base().K {
	case DBool:
		return NBool
	case DInt, DUint, DFloat:
		return NNum
	case DSlice, DArray:
		return NArr
	case DMap, DStruct:
		return NObj
	}
	return NStr
}

func (g *G) badBase64() *Node {
	b := base64.StdEncoding.EncodeToString(g.bytes(1 + g.n(6)))
	switch g.n(4) {
	case 0:
		b = strings.TrimRight(b, "=") + "!"
	case 1:
		b = b[:len(b)-1]
		if len(b)%4 == 0 {
			b += "A"
		}
	case 2:
		b = b + "=="
	default:
		b = "*" + b[1:]
	}
	if _, err := base64.StdEncoding.DecodeString(b); err == nil {
		b = "!!!"
	}
	return nStr(b)
}

func (g *G) badTime(layout string) (*Node, string) {
	pool := []string{"", "not a time", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01T25:00:00Z", "12", "2020", "2020-01-01T00:00:00", "2020-01-01T00:00:00Zx", "tomorrow", "2020/01/01 00:00:00Z", "01.13.2020 00:00:00Z", "null"}
	for i := 0; i < 20; i++ {
		s := pool[g.n(len(pool))]
		if g.n(3) == 0 {
			// a valid text with one character changed
			b := []byte(g.doc(&Desc{K: DTime, T: timeT}, layout).S)
			if len(b) > 0 {
				b[g.n(len(b))] = "x :-9"[g.n(5)]
				s = string(b)
			}
		}
		if _, ok := parseTime(s, layout); !ok {
			return nStr(s), "malformed time"
		}
	}
	return nStr("?"), "malformed time"
}

// badInt: fractions, exponents and numbers out of the range of the kind.
func (g *G) badInt(d *Desc, s *site) (*Node, string) {
	below, above := s.rangeKnown()
	k := g.n(4)
	if above && d.Bits < 64 {
		k = 0
	}
	switch k {
	case 0:
		return nNum([]string{"1.5", "0.1", "-0.5", "1e2", "2.5e3", "1E1"}[g.n(6)]), "not an integer"
	case 1:
		if d.K == DUint {
			return nNum([]string{"-1", "-255", "-9223372036854775808"}[g.n(3)]), "negative for unsigned"
		}
	}
	var lo, hi big.Int
	if d.K == DUint {
		hi.SetUint64(math.MaxUint64 >> (64 - d.Bits))
	} else {
		hi.SetInt64(math.MaxInt64 >> (64 - d.Bits))
		lo.SetInt64(math.MinInt64 >> (64 - d.Bits))
	}
	off := big.NewInt(1)
	switch g.n(5) {
	case 0:
		off.SetInt64(int64(2 + g.n(200)))
	case 1:
		off.Lsh(off, uint(d.Bits)) // the same low bits
	case 2:
		off.Lsh(off, uint(d.Bits-1))
	case 3:
		off.Lsh(off, 66)
	}
	if d.K == DInt && !(below && d.Bits < 64) && g.n(2) == 1 {
		return nNum(new(big.Int).Sub(&lo, off).String()), fmt.Sprintf("below int%d", d.Bits)
	}
	return nNum(new(big.Int).Add(&hi, off).String()), fmt.Sprintf("above %d bits", d.Bits)
}
