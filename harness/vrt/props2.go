package vrt

import (
	"math"
	"reflect"
)

func init() {
	reg(&Prop{
		ID: "P04", Rule: "every case replaces one value of a valid document by one the type must reject",
		Applies: canDec,
		Check: func(c *C) {
			n := c.Doc(c.D)
			ss := c.D.sites(n)
			s := ss[c.n(len(ss))]
			m, why := c.bad(s)
			*s.n = *m
			text := n.Text(c.style())
			c.input("document", text)
			c.note("broken: %q is %s", s.at(), why)
			_, w := c.fresh()
			if e := c.D.Decode(n, w, ""); e == nil {
				c.fail("harness: the model accepts a document broken at %q (%s)", s.at(), why)
			}
			c.nontrivial(true)
			c.count(why)
			y, w := c.fresh()
			if err := c.dec(y, text); err == nil {
				c.fail("%q is %s, yet the document is accepted: %s", s.at(), why, show(w))
			}
		},
	})
}

func hasStruct(t *Type, d *Desc) bool { return canDec(t, d) && d.has(DStruct) }

// hasField: some struct reachable from the type has a member with the quality.
func hasField(d *Desc, f func(*FDesc) bool) bool {
	r := false
	d.walk(func(x *Desc) {
		for _, y := range x.Fields {
			r = r || f(y)
		}
	})
	return r
}

// pickObj draws one of the objects of the document for which ok holds.
func (c *C) pickObj(n *Node, ok func(*site) bool) *site {
	var l []*site
	for _, s := range c.D.objects(n) {
		if ok(s) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[c.n(len(l))]
}

// wild: a permissive reading of JSON: tells if the text could be read as a document by any lenient parser.
// Only texts that are malformed beyond lenience must be rejected.
func wild(s string) bool {
	i, ok := wildVal(s, wildWS(s, 0), 0)
	if !ok {
		return false
	}
	return wildWS(s, i) == len(s)
}

func wildWS(s string, i int) int {
	for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') {
		i++
	}
	return i
}

func wildStr(s string, i int) (int, bool) {
	if i >= len(s) || s[i] != '"' {
		return i, false
	}
	for i++; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '"':
			return i + 1, true
		}
	}
	return i, false
}

func wildVal(s string, i, depth int) (int, bool) {
	if i >= len(s) || depth > 5000 {
		return i, false
	}
	switch c := s[i]; {
	case c == '"':
		return wildStr(s, i)
	case c == '[' || c == '{':
		end := byte(']')
		if c == '{' {
			end = '}'
		}
		i = wildWS(s, i+1)
		if i < len(s) && s[i] == end {
			return i + 1, true
		}
		for {
			var ok bool
			i = wildWS(s, i)
			if c == '{' {
				if i, ok = wildStr(s, i); !ok {
					return i, false
				}
				i = wildWS(s, i)
				if i >= len(s) || s[i] != ':' {
					return i, false
				}
				i = wildWS(s, i+1)
			}
			if i, ok = wildVal(s, i, depth+1); !ok {
				return i, false
			}
			i = wildWS(s, i)
			if i >= len(s) {
				return i, false
			}
			if s[i] == end {
				return i + 1, true
			}
			if s[i] != ',' {
				return i, false
			}
			i++
		}
	case c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c >= '0' && c <= '9':
		st := i
		for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '+' || s[i] == '-' || s[i] == '.' || s[i] == 'e' || s[i] == 'E') {
			i++
		}
		if i-st == 1 && (c == '-' || c == '+') {
			// -inf, +nan
			return wildWord(s, i)
		}
		return i, true
	}
	return wildWord(s, i)
}

func wildWord(s string, i int) (int, bool) {
	for _, w := range []string{"null", "true", "false", "inf", "nan", "infinity"} {
		if len(s)-i >= len(w) && equalFoldASCII(s[i:i+len(w)], w) {
			return i + len(w), true
		}
	}
	return i, false
}

func equalFoldASCII(a, b string) bool {
	for i := 0; i < len(a); i++ {
		x := a[i]
		if x >= 'A' && x <= 'Z' {
			x += 32
		}
		if x != b[i] {
			return false
		}
	}
	return true
}

// mangle damages a text at the level of bytes.
func (g *G) mangle(s string) string {
	b := []byte(s)
	for k := 1 + g.n(3); k > 0; k-- {
		if len(b) == 0 {
			b = []byte("{")
		}
		i := g.n(len(b))
		switch g.n(9) {
		case 0:
			b = b[:i] // truncate
		case 1:
			b = append(b[:i:i], b[i+1:]...) // drop a byte
		case 2:
			b[i] = byte(g.n(256))
		case 3:
			b[i] ^= 1 << g.n(8)
		case 4: // insert a token
			t := []string{"{", "}", "[", "]", ",", ":", "\"", "null", "0", "\\", "\\u", "-", ".", "e", "\x00", "\xff", "true", "{}", "[]", "\"\"", "\"\\ud800\"", "nan", "9999999999999999999999"}[g.n(23)]
			b = append(b[:i:i], append([]byte(t), b[i:]...)...)
		case 5: // duplicate a stretch
			j := i + 1 + g.n(12)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 6: // drop a stretch
			j := i + 1 + g.n(12)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 7: // swap two bytes
			j := g.n(len(b))
			b[i], b[j] = b[j], b[i]
		default:
			t := []string{"{", "}", "[", "]", ",", ":", "\"", "{\"", "1"}[g.n(9)]
			b = append(b, t...)
		}
	}
	return string(b)
}

// strictHere: objects of the struct must not hold undeclared members.
func (d *Desc) strictHere() bool {
	r := d.Strict
	for _, f := range d.Fields {
		r = r || f.Whole && f.D.strictHere()
	}
	return r
}

// hasWhole: the struct embeds one without a name, as a whole.
func (d *Desc) hasWhole() bool {
	for _, f := range d.Fields {
		if f.Whole {
			return true
		}
	}
	return false
}

// hurt changes a document at a few places to something the type may not expect.
func (c *C) hurt(n *Node) {
	for k := 1 + c.n(3); k > 0; k-- {
		ss := c.D.sites(n)
		s := ss[c.n(len(ss))]
		switch x := s.n; {
		case x.K == NArr && c.n(3) > 0:
			// more or fewer elements
			want := c.n(8)
			if c.n(8) == 0 {
				want = 40
			}
			for i := 0; len(x.Arr) < want; i++ {
				if len(x.Arr) > 0 && c.n(3) > 0 {
					x.Arr = append(x.Arr, x.Arr[c.n(len(x.Arr))].clone())
				} else if e := s.d.base(); e.Elem != nil {
					x.Arr = append(x.Arr, c.docElem(e.Elem))
				} else {
					x.Arr = append(x.Arr, c.any(0))
				}
			}
			x.Arr = x.Arr[:want]
		case x.K == NObj && len(x.Keys) > 0 && c.n(3) > 0:
			i := c.n(len(x.Keys))
			switch c.n(4) {
			case 0:
				x.Keys[i] = c.str()
			case 1:
				x.Keys = append(x.Keys, x.Keys[i])
				x.Vals = append(x.Vals, c.any(0))
			case 2:
				x.Vals[i] = x.Vals[c.n(len(x.Vals))].clone()
			default:
				x.Vals[i] = nNull()
			}
		case c.n(2) == 0:
			m, _ := c.bad(s)
			*x = *m
		case c.n(3) == 0:
			*x = *nNull()
		default:
			*x = *c.any(0)
		}
	}
}

// finite tells that no number of the value is infinite or not a number.
func finite(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return !math.IsInf(v.Float(), 0) && !math.IsNaN(v.Float())
	case reflect.Pointer:
		return v.IsNil() || finite(v.Elem())
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeT) {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			if !finite(v.Field(i)) {
				return false
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !finite(v.Index(i)) {
				return false
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if !finite(it.Value()) {
				return false
			}
		}
	}
	return true
}

func init() {
	reg(&Prop{
		ID: "P05", Rule: "the text is not well-formed JSON, or a document changed to another shape than the type's",
		Applies: canDec,
		Check: func(c *C) {
			var text string
			switch c.n(10) {
			case 8, 9:
				// JSON, but not of the type's shape
				n := c.Doc(c.D)
				c.hurt(n)
				c.nontrivial(true)
				text = n.Text(c.style())
				if c.n(4) == 0 {
					text = c.mangle(text)
				}
			case 0:
				text = string(c.bytes(c.n(40)))
			case 1:
				text = c.any(0).Text(c.style())
			case 2:
				text = c.mangle(c.any(0).Text(canon))
			case 3:
				// deep nesting of what the type expects
				k := 1 + c.n(400)
				o := []string{"[", "{\"a\":", "[[", "{\"\":["}[c.n(4)]
				for i := 0; i < k; i++ {
					text += o
				}
				if c.n(2) == 1 {
					text = c.Doc(c.D).Text(canon) + text
				}
			default:
				text = c.mangle(c.Doc(c.D).Text(c.style()))
			}
			c.input("text", text)
			_, perr := ParseJSON([]byte(text))
			c.nontrivial(perr != nil)
			y, w := c.fresh()
			err := c.dec(y, text)
			if perr != nil {
				c.count("not JSON")
				if !wild(text) {
					c.count("malformed")
					if err == nil {
						c.fail("malformed text is accepted (%v)", perr)
					}
				}
			}
			if err == nil && canEnc(c.T, c.D) && finite(w) && !commaBug(c.D, w) {
				c.count("encoded again")
				b := c.enc(y)
				if _, e := ParseJSON(b); e != nil {
					c.note("encoded: %q", b)
					c.fail("what was accepted does not encode to valid JSON: %v", e)
				}
			}
			// whatever happened, the decoder still works
			c.NoFold = c.T.plainDec
			n := c.Doc(c.D)
			c.note("then: %s", n)
			c.expect(n, n.String())
			if c.n(4) == 0 {
				if r, ok := y.(resetter); ok {
					r.Reset()
				}
			}
			_ = c.dec(y, n.String())
		},
	})
	reg(&Prop{
		ID: "P06", Rule: "every case adds an unknown member to an object of a struct",
		Applies: hasStruct,
		Check: func(c *C) {
			c.NoUnknown = true
			n := c.Doc(c.D)
			s := c.pickObj(n, func(*site) bool { return true })
			if s == nil {
				return
			}
			plain := n.String()
			e := s.d.base()
			k := c.unknownKey(e)
			i := c.n(len(s.n.Keys) + 1)
			v := c.any(0)
			s.n.Keys = append(s.n.Keys[:i:i], append([]string{k}, s.n.Keys[i:]...)...)
			s.n.Vals = append(s.n.Vals[:i:i], append([]*Node{v}, s.n.Vals[i:]...)...)
			text := n.Text(c.style())
			c.input("document", text)
			c.note("unknown: %q in %q, strict=%v", k, s.at(), e.Strict)
			c.nontrivial(true)
			y, w := c.fresh()
			err := c.dec(y, text)
			if e.Strict {
				c.count("strict")
				if err == nil {
					c.fail("a strict type accepts the unknown member %q", k)
				}
				return
			}
			c.count("not strict")
			if err != nil {
				c.fail("an unknown member %q is not ignored: %v", k, err)
			}
			z, x := c.fresh()
			if err := c.dec(z, plain); err != nil {
				c.fail("the document is rejected without the unknown member: %v", err)
			}
			if s := diff(c.D, x, w, "value"); s != "" {
				c.fail("an unknown member %q changes the value: %s", k, s)
			}
		},
	})
	reg(&Prop{
		ID: "P07", Rule: "every case repeats a known member of an object",
		Applies: func(t *Type, d *Desc) bool {
			return hasStruct(t, d) && hasField(d, func(*FDesc) bool { return true })
		},
		Check: func(c *C) {
			c.Full = c.n(3) == 0
			n := c.Doc(c.D)
			known := func(s *site) []int {
				var r []int
				ks := s.d.base().allKeys()
				for i, k := range s.n.Keys {
					if ks[k] {
						r = append(r, i)
					}
				}
				return r
			}
			s := c.pickObj(n, func(s *site) bool { return len(known(s)) > 0 })
			if s == nil {
				return
			}
			if c.n(3) == 0 {
				// without the repetition nothing is wrong
				m := n
				if o := c.pickObj(n, func(s *site) bool { return !s.d.base().strictHere() }); o != nil && c.n(2) == 0 {
					// undeclared members may be repeated
					e := o.d.base()
					if k := c.unknownKey(e); k != "" || !e.hasWhole() {
						keys, vals := o.n.Keys, o.n.Vals
						for i := 2 + c.n(2); i > 0; i-- {
							j := c.n(len(o.n.Keys) + 1)
							o.n.Keys = append(o.n.Keys[:j:j], append([]string{k}, o.n.Keys[j:]...)...)
							o.n.Vals = append(o.n.Vals[:j:j], append([]*Node{c.any(0)}, o.n.Vals[j:]...)...)
						}
						m = n.clone()
						o.n.Keys, o.n.Vals = keys, vals
						c.count("undeclared member repeated")
					}
				}
				text := m.Text(c.style())
				c.input("document", text)
				y, _ := c.fresh()
				if err := c.dec(y, text); err != nil {
					c.fail("a document that gives every member once is rejected: %v", err)
				}
			}
			ks := known(s)
			i := ks[c.n(len(ks))]
			k, v := s.n.Keys[i], s.n.Vals[i].clone()
			switch c.n(3) {
			case 1:
				v = nNull()
			case 2:
				v = c.any(0)
			}
			j := c.n(len(s.n.Keys) + 1)
			s.n.Keys = append(s.n.Keys[:j:j], append([]string{k}, s.n.Keys[j:]...)...)
			s.n.Vals = append(s.n.Vals[:j:j], append([]*Node{v}, s.n.Vals[j:]...)...)
			text := n.Text(c.style())
			c.input("document", text)
			c.note("repeated: %q in %q", k, s.at())
			c.nontrivial(true)
			y, w := c.fresh()
			if err := c.dec(y, text); err == nil {
				c.fail("a document with the member %q given twice is accepted: %s", k, show(w))
			}
		},
	})
	reg(&Prop{
		ID: "P08", Rule: "every case removes (or sets to null) a required member at some depth",
		Applies: func(t *Type, d *Desc) bool {
			return hasStruct(t, d) && hasField(d, func(f *FDesc) bool { return f.Req && !f.HasDef })
		},
		Check: func(c *C) {
			n := c.Doc(c.D)
			reqs := func(s *site) []*FDesc {
				var r []*FDesc
				for _, f := range s.d.base().allFields() {
					if f.Req && !f.HasDef && s.n.get(f.JSON) != nil {
						r = append(r, f)
					}
				}
				return r
			}
			s := c.pickObj(n, func(s *site) bool { return len(reqs(s)) > 0 })
			if s == nil {
				return
			}
			plain := n.Text(c.style())
			y, _ := c.fresh()
			if err := c.dec(y, plain); err != nil {
				c.input("document", plain)
				c.fail("a document with every required member is rejected: %v", err)
			}
			l := reqs(s)
			f := l[c.n(len(l))]
			null := f.nullAbsent() && !f.nullUnspecified() && c.n(3) == 0
			o := nObj()
			for i, k := range s.n.Keys {
				if k == f.JSON {
					if null {
						o.add(k, nNull())
					} else if c.n(3) == 0 && !s.d.base().Strict {
						o.add(c.unknownKey(s.d.base()), s.n.Vals[i])
					}
					continue
				}
				o.add(k, s.n.Vals[i])
			}
			*s.n = *o
			text := n.Text(c.style())
			c.input("document", text)
			c.note("missing: %q in %q, null=%v", f.JSON, s.at(), null)
			c.nontrivial(true)
			z, w := c.fresh()
			if c.n(2) == 0 {
				// a value left by an earlier decode does not stand for the missing member
				if err := c.dec(z, plain); err != nil {
					c.fail("a document with every required member is rejected: %v", err)
				}
				c.note("decoded over an earlier value")
			}
			err := c.dec(z, text)
			if err == nil {
				c.fail("the required member %q is missing, yet the document is accepted: %s", f.JSON, show(w))
			}
		},
	})
	reg(&Prop{
		ID: "P09", Rule: "the document leaves out at least one member with a default",
		Applies: func(t *Type, d *Desc) bool {
			return hasStruct(t, d) && hasField(d, func(f *FDesc) bool { return f.HasDef })
		},
		Check: func(c *C) {
			c.Sparse = c.n(2) == 0
			c.NoFold = c.T.plainDec
			n := c.Doc(c.D)
			text := n.Text(c.style())
			c.input("document", text)
			for _, s := range c.D.objects(n) {
				for _, f := range s.d.base().allFields() {
					if f.HasDef {
						if s.n.get(f.JSON) == nil {
							c.nontrivial(true)
							c.count("left out")
						} else {
							c.count("given")
						}
					}
				}
			}
			c.expect(n, text)
		},
	})
}
