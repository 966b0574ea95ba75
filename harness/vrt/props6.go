package vrt

import (
	"reflect"
	"strconv"
)

// storage lists the memory of the lists and maps that Reset keeps: members of structs, nested by value or as elements
// of such lists. Declared list and map types replace themselves, pointers, arrays and entries of maps are made anew.
func storage(d *Desc, v reflect.Value, path string, add func(path string, p uintptr)) {
	switch {
	case d.K == DStruct && !(d.Reg != nil && (d.Reg.Custom || d.Reg.Alias)):
		for _, f := range d.Fields {
			storage(f.D, v.FieldByIndex(f.Index), path+"."+f.Go, add)
		}
	case d.K == DSlice && !d.Named:
		if v.Len() == 0 {
			return
		}
		add(path, v.Pointer())
		for i := 0; i < v.Len(); i++ {
			storage(d.Elem, v.Index(i), path+"."+strconv.Itoa(i), add)
		}
	case d.K == DMap && !d.Named:
		if v.Len() > 0 && v.Len() <= 10000 {
			add(path, v.Pointer())
		}
	}
}

// reusable tells that the type has a list or map whose memory Reset keeps.
func reusable(d *Desc, depth int) bool {
	if d.K != DStruct || depth > 6 {
		return false
	}
	for _, f := range d.Fields {
		if !f.D.Named && (f.D.K == DSlice || f.D.K == DMap) || reusable(f.D, depth+1) {
			return true
		}
	}
	return false
}

func init() {
	reg(&Prop{
		ID: "P26", Rule: "the document fills at least one list or map whose memory a reset keeps",
		Applies: func(t *Type, d *Desc) bool { return both(t, d) && reusable(d, 0) },
		Check: func(c *C) {
			c.Dense = true
			c.Full = c.n(2) == 0
			x, v := c.fresh()
			n := c.Doc(c.D)
			text := n.String()
			c.input("decode", text)
			_, want := c.fresh()
			if e := c.D.Decode(n, want, ""); e != nil {
				c.fail("harness: %v", e)
			}
			if err := c.dec(x, text); err != nil {
				c.fail("a valid document is rejected: %v", err)
			}
			had := map[string]uintptr{}
			storage(c.D, v, "value", func(path string, p uintptr) { had[path] = p })
			c.nontrivial(len(had) > 0)
			for i := 1 + c.n(2); i > 0; i-- {
				x.(resetter).Reset()
				if err := c.dec(x, text); err != nil {
					c.fail("a valid document is rejected after a reset: %v", err)
				}
			}
			if s := diff(c.D, want, v, "value"); s != "" {
				c.fail("the value after a reset and a decode differs from a fresh decode: %s", s)
			}
			storage(c.D, v, "value", func(path string, p uintptr) {
				if had[path] != p {
					c.fail("%s does not use its memory again", path)
				}
			})
		},
	})
	reg(&Prop{
		ID: "P27", Rule: "the encoded document has at least two members or elements",
		Applies: canEnc,
		Check: func(c *C) {
			c.SetIgn = true
			x, v := c.fresh()
			c.Value(c.D, v)
			c.input("value", show(v))
			cp := deepCopy(v)
			b := string(c.enc(x))
			c.note("encoded: %s", b)
			if s := spaces(b); s != "" {
				c.fail("the output is not compact: %s", s)
			}
			if i := c.n(3); i > 0 {
				// something else in between
				y, w := c.fresh()
				c.Value(c.D, w)
				_ = c.enc(y)
			}
			y, w := c.fresh()
			w.Set(cp)
			again := map[string]string{"the same value": string(c.enc(x)), "an equal value": string(c.enc(y))}
			for what, b2 := range again {
				if b2 == b {
					continue
				}
				if !c.D.has(DMap) || len(b) != len(b2) {
					c.fail("%s is encoded as %s", what, b2)
				}
				if n, err := ParseJSON([]byte(b)); err == nil {
					n2, err := ParseJSON([]byte(b2))
					if err != nil || !nodeEq(n, n2) {
						c.fail("%s is encoded as %s", what, b2)
					}
				}
			}
			n, err := ParseJSON([]byte(b))
			if err != nil {
				// P02 and its known findings
				c.count("excluded: not JSON")
				return
			}
			c.nontrivial(n.size() > 2)
			if s := ordered(c.D, n, "value"); s != "" {
				c.fail("%s", s)
			}
		},
	})
}

// spaces finds white space between the tokens.
func spaces(b string) string {
	str := false
	for i := 0; i < len(b); i++ {
		switch {
		case str && b[i] == '\\':
			i++
		case b[i] == '"':
			str = !str
		case !str && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r'):
			return "white space at offset " + strconv.Itoa(i)
		}
	}
	return ""
}

// ordered tells whether the members of objects stand in the order of their declarations.
func ordered(d *Desc, n *Node, path string) string {
	if d.Reg != nil && d.Reg.Custom {
		return ""
	}
	switch d.K {
	case DPtr:
		return ordered(d.Elem, n, path)
	case DSlice, DArray:
		for i, e := range n.Arr {
			if s := ordered(d.Elem, e, path+"."+strconv.Itoa(i)); s != "" {
				return s
			}
		}
	case DMap:
		for i, e := range n.Vals {
			if s := ordered(d.Elem, e, path+"."+n.Keys[i]); s != "" {
				return s
			}
		}
	case DStruct:
		var names []string
		ds := map[string]*Desc{}
		d.names(func(f *FDesc) {
			names = append(names, f.JSON)
			ds[f.JSON] = f.D
		})
		pos := 0
		for i, k := range n.Keys {
			for pos < len(names) && names[pos] != k {
				pos++
			}
			if pos == len(names) {
				return path + ": member " + strconv.Quote(k) + " does not stand in the order of the declaration: " + n.String()
			}
			if s := ordered(ds[k], n.Vals[i], path+"."+k); s != "" {
				return s
			}
		}
	}
	return ""
}

// names visits the members in the order of their declaration.
func (d *Desc) names(f func(*FDesc)) {
	for _, x := range d.Fields {
		if x.Whole {
			x.D.names(f)
			continue
		}
		f(x)
	}
}
