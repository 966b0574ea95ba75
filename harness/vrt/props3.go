package vrt

import (
	"reflect"
)

// resetDiff tells how a value differs from what Reset promises: the initial state of every member
// (emptied containers may keep their storage).
func resetDiff(d *Desc, v reflect.Value, path string) string {
	switch d.K {
	case DStruct:
		for _, f := range d.Fields {
			if s := resetDiff(f.D, v.FieldByIndex(f.Index), path+"."+f.Go); s != "" {
				return s
			}
		}
		for _, f := range d.Ign {
			if s := resetDiff(f.D, v.FieldByIndex(f.Index), path+"."+f.Go); s != "" {
				return s
			}
		}
		return ""
	case DSlice, DMap, DBytes:
		if v.Len() != 0 {
			return path + " is not empty: " + show(v)
		}
		return ""
	}
	if !deepEmpty(d, v) {
		return path + " is " + show(v)
	}
	return ""
}

// staleElems: the type holds slices whose elements are reused in place. A failing decode (or one over a value
// that was not reset) leaves elements behind the length that Reset does not reach: a known finding.
func staleElems(d *Desc) bool {
	r := false
	d.walk(func(x *Desc) {
		if x.K == DSlice && (x.Elem.K == DStruct || x.Elem.K == DMap || x.Elem.K == DArray) {
			r = true
		}
	})
	return r
}

// zeroKnown: IsZero of a struct with members that are fixed arrays is always false, and IsZero of a fixed array
// whose elements have an IsZero of their own is inverted: known findings.
// Only what is part of the value itself counts: IsZero does not look into pointers, lists and maps.
func zeroKnown(d *Desc) (alwaysFalse, inverted bool) {
	switch d.K {
	case DArray:
		return false, !d.Elem.scalar() || d.Elem.Named && d.Elem.T.PkgPath() != d.T.PkgPath()
	case DStruct:
		for _, f := range append(append([]*FDesc{}, d.Fields...), d.Ign...) {
			if !f.D.Named && (f.D.K == DArray || f.D.K == DByteArr) {
				alwaysFalse = true
				continue
			}
			a, i := zeroKnown(f.D)
			alwaysFalse, inverted = alwaysFalse || a, inverted || i
		}
	}
	return
}

// bare: no member has content, those tagged json:"-" included.
func bare(d *Desc, v reflect.Value) bool {
	if d.K != DStruct {
		return deepEmpty(d, v)
	}
	for _, f := range append(append([]*FDesc{}, d.Fields...), d.Ign...) {
		if !bare(f.D, v.FieldByIndex(f.Index)) {
			return false
		}
	}
	return true
}

func init() {
	reg(&Prop{
		ID: "P11", Rule: "at least one reset precedes the last decode and some earlier document was not empty",
		Applies: both,
		Check: func(c *C) {
			c.NoFold = true
			x, v := c.fresh()
			steps := 2 + c.n(4)
			stale := staleElems(c.D)
			for i := 0; i < steps; i++ {
				last := i == steps-1
				c.Sparse = c.n(3) == 0
				if c.Big > 0 && !last {
					c.Big = 10010
				}
				n := c.Doc(c.D)
				if !last && !stale && c.n(4) == 0 {
					ss := c.D.sites(n)
					s := ss[c.n(len(ss))]
					m, why := c.bad(s)
					*s.n = *m
					c.note("broken at %q: %s", s.at(), why)
				}
				text := n.String()
				c.input("decode", text)
				_, want := c.fresh()
				e := c.D.Decode(n, want, "")
				err := c.dec(x, text)
				if e == nil {
					if err != nil {
						c.fail("a valid document is rejected after a reset: %v", err)
					}
					if s := diff(c.D, want, v, "value"); s != "" {
						c.fail("the value after a reset and a decode differs from a fresh decode: %s", s)
					}
				}
				if c.n(3) == 0 {
					_ = c.enc(x)
				}
				if !last {
					c.nontrivial(n.size() > 1)
					x.(resetter).Reset()
				}
			}
		},
	})
	reg(&Prop{
		ID: "P12", Rule: "the value is not zero",
		Applies: canEnc,
		Check: func(c *C) {
			c.SetIgn = true
			x, v := c.fresh()
			alwaysFalse, inverted := zeroKnown(c.D)
			if !alwaysFalse && !inverted && !x.(zeroer).IsZero() {
				c.fail("the zero value is not IsZero")
			}
			if (c.D.K == DSlice || c.D.K == DMap || c.D.K == DBytes) && c.n(3) == 0 {
				// a declared list or map without elements is empty, nil or not
				c.hollow(c.D, v)
				c.input("value without content", show(v))
				if !x.(zeroer).IsZero() {
					c.fail("IsZero() = false for %s", show(v))
				}
			}
			if c.Big > 0 {
				c.Big = 10010
			}
			c.Value(c.D, v)
			if c.n(3) == 0 {
				// a value with one thing set
				v.Set(reflect.Zero(c.D.T))
				c.one(c.D, v)
			}
			c.input("value", show(v))
			c.nontrivial(!v.IsZero())
			if z := x.(zeroer).IsZero(); z && !inverted && !bare(c.D, v) {
				c.fail("IsZero() = true for %s", show(v))
			}
			x.(resetter).Reset()
			if c.D.K == DMap {
				// known finding: Reset of a declared map keeps the keys
				for _, k := range v.MapKeys() {
					if s := resetDiff(c.D.Elem, v.MapIndex(k), "value."+k.String()); s != "" && c.D.Elem.K != DMap {
						c.fail("after Reset: %s", s)
					}
				}
				return
			}
			if s := resetDiff(c.D, v, "value"); s != "" {
				c.fail("after Reset: %s", s)
			}
			if !alwaysFalse && !inverted && (v.IsZero() || c.D.K == DSlice || c.D.K == DBytes) && !x.(zeroer).IsZero() {
				c.fail("after Reset: %s is not IsZero", show(v))
			}
		},
	})
}

// hollow makes a declared list or map without elements that is not nil.
func (g *G) hollow(d *Desc, v reflect.Value) {
	if d.K == DMap {
		v.Set(reflect.MakeMap(d.T))
		return
	}
	v.Set(reflect.MakeSlice(d.T, 0, g.n(3)))
}

// one sets one thing, somewhere, to a generated value.
func (g *G) one(d *Desc, v reflect.Value) {
	if d.K == DStruct && len(d.Fields)+len(d.Ign) > 0 {
		l := append(append([]*FDesc{}, d.Fields...), d.Ign...)
		f := l[g.n(len(l))]
		g.one(f.D, v.FieldByIndex(f.Index))
		return
	}
	if d.K == DArray && v.Len() > 0 {
		g.one(d.Elem, v.Index(g.n(v.Len())))
		return
	}
	g.value(d, v, "", true)
}

// commaBug: the value has a nil pointer that is written as null before any other member of its object;
// the generated encoder then loses a comma (a known finding).
func commaBug(d *Desc, v reflect.Value) bool {
	switch d.K {
	case DPtr:
		return !v.IsNil() && commaBug(d.Elem, v.Elem())
	case DSlice, DArray:
		for i := 0; i < v.Len(); i++ {
			if commaBug(d.Elem, v.Index(i)) {
				return true
			}
		}
	case DMap:
		for _, k := range v.MapKeys() {
			if commaBug(d.Elem, v.MapIndex(k)) {
				return true
			}
		}
	case DStruct:
		wrote := false
		for _, f := range d.Fields {
			fv := v.FieldByIndex(f.Index)
			if commaBug(f.D, fv) {
				return true
			}
			if f.Whole {
				continue
			}
			if f.D.K == DPtr && fv.IsNil() && !f.Omit {
				if !wrote {
					return true
				}
				continue
			}
			if !f.Omit || f.present(fv) == must {
				wrote = true
			}
		}
	}
	return false
}
