package vrt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"
)

var props []*Prop

func reg(p *Prop) { props = append(props, p) }

func (c *C) fresh() (any, reflect.Value) {
	x := c.T.New()
	return x, reflect.ValueOf(x).Elem()
}

// dec calls UnmarshalJSON on a private copy of data and turns panics into failures.
func (c *C) dec(x any, data string) error {
	buf := []byte(data)
	err := c.decRaw(x, buf)
	return err
}

func (c *C) decRaw(x any, buf []byte) (err error) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if isRapid(r) {
			panic(r)
		}
		st := stackOf()
		if c.D.has(DByteArr) && strings.Contains(st, "base64") {
			// known finding F-BASE64: an oversized base64 text for [N]byte
			c.count("known: [N]byte base64 overflow panic")
			err = fmt.Errorf("panic: %v", r)
			return
		}
		c.note("stack: %s", st)
		c.fail("UnmarshalJSON panics: %v", r)
	}()
	return x.(unmarshaler).UnmarshalJSON(buf)
}

func (c *C) enc(x any) []byte {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if isRapid(r) {
			panic(r)
		}
		c.note("stack: %s", stackOf())
		c.fail("MarshalJSON panics: %v", r)
	}()
	b, err := x.(marshaler).MarshalJSON()
	if err != nil {
		c.fail("MarshalJSON failed: %v", err)
	}
	return b
}

func both(t *Type, d *Desc) bool   { return t.Dec && t.Enc && !t.Custom }
func canDec(t *Type, d *Desc) bool { return t.Dec && !t.Custom }
func canEnc(t *Type, d *Desc) bool { return t.Enc && !t.Custom }

func init() {
	reg(&Prop{
		ID: "P01", Rule: "the generated value is not the zero value of its type",
		Applies: both,
		Check: func(c *C) {
			c.RoundTrip = true
			x, v := c.fresh()
			c.Value(c.D, v)
			c.input("value", show(v))
			c.nontrivial(!v.IsZero())
			b := c.enc(x)
			c.note("encoded: %s", b)
			y, w := c.fresh()
			if err := c.dec(y, string(b)); err != nil {
				c.fail("the encoder's own output is rejected: %v", err)
			}
			if s := diff(c.D, v, w, "value"); s != "" {
				c.fail("decode(encode(x)) differs from x: %s", s)
			}
		},
	})
	reg(&Prop{
		ID: "P02", Rule: "the generated value is not the zero value of its type",
		Applies: canEnc,
		Check: func(c *C) {
			c.BadUTF8, c.SetIgn = true, true
			x, v := c.fresh()
			c.Value(c.D, v)
			c.input("value", show(v))
			c.nontrivial(!v.IsZero())
			b := c.enc(x)
			c.note("encoded: %s", b)
			n, err := ParseJSON(b)
			if err != nil {
				c.fail("the output is not JSON: %v", err)
			}
			if s := c.D.match(n, v, "", "value"); s != "" {
				c.fail("the output does not represent the value: %s", s)
			}
			if c.T.plainOK {
				c.count("compared with encoding/json")
				p := c.T.Plain()
				copyTo(reflect.ValueOf(p).Elem(), v)
				sb, err := json.Marshal(p)
				if err != nil {
					c.fail("encoding/json fails: %v", err)
				}
				sn, err := ParseJSON(sb)
				if err != nil {
					c.fail("harness: %v", err)
				}
				if s := sameJSON(c.D, sn, n, "value", false); s != "" {
					c.note("encoding/json: %s", sb)
					c.fail("the output differs from encoding/json: %s", s)
				}
			}
		},
	})
	reg(&Prop{
		ID: "P03", Rule: "the document has at least one member or element, or is a non-empty scalar",
		Applies: canDec,
		Check: func(c *C) {
			c.NoFold = c.T.plainDec
			n := c.Doc(c.D)
			text := n.Text(c.style())
			c.input("document", text)
			c.nontrivial(n.size() > 1 || n.K != NObj && n.K != NArr && n.S != "")
			c.expect(n, text)
		},
	})
}

// expect decodes text into a fresh value and compares the outcome with the model's (and the standard library's).
func (c *C) expect(n *Node, text string) {
	_, want := c.fresh()
	if e := c.D.Decode(n, want, ""); e != nil {
		c.fail("harness: the model rejects a generated document: %v", e)
	}
	y, w := c.fresh()
	if err := c.dec(y, text); err != nil {
		c.fail("a valid document is rejected: %v", err)
	}
	if s := diff(c.D, want, w, "value"); s != "" {
		c.fail("decoded value differs from the document: %s", s)
	}
	if c.T.plainDec {
		c.count("compared with encoding/json")
		p := c.T.Plain()
		if err := json.Unmarshal([]byte(text), p); err != nil {
			// documents with RFC-valid but std-specific refusals do not exist in the generated domain
			if strings.Contains(err.Error(), "parsing time") {
				return
			}
			c.fail("harness: encoding/json rejects: %v", err)
		}
		_, cp := c.fresh()
		copyTo(cp, reflect.ValueOf(p).Elem())
		if s := diff(c.D, cp, w, "value"); s != "" {
			c.fail("decoded value differs from encoding/json: %s", s)
		}
	}
}

// copyTo copies between structurally identical types of different packages.
func copyTo(dst, src reflect.Value) {
	if src.Type().ConvertibleTo(timeT) && src.Kind() == reflect.Struct {
		dst.Set(src.Convert(dst.Type()))
		return
	}
	switch src.Kind() {
	case reflect.Pointer:
		if !src.IsNil() {
			p := reflect.New(dst.Type().Elem())
			copyTo(p.Elem(), src.Elem())
			dst.Set(p.Convert(dst.Type()))
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			copyTo(dst.Field(i), src.Field(i))
		}
	case reflect.Slice:
		if !src.IsNil() {
			s := reflect.MakeSlice(dst.Type(), src.Len(), src.Len())
			for i := 0; i < src.Len(); i++ {
				copyTo(s.Index(i), src.Index(i))
			}
			dst.Set(s)
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyTo(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if !src.IsNil() {
			m := reflect.MakeMap(dst.Type())
			for _, k := range src.MapKeys() {
				x := reflect.New(dst.Type().Elem()).Elem()
				copyTo(x, src.MapIndex(k))
				m.SetMapIndex(k.Convert(dst.Type().Key()), x)
			}
			dst.Set(m)
		}
	default:
		dst.Set(src.Convert(dst.Type()))
	}
}

// stdComparable: the standard library maps the type the same way.
func stdComparable(d *Desc, dec bool) bool {
	ok := true
	d.walk(func(x *Desc) {
		switch x.K {
		case DByteArr:
			ok = false
		case DSlice, DArray:
			if x.Elem.K == DUint && x.Elem.T.Kind() == reflect.Uint8 {
				ok = false
			}
		case DTime, DUUID:
			if x.Named && x.T != timeT && x.T != uuidT {
				ok = false // the mirror type has no methods
			}
		}
		for _, f := range x.Fields {
			if f.HasDef || f.Layout != "" {
				ok = false
			}
			if f.Whole && !dec {
				ok = false
			}
		}
	})
	return ok
}

// sameJSON compares the standard library's document with ours; the members that are optional by our rules may differ.
func sameJSON(d *Desc, a, b *Node, path string, inner bool) string {
	ne := func() string { return fmt.Sprintf("%s: encoding/json writes %s, the generated code %s", path, a, b) }
	e := d
	for e.K == DPtr {
		e = e.Elem
	}
	if a.K == NNull && b.K == NArr && len(b.Arr) == 0 && inner {
		return ""
	}
	if a.K != b.K {
		return ne()
	}
	switch a.K {
	case NBool:
		if a.B != b.B {
			return ne()
		}
	case NNum:
		if a.S != b.S && !numEq(a.S, b.S, e.Bits) {
			return ne()
		}
	case NStr:
		if a.S != b.S {
			if d.K == DTime {
				x, e1 := time.Parse(time.RFC3339Nano, a.S)
				y, e2 := time.Parse(time.RFC3339Nano, b.S)
				if e1 == nil && e2 == nil && x.Equal(y) {
					return ""
				}
			}
			return ne()
		}
	case NArr:
		if len(a.Arr) != len(b.Arr) {
			return ne()
		}
		for i := range a.Arr {
			if s := sameJSON(e.Elem, a.Arr[i], b.Arr[i], fmt.Sprintf("%s.%d", path, i), true); s != "" {
				return s
			}
		}
	case NObj:
		if e.K == DMap {
			if len(a.Keys) != len(b.Keys) {
				return ne()
			}
			for i, k := range a.Keys {
				m := b.get(k)
				if m == nil {
					return ne()
				}
				if s := sameJSON(e.Elem, a.Vals[i], m, path+"."+k, e.Elem.K == DSlice); s != "" {
					return s
				}
			}
			return ""
		}
		for _, f := range e.Fields {
			x, y := a.get(f.JSON), b.get(f.JSON)
			if (x == nil) != (y == nil) {
				if f.Omit && optionalOmit(f.D) {
					continue
				}
				return ne()
			}
			if x == nil {
				continue
			}
			if s := sameJSON(f.D, x, y, path+"."+f.JSON, false); s != "" {
				return s
			}
		}
	}
	return ""
}

// optionalOmit: kinds for which "empty" is not the same notion in the standard library.
func optionalOmit(d *Desc) bool {
	switch d.K {
	case DBool, DString, DInt, DUint, DFloat, DPtr:
		return false
	}
	return true
}

func numEq(a, b string, bits int) bool {
	x, e1 := json.Number(a).Float64()
	y, e2 := json.Number(b).Float64()
	return e1 == nil && e2 == nil && (x == y || bits == 32 && float32(x) == float32(y))
}

var _ = bytes.Equal
