package vrt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

// flatFields are the members of a struct with their values, whole-embedded structs included.
func (d *Desc) flatFields(v reflect.Value, f func(*FDesc, reflect.Value)) {
	for _, x := range d.Fields {
		fv := v.FieldByIndex(x.Index)
		if x.Whole {
			x.D.flatFields(fv, f)
			continue
		}
		f(x, fv)
	}
}

// fill calls FillFromJSON on a document parsed with a private parser.
func (c *C) fill(x any, data string) (err error) {
	var p fastjson.Parser
	v, err := p.Parse(data)
	if err != nil {
		return err
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if isRapid(r) {
			panic(r)
		}
		st := stackOf()
		if c.D.has(DByteArr) && strings.Contains(st, "base64") {
			err = fmt.Errorf("panic: %v", r)
			return
		}
		c.note("stack: %s", st)
		c.fail("FillFromJSON panics: %v", r)
	}()
	return x.(filler).FillFromJSON(v)
}

func nodeEq(a, b *Node) bool {
	if a.K != b.K || a.B != b.B || a.S != b.S || len(a.Arr) != len(b.Arr) || len(a.Keys) != len(b.Keys) {
		return false
	}
	for i := range a.Arr {
		if !nodeEq(a.Arr[i], b.Arr[i]) {
			return false
		}
	}
	for i, k := range a.Keys {
		// maps have no order
		y := b.get(k)
		if y == nil || !nodeEq(a.Vals[i], y) {
			return false
		}
	}
	return true
}

// parse reads an output of the encoder under test.
func (c *C) parse(b []byte) *Node {
	n, err := ParseJSON(b)
	if err != nil {
		c.fail("the output is not JSON: %v: %s", err, b)
	}
	return n
}

// maybeBroken draws a document that is valid, broken at one place, or (rarely) not well-formed.
func (c *C) maybeBroken() (n *Node, text string, wellFormed bool) {
	n = c.Doc(c.D)
	switch c.n(6) {
	case 0, 1:
		ss := c.D.sites(n)
		s := ss[c.n(len(ss))]
		m, why := c.bad(s)
		*s.n = *m
		c.note("broken at %q: %s", s.at(), why)
	case 2:
		text = c.mangle(n.Text(c.style()))
		_, err := ParseJSON([]byte(text))
		return n, text, err == nil
	}
	return n, n.Text(c.style()), true
}

func init() {
	reg(&Prop{
		ID: "P10", Rule: "the value has an omitempty member that is empty and a member that is not",
		Applies: func(t *Type, d *Desc) bool {
			return canEnc(t, d) && d.base().K == DStruct && hasField(d, func(f *FDesc) bool { return f.Omit })
		},
		Check: func(c *C) {
			c.SetIgn = true
			x, v := c.fresh()
			c.Value(c.D, v)
			base := func() {
				c.D.flatFields(v, func(f *FDesc, fv reflect.Value) {
					if f.Omit && c.n(2) == 0 {
						fv.Set(reflect.Zero(fv.Type()))
					}
				})
			}
			base()
			if commaBug(c.D, v) {
				c.count("excluded: lost comma")
				return
			}
			c.input("value", show(v))
			empty, full := 0, 0
			var omit []*FDesc
			vals := map[*FDesc]reflect.Value{}
			c.D.flatFields(v, func(f *FDesc, fv reflect.Value) {
				if f.Omit && f.present(fv) != must {
					empty++
				} else if !deepEmpty(f.D, fv) {
					full++
				}
				if f.Omit {
					omit = append(omit, f)
					vals[f] = fv
				}
			})
			c.nontrivial(empty > 0 && full > 0)
			b := c.enc(x)
			c.note("encoded: %s", b)
			n := c.parse(b)
			if s := c.D.match(n, v, "", "value"); s != "" {
				c.fail("%s", s)
			}
			if len(omit) == 0 {
				return
			}
			// emptying one more member removes that member and nothing else
			f := omit[c.n(len(omit))]
			if f.present(vals[f]) != must {
				return
			}
			c.count("member emptied")
			vals[f].Set(reflect.Zero(vals[f].Type()))
			if commaBug(c.D, v) {
				c.count("excluded: lost comma")
				return
			}
			n2 := c.parse(c.enc(x))
			want := nObj()
			for i, k := range n.Keys {
				if k != f.JSON {
					want.add(k, n.Vals[i])
				}
			}
			if m := n2.get(f.JSON); m != nil {
				if f.present(vals[f]) == mustNot {
					c.fail("member %q is written although it is empty: %s", f.JSON, n2)
				}
				o := nObj()
				for i, k := range n2.Keys {
					if k != f.JSON {
						o.add(k, n2.Vals[i])
					}
				}
				n2 = o
			}
			if !nodeEq(want, n2) && !hasWhole(c.D) {
				c.fail("emptying member %q changes other members: %s, was %s", f.JSON, n2, n)
			}
		},
	})
	reg(&Prop{
		ID: "P13", Rule: "the decoded value holds at least one string, and other documents are decoded afterwards",
		Applies: both,
		Check: func(c *C) {
			n := c.Doc(c.D)
			text := n.Text(c.style())
			c.input("document", text)
			_, want := c.fresh()
			if e := c.D.Decode(n, want, ""); e != nil {
				c.fail("harness: %v", e)
			}
			x, v := c.fresh()
			buf := []byte(text)
			if err := c.decRaw(x, buf); err != nil {
				c.fail("a valid document is rejected: %v", err)
			}
			if string(buf) != text {
				c.fail("decoding changes its input")
			}
			// the input is overwritten, and the pooled parsers are put to other uses
			for i := range buf {
				buf[i] = 'Z'
			}
			y, w := c.fresh()
			for i := 1 + c.n(3); i > 0; i-- {
				m := c.Doc(c.D).String()
				c.note("then decode: %s", m)
				if c.n(2) == 0 {
					y, w = c.fresh()
				}
				_ = c.dec(y, m)
				if len(m) > 2 && c.n(3) == 0 {
					_ = c.dec(c.T.New(), m[:len(m)-1])
				}
			}
			if s := diff(c.D, want, v, "value"); s != "" {
				c.fail("a decoded value changes when its input buffer is reused or other documents are decoded: %s", s)
			}
			c.nontrivial(c.D.has(DString) && n.size() > 1)
			// changing the second value leaves the first one alone
			scribble(c.D, w)
			if s := diff(c.D, want, v, "value"); s != "" {
				c.fail("two decoded values share storage: %s", s)
			}
			// encoding: the output is the caller's
			if commaBug(c.D, v) {
				c.count("excluded: lost comma")
				x, v = c.fresh()
				c.Value(c.D, v)
			}
			before := deepCopy(v)
			b := c.enc(x)
			cp := append([]byte(nil), b...)
			z, zv := c.fresh()
			c.Value(c.D, zv)
			b2 := c.enc(z)
			if !bytes.Equal(b, cp) {
				c.fail("an earlier output changes when another value is encoded: %s, was %s", b, cp)
			}
			for i := range b2 {
				b2[i] = 'Z'
			}
			b3 := c.enc(x)
			if !nodeEq(c.parse(cp), c.parse(b3)) {
				c.fail("encoding twice gives different documents: %s, then %s", cp, b3)
			}
			if s := diff(c.D, before, v, "value"); s != "" {
				c.fail("encoding changes the value: %s", s)
			}
			if !reflect.DeepEqual(before.Interface(), v.Interface()) {
				c.fail("encoding changes the value: %s, was %s", show(v), show(before))
			}
		},
	})
	reg(&Prop{
		ID: "P14", Rule: "every case runs eight goroutines that decode and encode documents of the type at once",
		Applies: both,
		Check: func(c *C) {
			const workers, rounds = 8, 6
			type job struct {
				text string
				ok   bool
				want reflect.Value
			}
			var jobs []job
			for i := 0; i < 4; i++ {
				n, text, wf := c.maybeBroken()
				j := job{text: text}
				_, j.want = c.fresh()
				if !wf {
					// outcome by a sequential run
					j.ok = c.dec(j.want.Addr().Interface(), text) == nil
				} else {
					m, _ := ParseJSON([]byte(text))
					if m == nil {
						m = n
					}
					j.ok = c.dec(j.want.Addr().Interface(), text) == nil
				}
				jobs = append(jobs, j)
				c.input("document", text)
			}
			shared, sv := c.fresh()
			c.Value(c.D, sv)
			ref := c.parse(c.enc(shared))
			c.nontrivial(true)
			var mu sync.Mutex
			var msg string
			report := func(f string, a ...any) {
				mu.Lock()
				if msg == "" {
					msg = fmt.Sprintf(f, a...)
				}
				mu.Unlock()
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							st := stackOf()
							if c.D.has(DByteArr) && strings.Contains(st, "base64") {
								return
							}
							report("panic: %v %s", r, st)
						}
					}()
					<-start
					x := c.T.New()
					for r := 0; r < rounds; r++ {
						j := jobs[(w+r)%len(jobs)]
						if r%2 == 0 {
							x = c.T.New()
						} else {
							reflect.ValueOf(x).Elem().Set(reflect.Zero(c.T.rt))
						}
						err := x.(unmarshaler).UnmarshalJSON([]byte(j.text))
						if (err == nil) != j.ok {
							report("concurrent decode of %s: error %v, alone it is %v", j.text, err, j.ok)
							return
						}
						if err == nil {
							if s := diff(c.D, j.want, reflect.ValueOf(x).Elem(), "value"); s != "" {
								report("concurrent decode of %s: %s", j.text, s)
								return
							}
							if _, err := x.(marshaler).MarshalJSON(); err != nil {
								report("concurrent encode: %v", err)
							}
						}
						b, err := shared.(marshaler).MarshalJSON()
						if err != nil {
							report("concurrent encode: %v", err)
							return
						}
						n, err := ParseJSON(b)
						if err != nil || !nodeEq(n, ref) {
							report("concurrent encode of a shared value gives %s instead of %s", b, ref)
							return
						}
						_ = shared.(zeroer).IsZero()
					}
				}(w)
			}
			close(start)
			wg.Wait()
			if msg != "" {
				c.fail("%s", msg)
			}
		},
	})
	reg(&Prop{
		ID: "P18", Rule: "the value has a part of a type that has JSON methods of its own",
		Applies: func(t *Type, d *Desc) bool {
			r := false
			if both(t, d) {
				d.walk(func(x *Desc) {
					r = r || x != d && x.Reg != nil && x.Reg.Dec && x.Reg.Enc && !x.Reg.Custom
				})
			}
			return r
		},
		Check: func(c *C) {
			x, v := c.fresh()
			c.RoundTrip = true
			c.Value(c.D, v)
			c.input("value", show(v))
			b := c.enc(x)
			c.note("encoded: %s", b)
			n := c.parse(b)
			y, w := c.fresh()
			if err := c.dec(y, string(b)); err != nil {
				c.fail("the encoder's own output is rejected: %v", err)
			}
			parts := 0
			c.parts(c.D, n, v, w, "value", func(d *Desc, n *Node, v, w reflect.Value, path string) {
				parts++
				p := reflect.New(d.T)
				p.Elem().Set(v)
				pb, err := p.Interface().(marshaler).MarshalJSON()
				if err != nil {
					c.fail("%s: MarshalJSON of the part: %v", path, err)
				}
				if m := c.parse(pb); !nodeEq(m, n) {
					c.fail("%s is written as %s inside of its owner and as %s alone", path, n, m)
				}
				q := reflect.New(d.T)
				if err := q.Interface().(unmarshaler).UnmarshalJSON([]byte(n.String())); err != nil {
					c.fail("%s: %s is accepted inside of its owner, alone it is not: %v", path, n, err)
				}
				if s := diff(d, q.Elem(), w, path); s != "" {
					c.fail("a part decodes differently alone: %s", s)
				}
			})
			c.nontrivial(parts > 0)
			if parts > 0 {
				c.rec.counts["parts"] += parts
			}
		},
	})
	reg(&Prop{
		ID: "P23", Rule: "the document has at least one member or element, or is a non-empty scalar",
		Applies: both,
		Check: func(c *C) {
			n, text, wf := c.maybeBroken()
			c.input("document", text)
			c.nontrivial(n.size() > 1 || n.S != "")
			a, av := c.fresh()
			ea := c.dec(a, text)
			b, bv := c.fresh()
			eb := c.fill(b, text)
			if (ea == nil) != (eb == nil) {
				c.fail("UnmarshalJSON: %v, FillFromJSON of the parsed document: %v", ea, eb)
			}
			if ea == nil {
				if s := diff(c.D, av, bv, "value"); s != "" {
					c.fail("UnmarshalJSON and FillFromJSON decode differently: %s", s)
				}
			} else if wf && ea.Error() != eb.Error() {
				c.fail("UnmarshalJSON fails with %q, FillFromJSON with %q", ea, eb)
			}
			// through the standard library
			if m, err := ParseJSON([]byte(text)); err == nil && m.K != NNull {
				s, sv := c.fresh()
				es := c.std(func() error { return json.Unmarshal([]byte(text), s) })
				if (ea == nil) != (es == nil) {
					c.fail("UnmarshalJSON: %v, json.Unmarshal: %v", ea, es)
				}
				if ea == nil {
					if d := diff(c.D, av, sv, "value"); d != "" {
						c.fail("json.Unmarshal decodes differently: %s", d)
					}
				}
			}
			x, v := c.fresh()
			c.Value(c.D, v)
			c.note("value: %s", show(v))
			out := c.enc(x)
			var w jwriter.Writer
			w.RawString("[7,")
			if err := x.(marshalerTo).MarshalTo(&w); err != nil {
				c.fail("MarshalTo: %v", err)
			}
			w.RawString("]")
			wb, err := w.BuildBytes()
			if err != nil {
				c.fail("MarshalTo leaves an error in the writer: %v", err)
			}
			wn := c.parse(wb)
			on := c.parse(out)
			if len(wn.Arr) != 2 || wn.Arr[0].S != "7" || !nodeEq(wn.Arr[1], on) {
				c.fail("MarshalTo writes %s, MarshalJSON %s", wb, out)
			}
			sb, err := json.Marshal(x)
			if err != nil {
				c.fail("json.Marshal: %v", err)
			}
			if !nodeEq(c.parse(sb), on) {
				c.fail("json.Marshal gives %s, MarshalJSON %s", sb, out)
			}
			// a nil receiver is null
			nilp := reflect.Zero(reflect.PointerTo(c.T.rt)).Interface()
			var nw jwriter.Writer
			if err := c.std(func() error { return nilp.(marshalerTo).MarshalTo(&nw) }); err != nil {
				c.fail("MarshalTo of a nil pointer: %v", err)
			}
			if nb, _ := nw.BuildBytes(); string(nb) != "null" {
				c.fail("MarshalTo of a nil pointer writes %s", nb)
			}
			var nb []byte
			if err := c.std(func() (err error) { nb, err = nilp.(json.Marshaler).MarshalJSON(); return }); err != nil || string(nb) != "null" {
				c.fail("MarshalJSON of a nil pointer gives %s, %v", nb, err)
			}
		},
	})
	reg(&Prop{
		ID: "P24", Rule: "the two spellings of the document differ",
		Applies: canDec,
		Check: func(c *C) {
			n := c.Doc(c.D)
			if c.n(3) == 0 {
				ss := c.D.sites(n)
				s := ss[c.n(len(ss))]
				m, why := c.bad(s)
				*s.n = *m
				c.note("broken at %q: %s", s.at(), why)
			}
			a := n.String()
			m := n.clone()
			c.respell(m, c.D)
			b := m.Text(func(k int) int { return c.n(k) })
			c.input("document", a)
			c.input("again", b)
			c.nontrivial(a != b)
			x, v := c.fresh()
			y, w := c.fresh()
			ea, eb := c.dec(x, a), c.dec(y, b)
			if (ea == nil) != (eb == nil) {
				c.fail("two spellings of one document: the first gives %v, the second %v", ea, eb)
			}
			if ea == nil {
				if s := diff(c.D, v, w, "value"); s != "" {
					c.fail("two spellings of one document decode differently: %s", s)
				}
			}
		},
	})
	reg(&Prop{
		ID: "P25", Rule: "the value before the decode is not zero and (for a struct) the document leaves out some member of it",
		Applies: func(t *Type, d *Desc) bool {
			return both(t, d) && !t.Alias && (d.K != DStruct || len(d.Fields) > 0)
		},
		Check: func(c *C) {
			c.SetIgn = true
			x, v := c.fresh()
			c.Value(c.D, v)
			c.input("existing", show(v))
			nz := !v.IsZero()
			c.Sparse = c.n(3) > 0
			n := c.Doc(c.D)
			// containers are not written again: how elements merge is not part of the property
			text := n.Text(c.style())
			c.input("document", text)
			before := deepCopy(v)
			_, fresh := c.fresh()
			if e := c.D.Decode(n, fresh, ""); e != nil {
				c.fail("harness: %v", e)
			}
			if err := c.dec(x, text); err != nil {
				c.fail("a valid document is rejected: %v", err)
			}
			if c.D.K != DStruct {
				// the whole value is given
				if n.K == NNull {
					return
				}
				if s := diff(c.D, fresh, v, "value"); s != "" {
					c.fail("decoded over an existing value: %s", s)
				}
				c.nontrivial(nz)
				return
			}
			left := c.kept(c.D, n, before, fresh, v, "value")
			for _, f := range c.D.Ign {
				if s := diff(f.D, before.FieldByIndex(f.Index), v.FieldByIndex(f.Index), "value."+f.Go); s != "" {
					c.fail("a member that is no part of the JSON form changes: %s", s)
				}
			}
			c.nontrivial(nz && left > 0)
		},
	})
}

// kept compares a decode over an existing value: members that are left out (or null) keep what they had,
// scalars that are given are replaced.
func (c *C) kept(d *Desc, n *Node, before, fresh, got reflect.Value, path string) (left int) {
	d.flatFields3(before, fresh, got, func(f *FDesc, b, r, g reflect.Value) {
		p := path + "." + f.Go
		m := n.get(f.JSON)
		if m == nil || m.K == NNull && f.nullAbsent() {
			if m == nil && f.HasDef {
				if s := diff(f.D, r, g, p); s != "" {
					c.fail("the member is left out and has a default: %s", s)
				}
				return
			}
			left++
			if s := diff(f.D, b, g, p); s != "" {
				c.fail("the member is left out of the document, yet it changes: %s", s)
			}
			return
		}
		switch e := f.D.base(); e.K {
		case DStruct:
			if f.D.K == DStruct && !(f.D.Reg != nil && f.D.Reg.Alias) {
				left += c.kept(f.D, m, b, r, g, p)
				break
			}
			if s := given(f.D, m, r, g, p); s != "" {
				c.fail("the member is given in the document: %s", s)
			}
		case DSlice, DArray, DMap:
			if s := given(f.D, m, r, g, p); s != "" {
				c.fail("the member is given in the document: %s", s)
			}
		default:
			if s := diff(f.D, r, g, p); s != "" {
				c.fail("the member is given in the document: %s", s)
			}
		}
	})
	return
}

// given compares all that the document names with what a fresh variable gets. Members of structs that it leaves out
// may hold anything, lists have its elements and maps at least its keys.
func given(d *Desc, n *Node, fresh, got reflect.Value, path string) string {
	if d.K == DPtr {
		if fresh.IsNil() || got.IsNil() {
			if fresh.IsNil() != got.IsNil() {
				return fmt.Sprintf("%s: expected %s, got %s", path, show(fresh), show(got))
			}
			return ""
		}
		return given(d.Elem, n, fresh.Elem(), got.Elem(), path)
	}
	if n.K == NNull {
		return ""
	}
	switch d.K {
	case DStruct:
		r := ""
		d.flatFields3(fresh, fresh, got, func(f *FDesc, _, x, y reflect.Value) {
			if m := n.get(f.JSON); r == "" && m != nil && !(m.K == NNull && f.nullAbsent()) {
				r = given(f.D, m, x, y, path+"."+f.Go)
			}
		})
		return r
	case DSlice, DArray:
		if fresh.Len() != got.Len() || len(n.Arr) != got.Len() {
			return fmt.Sprintf("%s: expected %d elements, got %d", path, fresh.Len(), got.Len())
		}
		for i := range n.Arr {
			if s := given(d.Elem, n.Arr[i], fresh.Index(i), got.Index(i), path+"."+strconv.Itoa(i)); s != "" {
				return s
			}
		}
	case DMap:
		for _, k := range fresh.MapKeys() {
			v := got.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s: key %q of the document is missing", path, k.String())
			}
			m := n.get(k.String())
			if m == nil {
				continue
			}
			if s := given(d.Elem, m, fresh.MapIndex(k), v, path+"."+k.String()); s != "" {
				return s
			}
		}
	default:
		return diff(d, fresh, got, path)
	}
	return ""
}

func (d *Desc) flatFields3(a, b, e reflect.Value, f func(*FDesc, reflect.Value, reflect.Value, reflect.Value)) {
	for _, x := range d.Fields {
		fa, fb, fe := a.FieldByIndex(x.Index), b.FieldByIndex(x.Index), e.FieldByIndex(x.Index)
		if x.Whole {
			x.D.flatFields3(fa, fb, fe, f)
			continue
		}
		f(x, fa, fb, fe)
	}
}

func hasWhole(d *Desc) bool {
	r := false
	for _, f := range d.Fields {
		r = r || f.Whole
	}
	return r
}

// std runs a call that passes through generated methods, with the known base64 panic turned into an error.
func (c *C) std(f func() error) (err error) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if isRapid(r) {
			panic(r)
		}
		st := stackOf()
		if c.D.has(DByteArr) && strings.Contains(st, "base64") {
			err = fmt.Errorf("panic: %v", r)
			return
		}
		c.note("stack: %s", st)
		c.fail("panic: %v", r)
	}()
	return f()
}

// respell changes what does not matter: the order of members, and unknown members of objects that allow them.
func (c *C) respell(n *Node, d *Desc) {
	for _, s := range d.sites(n) {
		if s.n.K != NObj {
			continue
		}
		e := s.d.base()
		if e.K == DStruct && !e.Strict && c.n(3) == 0 {
			k := c.unknownKey(e)
			if s.n.get(k) == nil {
				s.n.add(k, c.any(0))
			}
		}
		if e.K == DStruct || e.K == DMap {
			if len(s.n.Keys) > 1 && unique(s.n.Keys) {
				c.shuffle(s.n)
			}
		}
	}
}

func unique(ks []string) bool {
	m := map[string]bool{}
	for _, k := range ks {
		if m[k] {
			return false
		}
		m[k] = true
	}
	return true
}

// scribble overwrites everything reachable from a value.
func scribble(d *Desc, v reflect.Value) {
	switch d.K {
	case DBool:
		v.SetBool(!v.Bool())
	case DString:
		v.SetString("scribble")
	case DInt:
		v.SetInt(99)
	case DUint:
		v.SetUint(99)
	case DFloat:
		v.SetFloat(99)
	case DBytes, DByteArr, DUUID:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(0x5a)
		}
	case DSlice, DArray:
		for i := 0; i < v.Len(); i++ {
			scribble(d.Elem, v.Index(i))
		}
	case DMap:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(d.Elem.T))
		}
		if !v.IsNil() {
			v.SetMapIndex(reflect.ValueOf("scribble").Convert(d.T.Key()), reflect.Zero(d.Elem.T))
		}
	case DPtr:
		if !v.IsNil() {
			scribble(d.Elem, v.Elem())
		}
	case DStruct:
		for _, f := range d.Fields {
			scribble(f.D, v.FieldByIndex(f.Index))
		}
	}
}

// parts visits the parts of a value whose types have JSON methods of their own.
func (c *C) parts(d *Desc, n *Node, v, w reflect.Value, path string, f func(d *Desc, n *Node, v, w reflect.Value, path string)) {
	if n.K == NNull || w.Kind() == reflect.Pointer && w.IsNil() || v.Kind() == reflect.Pointer && v.IsNil() {
		return
	}
	if path != "value" && d.Reg != nil && d.Reg.Dec && d.Reg.Enc && !d.Reg.Custom && d.K != DPtr {
		f(d, n, v, w, path)
	}
	switch d.K {
	case DPtr:
		c.parts(d.Elem, n, v.Elem(), w.Elem(), path+"*", f)
	case DSlice, DArray:
		for i := range n.Arr {
			c.parts(d.Elem, n.Arr[i], v.Index(i), w.Index(i), fmt.Sprintf("%s.%d", path, i), f)
		}
	case DMap:
		for i, k := range n.Keys {
			kv := reflect.ValueOf(k).Convert(d.T.Key())
			c.parts(d.Elem, n.Vals[i], v.MapIndex(kv), w.MapIndex(kv), path+"."+k, f)
		}
	case DStruct:
		for _, x := range d.Fields {
			if x.Whole {
				continue
			}
			if m := n.get(x.JSON); m != nil && x.Layout == "" {
				c.parts(x.D, m, v.FieldByIndex(x.Index), w.FieldByIndex(x.Index), path+"."+x.Go, f)
			}
		}
	}
}
