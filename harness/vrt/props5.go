package vrt

import (
	"reflect"
	"strings"
	"time"
)

// errPath extracts the path an error reports.
func errPath(err error) (string, bool) {
	const pre = "error parsing '"
	s := err.Error()
	if !strings.HasPrefix(s, pre) {
		return "", false
	}
	s = s[len(pre):]
	i := strings.Index(s, "': ")
	if i < 0 {
		return "", false
	}
	return s[:i], true
}

// pathTokens normalises a path: the parts between the dots, without empty ones and the marker of the root.
func pathTokens(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ".") {
		if x != "" && x != "(root)" {
			r = append(r, x)
		}
	}
	return r
}

func subsequence(a, b []string) bool {
	for _, x := range b {
		if len(a) > 0 && a[0] == x {
			a = a[1:]
		}
	}
	return len(a) == 0
}

// exactPath: the kinds of places whose errors are located exactly. Errors of byte strings carry no path, and errors of
// elements that are strings, times, uuids or lists may lack parts of it: known findings.
func (s *site) exactPath() bool {
	k := s.d.base().K
	if k == DBytes || k == DByteArr {
		return false
	}
	if s.elem {
		switch k {
		case DBool, DInt, DUint, DFloat, DStruct:
			return true
		}
		return false
	}
	return true
}

func init() {
	reg(&Prop{
		ID: "P15", Rule: "every case breaks one value of a document at a known place below the top",
		Applies: canDec,
		Check: func(c *C) {
			n := c.Doc(c.D)
			var s *site
			var path []string
			exact := false
			if c.n(4) == 0 {
				var req []*FDesc
				s = c.pickObj(n, func(s *site) bool {
					for _, f := range s.d.base().allFields() {
						if f.Req && !f.HasDef {
							return true
						}
					}
					return false
				})
				if s == nil {
					return
				}
				for _, f := range s.d.base().allFields() {
					if f.Req && !f.HasDef {
						req = append(req, f)
					}
				}
				f := req[c.n(len(req))]
				o := nObj()
				for i, k := range s.n.Keys {
					if k != f.JSON {
						o.add(k, s.n.Vals[i])
					}
				}
				*s.n = *o
				path = append(append([]string{}, s.path...), f.JSON)
				exact = true
				c.note("missing: %q", path)
				c.count("required member missing")
			} else {
				ss := c.D.sites(n)
				s = ss[c.n(len(ss))]
				if s.top {
					return
				}
				m, why := c.bad(s)
				*s.n = *m
				path = s.path
				exact = s.exactPath()
				c.note("broken: %q is %s", s.at(), why)
			}
			text := n.Text(c.style())
			c.input("document", text)
			c.nontrivial(true)
			y, _ := c.fresh()
			err := c.dec(y, text)
			if err == nil {
				c.fail("a document broken at %q is accepted", path)
			}
			if strings.Contains(strings.Join(path, ""), "'") {
				return
			}
			p, ok := errPath(err)
			want := pathTokens(strings.Join(path, "."))
			if !ok {
				if exact {
					c.fail("the error of a value broken at %q has no path: %v", path, err)
				}
				c.count("no path")
				return
			}
			got := pathTokens(p)
			if !exact {
				if !subsequence(got, want) {
					c.fail("the error of a value broken at %q names another place: %v", path, err)
				}
				c.count("partly located")
				return
			}
			if strings.Join(got, ".") != strings.Join(want, ".") {
				c.fail("the error of a value broken at %q names another place: %v", path, err)
			}
			c.count("located")
		},
	})
}

// hasTime: the type holds times.
func hasTime(d *Desc) bool { return d.has(DTime) }

// embedded lists the struct fields of the Go type that are embedded, and how.
type embedded struct {
	idx  int
	d    *Desc
	kind string // inline, whole, named
	json string
}

func embeddedOf(d *Desc) []embedded {
	var out []embedded
	if d.K != DStruct {
		return nil
	}
	for i := 0; i < d.T.NumField(); i++ {
		sf := d.T.Field(i)
		tag, has := sf.Tag.Lookup("json")
		name, opt := jsonTag(tag)
		if sf.Type.Kind() != reflect.Struct || !sf.Anonymous && opt != "inline" {
			continue
		}
		if tag == "-" {
			continue // no part of the JSON form
		}
		e := embedded{idx: i, d: DescOf(sf.Type, false), json: name}
		switch {
		case opt == "inline" && sf.Anonymous && !hasMember(sf.Type, sf.Type.Name()):
			e.kind = "inline"
		case opt == "inline":
			e.kind = "whole"
		case !has || name == "":
			e.kind = "whole"
		default:
			e.kind = "named"
		}
		out = append(out, e)
	}
	return out
}

func init() {
	reg(&Prop{
		ID: "P16", Rule: "the document holds a time, or the value holds a non-zero one",
		Applies: func(t *Type, d *Desc) bool { return both(t, d) && hasTime(d) },
		Check: func(c *C) {
			c.NoFold = true
			n := c.Doc(c.D)
			var times []*site
			for _, s := range c.D.sites(n) {
				if s.d.base().K == DTime && s.n.K == NStr {
					times = append(times, s)
				}
			}
			if len(times) > 0 && c.n(3) == 0 {
				s := times[c.n(len(times))]
				layout := ""
				if s.f != nil {
					layout = s.f.Layout
				}
				var why string
				good := s.n.S
				var m *Node
				if layout != "" && c.n(2) == 0 {
					// a time in the common format where the member asks for its own
					m, why = nStr(c.time().Format(time.RFC3339Nano)), "in another layout"
				} else {
					m, why = c.badTime(layout)
				}
				*s.n = *m
				_, w := c.fresh()
				if e := c.D.Decode(n, w, ""); e == nil {
					s.n.S = good
				} else {
					text := n.Text(c.style())
					c.input("document", text)
					c.note("%q is %s", s.at(), why)
					c.nontrivial(true)
					c.count("rejected")
					y, w := c.fresh()
					if err := c.dec(y, text); err == nil {
						c.fail("%q is %s (%s), yet the document is accepted: %s", s.at(), why, s.n, show(w))
					}
					return
				}
			}
			text := n.Text(c.style())
			c.input("document", text)
			c.nontrivial(len(times) > 0)
			c.expect(n, text)

			c.RoundTrip = true
			x, v := c.fresh()
			c.Value(c.D, v)
			c.note("value: %s", show(v))
			b := c.enc(x)
			if s := c.D.match(c.parse(b), v, "", "value"); s != "" {
				c.fail("the output does not represent the value: %s", s)
			}
			y, w := c.fresh()
			if err := c.dec(y, string(b)); err != nil {
				c.fail("the encoder's own output is rejected: %v: %s", err, b)
			}
			if s := diff(c.D, v, w, "value"); s != "" {
				c.fail("times do not survive encoding and decoding: %s", s)
			}
			c.count("round trip")
		},
	})
	reg(&Prop{
		ID: "P17", Rule: "the document gives at least one member of an embedded struct",
		Applies: func(t *Type, d *Desc) bool { return both(t, d) && !t.Alias && len(embeddedOf(d)) > 0 },
		Check: func(c *C) {
			c.NoFold = true
			es := embeddedOf(c.D)
			e := es[c.n(len(es))]
			n := c.Doc(c.D)
			text := n.Text(c.style())
			c.input("document", text)
			c.note("embedded: %s, %s", e.d.T, e.kind)
			c.count(e.kind)
			c.expect(n, text)
			x, v := c.fresh()
			if err := c.dec(x, text); err != nil {
				c.fail("a valid document is rejected: %v", err)
			}
			part := n
			if e.kind == "named" {
				if part = n.get(e.json); part != nil {
					c.nontrivial(part.size() > 1)
				}
			} else {
				keys := e.d.allKeys()
				part = nObj()
				for i, k := range n.Keys {
					if keys[k] {
						part.add(k, n.Vals[i])
					}
				}
				c.nontrivial(len(part.Keys) > 0)
			}
			// the embedded struct alone reads its share of the document the same way
			if part != nil && e.d.Reg != nil && e.d.Reg.Dec && part.K != NNull {
				alone := reflect.New(e.d.T)
				if err := alone.Interface().(unmarshaler).UnmarshalJSON([]byte(part.String())); err != nil {
					c.fail("the embedded struct alone rejects its share %s: %v", part, err)
				}
				if s := diff(e.d, alone.Elem(), v.Field(e.idx), "value."+c.D.T.Field(e.idx).Name); s != "" {
					c.fail("the embedded struct alone reads its share %s differently: %s", part, s)
				}
			}
			// promoted members are not read from an object named after the embedded type
			if e.kind != "named" && !c.D.Strict && c.D.K == DStruct {
				name := c.D.T.Field(e.idx).Name
				if n.get(name) == nil && !c.D.allKeys()[name] {
					m := n.clone()
					o := nObj()
					c.docMembers(e.d, o)
					m.add(name, o)
					y, w := c.fresh()
					if err := c.dec(y, m.String()); err != nil {
						c.fail("an unknown member %q is not ignored: %v", name, err)
					}
					if s := diff(c.D, v, w, "value"); s != "" {
						c.fail("members of an embedded struct are read from an object named after it (%s): %s", m, s)
					}
				}
			}
			// encoding
			c.RoundTrip = true
			y, w := c.fresh()
			c.Value(c.D, w)
			c.note("value: %s", show(w))
			b := c.enc(y)
			on := c.parse(b)
			if s := c.D.match(on, w, "", "value"); s != "" {
				c.fail("the output does not represent the value: %s", s)
			}
			z, u := c.fresh()
			if err := c.dec(z, string(b)); err != nil {
				c.fail("the encoder's own output is rejected: %v", err)
			}
			if s := diff(c.D, w, u, "value"); s != "" {
				c.fail("decode(encode(x)) differs from x: %s", s)
			}
			if e.d.Reg != nil && e.d.Reg.Enc {
				alone := reflect.New(e.d.T)
				alone.Elem().Set(w.Field(e.idx))
				if !commaBug(e.d, alone.Elem()) {
					pb, err := alone.Interface().(marshaler).MarshalJSON()
					if err != nil {
						c.fail("MarshalJSON of the embedded struct: %v", err)
					}
					pn := c.parse(pb)
					if e.kind == "named" {
						if m := on.get(e.json); m != nil && !nodeEq(m, pn) {
							c.fail("the embedded struct is written as %s inside and %s alone", m, pn)
						}
					} else {
						for i, k := range pn.Keys {
							if f := e.d.field(k); f != nil && f.Omit && pn.Vals[i].size() == 1 && (pn.Vals[i].K == NArr || pn.Vals[i].K == NObj) {
								continue // an empty list of a type of the embedded struct's package: local there, foreign here
							}
							if m := on.get(k); m == nil && !deepEmpty(e.d, alone.Elem()) || m != nil && !nodeEq(m, pn.Vals[i]) {
								c.fail("member %q of the embedded struct is %s alone, and differs in %s", k, pn.Vals[i], on)
							}
						}
					}
				}
			}
		},
	})
}

// field finds a member by its JSON name.
func (d *Desc) field(name string) *FDesc {
	for _, f := range d.Fields {
		if f.JSON == name && !f.Whole {
			return f
		}
	}
	return nil
}
