package vrt

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/google/uuid"
)

// DK is the kind of a described type as the JSON mapping sees it.
type DK int

const (
	DBool DK = iota
	DString
	DInt
	DUint
	DFloat
	DTime
	DUUID
	DBytes   // []byte: base64
	DByteArr // [N]byte: base64
	DSlice
	DArray
	DMap
	DPtr
	DStruct
)

// Desc describes how values of a Go type map to JSON.
type Desc struct {
	K      DK
	T      reflect.Type
	Elem   *Desc
	Fields []*FDesc // DStruct, flattened
	Ign    []*FDesc // members tagged json:"-", at this level
	Strict bool
	Named  bool // a named (declared) type
	Reg    *Type
	Bits   int
}

// FDesc describes a struct field.
type FDesc struct {
	Go     string
	Index  []int
	JSON   string
	Omit   bool
	Req    bool
	HasDef bool
	Def    string
	Layout string
	Whole  bool // an embedded struct processed as a whole over the parent's object
	D      *Desc
	Pkg    string // the package whose generated code handles the member
}

var (
	timeT = reflect.TypeOf(time.Time{})
	uuidT = reflect.TypeOf(uuid.UUID{})
	byteT = reflect.TypeOf(byte(0))
)

type descKey struct {
	t  reflect.Type
	u8 bool
}

var descs = map[descKey]*Desc{}

// DescOf builds the description. u8: unnamed uint8 elements are written as "uint8" in the source, not "byte".
func DescOf(t reflect.Type, u8 bool) *Desc {
	k := descKey{t, u8}
	if d, ok := descs[k]; ok {
		return d
	}
	d := &Desc{T: t, Named: t.PkgPath() != "" && t.Name() != ""}
	descs[k] = d
	d.Reg = byType[t]
	if d.Reg != nil {
		d.Strict = d.Reg.Strict
		if d.Reg.U8 {
			u8 = true
		}
	}
	if t == timeT || t.Kind() == reflect.Struct && t.ConvertibleTo(timeT) {
		d.K = DTime
		return d
	}
	if t == uuidT || t.Kind() == reflect.Array && t.Len() == 16 && t.Elem() == byteT {
		d.K = DUUID
		return d
	}
	switch t.Kind() {
	case reflect.Bool:
		d.K = DBool
	case reflect.String:
		d.K = DString
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.K, d.Bits = DInt, t.Bits()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.K, d.Bits = DUint, t.Bits()
	case reflect.Float32, reflect.Float64:
		d.K, d.Bits = DFloat, t.Bits()
	case reflect.Slice:
		if t.Elem() == byteT && !u8 {
			d.K = DBytes
			return d
		}
		d.K, d.Elem = DSlice, DescOf(t.Elem(), u8)
	case reflect.Array:
		if t.Elem() == byteT && !u8 {
			d.K = DByteArr
			return d
		}
		d.K, d.Elem = DArray, DescOf(t.Elem(), u8)
	case reflect.Map:
		d.K, d.Elem = DMap, DescOf(t.Elem(), u8)
	case reflect.Pointer:
		d.K, d.Elem = DPtr, DescOf(t.Elem(), u8)
	case reflect.Struct:
		d.K = DStruct
		if d.Reg != nil && d.Reg.Transit {
			// all processing is left to the embedded struct
			d.Fields, d.Ign = fieldsOf(t.Field(0).Type, []int{0}, t.Field(0).Type.PkgPath())
			break
		}
		d.Fields, d.Ign = fieldsOf(t, nil, t.PkgPath())
	default:
		panic("unsupported type " + t.String())
	}
	return d
}

// jsonTag gives the name and the option that counts.
func jsonTag(tag string) (string, string) {
	l := strings.Split(tag, ",")
	for _, o := range l[1:] {
		switch o {
		case "omitempty", "required", "inline":
			return l[0], o
		}
	}
	return l[0], ""
}

func fieldsOf(t reflect.Type, prefix []int, pkg string) (out, ign []*FDesc) {
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		idx := append(append([]int(nil), prefix...), i)
		tag, hasTag := sf.Tag.Lookup("json")
		name, opts := jsonTag(tag)
		if name == "" && !sf.Anonymous && opts != "inline" {
			name = sf.Name
		}
		whole := opts == "inline" && (!sf.Anonymous || hasMember(sf.Type, sf.Type.Name()))
		if sf.Anonymous && opts == "inline" && !whole {
			o, x := fieldsOf(sf.Type, idx, pkg)
			out, ign = append(out, o...), append(ign, x...)
			continue
		}
		f := &FDesc{Go: sf.Name, Index: idx, JSON: name, Pkg: pkg}
		f.D = DescOf(sf.Type, sf.Tag.Get("vj") == "u8")
		if tag == "-" {
			ign = append(ign, f)
			continue
		}
		if whole || sf.Anonymous && (!hasTag || name == "") {
			f.Whole = true
		}
		switch opts {
		case "omitempty":
			f.Omit = true
		case "required":
			f.Req = true
		}
		f.Def, f.HasDef = sf.Tag.Lookup("default")
		if f.Def == "" {
			f.HasDef = false
		}
		f.Layout = sf.Tag.Get("layout")
		out = append(out, f)
	}
	return
}

// hasMember tells that a struct, those inlined in it included, has a member of the name.
func hasMember(t reflect.Type, name string) bool {
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		_, opts := jsonTag(sf.Tag.Get("json"))
		if sf.Anonymous {
			if opts == "inline" && !hasMember(sf.Type, sf.Type.Name()) && hasMember(sf.Type, name) {
				return true
			}
		} else if sf.Name == name {
			return true
		}
	}
	return false
}

// allKeys are the JSON names a struct knows at its own level.
func (d *Desc) allKeys() map[string]bool {
	m := map[string]bool{}
	for _, f := range d.Fields {
		if f.Whole {
			for k := range f.D.allKeys() {
				m[k] = true
			}
			continue
		}
		m[f.JSON] = true
	}
	return m
}

// walk visits the description graph.
func (d *Desc) walk(f func(*Desc)) {
	seen := map[*Desc]bool{}
	var rec func(*Desc)
	rec = func(d *Desc) {
		if d == nil || seen[d] {
			return
		}
		seen[d] = true
		f(d)
		rec(d.Elem)
		for _, x := range d.Fields {
			rec(x.D)
		}
	}
	rec(d)
}

func (d *Desc) has(k DK) bool {
	r := false
	d.walk(func(x *Desc) { r = r || x.K == k })
	return r
}

func (d *Desc) scalar() bool {
	switch d.K {
	case DBool, DString, DInt, DUint, DFloat:
		return true
	}
	return false
}

var constLayouts = map[string]string{
	"time.RFC3339":     time.RFC3339,
	"time.RFC3339Nano": time.RFC3339Nano,
	"time.RFC1123Z":    time.RFC1123Z,
	"time.Kitchen":     time.Kitchen,
	"time.ANSIC":       time.ANSIC,
	"time.RFC822Z":     time.RFC822Z,
	"time.DateTime":    time.DateTime,
	"time.DateOnly":    time.DateOnly,
	"time.StampMicro":  time.StampMicro,
	"time.Layout":      time.Layout,
	"time.UnixDate":    time.UnixDate,
	"time.RubyDate":    time.RubyDate,
	"time.RFC850":      time.RFC850,
	"time.RFC822":      time.RFC822,
	"time.RFC1123":     time.RFC1123,
	"time.Stamp":       time.Stamp,
	"time.StampMilli":  time.StampMilli,
	"time.StampNano":   time.StampNano,
	"time.TimeOnly":    time.TimeOnly,
}

func layoutOf(l string) string {
	if c, ok := constLayouts[l]; ok {
		return c
	}
	return l
}

func (d *Desc) String() string { return fmt.Sprintf("%s(%d)", d.T, d.K) }
