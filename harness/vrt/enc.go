package vrt

import (
	"encoding/base64"
	"fmt"
	"reflect"
	"strconv"
	"time"

	"github.com/google/uuid"
)

// Reference model of encoding: which documents represent a value.

type presence int

const (
	must presence = iota
	may
	mustNot
)

func zeroValue(v reflect.Value) bool { return v.IsZero() }

// present tells whether a member must, may or must not be written.
func (f *FDesc) present(v reflect.Value) presence {
	if !f.Omit {
		return must
	}
	switch d := f.D; d.K {
	case DBool, DString, DInt, DUint, DFloat:
		if v.IsZero() {
			return mustNot
		}
		return must
	case DPtr:
		if v.IsNil() {
			return mustNot
		}
		return must
	case DTime:
		if v.Convert(timeT).Interface().(time.Time).IsZero() {
			if d.Named {
				return may
			}
			return mustNot
		}
		return must
	case DSlice, DMap, DBytes:
		if v.IsNil() {
			return mustNot
		}
		if v.Len() == 0 {
			if d.Named && d.Reg != nil && d.T.PkgPath() != f.Pkg {
				return mustNot // types of other packages decide themselves
			}
			return must
		}
		return must
	case DByteArr:
		if v.IsZero() {
			return may
		}
		return must
	case DUUID, DArray:
		if v.IsZero() && d.Named {
			return may
		}
		return must
	case DStruct:
		switch {
		case v.IsZero() && plainZero(d, map[*Desc]bool{}):
			return mustNot
		case deepEmpty(d, v):
			return may
		}
		return must
	}
	panic("present")
}

// plainZero: no part of the type is among those for which emptiness is left open.
func plainZero(d *Desc, seen map[*Desc]bool) bool {
	if seen[d] {
		return true
	}
	seen[d] = true
	switch d.K {
	case DArray, DByteArr, DUUID:
		return false
	case DTime:
		return !d.Named
	case DStruct:
		for _, f := range d.Fields {
			if !plainZero(f.D, seen) {
				return false
			}
		}
		if len(d.Ign) > 0 {
			return false
		}
	}
	return true
}

// deepEmpty: a struct whose every field is empty or zero.
func deepEmpty(d *Desc, v reflect.Value) bool {
	switch d.K {
	case DStruct:
		for _, f := range d.Fields {
			if !deepEmpty(f.D, v.FieldByIndex(f.Index)) {
				return false
			}
		}
		return true
	case DSlice, DMap, DBytes:
		return v.Len() == 0
	case DTime:
		return v.Convert(timeT).Interface().(time.Time).IsZero()
	case DArray:
		for i := 0; i < v.Len(); i++ {
			if !deepEmpty(d.Elem, v.Index(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func toValid(s string) string { return string([]rune(s)) }

// match reports how n fails to represent v ("" - it represents it).
func (d *Desc) match(n *Node, v reflect.Value, layout, path string) string {
	bad := func() string { return fmt.Sprintf("%s: %s does not represent %s", path, n, show(v)) }
	switch d.K {
	case DBool:
		if n.K != NBool || n.B != v.Bool() {
			return bad()
		}
	case DString:
		if n.K != NStr || n.S != toValid(v.String()) {
			return bad()
		}
	case DInt:
		if n.K != NNum || n.S != strconv.FormatInt(v.Int(), 10) {
			return bad()
		}
	case DUint:
		if n.K != NNum || n.S != strconv.FormatUint(v.Uint(), 10) {
			return bad()
		}
	case DFloat:
		if n.K != NNum {
			return bad()
		}
		x, err := strconv.ParseFloat(n.S, d.Bits)
		if err != nil || x != v.Float() {
			return bad()
		}
	case DTime:
		if n.K != NStr {
			return bad()
		}
		t := v.Convert(timeT).Interface().(time.Time)
		if layout != "" {
			if n.S != t.Format(layoutOf(layout)) {
				return bad()
			}
			return ""
		}
		x, err := time.Parse(time.RFC3339Nano, n.S)
		if err != nil || !x.Equal(t) {
			return bad()
		}
	case DUUID:
		if n.K != NStr || n.S != v.Convert(uuidT).Interface().(uuid.UUID).String() {
			return bad()
		}
	case DBytes:
		if v.IsNil() && n.K == NNull {
			return ""
		}
		if n.K != NStr || n.S != base64.StdEncoding.EncodeToString(v.Bytes()) {
			return bad()
		}
	case DByteArr:
		if v.IsZero() && n.K == NNull {
			return ""
		}
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		if n.K != NStr || n.S != base64.StdEncoding.EncodeToString(b) {
			return bad()
		}
	case DSlice, DArray:
		if d.K == DSlice && v.IsNil() {
			if n.K == NNull {
				return ""
			}
			return bad()
		}
		if n.K != NArr || len(n.Arr) != v.Len() {
			return bad()
		}
		for i, e := range n.Arr {
			if x := v.Index(i); d.Elem.K == DSlice && x.IsNil() && e.K == NArr && len(e.Arr) == 0 {
				continue // a nil inner slice may be written as an empty one
			}
			if s := d.Elem.match(e, v.Index(i), "", path+"."+strconv.Itoa(i)); s != "" {
				return s
			}
		}
	case DMap:
		if v.IsNil() {
			if n.K == NNull {
				return ""
			}
			return bad()
		}
		if n.K != NObj || len(n.Keys) != v.Len() {
			return bad()
		}
		// keys of a map may fold together only when they are not valid UTF-8; generators keep them valid
		for _, k := range v.MapKeys() {
			m := n.get(k.String())
			if m == nil {
				return fmt.Sprintf("%s: key %q is missing in %s", path, k.String(), n)
			}
			if x := v.MapIndex(k); d.Elem.K == DSlice && x.IsNil() && m.K == NArr && len(m.Arr) == 0 {
				continue // so may a nil list in a map
			}
			if s := d.Elem.match(m, v.MapIndex(k), "", path+"."+k.String()); s != "" {
				return s
			}
		}
	case DPtr:
		if v.IsNil() {
			if n.K == NNull {
				return ""
			}
			return bad()
		}
		return d.Elem.match(n, v.Elem(), layout, path)
	case DStruct:
		if n.K != NObj {
			return bad()
		}
		pos := 0
		if s := d.matchMembers(n, v, &pos, path); s != "" {
			return s
		}
		if pos != len(n.Keys) {
			return fmt.Sprintf("%s: unexpected or misplaced member %q in %s", path, n.Keys[pos], n)
		}
	}
	return ""
}

func (d *Desc) matchMembers(n *Node, v reflect.Value, pos *int, path string) string {
	for _, f := range d.Fields {
		fv := v.FieldByIndex(f.Index)
		if f.Whole {
			sv := *pos
			s := f.D.matchMembers(n, fv, pos, path)
			if s != "" && deepEmpty(f.D, fv) {
				*pos = sv
				s = ""
			}
			if s != "" {
				return s
			}
			continue
		}
		p := f.present(fv)
		here := *pos < len(n.Keys) && n.Keys[*pos] == f.JSON
		switch {
		case here && p == mustNot:
			return fmt.Sprintf("%s: member %q must be omitted for %s in %s", path, f.JSON, show(fv), n)
		case !here && p == must:
			return fmt.Sprintf("%s: member %q is missing or misplaced in %s", path, f.JSON, n)
		case here:
			if s := f.D.match(n.Vals[*pos], fv, f.Layout, path+"."+f.JSON); s != "" {
				return s
			}
			*pos++
		}
	}
	return ""
}
