package vrt

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/google/uuid"
)

// Reference model of decoding: what a document means for a type.

type DErr struct {
	Path []string
	Why  string
}

func (e *DErr) Error() string { return strings.Join(e.Path, ".") + ": " + e.Why }

func derr(format string, a ...any) *DErr { return &DErr{Why: fmt.Sprintf(format, a...)} }

func (e *DErr) at(p string) *DErr {
	if e == nil {
		return nil
	}
	e.Path = append([]string{p}, e.Path...)
	return e
}

var timeFormats = []string{time.RFC3339Nano, time.RFC3339, "2006-01-02 15:04:05Z07:00", "02.01.2006 15:04:05Z07:00"}

func parseTime(s, layout string) (time.Time, bool) {
	if layout != "" {
		t, err := time.Parse(layoutOf(layout), s)
		return t, err == nil
	}
	for _, f := range timeFormats {
		if t, err := time.Parse(f, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

// Decode fills v (settable, of type d.T) from n. layout comes from the field tag.
func (d *Desc) Decode(n *Node, v reflect.Value, layout string) *DErr {
	wrong := func() *DErr { return derr("%s for %s", n.K, d.T) }
	switch d.K {
	case DBool:
		if n.K != NBool {
			return wrong()
		}
		v.SetBool(n.B)
	case DString:
		if n.K != NStr {
			return wrong()
		}
		v.SetString(n.S)
	case DInt:
		if n.K != NNum {
			return wrong()
		}
		i, err := strconv.ParseInt(n.S, 10, d.Bits)
		if err != nil {
			return derr("%v", err)
		}
		v.SetInt(i)
	case DUint:
		if n.K != NNum {
			return wrong()
		}
		i, err := strconv.ParseUint(n.S, 10, d.Bits)
		if err != nil {
			return derr("%v", err)
		}
		v.SetUint(i)
	case DFloat:
		if n.K != NNum {
			return wrong()
		}
		x, err := strconv.ParseFloat(n.S, d.Bits)
		if err != nil {
			return derr("%v", err)
		}
		v.SetFloat(x)
	case DTime:
		if n.K != NStr {
			return wrong()
		}
		t, ok := parseTime(n.S, layout)
		if !ok {
			return derr("not a time: %q", n.S)
		}
		v.Set(reflect.ValueOf(t).Convert(d.T))
	case DUUID:
		if n.K != NStr {
			return wrong()
		}
		u, err := uuid.Parse(n.S)
		if err != nil {
			return derr("%v", err)
		}
		v.Set(reflect.ValueOf(u).Convert(d.T))
	case DBytes, DByteArr:
		if n.K != NStr {
			return wrong()
		}
		b, err := base64.StdEncoding.DecodeString(n.S)
		if err != nil {
			return derr("%v", err)
		}
		if d.K == DBytes {
			v.Set(reflect.ValueOf(b).Convert(d.T))
			return nil
		}
		if len(b) != d.T.Len() {
			return derr("%d bytes for %s", len(b), d.T)
		}
		reflect.Copy(v, reflect.ValueOf(b))
	case DSlice:
		if n.K != NArr {
			return wrong()
		}
		s := reflect.MakeSlice(d.T, len(n.Arr), len(n.Arr))
		for i, e := range n.Arr {
			if err := d.Elem.decodeElem(e, s.Index(i)); err != nil {
				return err.at(strconv.Itoa(i))
			}
		}
		v.Set(s)
	case DArray:
		if n.K != NArr {
			return wrong()
		}
		if len(n.Arr) != d.T.Len() {
			return derr("%d elements for %s", len(n.Arr), d.T)
		}
		for i, e := range n.Arr {
			if err := d.Elem.decodeElem(e, v.Index(i)); err != nil {
				return err.at(strconv.Itoa(i))
			}
		}
	case DMap:
		if n.K != NObj {
			return wrong()
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(d.T))
		}
		for i, k := range n.Keys {
			x := reflect.New(d.Elem.T).Elem()
			if err := d.Elem.decodeElem(n.Vals[i], x); err != nil {
				return err.at(k)
			}
			v.SetMapIndex(reflect.ValueOf(k).Convert(d.T.Key()), x)
		}
	case DPtr:
		p := reflect.New(d.T.Elem())
		if err := d.Elem.Decode(n, p.Elem(), layout); err != nil {
			return err
		}
		v.Set(p)
	case DStruct:
		if n.K != NObj {
			return wrong()
		}
		if d.Strict {
			known := d.allKeys()
			for _, k := range n.Keys {
				if !known[k] {
					return derr("unexpected field %q", k)
				}
			}
		}
		for k := range d.allKeys() {
			if n.count(k) > 1 {
				return derr("duplicate field %q", k)
			}
		}
		for _, f := range d.Fields {
			if err := f.decode(n, v.FieldByIndex(f.Index)); err != nil {
				return err
			}
		}
	}
	return nil
}

func (d *Desc) decodeElem(n *Node, v reflect.Value) *DErr {
	if n.K == NNull && d.nullableElem() {
		v.Set(reflect.Zero(d.T))
		return nil
	}
	return d.Decode(n, v, "")
}

// nullableElem: a null element of a container stands for nil.
func (d *Desc) nullableElem() bool {
	return !d.Named && (d.K == DPtr || d.K == DSlice)
}

// nullAbsent: a null member is the same as no member.
func (f *FDesc) nullAbsent() bool {
	if f.D.Named {
		return false
	}
	switch f.D.K {
	case DPtr, DSlice, DMap, DArray, DBytes, DByteArr:
		return true
	}
	return false
}

// nullUnspecified: the meaning of null depends on how the type is declared and is not specified.
func (f *FDesc) nullUnspecified() bool { return f.D.nullUnspecified() }

func (d *Desc) nullUnspecified() bool {
	if d.K == DPtr && d.Elem.K == DPtr && (d.Named || d.Elem.Named) {
		return true
	}
	if !d.Named {
		return false
	}
	switch d.K {
	case DPtr, DSlice, DMap, DArray, DBytes, DByteArr:
		return true
	}
	return false
}

func (f *FDesc) decode(n *Node, v reflect.Value) *DErr {
	if f.Whole {
		return f.D.Decode(n, v, "")
	}
	m := n.get(f.JSON)
	if m == nil || m.K == NNull && f.nullAbsent() {
		if f.Req {
			return derr("required").at(f.JSON)
		}
		if m == nil && f.HasDef {
			f.setDefault(v)
		}
		return nil
	}
	return f.D.Decode(m, v, f.Layout).at(f.JSON)
}

func (f *FDesc) setDefault(v reflect.Value) {
	d := f.D
	for d.K == DPtr {
		p := reflect.New(d.T.Elem())
		v.Set(p)
		v, d = p.Elem(), d.Elem
	}
	switch d.K {
	case DBool:
		v.SetBool(f.Def == "true")
	case DString:
		v.SetString(f.Def)
	case DInt:
		x, err := strconv.ParseInt(f.Def, 10, d.Bits)
		if err != nil {
			panic(err)
		}
		v.SetInt(x)
	case DUint:
		x, err := strconv.ParseUint(f.Def, 10, d.Bits)
		if err != nil {
			panic(err)
		}
		v.SetUint(x)
	case DFloat:
		x, err := strconv.ParseFloat(f.Def, d.Bits)
		if err != nil {
			panic(err)
		}
		v.SetFloat(x)
	default:
		panic("default of " + d.T.String())
	}
}

// diff compares values; nil and empty containers are the same. Returns "" when equal.
func diff(d *Desc, a, b reflect.Value, path string) string {
	ne := func() string { return fmt.Sprintf("%s: expected %s, got %s", path, show(a), show(b)) }
	switch d.K {
	case DBool, DString, DInt, DUint, DUUID, DByteArr:
		if a.Interface() != b.Interface() {
			return ne()
		}
	case DFloat:
		if !floatEq(a.Float(), b.Float(), d.Bits) {
			return ne()
		}
	case DTime:
		x := a.Convert(timeT).Interface().(time.Time)
		y := b.Convert(timeT).Interface().(time.Time)
		if !x.Equal(y) {
			return ne()
		}
	case DBytes:
		if string(a.Bytes()) != string(b.Bytes()) {
			return ne()
		}
	case DSlice, DArray:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: expected %d elements, got %d (%s vs %s)", path, a.Len(), b.Len(), show(a), show(b))
		}
		for i := 0; i < a.Len(); i++ {
			if s := diff(d.Elem, a.Index(i), b.Index(i), path+"."+strconv.Itoa(i)); s != "" {
				return s
			}
		}
	case DMap:
		if a.Len() != b.Len() {
			return ne()
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: key %q is missing", path, k.String())
			}
			if s := diff(d.Elem, a.MapIndex(k), y, path+"."+k.String()); s != "" {
				return s
			}
		}
	case DPtr:
		if a.IsNil() != b.IsNil() {
			return ne()
		}
		if !a.IsNil() {
			return diff(d.Elem, a.Elem(), b.Elem(), path)
		}
	case DStruct:
		for _, f := range d.Fields {
			if s := diff(f.D, a.FieldByIndex(f.Index), b.FieldByIndex(f.Index), path+"."+f.Go); s != "" {
				return s
			}
		}
		for _, f := range d.Ign {
			if s := diff(f.D, a.FieldByIndex(f.Index), b.FieldByIndex(f.Index), path+"."+f.Go); s != "" {
				return "a member that is no part of the JSON form changes: " + s
			}
		}
	}
	return ""
}

func floatEq(x, y float64, bits int) bool {
	if x == y || x != x && y != y {
		return true
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		return false
	}
	tol := 1e-14
	if bits == 32 {
		tol = 3e-7
	}
	return math.Abs(x-y) <= tol*math.Max(math.Abs(x), math.Abs(y))
}

// show renders a value for a report.
func show(v reflect.Value) string {
	var b strings.Builder
	showTo(&b, v, 0)
	s := b.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func showTo(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 || b.Len() > 4000 {
		b.WriteString("...")
		return
	}
	t := v.Type()
	if t.ConvertibleTo(timeT) && t.Kind() == reflect.Struct {
		b.WriteString(v.Convert(timeT).Interface().(time.Time).Format(time.RFC3339Nano))
		return
	}
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		showTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(t.Field(i).Name + ":")
			showTo(b, v.Field(i), depth+1)
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			showTo(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("map[")
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(b, "%q:", k.String())
			showTo(b, v.MapIndex(k), depth+1)
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

// deepCopy of a value (containers are copied, nil-ness kept).
func deepCopy(v reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(t.Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			out.Set(p.Convert(t))
		}
	case reflect.Struct:
		if t.ConvertibleTo(timeT) {
			out.Set(v)
			return out
		}
		for i := 0; i < t.NumField(); i++ {
			out.Field(i).Set(deepCopy(v.Field(i)))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(t, v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(deepCopy(v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(t)
			for _, k := range v.MapKeys() {
				m.SetMapIndex(reflect.ValueOf(strings.Clone(k.String())).Convert(t.Key()), deepCopy(v.MapIndex(k)))
			}
			out.Set(m)
		}
	case reflect.String:
		out.SetString(strings.Clone(v.String()))
	default:
		out.Set(v)
	}
	return out
}
