package vrt

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/google/uuid"
	"pgregory.net/rapid"
)

// G draws values and documents. All randomness goes through rapid, so failures shrink.
type G struct {
	t *rapid.T

	RoundTrip  bool // values must survive encode-decode: no lossy corners
	BadUTF8    bool // strings may hold invalid UTF-8
	AllNull    bool // nil pointers wherever the type allows (ignores the known comma defect)
	depth      int
	PlainSafe  bool // stay within what the standard library treats the same way
	Dense      bool // prefer non-empty values
	NoNull     bool // documents without null
	NoDefaults bool
	NoUnknown  bool
	Full       bool // documents with every member present
	Sparse     bool
	SetIgn     bool // members tagged json:"-" get values as well
	NoFold     bool // unknown names are not case variants of known ones
	Big        int  // the next list or map of scalars gets that many elements more
}

func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	return rapid.IntRange(0, k-1).Draw(g.t, "n")
}

func (g *G) chance(num, den int) bool { return g.n(den) >= den-num }

func (g *G) style() Style {
	if g.chance(1, 2) {
		return canon
	}
	return func(n int) int { return g.n(n) }
}

var strPool = []string{"", "a", "abc", "hello world", "\"quoted\"", "back\\slash", "new\nline", "tab\there", "\x00\x01\x1f", "\u007f", "<html>&amp;", "naïve", "日本語", "😀🚀", "\u2028\u2029", "null", "true", "0", "{}", "[1,2]", "a/b", "'", "\r\n", "\\u0041", "%s%d", ",", ":", "\ufeff", "\ufffd", "ключ", "a,b", " lead", "trail "}

func (g *G) str() string {
	switch g.n(5) {
	case 0, 1:
		return strPool[g.n(len(strPool))]
	case 2:
		return strings.Repeat(strPool[g.n(len(strPool))], 1+g.n(5))
	case 3:
		k := g.n(8)
		var b strings.Builder
		for i := 0; i < k; i++ {
			b.WriteRune(g.rune())
		}
		return b.String()
	default:
		if g.chance(1, 10) {
			return strings.Repeat("x", 300+g.n(4000)) + strPool[g.n(len(strPool))]
		}
		if g.BadUTF8 && g.chance(1, 3) {
			return []string{"\xff", "a\xc3", "\xed\xa0\x80z", "ok\xfe\xffok", "\xf0\x9f\x98"}[g.n(5)]
		}
		return fmt.Sprintf("s%d", g.n(1000))
	}
}

func (g *G) rune() rune {
	switch g.n(6) {
	case 0, 1, 2:
		return rune(0x20 + g.n(0x5f))
	case 3:
		return rune(g.n(0x20))
	case 4:
		return rune(0x80 + g.n(0x2f00))
	default:
		return rune(0x10000 + g.n(0x5000))
	}
}

func (g *G) int(bits int) int64 {
	lo, hi := int64(math.MinInt64)>>(64-bits), int64(math.MaxInt64)>>(64-bits)
	switch g.n(8) {
	case 0:
		return 0
	case 1:
		return lo
	case 2:
		return hi
	case 3:
		return int64(g.n(20)) - 10
	case 4:
		return lo + int64(g.n(3))
	case 5:
		return hi - int64(g.n(3))
	default:
		return rapid.Int64Range(lo, hi).Draw(g.t, "i")
	}
}

func (g *G) uint(bits int) uint64 {
	hi := uint64(math.MaxUint64) >> (64 - bits)
	switch g.n(7) {
	case 0:
		return 0
	case 1:
		return hi
	case 2:
		return hi>>1 + uint64(g.n(2))
	case 3:
		return uint64(g.n(20))
	case 4:
		return hi - uint64(g.n(3))
	default:
		return rapid.Uint64Range(0, hi).Draw(g.t, "u")
	}
}

var floatPool = []float64{0, 1, -1, 0.5, -2.25, 0.1, 3.141592653589793, 1e-7, 1e20, 1e21, 123456789.125, -1e-9, 1e6, 1e-6, 100, 2.5e-8, 9007199254740993, 16777217, 1.0 / 3, 65504, 1e10}

func (g *G) float(bits int) float64 {
	var x float64
	switch g.n(5) {
	case 0, 1:
		x = floatPool[g.n(len(floatPool))]
	case 2:
		x = float64(g.n(2000000)-1000000) / 1000
	case 3:
		if bits == 32 {
			x = []float64{3.4e38, -3.4e38, 1e-30, -1e38, 1e38}[g.n(5)]
		} else {
			x = []float64{1e300, -1e300, 1e-300, 1.7e250, -3e-200}[g.n(5)]
		}
	default:
		x = rapid.Float64Range(-1e15, 1e15).Draw(g.t, "f")
		if x == 0 {
			x = 0 // no negative zero
		}
	}
	if bits == 32 {
		x = float64(float32(x))
	}
	if x == 0 {
		return 0
	}
	return x
}

var zones = []*time.Location{time.UTC, time.FixedZone("", 3*3600), time.FixedZone("", -(5*3600 + 1800)), time.FixedZone("", 14*3600)}

func (g *G) time() time.Time {
	switch g.n(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(0, 0).UTC()
	case 2:
		return time.Date(9999-g.n(2)*8000, time.December, 31, 23, 59, 59, 0, time.UTC)
	case 3:
		return time.Date(2000+g.n(40), time.Month(1+g.n(12)), 1+g.n(31), g.n(24), g.n(60), g.n(60), 0, zones[g.n(len(zones))])
	default:
		ns := []int{0, 1, 999999999, 120000000, 123456000, 500}[g.n(6)]
		return time.Date(1900+g.n(200), time.Month(1+g.n(12)), 1+g.n(28), g.n(24), g.n(60), g.n(60), ns, zones[g.n(len(zones))])
	}
}

func (g *G) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.n(256))
	}
	return b
}

func (g *G) uuid() (u uuid.UUID) {
	if g.chance(1, 6) {
		return
	}
	copy(u[:], g.bytes(4))
	u[15] = byte(g.n(256))
	u[8] = byte(g.n(256))
	return
}

const maxDepth = 4

func (g *G) key(used map[string]bool) string {
	for i := 0; ; i++ {
		k := g.str()
		if i > 3 {
			k = fmt.Sprintf("k%d", i)
		}
		if len(k) > 100 {
			k = k[:50]
		}
		k = toValid(k)
		if !used[k] {
			used[k] = true
			return k
		}
	}
}

func (g *G) length() int {
	if g.depth > maxDepth {
		return 0
	}
	switch g.n(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3, 4:
		return g.n(4)
	default:
		return g.n(9)
	}
}

// big tells how many elements more a list or map of scalars gets, once.
func (g *G) big(d *Desc) int {
	if !d.Elem.scalar() {
		return 0
	}
	n := g.Big
	g.Big = 0
	return n
}

func bigKey(i int) string { return "~" + strconv.Itoa(i) }

// Value fills v with a generated value.
func (g *G) Value(d *Desc, v reflect.Value) {
	g.value(d, v, "", g.RoundTrip && d.Reg != nil && d.Reg.Alias)
}

// value: forced - pointers may not be nil.
func (g *G) value(d *Desc, v reflect.Value, layout string, forced bool) {
	g.depth++
	defer func() { g.depth-- }()
	switch d.K {
	case DBool:
		v.SetBool(g.n(2) == 1)
	case DString:
		v.SetString(g.str())
	case DInt:
		v.SetInt(g.int(d.Bits))
	case DUint:
		v.SetUint(g.uint(d.Bits))
	case DFloat:
		v.SetFloat(g.float(d.Bits))
	case DTime:
		t := g.time()
		if layout != "" && (g.RoundTrip || g.n(2) == 0) {
			l := layoutOf(layout)
			for i := 0; i < 3; i++ {
				if x, err := time.Parse(l, t.Format(l)); err == nil {
					t = x
				} else {
					t = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
				}
			}
		}
		v.Set(reflect.ValueOf(t).Convert(d.T))
	case DUUID:
		v.Set(reflect.ValueOf(g.uuid()).Convert(d.T))
	case DBytes:
		k := g.n(4)
		if forced && k == 0 {
			k = 1
		}
		switch k {
		case 0:
			v.Set(reflect.Zero(d.T))
		case 1:
			v.Set(reflect.ValueOf([]byte{}).Convert(d.T))
		default:
			v.Set(reflect.ValueOf(g.bytes(1 + g.n(9))).Convert(d.T))
		}
	case DByteArr:
		if g.n(4) == 0 {
			v.Set(reflect.Zero(d.T))
			return
		}
		reflect.Copy(v, reflect.ValueOf(g.bytes(v.Len())))
	case DSlice:
		if g.chance(1, 6) && !forced {
			v.Set(reflect.Zero(d.T))
			return
		}
		n := g.length()
		big := g.big(d)
		s := reflect.MakeSlice(d.T, n, n+g.n(3)+big)
		for i := 0; i < n; i++ {
			g.elem(d.Elem, s.Index(i))
		}
		for i := 0; i < big; i++ {
			// the same value many times
			x := reflect.Zero(d.Elem.T)
			if n > 0 {
				x = s.Index(i % n)
			}
			s = reflect.Append(s, x)
		}
		v.Set(s)
	case DArray:
		for i := 0; i < v.Len(); i++ {
			g.elem(d.Elem, v.Index(i))
		}
	case DMap:
		if g.chance(1, 6) && !forced {
			v.Set(reflect.Zero(d.T))
			return
		}
		m := reflect.MakeMap(d.T)
		used := map[string]bool{}
		for i := g.length(); i > 0; i-- {
			x := reflect.New(d.Elem.T).Elem()
			g.elem(d.Elem, x)
			m.SetMapIndex(reflect.ValueOf(g.key(used)).Convert(d.T.Key()), x)
		}
		for i := g.big(d); i > 0; i-- {
			m.SetMapIndex(reflect.ValueOf(bigKey(i)).Convert(d.T.Key()), reflect.Zero(d.Elem.T))
		}
		v.Set(m)
	case DPtr:
		if !forced && (g.depth > maxDepth || g.chance(1, 3)) {
			v.Set(reflect.Zero(d.T))
			return
		}
		p := reflect.New(d.T.Elem())
		g.value(d.Elem, p.Elem(), layout, true)
		v.Set(p.Convert(d.T))
	case DStruct:
		g.members(d, v, false)
	}
}

func (g *G) elem(d *Desc, v reflect.Value) {
	forced := d.Named && d.K != DStruct || d.K == DMap
	g.value(d, v, "", forced)
}

// members fills a struct. A nil pointer that is written as null before any other member of the object
// makes the generated encoder lose a comma (a known finding), so such pointers are not nil.
func (g *G) members(d *Desc, v reflect.Value, wrote bool) {
	if g.SetIgn {
		for _, f := range d.Ign {
			g.value(f.D, v.FieldByIndex(f.Index), "", false)
		}
	}
	for _, f := range d.Fields {
		fv := v.FieldByIndex(f.Index)
		if f.Whole {
			g.members(f.D, fv, false)
			for i := 0; g.RoundTrip && i < 20 && deepEmpty(f.D, fv); i++ {
				// an embedded zero struct is not written at all: required and default members would not survive
				g.members(f.D, fv, false)
			}
			continue
		}
		forced := false
		if f.D.K == DPtr {
			if !wrote && !f.Omit && !g.AllNull {
				forced = true
			}
			if g.RoundTrip && (f.Req || f.D.Named && !f.Omit) {
				forced = true
			}
		}
		if g.RoundTrip && (f.Req || f.nullUnspecified() && !f.Omit) {
			forced = true
		}
		g.value(f.D, fv, f.Layout, forced)
		if g.RoundTrip && f.Req && f.D.K == DByteArr && fv.IsZero() {
			fv.Index(0).SetUint(1) // a zero byte array is written as null, which is no value for a required member
		}
		if g.RoundTrip && f.Omit && f.HasDef && fv.IsZero() {
			f.setDefault(fv)
		}
		if !f.Omit && !(f.D.K == DPtr && fv.IsNil()) {
			wrote = true
		} else if f.Omit && f.present(fv) == must {
			wrote = true
		}
	}
}

// Doc draws a document that the type accepts.
func (g *G) Doc(d *Desc) *Node { return g.doc(d, "") }

func (g *G) doc(d *Desc, layout string) *Node {
	g.depth++
	defer func() { g.depth-- }()
	switch d.K {
	case DBool:
		return nBool(g.n(2) == 1)
	case DString:
		return nStr(toValid(g.str()))
	case DInt:
		return nNum(strconv.FormatInt(g.int(d.Bits), 10))
	case DUint:
		return nNum(strconv.FormatUint(g.uint(d.Bits), 10))
	case DFloat:
		x := g.float(d.Bits)
		f := []byte{'g', 'f', 'e', 'E'}[g.n(4)]
		if math.Abs(x) > 1e30 || x != 0 && math.Abs(x) < 1e-15 {
			f = 'g'
		}
		return nNum(strconv.FormatFloat(x, f, -1, d.Bits))
	case DTime:
		t := g.time()
		if layout != "" {
			l := layoutOf(layout)
			if _, err := time.Parse(l, t.Format(l)); err != nil {
				// a layout with the name of the zone
				t = t.UTC()
			}
			return nStr(t.Format(l))
		}
		switch g.n(4) {
		case 1:
			return nStr(t.Format(timeFormats[2]))
		case 2:
			return nStr(t.Format(timeFormats[3]))
		}
		return nStr(t.Format(time.RFC3339Nano))
	case DUUID:
		return nStr(g.uuid().String())
	case DBytes:
		return nStr(base64.StdEncoding.EncodeToString(g.bytes(g.n(10))))
	case DByteArr:
		return nStr(base64.StdEncoding.EncodeToString(g.bytes(d.T.Len())))
	case DSlice, DArray:
		n := g.length()
		if d.K == DArray {
			n = d.T.Len()
		}
		a := nArr()
		for i := 0; i < n; i++ {
			a.Arr = append(a.Arr, g.docElem(d.Elem))
		}
		if d.K == DSlice && n > 0 {
			for i := g.big(d); i > 0; i-- {
				x := *a.Arr[i%n]
				a.Arr = append(a.Arr, &x)
			}
		}
		return a
	case DMap:
		o := nObj()
		used := map[string]bool{}
		for i := g.length(); i > 0; i-- {
			o.add(g.key(used), g.docElem(d.Elem))
		}
		if n := len(o.Keys); n > 0 {
			for i := g.big(d); i > 0; i-- {
				x := *o.Vals[i%n]
				o.add(bigKey(i), &x)
			}
		}
		return o
	case DPtr:
		return g.doc(d.Elem, layout)
	case DStruct:
		o := nObj()
		g.docMembers(d, o)
		if !d.Strict && !g.NoUnknown && g.chance(1, 3) {
			g.addUnknown(d, o)
		}
		if len(o.Keys) > 1 && g.n(2) == 1 {
			g.shuffle(o)
		}
		return o
	}
	panic("doc")
}

func (g *G) shuffle(o *Node) {
	for i := len(o.Keys) - 1; i > 0; i-- {
		j := g.n(i + 1)
		o.Keys[i], o.Keys[j] = o.Keys[j], o.Keys[i]
		o.Vals[i], o.Vals[j] = o.Vals[j], o.Vals[i]
	}
}

func (g *G) docElem(d *Desc) *Node {
	if !g.NoNull && d.nullableElem() && (g.chance(1, 6) || g.depth > maxDepth) {
		return nNull()
	}
	return g.doc(d, "")
}

func (g *G) docMembers(d *Desc, o *Node) {
	for _, f := range d.Fields {
		if f.Whole {
			g.docMembers(f.D, o)
			continue
		}
		if !f.Req && !g.Full {
			k := g.n(8)
			if g.depth > maxDepth || g.Sparse && k < 6 {
				k = 0
			}
			if k == 0 {
				continue
			}
			if k == 1 && f.nullAbsent() && !f.nullUnspecified() && !g.NoNull {
				o.add(f.JSON, nNull())
				continue
			}
		}
		if g.depth > maxDepth+1 && f.D.K == DPtr && !f.Req {
			continue
		}
		o.add(f.JSON, g.doc(f.D, f.Layout))
	}
}

// unknownKey draws a member name the struct does not know; near misses of known names are likely.
func (g *G) unknownKey(d *Desc) string {
	known := d.allKeys()
	var names []string
	for _, f := range d.Fields {
		if !f.Whole {
			names = append(names, f.JSON)
		}
	}
	for i := 0; ; i++ {
		var k string
		switch g.n(7) {
		case 0:
			k = "unknown"
		case 1:
			k = []string{"", "-", "", d.goName(g)}[g.n(4)]
		case 2, 3, 4, 5:
			if len(names) == 0 {
				k = "x"
				break
			}
			k = names[g.n(len(names))]
			rs := []rune(k)
			switch g.n(7) {
			case 0:
				k += "x"
			case 1:
				k = string(rs[:len(rs)-1])
			case 2:
				k = strings.ToUpper(k)
			case 3:
				k = string(rs[:len(rs)-1]) + string(rs[len(rs)-1]+1)
			case 4:
				k = " " + k
			case 5:
				k = string(rs[0]+1) + string(rs[1:])
			default:
				k += k
			}
		default:
			k = toValid(g.str())
		}
		if i > 5 {
			k = fmt.Sprintf("unknown%d", i)
		}
		if !known[k] && !(g.NoFold && foldsTo(known, k)) {
			return k
		}
	}
}

// goName is the Go name of some member, ignored ones first.
func (d *Desc) goName(g *G) string {
	l := d.Ign
	if len(l) == 0 {
		l = d.Fields
	}
	if len(l) == 0 {
		return "Name"
	}
	return l[g.n(len(l))].Go
}

func foldsTo(known map[string]bool, k string) bool {
	for x := range known {
		if strings.EqualFold(x, k) {
			return true
		}
	}
	return false
}

func (g *G) addUnknown(d *Desc, o *Node) {
	for i := 1 + g.n(2); i > 0; i-- {
		k := g.unknownKey(d)
		if o.get(k) == nil {
			o.add(k, g.any(0))
		}
	}
}

// any JSON value.
func (g *G) any(depth int) *Node {
	k := g.n(7)
	if depth > 2 && k > 4 {
		k -= 3
	}
	switch k {
	case 0:
		return nNull()
	case 1:
		return nBool(g.n(2) == 1)
	case 2:
		return nNum(strconv.FormatInt(g.int(64), 10))
	case 3:
		return nNum(strconv.FormatFloat(g.float(64), 'g', -1, 64))
	case 4:
		return nStr(toValid(g.str()))
	case 5:
		a := nArr()
		for i := g.n(4); i > 0; i-- {
			a.Arr = append(a.Arr, g.any(depth+1))
		}
		return a
	default:
		o := nObj()
		used := map[string]bool{}
		for i := g.n(4); i > 0; i-- {
			o.add(g.key(used), g.any(depth+1))
		}
		return o
	}
}
