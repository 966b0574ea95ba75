package schema

import (
	"fmt"
	"math/rand"
	"strings"
)

// Cell is one supported (form, element) combination, either for a struct field or for a named top-level type.
type Cell struct{ Form, Atom string }

func (c Cell) String() string { return c.Form + ":" + c.Atom }

var Basics = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

func isBasic(s string) bool {
	for _, b := range Basics {
		if b == s {
			return true
		}
	}
	return false
}

func cells(form string, groups ...string) []Cell {
	var r []Cell
	for _, g := range groups {
		for _, a := range strings.Fields(g) {
			if a == "B" {
				for _, b := range Basics {
					r = append(r, Cell{form, b})
				}
				continue
			}
			r = append(r, Cell{form, a})
		}
	}
	return r
}

// Atoms: basic kinds, time, uuid, and named helper classes
//
//	struct      tagged struct                 ext.struct ext.slice ext.map ext.str ext.int ext.tstr
//	slice/strslice/arr/map/bytes tagged named containers
//	TB / UB     tagged / untagged named basic types
//	TTime TUUID TAlias tagged transit types over time.Time, uuid.UUID and a struct
//	PInt PStr   untagged named pointer types
//	USlice UMap untagged named containers, UStruct untagged struct (inherits)
func FieldCells() []Cell {
	var r []Cell
	add := func(c []Cell) { r = append(r, c...) }
	add(cells("v", "B time uuid struct slice strslice arr map bytes TB UB PInt PStr USlice UMap ext.struct ext.slice ext.map ext.str ext.int ext.tstr"))
	add(cells("ptr", "B time uuid struct arr TB UB PInt PStr ext.struct ext.slice ext.map ext.tstr"))
	add(cells("sl", "B byte time struct slice strslice arr TB TUUID TAlias UB USlice ext.struct ext.slice ext.map ext.tstr"))
	add(cells("slptr", "B struct arr bytes TB TTime TUUID TAlias UB ext.struct ext.slice ext.map ext.tstr"))
	add(cells("arr", "B byte time slice strslice arr TB TUUID UB USlice"))
	add(cells("slsl", "B time struct slice strslice arr map bytes TB TTime TUUID TAlias UB ext.struct ext.slice ext.map ext.tstr"))
	for _, f := range []string{"map", "mapn", "mapptr"} {
		add(cells(f, "B struct TB TAlias UB ext.struct ext.slice ext.map ext.tstr"))
	}
	add(cells("mapnptr", "B struct TB TAlias UB ext.struct ext.slice ext.map ext.tstr"))
	add(cells("ptrptr", "B time uuid"))
	add(cells("ptrarr", "B time slice strslice arr TB TUUID UB USlice"))
	add(cells("ptrptrarr", "int string time"))
	add(cells("slptrarr", "B time slice arr map TB UB"))
	add(cells("slslptr", "B struct arr bytes TB TTime TUUID TAlias UB ext.struct ext.slice ext.map ext.tstr"))
	return r
}

func TopCells() []Cell {
	var r []Cell
	add := func(c []Cell) { r = append(r, c...) }
	add(cells("v", "B time uuid struct slice strslice arr bytes TB TTime TUUID TAlias ext.struct ext.slice ext.map ext.tstr"))
	add(cells("sl", "B byte time struct TB TUUID TAlias UB UStruct ext.struct ext.str ext.int ext.tstr"))
	add(cells("arr", "B byte time struct TB TAlias UB UStruct ext.struct ext.tstr"))
	for _, f := range []string{"map", "mapn"} {
		add(cells(f, "B struct TB TAlias UB ext.struct ext.slice ext.map ext.tstr"))
	}
	add(cells("mapptr", "bool int int64 uint uint64 float64 struct TAlias ext.struct ext.slice ext.map ext.tstr"))
	add(cells("mapnptr", "bool int int64 uint uint64 float64 struct TAlias ext.struct ext.slice ext.map ext.tstr"))
	add(cells("slslarr", "B time slice strslice arr map bytes TB TTime TUUID UB"))
	return r
}

// Options of batch generation.
type Options struct {
	Strict   float64 // probability that a struct is strict
	Sweeps   int     // how many times every cell is dealt
	Required float64
	Default  float64
	Omit     float64
	Exotic   float64 // probability of an unusual json name
	PerCase  int     // dealt cells per case
	NoUtf    bool
	Extra    []Cell  // further field cells to deal
	Embeds   int     // rounds of embedding structs per case; 0 - every kind with probability 1/2
	Ignored  float64 // probability of a json:"-" member in a struct
	Hostile  float64 // probability of a name that also occurs in the generated code
	Spell    float64 // probability of each other spelling of the same declaration (comments, foreign tags, lengths, no name)
	Tails    float64 // probability of other declarations in a file
}

func DefaultOptions() Options {
	return Options{Strict: .3, Sweeps: 1, Required: .12, Default: .3, Omit: .35, Exotic: .2, PerCase: 36, Ignored: .12, Spell: .06}
}

// Batch generates cases that jointly cover every cell Sweeps times.
func Batch(seed int64, o Options) []*Case {
	r := rand.New(rand.NewSource(seed))
	var fc, tc []Cell
	for i := 0; i < o.Sweeps; i++ {
		fc = append(fc, FieldCells()...)
		tc = append(tc, TopCells()...)
	}
	fc = append(append(fc, AttrCells()...), o.Extra...)
	r.Shuffle(len(fc), func(i, j int) { fc[i], fc[j] = fc[j], fc[i] })
	r.Shuffle(len(tc), func(i, j int) { tc[i], tc[j] = tc[j], tc[i] })
	n := (len(fc) + len(tc) + o.PerCase - 1) / o.PerCase
	var out []*Case
	for i := 0; i < n; i++ {
		f := fc[i*len(fc)/n : (i+1)*len(fc)/n]
		t := tc[i*len(tc)/n : (i+1)*len(tc)/n]
		out = append(out, GenCase(r, fmt.Sprintf("c%03d", i), f, t, o))
	}
	return out
}

type gen struct {
	r       *rand.Rand
	o       Options
	c       *Case
	helpers []*Type
	names   map[string]bool
	structs []string // names of available tagged structs in the first file
	small   []string
	tb, ub  []string
	tbKind  map[string]string
	kstr    string
	uss     []string
	exts    map[string]string
	seq     int
	usesExt bool
	extSelf bool
}

func (g *gen) p(x float64) bool { return g.r.Float64() < x }

func pick[T any](g *gen, s []T) T { return s[g.r.Intn(len(s))] }

var nouns = []string{"Id", "Name", "Value", "Data", "Items", "Total", "State", "Meta", "Owner", "Kind", "Price", "Tags", "Address", "Created", "Node", "Key", "Err", "Result", "List", "Text", "Flag", "Code", "Rate", "Body", "Note", "URL", "V", "S", "O", "A", "Elem", "Type", "Len", "Buf", "X", "Time", "String", "Offset", "Limit"}

func (g *gen) typeName(prefix string) string {
	if g.p(g.o.Hostile / 3) {
		if n := pick(g, hostileTypes); !g.names[n] {
			g.names[n] = true
			return n
		}
	}
	for {
		g.seq++
		n := fmt.Sprintf("%s%d", prefix, g.seq)
		if g.p(.5) {
			n = fmt.Sprintf("%s%s%d", prefix, pick(g, nouns), g.seq)
		}
		if !g.names[n] {
			g.names[n] = true
			return n
		}
	}
}

func (g *gen) tags(strict bool) string {
	if strict {
		return pick(g, []string{"strict", "strict", "strict,json", "json,strict", "STRICT"})
	}
	return pick(g, []string{"json", "json", "easy", "generate", "yes", "json,other"})
}

func (g *gen) structTags() string { return g.tags(g.p(g.o.Strict)) }

func (g *gen) fieldName(used map[string]bool) string {
	if g.p(g.o.Hostile) {
		if n := pick(g, hostileFields); !used[n] && !g.names[n] {
			used[n] = true
			return n
		}
	}
	for i := 0; ; i++ {
		n := pick(g, nouns)
		if g.p(.6) || i > 3 {
			n += pick(g, nouns)
		}
		if g.p(.3) || i > 6 {
			n += fmt.Sprint(g.r.Intn(100))
		}
		if g.p(.05) {
			n = "F_" + n
		}
		// a field may not share its name with a type method that gets generated
		switch n {
		case "String", "Reset", "IsZero":
			continue
		}
		if !used[n] && !g.names[n] {
			used[n] = true
			return n
		}
	}
}

var exoticNames = []string{"x-y", "a.b", "with space", "$ref", "@type", "ünïcode", "имя", "ключ_1", "名前", "a/b", "100", "7up", "_", "__x", "snake_case_long_name_that_goes_on_and_on_and_on_and_on_0123456789", "CamelCase", "camelCase", "UPPER", "a:b", "#hash", "100%", "a+b", "q?", "[x]", "{y}", "(z)", "<lt>", "&amp", "~t", "*", "!", "a;b", "=", "^", "|", "err", "v", "s", "null", "true", "type", "func", "go", "key", "json", "strict"}

var hostileFields = strings.Fields("err v s o key ok result wantComma buf b i k _k _v data parser value jwriter fastjson fmt bytes strconv base64 time uuid string int nil true false len append error valueIsNotNull unpackObject newParsingError checkFields list l vl n x a Err V S O Key Value Result Parser Data Fmt Time UUID Error name Name nAME id Id ID _x __ Имя имя ключ naïve type_ range_ Func Type any iota make new cap copy panic byte rune bool uint8 float64 any_ Validate Marshal MarshalTo_ Unmarshal Fill T t w W r R Raw Get Put Visit Object Array Int String_ Reset_ commonBuffer jsonParser errors io unsafe writeTime")
var hostileTypes = strings.Fields("Item Node Value Writer Parser Result Err Data Key Map List Array Object Error Buffer Marshaler Тип Имя Pool myType node item entry Ünï X Y T A")

var heads = []string{"", "", "// Package doc.\n", "//go:build !never\n\n", "// Copyright\n\n// json:strict\n", "/* a\n   comment */\n\n"}
var tails = []struct{ imports, text string }{
	{"", "const tailConst = 1\n"},
	{"fmt", "func tailFunc(a int, b ...string) (string, error) { return fmt.Sprint(a, b), nil }\n"},
	{"", "type tailIface interface {\n\tM(int) string\n}\n"},
	{"", "type tailGen[T any] struct {\n\tV T\n}\n\nfunc (t tailGen[T]) Get() T { return t.V }\n"},
	{"", "type tailFn func(int) error\n\ntype tailChan chan int\n"},
	{"strings", "var tailVar = strings.Repeat(\"x\", 3)\n"},
	{"", "type tailAny struct {\n\tA any\n\tB func()\n\tC chan int\n\tD struct{ E int }\n}\n\nfunc (t *tailAny) String() string { return \"\" }\n"},
	{"", "// json: this is not a directive of a type\nvar tailVar2 = map[string]int{}\n"},
	{"", "func init() {\n\tvar x = struct{ a int }{1}\n\t_ = x\n}\n"},
	{"", "type tailAlias = int\n"},
}

// tail adds other declarations to a file.
func (g *gen) tail(f *File) {
	if !g.p(g.o.Tails) {
		return
	}
	f.Head = pick(g, heads)
	for _, i := range g.r.Perm(len(tails))[:1+g.r.Intn(3)] {
		f.Tail += strings.ReplaceAll(tails[i].text, "tail", "tail"+strings.ToUpper(f.Name[:1])) + "\n"
		if m := tails[i].imports; m != "" {
			f.Imports = append(f.Imports, `"`+m+`"`)
		}
	}
}

func snake(s string) string {
	var b strings.Builder
	for i, c := range s {
		if c >= 'A' && c <= 'Z' {
			if i > 0 {
				b.WriteByte('_')
			}
			c += 32
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (g *gen) jsonName(goName string, used map[string]bool) string {
	for i := 0; ; i++ {
		var n string
		switch {
		case g.p(g.o.Exotic):
			n = pick(g, exoticNames)
			if g.o.NoUtf && !ascii(n) {
				continue
			}
		case g.p(.15):
			n = goName
		case g.p(.1):
			n = strings.ToLower(goName)
		case g.p(.06) && len(used) > 0:
			// near-duplicates of another name: prefix, suffix or case variant
			keys := sortedKeys(used)
			n = pick(g, keys)
			switch g.r.Intn(3) {
			case 0:
				n += pick(g, []string{"s", "_", "2"})
			case 1:
				if len(n) > 1 && ascii(n) {
					n = n[:len(n)-1]
				}
			default:
				n = strings.ToUpper(n)
			}
			if n == "" || strings.HasSuffix(n, " ") {
				continue
			}
		default:
			n = snake(goName)
		}
		if i > 20 {
			n = fmt.Sprintf("%s_%d", n, i)
		}
		if n == "-" || n == "" || used[n] {
			continue
		}
		used[n] = true
		return n
	}
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	// insertion sort keeps this dependency-free
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// atomType resolves an atom to a Go type expression of the case.
func (g *gen) atomType(atom string) string {
	if isBasic(atom) || atom == "byte" || atom == "[]byte" {
		return atom
	}
	if strings.HasPrefix(atom, "ext.") {
		g.usesExt = true
		return g.c.ExtQual() + "." + g.exts[atom[4:]]
	}
	switch atom {
	case "time":
		return "time.Time"
	case "uuid":
		return "uuid.UUID"
	case "struct":
		return pick(g, g.small)
	case "TB":
		return pick(g, g.tb)
	case "UB":
		return pick(g, g.ub)
	case "UStruct":
		return pick(g, g.uss)
	}
	for _, h := range g.helpers {
		if h.Cell == "atom:"+atom {
			return h.Name
		}
	}
	panic("unknown atom " + atom)
}

func (g *gen) formType(form, atom string) string {
	return g.formTypeOf(form, g.atomType(atom))
}

// length spells the length of an array.
func (g *gen) length(n int) string {
	if g.p(g.o.Spell) && g.c.Consts && lengths[n] != nil {
		return pick(g, lengths[n])
	}
	return fmt.Sprint(n)
}

func (g *gen) formTypeOf(form, a string) string {
	switch form {
	case "v":
		return a
	case "ptr":
		return "*" + a
	case "sl":
		return "[]" + a
	case "slptr":
		return "[]*" + a
	case "arr":
		return fmt.Sprintf("[%s]%s", g.length(pick(g, []int{1, 2, 3, 3, 4, 7})), a)
	case "slsl":
		return "[][]" + a
	case "slslarr":
		return fmt.Sprintf("[][%d]%s", 1+g.r.Intn(3), a)
	case "map":
		return "map[string]" + a
	case "mapn":
		return "map[" + g.kstr + "]" + a
	case "mapptr":
		return "map[string]*" + a
	case "mapnptr":
		return "map[" + g.kstr + "]*" + a
	case "ptrptr":
		return "**" + a
	case "ptrarr":
		return fmt.Sprintf("*[%s]%s", g.length(pick(g, []int{1, 2, 3, 5})), a)
	case "ptrptrarr":
		return fmt.Sprintf("**[%d]%s", 1+g.r.Intn(3), a)
	case "slptrarr":
		return fmt.Sprintf("[]*[%d]%s", 1+g.r.Intn(3), a)
	case "slslptr":
		return "[][]*" + a
	}
	if f, ok := oneSided[form]; ok {
		return strings.ReplaceAll(f, "N", fmt.Sprint(1+g.r.Intn(3))) + a
	}
	panic(form)
}

func (g *gen) defaultFor(kind string) (string, bool) {
	switch kind {
	case "bool":
		return pick(g, []string{"true", "true", "false"}), true
	case "string":
		return pick(g, []string{"abc", "x", "hello world", "0", `say "hi"`, "naïve-Ω", "a/b:c;d", "%d", "null", "true", "'q'", "tab", "a,b", ",", `back\slash`, `\n`, "line\nbreak", "tab\t", "back`tick", "\u2028", "omitempty", " ", "\x01", "юникод", `"`, "{}", "//", "/*", "%s%v", "😀"}), true
	case "int", "int64":
		return pick(g, []string{"1", "-1", "100500", "0", "9223372036854775807", "-9223372036854775808", "42", "9007199254740993", "-4611686018427387905"}), true
	case "int8":
		return pick(g, []string{"1", "-1", "127", "-128", "42"}), true
	case "int16":
		return pick(g, []string{"1", "-1", "32767", "-32768", "300"}), true
	case "int32":
		return pick(g, []string{"1", "-1", "2147483647", "-2147483648", "70000"}), true
	case "uint", "uint64":
		return pick(g, []string{"1", "18446744073709551615", "42", "9223372036854775809"}), true
	case "uint8":
		return pick(g, []string{"1", "255", "7"}), true
	case "uint16":
		return pick(g, []string{"1", "65535", "300"}), true
	case "uint32":
		return pick(g, []string{"1", "4294967295", "70000"}), true
	case "float32":
		return pick(g, []string{"1", "0.5", "-2.25", "1e3", "16777217", "0.1", "3.4028234663852886e38", "1e-45", "0.33333334"}), true
	case "float64":
		return pick(g, []string{"1", "0.5", "-2.25", "1e100", "3.14159", "0.1234567890123456", "-123456789.12345678", "5e-324", "1.7976931348623157e308", "0.1", "9007199254740993", "1E-7"}), true
	}
	return "", false
}

var layouts = []string{"2006-01-02", "02.01.2006 15:04", "2006-01-02T15:04:05Z07:00", "15:04:05", "Jan _2 15:04:05 2006", "2006-01-02 15:04:05.000000 -0700", "Mon, 02 Jan 2006 15:04:05 -0700", "2006,01,02", "20060102T150405.000Z0700", "2006-01-02 15:04:05,000 Z07:00", "_2/1/06 3:04PM", "2006/002 15h04", " 2006-01-02 15:04:05", "2006-01-02 ", "\t15:04:05.000  ", "time 2006-01-02", "2006-01-02 15:04:05 'Z07:00'", "at \"15:04\" on 2006-01-02", "2006-01-02T15:04:05.999999999", "time.2006.01.02", "2006\\01\\02"}
var constLayouts = []string{"time.RFC3339", "time.RFC3339Nano", "time.RFC1123Z", "time.Kitchen", "time.ANSIC", "time.RFC822Z", "time.DateTime", "time.DateOnly", "time.StampMicro", "time.Layout", "time.UnixDate", "time.RubyDate", "time.RFC850", "time.RFC822", "time.RFC1123", "time.Stamp", "time.StampMilli", "time.StampNano", "time.TimeOnly"}

func (g *gen) mkField(c Cell, usedGo, usedJSON map[string]bool) *Field {
	form, attr, special := strings.Cut(c.Form, "+")
	c.Form = form
	f := &Field{Cell: "field:" + c.String()}
	f.Type = g.formType(c.Form, c.Atom)
	f.Name = g.fieldName(usedGo)
	f.JSON = g.jsonName(f.Name, usedJSON)
	kind := c.Atom
	if c.Atom == "TB" || c.Atom == "UB" {
		kind = g.tbKind[strings.TrimLeft(f.Type, "*")]
	}
	if c.Atom == "PInt" || c.Atom == "PStr" {
		kind = g.tbKind[strings.TrimLeft(f.Type, "*")]
	}
	switch {
	case g.p(g.o.Required):
		f.Required = true
	case g.p(g.o.Omit):
		f.Omit = true
	}
	if (c.Form == "v" || c.Form == "ptr") && g.p(g.o.Default) {
		if d, ok := g.defaultFor(kind); ok {
			f.Default, f.HasDef = d, true
		}
	}
	if c.Atom == "time" && (c.Form == "v" || c.Form == "ptr") && g.p(.5) {
		f.Layout = pick(g, append(append([]string{}, layouts...), constLayouts...))
	}
	f.Quoted = g.p(.05)
	g.vary(f, usedGo, usedJSON)
	if special {
		// the attributes are dealt as well
		f.Omit, f.Required = strings.Contains(attr, "o"), strings.Contains(attr, "r")
		if f.HasDef = strings.Contains(attr, "d"); !f.HasDef {
			f.Default = ""
		} else if f.Default == "" {
			f.Default, f.HasDef = g.defaultFor(kind)
		}
		f.Layout = ""
		if strings.Contains(attr, "l") {
			f.Layout = pick(g, layouts)
		}
		if strings.Contains(attr, "c") {
			f.Layout = pick(g, constLayouts)
		}
	}
	return f
}

var foreignTags = []string{`db:"id"`, `yaml:"x,omitempty"`, `xml:"x,attr"`, `bson:"_id"`, `validate:"required,min=1"`, `jsonschema:"title=x"`, `JSON:"upper"`, `xjson:"y"`, `json2:"z"`, `description:"say \"hi\" json:x"`, `layouts:"x"`, `defaults:"1"`, `k:""`}
var memberComments = []string{"// the member\n", "// json:strict\n", "/* block */ ", "// Deprecated: not used.\n\t\t//json:custom\n", "\n"}
var memberTrails = []string{" // trailing", " // json:custom", " /* json:encode */", " // `json:\"x\"`", ";"}
var unknownOptions = []string{",foo", ",omitzero2", ",", ",Omitempty", ",opt=1"}

// vary gives the declaration of a member another spelling that means the same.
func (g *gen) vary(f *Field, usedGo, usedJSON map[string]bool) {
	if g.o.Spell == 0 {
		return
	}
	if g.p(g.o.Spell) {
		f.Before = pick(g, foreignTags)
	}
	if g.p(g.o.Spell) {
		if f.After = pick(g, foreignTags); f.After == f.Before {
			f.After = ""
		}
	}
	if g.p(g.o.Spell) {
		f.Doc = pick(g, memberComments)
	}
	if g.p(g.o.Spell) {
		f.Trail = pick(g, memberTrails)
	}
	if g.p(g.o.Spell / 2) {
		f.OptsPre = pick(g, unknownOptions)
	}
	switch {
	case g.p(g.o.Spell/2) && !usedJSON["-"]:
		delete(usedJSON, f.JSON)
		f.JSON = "-"
		usedJSON["-"] = true
	case g.p(g.o.Spell) && (f.JSON == f.Name || !usedJSON[f.Name]) && !(g.o.NoUtf && !ascii(f.Name)):
		// the member takes its own name
		delete(usedJSON, f.JSON)
		f.NoName, f.JSON = true, f.Name
		usedJSON[f.Name] = true
		if g.p(.3) {
			// so can two
			also := g.fieldName(usedGo)
			if usedJSON[also] {
				break
			}
			f.Also = also
			usedJSON[also] = true
		}
	}
}

// AttrCells: every scalar member with every combination of its attributes. The form of the cell is followed by
// + and the letters of the attributes: o - omitempty, r - required, d - default, l - a layout, c - a layout constant.
func AttrCells() []Cell {
	var r []Cell
	for _, f := range []string{"v", "ptr"} {
		for _, a := range []string{"", "o", "r"} {
			for _, d := range []string{"", "d"} {
				r = append(r, cells(f+"+"+a+d, "B")...)
				r = append(r, cells(f+"+"+a+d, "TB UB")...)
			}
			for _, l := range []string{"", "l", "c"} {
				r = append(r, cells(f+"+"+a+l, "time")...)
			}
			r = append(r, cells(f+"+"+a, "uuid ext.tstr ext.struct struct arr PInt PStr")...)
		}
	}
	for _, a := range []string{"", "o", "r"} {
		for _, d := range []string{"", "d"} {
			r = append(r, cells("v+"+a+d, "PInt PStr")...)
		}
		r = append(r, cells("v+"+a, "slice strslice map bytes USlice UMap ext.slice ext.map ext.str ext.int")...)
	}
	return r
}

var ignoredTypes = []string{"string", "int64", "bool", "*int", "[]string", "float32", "uint8", "[]byte", "map[string]int", "time.Time", "*time.Time", "uuid.UUID", "[][]int64", "[]*bool", "map[string]*string", "**int64"}

func (g *gen) mkStruct(name, tags string, cs []Cell) *Type {
	t := &Type{Name: name, Tags: tags, Struct: true, Doc: g.r.Intn(5)}
	usedGo, usedJSON := map[string]bool{name: true}, map[string]bool{}
	for _, c := range cs {
		t.Fields = append(t.Fields, g.mkField(c, usedGo, usedJSON))
	}
	if g.p(g.o.Ignored) {
		f := &Field{Name: g.fieldName(usedGo), Type: pick(g, ignoredTypes), Ignored: true}
		if g.p(.4) {
			f.Also = g.fieldName(usedGo)
		}
		i := g.r.Intn(len(t.Fields) + 1)
		t.Fields = append(t.Fields[:i:i], append([]*Field{f}, t.Fields[i:]...)...)
	}
	return t
}

// cells used inside helper structs
var simpleCells = []Cell{}

func init() {
	simpleCells = append(simpleCells, cells("v", "B time uuid TB UB")...)
	simpleCells = append(simpleCells, cells("ptr", "B TB")...)
	simpleCells = append(simpleCells, cells("sl", "string int64 int float64 bool")...)
	simpleCells = append(simpleCells, cells("map", "string int64")...)
}

func GenCase(r *rand.Rand, name string, fc, tc []Cell, o Options) *Case {
	g := &gen{r: r, o: o, names: map[string]bool{}, tbKind: map[string]string{}, exts: map[string]string{}}
	c := &Case{Name: name}
	g.c = c
	c.ExtDir = pick(g, []string{"ext", "model", "dto"})
	if g.p(.3) {
		c.ExtAlias = "al" + c.ExtDir
	}
	g.mkExt()
	c.Consts = g.p(.5)

	// helpers
	hf := &File{Name: "types.go"}
	addH := func(t *Type, atom string) {
		t.Helper = true
		if atom != "" {
			t.Cell = "atom:" + atom
		}
		g.helpers = append(g.helpers, t)
	}
	for i := 0; i < 4; i++ {
		k := pick(g, Basics)
		if i == 0 {
			k = "string"
		}
		n := g.typeName("T")
		g.tb = append(g.tb, n)
		g.tbKind[n] = k
		addH(&Type{Name: n, Tags: g.tags(false), Form: k, Doc: g.r.Intn(5)}, "")
	}
	for i := 0; i < 4; i++ {
		k := pick(g, Basics)
		n := g.typeName("U")
		g.ub = append(g.ub, n)
		g.tbKind[n] = k
		addH(&Type{Name: n, Form: k}, "")
	}
	g.kstr = g.typeName("Key")
	addH(&Type{Name: g.kstr, Form: "string"}, "")
	if g.p(.4) {
		// map keys may also be of a tagged string type
		g.kstr = g.tb[0]
	}
	pk := pick(g, []string{"int", "int16", "int32", "int64", "uint8", "uint64", "float64", "bool"})
	pn := g.typeName("PI")
	g.tbKind[pn] = pk
	addH(&Type{Name: pn, Form: "*" + pk}, "PInt")
	ps := g.typeName("PS")
	g.tbKind[ps] = "string"
	addH(&Type{Name: ps, Form: "*string"}, "PStr")
	addH(&Type{Name: g.typeName("USl"), Form: "[]" + pick(g, []string{"int64", "string", "float64", "bool", "uint"})}, "USlice")
	addH(&Type{Name: g.typeName("UMp"), Form: "map[string]" + pick(g, []string{"int64", "string", "float64", "bool", "uint64"})}, "UMap")
	addH(&Type{Name: g.typeName("Sl"), Tags: g.tags(false), Form: "[]" + pick(g, []string{"int64", "float64", "bool", "uint", "uint64", "int"})}, "slice")
	addH(&Type{Name: g.typeName("StrSl"), Tags: g.tags(false), Form: "[]string"}, "strslice")
	addH(&Type{Name: g.typeName("Arr"), Tags: g.tags(false), Form: fmt.Sprintf("[%s]%s", g.length(1+g.r.Intn(3)), pick(g, []string{"int64", "float64", "bool", "uint", "string"}))}, "arr")
	addH(&Type{Name: g.typeName("Mp"), Tags: g.tags(false), Form: "map[string]" + pick(g, []string{"int64", "string", "float64", "bool", "uint64"})}, "map")
	addH(&Type{Name: g.typeName("Bts"), Tags: g.tags(false), Form: "[]byte"}, "bytes")
	addH(&Type{Name: g.typeName("TTm"), Tags: g.tags(false), Form: "time.Time"}, "TTime")
	addH(&Type{Name: g.typeName("TUu"), Tags: g.tags(false), Form: "uuid.UUID"}, "TUUID")
	for i := 0; i < 3; i++ {
		var cs []Cell
		for j := g.r.Intn(5); j >= 0; j-- {
			cs = append(cs, pick(g, simpleCells))
		}
		t := g.mkStruct(g.typeName("Sm"), g.structTags(), cs)
		g.small = append(g.small, t.Name)
		addH(t, "")
	}
	{
		// a struct nesting the small ones, available as an atom as well
		t := g.mkStruct(g.typeName("Mid"), g.structTags(), []Cell{{"v", "struct"}, {"v", pick(g, Basics)}, pick(g, []Cell{{"sl", "struct"}, {"map", "struct"}, {"ptr", "struct"}, {"slptr", "struct"}, {"mapptr", "struct"}})})
		g.small = append(g.small, t.Name)
		addH(t, "")
	}
	if g.p(.5) {
		// a struct that passes all processing to the struct it embeds
		in := g.small[g.r.Intn(len(g.small))]
		if g.p(.2) {
			g.usesExt = true
			in = g.c.ExtQual() + "." + g.exts["struct"]
		}
		t := &Type{Name: g.typeName("Pass"), Tags: pick(g, []string{"transit", "transit", "TRANSIT", "json,transit", "transit,json", "strict,transit"}), Struct: true, Doc: g.r.Intn(5), Cell: "transit struct"}
		t.Fields = []*Field{{Type: in, NoTag: true}}
		g.small = append(g.small, t.Name)
		addH(t, "")
		t.Cell = "transit struct"
	}
	addH(&Type{Name: g.typeName("Al"), Tags: g.tags(false), Form: g.small[g.r.Intn(3)]}, "TAlias")
	{
		t := g.mkStruct(g.typeName("Us"), "", []Cell{pick(g, simpleCells), pick(g, simpleCells)})
		g.uss = []string{t.Name}
		addH(t, "UStruct")
	}

	var types []*Type
	// top-level named types
	for _, tcell := range tc {
		t := &Type{Name: g.typeName("Top"), Tags: g.tags(tcell.Form != "v" && g.p(.15)), Doc: g.r.Intn(5), Cell: "top:" + tcell.String()}
		t.Form = g.formType(tcell.Form, tcell.Atom)
		types = append(types, t)
	}
	// structs
	for len(fc) > 0 {
		n := 1 + g.r.Intn(10)
		if g.p(.15) {
			n = 1 + g.r.Intn(40)
		}
		if n > len(fc) {
			n = len(fc)
		}
		t := g.mkStruct(g.typeName("St"), g.structTags(), fc[:n])
		fc = fc[n:]
		types = append(types, t)
		if g.p(.25) && len(t.Fields) <= 6 {
			g.small = append(g.small, t.Name)
		}
	}
	// dedicated shapes
	if g.p(.5) {
		types = append(types, &Type{Name: g.typeName("Empty"), Tags: g.structTags(), Struct: true})
	}
	types = append(types, g.recursive()...)
	types = append(types, g.embedding()...)
	types = append(types, g.directives()...)
	if g.p(.5) {
		types = append(types, g.second()...)
	}
	for _, d := range []string{"aa", "zz", pick(g, []string{"a_test", "z_test"})} {
		if g.p(.4) {
			c.Decoys = append(c.Decoys, d)
		}
	}
	if g.p(.3) {
		// a wide struct
		var cs []Cell
		for i, n := 0, pick(g, []int{66, 66, 66, 130, 130, 258})+g.r.Intn(10); i < n; i++ {
			cs = append(cs, pick(g, simpleCells))
		}
		types = append(types, g.mkStruct(g.typeName("Wide"), g.structTags(), cs))
	}
	hf.Types = append(append([]*Type{}, g.helpers...), types...)
	if g.p(.7) {
		// the order of declarations must not matter
		g.r.Shuffle(len(hf.Types), func(i, j int) { hf.Types[i], hf.Types[j] = hf.Types[j], hf.Types[i] })
	}
	// grouping of adjacent declarations
	group := 0
	for i := 0; i < len(hf.Types); {
		if !g.p(.3) {
			i++
			continue
		}
		group++
		n := 1 + g.r.Intn(6)
		start := i
		for j := 0; j < n && i < len(hf.Types); j++ {
			hf.Types[i].Group = group
			i++
		}
		if t := hf.Types[start]; t.Tags != "" && g.p(.3) {
			// the comment of the group speaks for all of its types: those that share the words of the first one
			same := 0
			for _, x := range hf.Types[start:i] {
				if strings.Join(x.TagWords(), ",") == strings.Join(t.TagWords(), ",") {
					same++
				} else {
					break
				}
			}
			for k, x := range hf.Types[start:i] {
				if k >= same {
					group++
					x.Group = group
				} else {
					x.GroupTags = true
				}
			}
		}
	}
	c.Files = []*File{hf}
	// a second file in the same package, using tagged types of the first one
	if g.p(.5) {
		f2 := &File{Name: "more.go"}
		q := &Type{Name: g.typeName("Cross"), Tags: g.structTags(), Struct: true, Cell: "cross-file"}
		ug, uj := map[string]bool{}, map[string]bool{}
		st := ""
		for _, h := range g.helpers {
			if h.Struct && h.Tags != "" {
				st = h.Name
			}
		}
		for _, cell := range []Cell{{"sl", "struct"}, {"slptr", "struct"}, {"map", "struct"}, {"mapptr", "struct"}, {"v", "string"}, {"sl", "int"}} {
			f := g.mkField(cell, ug, uj)
			if cell.Atom == "struct" {
				f.Type = g.formTypeOf(cell.Form, st)
			}
			q.Fields = append(q.Fields, f)
		}
		f2.Types = append(f2.Types, q)
		c.Files = append(c.Files, f2)
	}
	if !g.usesExt {
		c.Ext = nil
	}
	for _, f := range c.Files {
		g.tail(f)
	}
	if c.Ext != nil {
		g.tail(c.Ext)
	}
	return c
}

func (g *gen) mkExt() {
	f := &File{Name: "ext.go"}
	add := func(k, n string, t *Type) {
		t.Name = n
		g.exts[k] = n
		t.Cell = "atom:ext." + k
		f.Types = append(f.Types, t)
	}
	saved := g.names
	g.names = map[string]bool{}
	savedTB, savedUB := g.tb, g.ub
	var cs []Cell
	pool := append(append(cells("v", "B time uuid"), cells("ptr", "B")...), cells("sl", "string int64")...)
	for j := g.r.Intn(4); j >= 0; j-- {
		cs = append(cs, pick(g, pool))
	}
	st := g.mkStruct("EStruct", g.structTags(), cs)
	add("struct", "EStruct", st)
	add("slice", "ESlice", &Type{Tags: g.tags(false), Form: "[]" + pick(g, []string{"int64", "string", "float64"})})
	add("map", "EMap", &Type{Tags: g.tags(false), Form: "map[string]" + pick(g, []string{"int64", "string", "bool"})})
	add("str", "EStr", &Type{Form: "string"})
	add("int", "EInt", &Type{Form: pick(g, []string{"int32", "int", "int64", "uint16", "float64"})})
	add("tstr", "ETStr", &Type{Tags: g.tags(false), Form: pick(g, []string{"string", "int64", "bool", "float32", "uint16"})})
	base := g.mkStruct("EBase", g.tags(false), append(cs[:0:0], pick(g, pool), pick(g, pool)))
	base.dropIgnored()
	own := [][2]string{{"v", "EStruct"}, {"ptr", "EStruct"}, {"sl", "EStruct"}, {"slptr", "EStruct"}, {"slsl", "EStruct"}, {"map", "EStruct"}, {"mapptr", "EStruct"}, {"sl", "ESlice"}, {"v", "EMap"}, {"slsl", "EMap"},
		{"v", "EStr"}, {"ptr", "EInt"}, {"sl", "EStr"}, {"slptr", "EInt"}, {"arr", "EInt"}, {"map", "EStr"}, {"slsl", "EInt"}, {"v", "ETStr"}, {"ptr", "ETStr"}, {"sl", "ETStr"}, {"arr", "ETStr"}, {"map", "ETStr"}, {"mapptr", "ETStr"}}
	for g.p(.4) {
		// members of the package's own types have to be qualified where the struct is inlined
		ug, uj := map[string]bool{}, map[string]bool{}
		for _, fl := range base.Fields {
			ug[fl.Name], uj[fl.JSON] = true, true
		}
		x := pick(g, own)
		fl := g.mkField(Cell{x[0], "string"}, ug, uj)
		fl.Type, fl.HasDef, fl.Default, fl.Cell = g.formTypeOf(x[0], x[1]), false, "", "field:"+x[0]+"-own."+x[1]
		base.Fields = append(base.Fields, fl)
	}
	for i, fl := range base.Fields {
		fl.Name = fmt.Sprintf("Eb%d%s", i, fl.Name)
		fl.JSON = fmt.Sprintf("eb%d_%s", i, fl.JSON)
		fl.NoName, fl.Also = false, ""
	}
	if g.p(.2) {
		// a member of the struct's own name: then it cannot be inlined member by member
		base.Fields[g.r.Intn(len(base.Fields))].Name = "EBase"
		g.extSelf = true
	}
	add("base", "EBase", base)
	g.names = saved
	g.tb, g.ub = savedTB, savedUB
	g.c.Ext = f
}

func (g *gen) recursive() []*Type {
	n := g.typeName("Rec")
	t := &Type{Name: n, Tags: g.structTags(), Struct: true, Cell: "recursive", Doc: g.r.Intn(5)}
	ug, uj := map[string]bool{n: true}, map[string]bool{}
	// the first member is always written, so nil pointers may follow it
	first := g.mkField(Cell{"v", pick(g, Basics)}, ug, uj)
	first.Omit = false
	t.Fields = append(t.Fields, first)
	for _, form := range []string{"*%s", "[]%s", "[]*%s", "map[string]%s", "map[string]*%s"} {
		if !g.p(.5) {
			continue
		}
		f := &Field{Name: g.fieldName(ug), Type: fmt.Sprintf(form, n), Omit: g.p(.5), Cell: "field:rec"}
		f.JSON = g.jsonName(f.Name, uj)
		t.Fields = append(t.Fields, f)
	}
	out := []*Type{t}
	member := func(t *Type, typ string, ug, uj map[string]bool) {
		f := &Field{Name: g.fieldName(ug), Type: typ, Omit: g.p(.5), Cell: "field:rec"}
		f.JSON = g.jsonName(f.Name, uj)
		t.Fields = append(t.Fields, f)
	}
	base := func(prefix string) (*Type, map[string]bool, map[string]bool) {
		t := &Type{Name: g.typeName(prefix), Tags: g.structTags(), Struct: true, Cell: "recursive", Doc: g.r.Intn(5)}
		ug, uj := map[string]bool{t.Name: true}, map[string]bool{}
		first := g.mkField(Cell{"v", pick(g, Basics)}, ug, uj)
		first.Omit = false
		t.Fields = append(t.Fields, first)
		return t, ug, uj
	}
	if g.p(.4) {
		// through a declared list or map
		t, ug, uj := base("RecN")
		l := &Type{Name: g.typeName("RecL"), Tags: g.tags(false), Form: pick(g, []string{"[]", "map[string]", "map[string]*"}) + t.Name, Cell: "recursive", Doc: g.r.Intn(5)}
		member(t, l.Name, ug, uj)
		if strings.HasPrefix(l.Form, "[]") && g.p(.5) {
			// lists of maps are refused
			member(t, "[]"+l.Name, ug, uj)
		}
		out = append(out, t, l)
	}
	if g.p(.4) {
		// two structs through each other
		a, ug, uj := base("RecA")
		b, vg, vj := base("RecB")
		member(a, pick(g, []string{"*", "[]", "map[string]", "[]*", "map[string]*"})+b.Name, ug, uj)
		member(b, pick(g, []string{"*", "[]", "map[string]", "[]*", "map[string]*"})+a.Name, vg, vj)
		out = append(out, a, b)
	}
	if g.p(.4) {
		// a struct that refers to the one that inlines it
		a, ug, uj := base("RecI")
		b := &Type{Name: g.typeName("RecO"), Tags: g.structTags(), Struct: true, Cell: "recursive", Doc: g.r.Intn(5)}
		ug[b.Name] = true
		member(a, pick(g, []string{"*", "[]", "map[string]", "[]*", "map[string]*"})+b.Name, ug, uj)
		b.Fields = append(b.Fields, &Field{Type: a.Name, Inline: true, Cell: "embed:inline"})
		for i := g.r.Intn(3); i > 0; i-- {
			f := g.mkField(pick(g, simpleCells), ug, uj)
			k := g.r.Intn(len(b.Fields) + 1)
			b.Fields = append(b.Fields[:k:k], append([]*Field{f}, b.Fields[k:]...)...)
		}
		out = append(out, a, b)
	}
	return out
}

// embedding: embedded struct with no tag, with an inline tag, with a json name; local and external.
func (g *gen) embedding() []*Type {
	var out []*Type
	mk := func(kind string) {
		n := g.typeName("Emb")
		baseTags := g.tags(false)
		if kind == "inline" || kind == "named" {
			baseTags = g.structTags()
		}
		tags := g.structTags()
		whole := kind == "untagged" || kind == "extuntagged" || kind == "selfinline" || kind == "extfieldinline" || kind == "extinline" && g.extSelf
		if whole {
			tags = g.tags(false)
		}
		t := &Type{Name: n, Tags: tags, Struct: true, Cell: "embed:" + kind, Doc: g.r.Intn(5)}
		ug, uj := map[string]bool{n: true}, map[string]bool{}
		var emb *Field
		if strings.HasPrefix(kind, "ext") {
			g.usesExt = true
			emb = &Field{Type: g.c.ExtQual() + "." + g.exts["base"]}
			for _, f := range g.c.Ext.Types[len(g.c.Ext.Types)-1].Fields {
				ug[f.Name] = true
				uj[f.JSON] = true
			}
			ug[g.exts["base"]] = true
		} else {
			var cs []Cell
			for j := g.r.Intn(3); j >= 0; j-- {
				cs = append(cs, pick(g, simpleCells))
			}
			b := g.mkStruct(g.typeName("Base"), baseTags, cs)
			if whole {
				b.dropIgnored()
			}
			if kind == "selfinline" {
				if len(b.Fields) == 0 {
					b.Fields = append(b.Fields, g.mkField(Cell{"v", pick(g, Basics)}, map[string]bool{}, map[string]bool{}))
				}
				x := b.Fields[g.r.Intn(len(b.Fields))]
				x.Name, x.Also, x.NoName = b.Name, "", false
			}
			for _, f := range b.Fields {
				ug[f.Name], ug[f.Also] = true, true
				uj[f.JSON], uj[f.Also] = true, true
			}
			ug[b.Name] = true
			out = append(out, b)
			if kind == "inline" && g.p(.5) {
				// an inlined struct may inline a further one, of this package or of another
				in := &Field{Inline: true, Cell: "embed:nested inline"}
				if g.p(.3) && !g.extSelf {
					g.usesExt = true
					in.Type = g.c.ExtQual() + "." + g.exts["base"]
					for _, f := range g.c.Ext.Types[len(g.c.Ext.Types)-1].Fields {
						ug[f.Name] = true
						uj[f.JSON] = true
					}
					ug[g.exts["base"]] = true
				} else {
					b2 := &Type{Name: g.typeName("Deep"), Tags: g.structTags(), Struct: true, Doc: g.r.Intn(5)}
					if g.p(.3) {
						b2.Tags = ""
					}
					for j := g.r.Intn(2); j >= 0; j-- {
						b2.Fields = append(b2.Fields, g.mkField(pick(g, simpleCells), ug, uj))
					}
					ug[b2.Name] = true
					out = append(out, b2)
					in.Type = b2.Name
				}
				i := g.r.Intn(len(b.Fields) + 1)
				b.Fields = append(b.Fields[:i:i], append([]*Field{in}, b.Fields[i:]...)...)
			}
			emb = &Field{Type: b.Name}
		}
		switch kind {
		case "untagged", "extuntagged":
			emb.NoTag = true
		case "inline", "extinline", "selfinline":
			emb.Inline = true
		case "extfieldinline":
			emb.Inline = true
			emb.Name = g.fieldName(ug)
		case "named", "extnamed":
			emb.JSON = g.jsonName("Embedded", uj)
		case "ignored", "extignored":
			emb.Ignored = true
		}
		emb.Cell = "embed:" + kind
		before := g.r.Intn(3)
		for i := 0; i < before; i++ {
			t.Fields = append(t.Fields, g.mkField(pick(g, simpleCells), ug, uj))
		}
		t.Fields = append(t.Fields, emb)
		for i := g.r.Intn(3); i >= 0; i-- {
			t.Fields = append(t.Fields, g.mkField(pick(g, simpleCells), ug, uj))
		}
		out = append(out, t)
	}
	for i := 0; i == 0 || i < g.o.Embeds; i++ {
		for _, k := range []string{"untagged", "inline", "named", "extuntagged", "extinline", "extnamed", "selfinline", "extfieldinline", "ignored", "extignored"} {
			if g.o.Embeds > 0 || g.p(.5) {
				mk(k)
			}
		}
	}
	return out
}

// second: a further package of the same name as ext, and a struct with members of both.
func (g *gen) second() []*Type {
	f := &File{Name: "types.go"}
	saved, helpers := g.names, g.helpers
	g.names = map[string]bool{}
	var cs []Cell
	pool := append(append(cells("v", "B time uuid"), cells("ptr", "B")...), cells("sl", "string int64")...)
	for j := g.r.Intn(3); j >= 0; j-- {
		cs = append(cs, pick(g, pool))
	}
	st := g.mkStruct("EStruct", g.structTags(), cs)
	tb := &Type{Name: "ETStr", Tags: g.tags(false), Form: pick(g, []string{"string", "int64", "bool", "uint16"})}
	f.Types = []*Type{st, tb}
	g.names, g.helpers = saved, helpers
	g.c.Ext2 = f
	g.usesExt = true
	n := g.typeName("Two")
	t := &Type{Name: n, Tags: g.structTags(), Struct: true, Cell: "two packages of one name", Doc: g.r.Intn(5)}
	ug, uj := map[string]bool{n: true}, map[string]bool{}
	for _, x := range []Cell{{"v", "ext.struct"}, {"sl", "ext.struct"}, {"v", "ext.tstr"}, {"slptr", "ext.struct"}, {"map", "ext.tstr"}, {"ptr", "ext.struct"}} {
		fl := g.mkField(x, ug, uj)
		if g.p(.6) {
			fl.Type = strings.Replace(fl.Type, g.c.ExtQual()+".", Ext2Alias+".", 1)
			fl.HasDef, fl.Default = false, ""
		}
		t.Fields = append(t.Fields, fl)
	}
	out := []*Type{t}
	if g.p(.5) {
		m := g.typeName("TopTwo")
		out = append(out, &Type{Name: m, Tags: g.tags(false), Form: pick(g, []string{"[]", "map[string]", "[]", "[2]"}) + Ext2Alias + ".EStruct", Cell: "top of the second package"})
	}
	return out
}

// dropIgnored: a struct embedded as a whole whose only content is in an ignored member is a known finding.
func (t *Type) dropIgnored() {
	var l []*Field
	for _, f := range t.Fields {
		if !f.Ignored {
			l = append(l, f)
		}
	}
	t.Fields = l
}

// oneSided: forms that only the decoders or only the encoders know
var oneSided = map[string]string{
	"slmap": "[]map[string]", "slslmap": "[][]map[string]", "slmapptr": "[]map[string]*", "slslsl": "[][][]",
	"mapsl": "map[string][]", "maparr": "map[string][N]", "slarr": "[][N]", "arrsl": "[N][]", "arrarr": "[N][N]", "mapslptr": "map[string][]*", "arrslptr": "[N][]*",
}

func DecodeCells(top bool) []Cell {
	r := cells("sl", "[]byte")
	if top {
		return r
	}
	for _, f := range []string{"slmap", "slslmap", "slmapptr"} {
		r = append(r, cells(f, "B struct TB UB ext.struct ext.tstr")...)
	}
	return append(r, cells("slslsl", "B time uuid struct TB UB ext.struct")...)
}

func EncodeCells(top bool) []Cell {
	r := cells("map", "time")
	for _, f := range []string{"mapsl", "maparr", "slarr", "arrsl", "mapslptr", "arrslptr"} {
		r = append(r, cells(f, "B struct TB UB ext.struct")...)
	}
	for _, f := range []string{"mapsl", "maparr", "slarr", "arrsl"} {
		r = append(r, cells(f, "time")...)
	}
	if !top {
		r = append(r, cells("arrarr", "B time struct TB UB ext.struct")...)
	}
	return r
}

func (g *gen) directives() []*Type {
	var out []*Type
	for _, d := range []string{"decode", "encode", "transit", "strict,decode", "strict,encode"} {
		if !g.p(.4) {
			continue
		}
		if d == "transit" {
			continue
		}
		sided := EncodeCells
		if strings.HasSuffix(d, "decode") {
			sided = DecodeCells
		}
		t := g.mkStruct(g.typeName("Dir"), d, []Cell{pick(g, simpleCells), pick(g, simpleCells), pick(g, sided(false)), pick(g, sided(false))})
		t.Cell = "directive:" + d
		out = append(out, t)
		if c := pick(g, sided(true)); g.p(.5) {
			out = append(out, &Type{Name: g.typeName("DirTop"), Tags: strings.TrimPrefix(d, "strict,"), Doc: g.r.Intn(5), Form: g.formType(c.Form, c.Atom), Cell: "directive:" + d + ":" + c.String()})
		}
	}
	return out
}
