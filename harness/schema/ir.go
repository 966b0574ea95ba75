// Package schema is the intermediate representation of the Go packages that the harness
// feeds to the code generator, the seeded generator of such packages, and their rendering.
package schema

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Field of a generated struct type.
type Field struct {
	Name     string // Go name; empty for embedded fields
	Also     string // the name of a second member declared together with the first
	NoName   bool   // the tag has options but no name: the member takes its own
	Before   string // other keys in front of the json key of the tag
	After    string // and behind it
	OptsPre  string // unknown options in front of the known one
	Doc      string // comment above the member
	Trail    string // comment behind it
	Type     string // Go type expression
	JSON     string // json name; may be empty for inline/untagged fields
	Omit     bool
	Required bool
	Inline   bool
	NoTag    bool
	Default  string // with HasDef
	HasDef   bool
	Layout   string
	RawTag   string // when set, used verbatim
	Ignored  bool   // json:"-"
	Quoted   bool   // the tag is written as an interpreted string literal
	Cell     string // the support-matrix cell this field exercises
}

// Type declaration.
type Type struct {
	Name   string
	Tags   string // content after "json:" in the doc comment; empty - untagged
	Doc    int    // doc comment style
	Group  int    // non-zero: adjacent types with the same value share one type ( ... ) group
	Struct bool
	Fields []*Field
	Form   string // underlying type expression of non-struct declarations
	Cell   string
	Helper bool // declared for the sake of other types
	// GroupTags: the tags come from the group's doc comment
	GroupTags bool
	// Verbatim comments, for the checks of the directives: DocText replaces the comment of the declaration,
	// GroupText (on the first type of a group) that of the group, Trail follows the declaration on its line.
	// Words are the directive words that then apply.
	Dressed   bool
	DocText   string
	GroupText string
	Trail     string
	Words     []string
}

// File of a package.
type File struct {
	Name    string
	Types   []*Type
	Head    string   // text before the package clause
	Tail    string   // other declarations
	Imports []string // imports of the tail
}

// Case is one generated program: the main package and an optional ext package.
type Case struct {
	Name     string
	Files    []*File
	Ext      *File
	ExtAlias string   // import alias of ext in the main package
	ExtDir   string   // directory (= package name) of ext
	Ext2     *File    // a further package of the same name, in directory Ext2Dir, imported as Ext2Alias
	Consts   bool     // the main package declares the constants of array lengths
	Decoys   []string // directories of packages of the same name as ext that nobody imports, with other declarations of the same type names
}

// Ext2Dir is the directory of the second external package.
func (c *Case) Ext2Dir() string { return "second/" + c.ExtDir }

// Ext2Alias is its import alias.
const Ext2Alias = "sec"

func (c *Case) Clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var n Case
	if err = json.Unmarshal(b, &n); err != nil {
		panic(err)
	}
	return &n
}

func (f *Field) Tag() string {
	if f.RawTag != "" {
		return "`" + f.RawTag + "`"
	}
	if f.Ignored {
		return "`json:\"-\"`"
	}
	if f.NoTag {
		return ""
	}
	opt := ""
	switch {
	case f.Inline:
		opt = ",inline"
	case f.Required:
		opt = ",required"
	case f.Omit:
		opt = ",omitempty"
	}
	tag := fmt.Sprintf(`json:%q`, f.jsonValue(opt))
	if f.Layout != "" {
		tag += fmt.Sprintf(` layout:%q`, f.Layout)
	}
	if f.HasDef {
		tag += fmt.Sprintf(` default:%q`, f.Default)
	}
	if strings.Contains(f.Type, "]uint8") {
		tag += ` vj:"u8"`
	}
	if f.Before != "" {
		tag = f.Before + " " + tag
	}
	if f.After != "" {
		tag += " " + f.After
	}
	if f.Quoted || strings.Contains(tag, "`") {
		return strconv.Quote(tag)
	}
	return "`" + tag + "`"
}

// jsonValue is the value of the json key.
func (f *Field) jsonValue(opt string) string {
	name := f.JSON
	if f.NoName {
		name = ""
	}
	opt = f.OptsPre + opt
	if name == "-" && opt == "" {
		opt = "," // the name is a dash
	}
	return name + opt
}

// PlainTag is the tag for the mirror type, as encoding/json understands it.
func (f *Field) PlainTag() string {
	if f.Inline || f.NoTag {
		return ""
	}
	opt := ""
	if f.Omit {
		opt = ",omitempty"
	}
	if f.Ignored {
		return "`json:\"-\"`"
	}
	return fmt.Sprintf("`json:%q`", f.jsonValue(opt))
}

func (f *Field) render(plain bool) string {
	tag := f.Tag()
	if plain {
		tag = f.PlainTag()
	}
	name := f.Name
	if plain && f.Inline {
		name = "" // the mirror type embeds it
	}
	if f.Also != "" {
		name += ", " + f.Also
	}
	line := strings.TrimSpace(fmt.Sprintf("%s %s %s", name, f.Type, tag))
	if plain {
		return line
	}
	return f.Doc + line + f.Trail
}

func (t *Type) body(plain bool) string {
	if !t.Struct {
		return t.Form
	}
	if len(t.Fields) == 0 {
		return "struct{}"
	}
	var b strings.Builder
	b.WriteString("struct {\n")
	for _, f := range t.Fields {
		b.WriteString("\t\t" + f.render(plain) + "\n")
	}
	b.WriteString("\t}")
	return b.String()
}

func (t *Type) doc(indent string) string {
	if t.Dressed {
		return t.DocText
	}
	if t.Tags == "" {
		return ""
	}
	switch t.Doc {
	case 1:
		return indent + "// json:" + t.Tags + "\n"
	case 2:
		return indent + "// " + t.Name + " is a generated declaration.\n" + indent + "//\n" + indent + "//json:" + t.Tags + "\n"
	case 3:
		return indent + "//  json: " + strings.ReplaceAll(t.Tags, ",", " , ") + "\n" + indent + "// trailing comment line\n"
	case 4:
		return indent + "//json:" + strings.ToUpper(t.Tags) + "\n"
	}
	return indent + "//json:" + t.Tags + "\n"
}

var identRe = regexp.MustCompile(`[\pL_][\pL\pN_]*(\.[\pL_][\pL\pN_]*)?`)

// TypeRefs lists identifiers (qualified or not) used by the declaration's types.
func (t *Type) TypeRefs() []string {
	var r []string
	add := func(s string) { r = append(r, identRe.FindAllString(s, -1)...) }
	if t.Struct {
		for _, f := range t.Fields {
			add(f.Type)
		}
	} else {
		add(t.Form)
	}
	return r
}

func (c *Case) extName() string { return c.ExtDir }

// ExtQual is the qualifier of ext types in the main package.
func (c *Case) ExtQual() string {
	if c.ExtAlias != "" {
		return c.ExtAlias
	}
	return c.ExtDir
}

func renderFile(pkg string, imports []string, f *File, plain bool) string {
	var b strings.Builder
	b.WriteString(f.Head + "package " + pkg + "\n\n")
	if f.Tail != "" {
		have := map[string]bool{}
		for _, i := range imports {
			have[i] = true
		}
		for _, i := range f.Imports {
			if !have[i] {
				imports = append(imports, i)
			}
		}
	}
	if len(imports) > 0 {
		b.WriteString("import (\n")
		for _, i := range imports {
			b.WriteString("\t" + i + "\n")
		}
		b.WriteString(")\n\n")
	}
	i := 0
	for i < len(f.Types) {
		t := f.Types[i]
		if t.Group == 0 {
			if !plain {
				b.WriteString(t.doc(""))
			}
			b.WriteString("type " + t.Name + " " + strings.ReplaceAll(strings.ReplaceAll(t.body(plain), "\n\t\t", "\n\t"), "\n\t}", "\n}") + t.Trail + "\n\n")
			i++
			continue
		}
		j := i
		for j < len(f.Types) && f.Types[j].Group == t.Group {
			j++
		}
		if t.GroupText != "" && !plain {
			b.WriteString(t.GroupText)
		} else if t.GroupTags && !plain {
			b.WriteString("//json:" + t.Tags + "\n")
		}
		b.WriteString("type (\n")
		for _, g := range f.Types[i:j] {
			if !plain && !g.GroupTags {
				b.WriteString(g.doc("\t"))
			}
			b.WriteString("\t" + g.Name + " " + g.body(plain) + g.Trail + "\n")
		}
		b.WriteString(")\n\n")
		i = j
	}
	b.WriteString(f.Tail)
	return b.String()
}

func (c *Case) imports(f *File, base string, plain bool) []string {
	need := map[string]bool{}
	for _, t := range f.Types {
		for _, r := range t.TypeRefs() {
			if k := strings.IndexByte(r, '.'); k > 0 {
				need[r[:k]] = true
			}
		}
	}
	var out []string
	if need["time"] {
		out = append(out, `"time"`)
	}
	if need["uuid"] {
		out = append(out, `"github.com/google/uuid"`)
	}
	if c.Ext != nil && need[c.ExtQual()] {
		p := base + "/" + c.ExtDir
		if plain {
			p = base + "/plain" + c.ExtDir
		}
		if c.ExtAlias != "" {
			out = append(out, c.ExtAlias+` "`+p+`"`)
		} else if plain {
			out = append(out, c.ExtDir+` "`+p+`"`)
		} else {
			out = append(out, `"`+p+`"`)
		}
	}
	if c.Ext2 != nil && need[Ext2Alias] {
		p := base + "/" + c.Ext2Dir()
		if plain {
			p = base + "/plain2" + c.ExtDir
		}
		out = append(out, Ext2Alias+` "`+p+`"`)
	}
	sort.Strings(out)
	return out
}

const lengthConsts = "\n\nconst (\n\tLenOne = 1\n\tLenTwo = LenOne + 1\n\tlenThree = 3\n)\n"

// lengths spells array lengths; those with identifiers need the constants.
var lengths = map[int][]string{
	1: {"LenOne", "0x1", "lenThree-LenTwo", "1"},
	2: {"LenTwo", "0b10", "1<<1", "1+1", "len(\"ab\")", "LenTwo*1"},
	3: {"lenThree", "0o3", "LenTwo+1", "(3)", "LenOne|LenTwo", "'\\x03'"},
	4: {"LenTwo<<LenOne", "8/2", "0_4"},
	7: {"lenThree+LenTwo*2", "7"},
}

// decoy declares the types of f in another way.
func decoy(f *File) *File {
	d := &File{Name: f.Name}
	for _, t := range f.Types {
		n := &Type{Name: t.Name, Tags: "strict", Struct: !t.Struct}
		if t.Struct {
			n.Form = "int16"
		} else {
			n.Fields = []*Field{{Name: "Decoy", Type: "[]string", JSON: "decoy"}}
		}
		if t.Name == "EBase" {
			n.Struct, n.Form = true, ""
			n.Fields = []*Field{{Name: "Decoy", Type: "string", JSON: "decoy"}}
		}
		d.Types = append(d.Types, n)
	}
	return d
}

// Sources renders the case: path relative to the case directory -> content. base is the import path of the case directory.
func (c *Case) Sources(base string) map[string]string {
	out := map[string]string{}
	if c.Ext != nil {
		out[c.ExtDir+"/"+c.Ext.Name] = renderFile(c.extName(), c.imports(c.Ext, base, false), c.Ext, false)
	}
	if c.Ext2 != nil {
		out[c.Ext2Dir()+"/"+c.Ext2.Name] = renderFile(c.extName(), c.imports(c.Ext2, base, false), c.Ext2, false)
	}
	if c.Ext != nil {
		for _, d := range c.Decoys {
			if strings.HasSuffix(d, "_test") {
				// tests that declare types of the same names in a package of their own beside the real one
				out[c.ExtDir+"/"+d+".go"] = renderFile(c.extName()+"_test", nil, decoy(c.Ext), false)
				continue
			}
			out[d+"/"+c.ExtDir+"/"+c.Ext.Name] = renderFile(c.extName(), nil, decoy(c.Ext), false)
		}
	}
	for _, f := range c.Files {
		out[f.Name] = renderFile(c.Name, c.imports(f, base, false), f, false)
	}
	if c.Consts {
		out["lengths.go"] = "package " + c.Name + lengthConsts
	}
	return out
}

// PlainSources renders the mirror packages, with no generated methods.
func (c *Case) PlainSources(base string) map[string]string {
	out := map[string]string{}
	if c.Ext != nil {
		out["plain"+c.ExtDir+"/"+c.Ext.Name] = renderFile("plain"+c.ExtDir, c.imports(c.Ext, base, true), c.Ext, true)
	}
	if c.Ext2 != nil {
		out["plain2"+c.ExtDir+"/"+c.Ext2.Name] = renderFile("plain2"+c.ExtDir, c.imports(c.Ext2, base, true), c.Ext2, true)
	}
	for _, f := range c.Files {
		out["plain/"+f.Name] = renderFile("plain", c.imports(f, base, true), f, true)
	}
	if c.Consts {
		out["plain/lengths.go"] = "package plain" + lengthConsts
	}
	return out
}

func (c *Case) AllTypes() []*Type {
	var r []*Type
	for _, f := range c.Files {
		r = append(r, f.Types...)
	}
	return r
}

// GenFiles lists the source files to run the generator on, in order.
func (c *Case) GenFiles() []string {
	var r []string
	if c.Ext != nil {
		r = append(r, c.ExtDir+"/"+c.Ext.Name)
	}
	if c.Ext2 != nil {
		r = append(r, c.Ext2Dir()+"/"+c.Ext2.Name)
	}
	for _, f := range c.Files {
		r = append(r, f.Name)
	}
	return r
}

// TagWords splits the tag list as the directive grammar defines it.
func (t *Type) TagWords() []string {
	var r []string
	for _, w := range strings.Split(t.Tags, ",") {
		if w = strings.ToLower(strings.TrimSpace(w)); w != "" {
			r = append(r, w)
		}
	}
	return r
}

func (t *Type) Has(w string) bool {
	for _, x := range t.TagWords() {
		if x == w {
			return true
		}
	}
	return false
}

// registration file of the main package
func (c *Case) RegSource(base string) string {
	var b strings.Builder
	q := "plain"
	b.WriteString("package " + c.Name + "\n\nimport (\n\t\"vrt\"\n\tplain \"" + base + "/plain\"\n)\n\nfunc init() {\n")
	reg := func(f *File, types []*Type) {
		inh := Inherited(types)
		for _, t := range types {
			tags := t.TagWords()
			if t.Tags == "" {
				tags = inh[t.Name]
			}
			if len(tags) == 0 {
				// untagged types are known to the model by reflection only
				continue
			}
			has := func(w string) bool {
				for _, x := range tags {
					if x == w {
						return true
					}
				}
				return false
			}
			fmt.Fprintf(&b, "\tvrt.Register(vrt.Type{Case: %q, Name: %q, New: func() any { return new(%s) }, Plain: func() any { return new(%s.%s) }, Strict: %v, Transit: %v, Dec: %v, Enc: %v, Custom: %v, Helper: %v, U8: %v, Alias: %v, Cell: %q})\n",
				c.Name, t.Name, t.Name, q, t.Name, has("strict") && !t.passes() || c.strictBase(t), t.passes(), !has("encode"), !has("decode"), has("custom"), t.Helper, strings.Contains(t.Form, "]uint8"), t.alias(), t.Cell)
		}
	}
	for _, f := range c.Files {
		reg(f, f.Types)
	}
	b.WriteString("}\n")
	return b.String()
}

// ExtRegSources are the registration files of the external packages (model metadata only) by directory.
func (c *Case) ExtRegSources(base string) map[string]string {
	out := map[string]string{}
	one := func(f *File, dir, plain string) {
		if f == nil {
			return
		}
		var b strings.Builder
		b.WriteString("package " + c.ExtDir + "\n\nimport (\n\t\"vrt\"\n\tplain \"" + base + "/" + plain + "\"\n)\n\nfunc init() {\n")
		n := 0
		for _, t := range f.Types {
			if t.Tags == "" {
				continue
			}
			n++
			fmt.Fprintf(&b, "\tvrt.Register(vrt.Type{Case: %q, Name: %q, New: func() any { return new(%s) }, Plain: func() any { return new(plain.%s) }, Strict: %v, Dec: true, Enc: true, Helper: true, Cell: %q})\n",
				c.Name+"/"+dir, t.Name, t.Name, t.Name, t.Has("strict"), t.Cell)
		}
		b.WriteString("}\n")
		if n > 0 {
			out[dir] = b.String()
		}
	}
	one(c.Ext, c.ExtDir, "plain"+c.ExtDir)
	one(c.Ext2, c.Ext2Dir(), "plain2"+c.ExtDir)
	return out
}

// Inherited computes tags that untagged element types inherit from the tagged named arrays over them (within one file).
func Inherited(types []*Type) map[string][]string {
	r := map[string][]string{}
	by := map[string]*Type{}
	for _, t := range types {
		by[t.Name] = t
	}
	for _, t := range types {
		if t.Tags == "" || t.Struct {
			continue
		}
		i := strings.IndexByte(t.Form, ']')
		if i < 0 || t.Form[0] != '[' {
			continue
		}
		el := t.Form[i+1:]
		if e := by[el]; e != nil && e.Tags == "" && e.Struct {
			if _, ok := r[el]; !ok {
				r[el] = t.TagWords()
			}
		}
	}
	return r
}

// alias: declared directly over another declared type, or left to the methods of the struct it embeds.
func (t *Type) alias() bool {
	if t.passes() {
		return true
	}
	return !t.Struct && identRe.FindString(t.Form) == t.Form && !isBasic(t.Form)
}

// passes: a struct that leaves all processing to the methods of the struct it embeds (transit).
func (t *Type) passes() bool {
	return t.Struct && t.Has("transit") && len(t.Fields) == 1
}

// strictBase: a type declared over a struct type leaves decoding to that struct's rules.
func (c *Case) strictBase(t *Type) bool {
	if !t.alias() {
		return false
	}
	over := t.Form
	if t.passes() {
		over = t.Fields[0].Type
	}
	q, n, ok := strings.Cut(over, ".")
	list := c.AllTypes()
	if ok {
		if c.Ext == nil || q != c.ExtQual() {
			return false
		}
		list = c.Ext.Types
	} else {
		n = q
	}
	for _, x := range list {
		if x.Name == n && x.Struct && !x.passes() {
			return x.Has("strict")
		}
		if x.Name == n && !ok {
			return c.strictBase(x)
		}
	}
	return false
}

// Rename gives the case (and its package) another name.
func (c *Case) Rename(n string) { c.Name = n }

func (c *Case) Find(name string) *Type {
	for _, t := range c.AllTypes() {
		if t.Name == name {
			return t
		}
	}
	return nil
}

// Reach keeps the declarations that the named type needs (and the ext package as it is, if it is needed).
func (c *Case) Reach(name string) *Case {
	n := c.Clone()
	keep := map[string]bool{}
	ext, ext2 := false, false
	var rec func(string)
	rec = func(s string) {
		if strings.HasPrefix(s, Ext2Alias+".") {
			ext2 = true
		}
		if n.Ext != nil && strings.HasPrefix(s, n.ExtQual()+".") {
			ext = true
		}
		t := n.Find(s)
		if t == nil || keep[s] {
			return
		}
		keep[s] = true
		for _, r := range t.TypeRefs() {
			rec(r)
		}
	}
	rec(name)
	var files []*File
	for _, f := range n.Files {
		var ts []*Type
		for _, t := range f.Types {
			if keep[t.Name] {
				ts = append(ts, t)
			}
		}
		if f.Types = ts; len(ts) > 0 {
			files = append(files, f)
		}
	}
	n.Files = files
	if !ext {
		n.Ext = nil
	}
	if !ext2 {
		n.Ext2 = nil
	}
	return n
}

// StructTypes lists the names of the struct declarations.
func (c *Case) StructTypes() []string {
	var r []string
	for _, t := range c.AllTypes() {
		if t.Struct {
			r = append(r, t.Name)
		}
	}
	return r
}

// FieldsOf a struct declaration; none when it is not there.
func (c *Case) FieldsOf(name string) []*Field {
	if t := c.Find(name); t != nil {
		return t.Fields
	}
	return nil
}

// DropFields returns a copy without k fields from i on.
func (c *Case) DropFields(name string, i, k int) *Case {
	n := c.Clone()
	t := n.Find(name)
	t.Fields = append(t.Fields[:i:i], t.Fields[i+k:]...)
	return n
}
