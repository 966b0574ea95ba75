package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"math/rand"
	"path/filepath"
	"strings"

	"vharness/schema"
)

var unsupported = []string{"interface{}", "any", "error", "interface{ M() }", "func()", "func(int) string", "chan int", "<-chan string", "complex64", "complex128", "struct{ B int }", "struct{}", "uintptr"}
var unsupportedForms = []string{"%s", "%s", "%s", "*%s", "[]%s", "map[string]%s", "[3]%s", "[][]%s", "[]*%s", "map[string]*%s"}
var unsupportedMaps = []string{"map[int]string", "map[bool]int", "map[float64]string", "map[int64]bool", "map[uint8]float64", "map[[2]int]string"}

var badDefaults = map[string][]string{
	"bool":    {"yes", "1", "TRUE", "0", "no"},
	"int":     {"abc", "1.5", "9223372036854775808", "true", "1,5", "--1", "one", "1 2"},
	"int64":   {"abc", "1.5", "-9223372036854775809", "1;2"},
	"int8":    {"300", "-129", "128", "x"},
	"int16":   {"32768", "-32769", "1.25"},
	"int32":   {"2147483648", "abc"},
	"uint":    {"-1", "1.5", "18446744073709551616", "minus"},
	"uint8":   {"256", "-1"},
	"uint16":  {"65536", "-1"},
	"uint32":  {"4294967296", "-2"},
	"uint64":  {"-1", "18446744073709551616"},
	"float64": {"x", "1,5", "true", "1..2"},
	"float32": {"x", "1e40", "false"},
	// kinds without a default value
	"[]int": {"1", "[1]"}, "[]string": {"a"}, "map[string]int": {"{}"}, "[2]int": {"1"}, "[]byte": {"x"},
	"time.Time": {"yesterday", "now", "0", "2020-13-01T00:00:00Z"}, "uuid.UUID": {"x", "nil", "123e4567"},
}

func init() {
	specials["P22"] = &specialCheck{
		n: 1200, tn: 8000,
		rule: "a case is one package of supported declarations into which one thing was put that cannot be honoured (an unsupported type as a member or declaration, a member without json name, a default that is no value of the member, something inline that is no struct, two members of one name, a layout for times in a list, array or map, a syntax error) at a random place; the generator must stop, or its output must not compile; non-trivial: distinct cases whose unchanged package is accepted",
		draw: drawP22,
		eval: evalP22,
		count: func(s *sample, n map[string]int) {
			n[s.Type]++
			if s.Text == "does not compile" {
				n[s.Type+": the output does not compile"]++
			}
		},
		shrink: shrinkP22,
	}
}

func drawP22(r *rand.Rand, i int) *sample {
	o := schema.DefaultOptions()
	o.Hostile = .1
	for {
		c := schema.Small(r, fmt.Sprintf("u%03d", i%1000), 1+r.Intn(12), 1+r.Intn(3), o)
		// a declaration with all methods and what it needs
		var full []*schema.Type
		for _, t := range c.AllTypes() {
			if t.Struct && t.Tags != "" && !t.Has("transit") && !t.Has("encode") && !t.Has("decode") && !t.Has("custom") {
				full = append(full, t)
			}
		}
		if len(full) == 0 {
			continue
		}
		t := full[r.Intn(len(full))]
		c = c.Reach(t.Name)
		side := ""
		if r.Intn(3) == 0 {
			// one half of the methods: what the other half would refuse has to be refused all the same
			side = pick(r, "decode", "encode")
			c.Find(t.Name).Tags = side
		}
		s := &sample{Case: c, Other: c.Clone()}
		var at *schema.Type
		field := func(f *schema.Field) {
			// the declaration itself, or a struct that is inlined into it
			x := c.Find(t.Name)
			if base := inlinedOf(c, x); at != nil {
				x = at
			} else if base != nil && r.Intn(2) == 0 {
				x = base
			}
			k := r.Intn(len(x.Fields) + 1)
			x.Fields = append(x.Fields[:k:k], append([]*schema.Field{f}, x.Fields[k:]...)...)
			s.What = fmt.Sprintf("%s: %s %s %s", x.Name, f.Name, f.Type, f.Tag())
		}
		f := &schema.Field{Name: pick(r, "Extra", "Extra1", "Zz"), JSON: pick(r, "extra", "Extra", "zz-z", "e.x"), Type: "int", Omit: r.Intn(3) == 0, Required: r.Intn(3) == 0}
		switch k := r.Intn(26); {
		case k < 8:
			s.Type = "unsupported member"
			u := unsupported[r.Intn(len(unsupported))]
			f.Type = fmt.Sprintf(unsupportedForms[r.Intn(len(unsupportedForms))], u)
			if r.Intn(8) == 0 {
				f.Type = unsupportedMaps[r.Intn(len(unsupportedMaps))]
			}
			if strings.HasPrefix(f.Type, "*") && strings.Contains(u, "chan") {
				f.Type = "*(" + f.Type[1:] + ")"
			}
			field(f)
		case k < 11:
			s.Type = "member without json name"
			f.Type = pick(r, "int", "string", "[]int", "*bool", "float64", "map[string]string")
			if r.Intn(2) == 0 {
				f.NoTag = true
			} else {
				f.RawTag = pick(r, `xml:"extra"`, `yaml:"e" default:"1"`, `default:"1"`, `layout:"x"`, `JSON:"extra"`, `jsonx:"extra"`, ` `)
			}
			field(f)
		case k < 16:
			s.Type = "bad default"
			var kinds []string
			for _, b := range append(append([]string{}, schema.Basics...), "[]int", "[]string", "map[string]int", "[2]int", "[]byte", "time.Time", "uuid.UUID") {
				if badDefaults[b] != nil {
					kinds = append(kinds, b)
				}
			}
			f.Type = kinds[r.Intn(len(kinds))]
			if side == "encode" {
				continue // nothing is filled, so there is nothing to honour
			}
			f.HasDef, f.Default = true, badDefaults[f.Type][r.Intn(len(badDefaults[f.Type]))]
			if f.Type[0] != '[' && f.Type[0] != 'm' {
				switch r.Intn(4) {
				case 0:
					f.Type = "*" + f.Type
				case 1:
					// a named type over it
					x := &schema.Type{Name: "Dflt", Form: f.Type, Tags: pick(r, "", "json")}
					c.Files[0].Types = append(c.Files[0].Types, x)
					f.Type = pick(r, "Dflt", "*Dflt")
				}
			}
			f.Required = false
			field(f)
		case k < 18:
			s.Type = "unsupported declaration"
			u := unsupported[r.Intn(len(unsupported))]
			form := fmt.Sprintf(pick(r, "%s", "[]%s", "map[string]%s", "[2]%s", "[][]%s", "*%s"), u)
			if strings.HasPrefix(form, "*") && strings.Contains(u, "chan") {
				form = "*(" + form[1:] + ")"
			}
			if form == "struct{}" {
				continue // a declaration like any other
			}
			if r.Intn(5) == 0 {
				form = unsupportedMaps[r.Intn(len(unsupportedMaps))]
			}
			x := &schema.Type{Name: "Wrong", Tags: pick(r, "json", "strict", "decode", "encode"), Form: form}
			l := c.Files[0].Types
			at := r.Intn(len(l) + 1)
			for at > 0 && at < len(l) && l[at].Group != 0 && l[at-1].Group == l[at].Group {
				at++ // not into a group
			}
			c.Files[0].Types = append(l[:at:at], append([]*schema.Type{x}, l[at:]...)...)
			s.What = "type Wrong " + form
		case k < 20:
			// something inlined that is no struct
			s.Type = "inline of what is no struct"
			f.Inline, f.Omit, f.Required = true, false, false
			x := &schema.Type{Name: "Inl", Tags: pick(r, "", "json", "strict"), Form: pick(r, "int", "string", "bool", "[]int", "[]string", "map[string]int", "[2]int", "float64", "[]byte", "*int", "func()", "interface{ M() }")}
			switch r.Intn(5) {
			case 0:
				f.Name, f.Type = "", pick(r, "error", "any", "int", "string", "bool", "*int")
				x = nil
			case 1:
				f.Type = pick(r, "int", "[]int", "map[string]int", "*string", "any", "[2]bool", "func()", "Inl", "*Inl", "[]Inl")
			case 2:
				// a pointer to a struct
				f.Name, f.Type = "", "*Inl"
				x.Struct, x.Form = true, ""
				x.Fields = []*schema.Field{{Name: "InA", JSON: "in_a", Type: pick(r, "int", "string", "[]int")}}
			default:
				f.Name, f.Type = "", "Inl"
				if strings.HasPrefix(x.Form, "*") || strings.HasPrefix(x.Form, "interface") {
					x.Form = "int16"
				}
			}
			if x != nil {
				if !x.Struct && x.Tags == "" || strings.Contains(x.Form, "(") || x.Form == "*int" {
					x.Tags = ""
				}
				c.Files[0].Types = append(c.Files[0].Types, x)
			}
			field(f)
		case k < 21:
			// a layout for what cannot have one
			s.Type = "layout of times in a list"
			f.Type = pick(r, "[]time.Time", "[3]time.Time", "map[string]time.Time", "[][]time.Time", "*[2]time.Time", "[]Moment", "[2]Moment", "map[string]Moment", "Moments", "**[1]time.Time")
			if strings.Contains(f.Type, "Moment") {
				x := &schema.Type{Name: "Moment", Form: "time.Time", Tags: "json"}
				if f.Type == "Moments" {
					x = &schema.Type{Name: "Moments", Form: pick(r, "[]time.Time", "map[string]time.Time", "[2]time.Time"), Tags: "json"}
				}
				// beside the declaration: what the types of other files denote is not looked at
				for _, fl := range c.Files {
					for _, d := range fl.Types {
						if d.Name == t.Name {
							fl.Types = append(fl.Types, x)
							break
						}
					}
				}
				at = c.Find(t.Name)
			}
			f.Layout = pick(r, "2006-01-02", "time.RFC1123Z", "time.Kitchen", "15:04:05")
			field(f)
		case k < 24:
			s.Type = "two members of one name"
			if !clash(r, c, t.Name, f, s) {
				continue
			}
		default:
			s.Type = "syntax error"
			fl := c.GenFiles()[r.Intn(len(c.GenFiles()))]
			src := c.Sources("vt/" + c.Name)[fl]
			for {
				x := breakText(r, src)
				if _, err := parser.ParseFile(token.NewFileSet(), fl, x, parser.ParseComments|parser.AllErrors); err != nil {
					// the package clause has to stay readable: the module is scanned for it
					if _, err := parser.ParseFile(token.NewFileSet(), fl, x, parser.PackageClauseOnly); err == nil {
						s.File, s.Text = fl, x
						break
					}
				}
			}
			s.What = fl
			s.Int = r.Intn(2)
		}
		if side != "" {
			s.What += " //json:" + side
		}
		s.Sample = s.Type + ": " + s.What
		return s
	}
}

// clash gives a declaration two members that share a name, in Go or in JSON, at one level or through an inlined struct.
func clash(r *rand.Rand, c *schema.Case, name string, f *schema.Field, s *sample) bool {
	t := c.Find(name)
	named := func(x *schema.Type) []*schema.Field {
		var l []*schema.Field
		for _, m := range x.Fields {
			if !m.Ignored && !m.Inline && !m.NoTag && m.JSON != "" {
				l = append(l, m)
			}
		}
		return l
	}
	place := func(x *schema.Type) {
		k := r.Intn(len(x.Fields) + 1)
		x.Fields = append(x.Fields[:k:k], append([]*schema.Field{f}, x.Fields[k:]...)...)
		s.What = fmt.Sprintf("%s: %s %s %s", x.Name, f.Name, f.Type, f.Tag())
	}
	f.Type = pick(r, "int", "string", "[]int", "*bool", "float64", "map[string]string")
	base := inlinedOf(c, t)
	if base != nil {
		for _, m := range base.Fields {
			if m.Name == base.Name {
				base = nil // embedded as a whole: the known finding hidden-member of P17
				break
			}
		}
	}
	if base != nil && r.Intn(2) == 0 {
		// the struct that inlines declares a member of the inlined one once more
		l := named(base)
		if len(l) == 0 {
			return false
		}
		m := l[r.Intn(len(l))]
		if m.Name != "" && r.Intn(2) == 0 {
			f.Name = m.Name
		} else {
			f.JSON = m.JSON
		}
		place(t)
		return true
	}
	if r.Intn(4) == 0 {
		// two members declared together
		f.Also = "Twin"
		place(t)
		return true
	}
	l := named(t)
	if len(l) == 0 {
		return false
	}
	f.JSON = l[r.Intn(len(l))].JSON
	place(t)
	return true
}

// inlinedOf: a local struct inlined into t.
func inlinedOf(c *schema.Case, t *schema.Type) *schema.Type {
	for _, f := range t.Fields {
		if f.Inline && f.Name == "" {
			if x := c.Find(f.Type); x != nil && x.Struct && !x.Has("transit") {
				return x
			}
		}
	}
	return nil
}

func breakText(r *rand.Rand, s string) string {
	i := r.Intn(len(s))
	switch r.Intn(4) {
	case 0:
		return s[:i]
	case 1:
		k := 1 + r.Intn(4)
		if i+k > len(s) {
			k = len(s) - i
		}
		return s[:i] + s[i+k:]
	case 2:
		return s[:i] + pick(r, "{", "}", "(", ")", "`", "\"", "struct", "[", ";", "#", "type", "\x00", "*/", "'") + s[i:]
	}
	return s + pick(r, "}", "func", "type X struct {", "`", "var = 1", "import \"late\"")
}

func evalP22(e *evalEnv, s *sample) string {
	// the unchanged package is accepted
	ok := filepath.Join(e.dir, "ok")
	place(s.Other, ok)
	if msg := e.generateAll(s.Other, ok); msg != "" {
		s.Trivial, s.Type = true, "unusable: "+clip(msg, 200)
		return ""
	}
	dir := filepath.Join(e.dir, "m")
	place(s.Case, dir)
	if s.File != "" {
		write(filepath.Join(dir, s.File), s.Text)
		out := filepath.Join(dir, outFile(s.File))
		const earlier = "// earlier output\n"
		if s.Int == 1 {
			_, pkg, _ := strings.Cut(s.Text, "package ")
			write(out, earlier+"package "+strings.Fields(pkg)[0]+"\n")
		}
		before := tree(dir)
		st, err := generate(e.vjgen, dir, []string{s.File})
		if err != nil {
			infra("%v", err)
		}
		if len(st) != 1 || st[0].Status == "OK" {
			return fmt.Sprintf("the generator takes a file that is not Go: %v", st)
		}
		if st[0].Msg == "" {
			return "the refusal of a file that is not Go gives no reason"
		}
		if d := treeDiff(before, tree(dir)); len(d) > 0 {
			return "the refusal of a file that is not Go leaves output: " + strings.Join(d, "; ")
		}
		return ""
	}
	st, err := generate(e.vjgen, dir, s.Case.GenFiles())
	if err != nil {
		infra("%v", err)
	}
	for _, o := range st {
		if o.Status != "OK" {
			if strings.TrimSpace(o.Msg) == "" {
				return "the refusal gives no reason"
			}
			return ""
		}
	}
	if msg := goTool(dir, "build", "./..."); msg != "" {
		soundSource(e, s.Case)
		s.Text = "does not compile"
		return ""
	}
	return fmt.Sprintf("%s is honoured silently (%s): the output compiles", s.Type, s.What)
}

func shrinkP22(s *sample) []*sample {
	if s.File != "" || s.Type == "two members of one name" {
		return nil
	}
	var r []*sample
	for _, t := range s.Case.StructTypes() {
		for i, f := range s.Case.FieldsOf(t) {
			if strings.Contains(s.What, " "+f.Name+" "+f.Type+" ") || f.Name == "" {
				continue
			}
			n := *s
			n.Case, n.Other = s.Case.DropFields(t, i, 1), s.Case.DropFields(t, i, 1)
			// the unchanged package lacks the injected member
			n.Other = dropInjected(n.Case, s.What)
			r = append(r, &n)
		}
	}
	return r
}

func dropInjected(c *schema.Case, what string) *schema.Case {
	n := c.Clone()
	name, rest, _ := strings.Cut(what, ": ")
	for _, t := range n.AllTypes() {
		if t.Name != name {
			continue
		}
		for i, f := range t.Fields {
			if strings.HasPrefix(rest, f.Name+" "+f.Type+" ") {
				t.Fields = append(t.Fields[:i:i], t.Fields[i+1:]...)
				break
			}
		}
	}
	for _, f := range n.Files {
		var l []*schema.Type
		for _, t := range f.Types {
			if t.Name != "Wrong" {
				l = append(l, t)
			}
		}
		f.Types = l
	}
	return n
}
