package schema

import (
	"math/rand"
	"strings"
)

// Small is a case over a few random cells.
func Small(r *rand.Rand, name string, nf, nt int, o Options) *Case {
	var fc, tc []Cell
	all, top := FieldCells(), TopCells()
	for i := 0; i < nf; i++ {
		fc = append(fc, all[r.Intn(len(all))])
	}
	for i := 0; i < nt; i++ {
		tc = append(tc, top[r.Intn(len(top))])
	}
	return GenCase(r, name, fc, tc, o)
}

func choose(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// DressAll gives every declaration of the main files the same plain comment.
func (c *Case) DressAll(words string) *Case {
	n := c.Clone()
	for _, t := range n.AllTypes() {
		if !t.taggable() {
			t.Dressed, t.DocText, t.GroupText, t.Trail, t.GroupTags, t.Words = true, "", "", "", false, nil
			continue
		}
		t.Dressed, t.DocText, t.GroupText, t.Trail, t.GroupTags = true, "//json:"+words+"\n", "", "", false
		t.Words = strings.Split(words, ",")
	}
	return n
}

// taggable: declarations over pointers have no methods to generate.
func (t *Type) taggable() bool { return t.Struct || !strings.HasPrefix(t.Form, "*") }

// words draws a set of directive words; nil - none.
func drawWords(r *rand.Rand, allowTransit bool) []string {
	if r.Intn(4) == 0 {
		return nil
	}
	var w []string
	add := func(s string) { w = append(w, s) }
	if r.Intn(3) == 0 {
		add("strict")
	}
	switch r.Intn(6) {
	case 0:
		add("encode")
	case 1:
		add("decode")
	case 2:
		if r.Intn(2) == 0 {
			add("custom")
		}
	}
	if allowTransit && r.Intn(8) == 0 {
		add("transit")
	}
	for len(w) == 0 || r.Intn(4) == 0 {
		add(choose(r, "json", "easy", "yes", "x", "strictly", "encoder", "decoder", "customs", "no-strict", "de-code", "gen", "1", "json", "strict2"))
	}
	if r.Intn(8) == 0 {
		add(w[r.Intn(len(w))])
	}
	r.Shuffle(len(w), func(i, j int) { w[i], w[j] = w[j], w[i] })
	return w
}

func spell(r *rand.Rand, w string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		return strings.ToUpper(w[:1]) + w[1:]
	}
	return w
}

// comment spells a json comment with the words, among other comment lines.
func comment(r *rand.Rand, name string, w []string) string {
	head := func() string {
		return choose(r, "//json:", "//json:", "// json:", "//  json: ", "///json:", "//\tjson:", "// / json:")
	}
	var lines []string
	other := func() string {
		return choose(r, "// "+name+" is a declaration.\n", "//\n", "// see json:strict\n", "// the json:encode comment of others\n", "//go:generate true\n", "// JSON:strict\n", "// json strict\n", "// jsonx:custom\n", "//nolint\n", "// -json:custom\n")
	}
	if w != nil {
		parts := [][]string{w}
		if len(w) > 1 && r.Intn(6) == 0 {
			k := 1 + r.Intn(len(w)-1)
			parts = [][]string{w[:k], w[k:]}
		}
		for _, p := range parts {
			var b strings.Builder
			b.WriteString(head())
			for i, x := range p {
				if i > 0 {
					b.WriteString(choose(r, ",", ",", ", ", " , ", ",,", "\t,"))
				}
				b.WriteString(spell(r, x))
			}
			b.WriteString(choose(r, "", "", "", " ", ",", " ,"))
			lines = append(lines, b.String()+"\n")
		}
	} else if r.Intn(6) == 0 {
		lines = append(lines, choose(r, "//json:\n", "// json: \n", "//json:,\n"))
	}
	for r.Intn(3) == 0 {
		i := r.Intn(len(lines) + 1)
		lines = append(lines[:i:i], append([]string{other()}, lines[i:]...)...)
	}
	return strings.Join(lines, "")
}

// Dress gives the declarations of the main files random json comments.
func (c *Case) Dress(r *rand.Rand) *Case {
	n := c.Clone()
	trail := func(t *Type) {
		if r.Intn(8) == 0 {
			t.Trail = " // json:" + choose(r, "strict", "custom", "encode", "json")
		}
	}
	for _, f := range n.Files {
		for i := 0; i < len(f.Types); {
			t := f.Types[i]
			j := i + 1
			for t.Group != 0 && j < len(f.Types) && f.Types[j].Group == t.Group {
				j++
			}
			whole := t.Group != 0 && r.Intn(3) == 0
			for _, x := range f.Types[i:j] {
				whole = whole && x.taggable()
			}
			var gw []string
			if whole {
				gw = drawWords(r, false)
			}
			for k, x := range f.Types[i:j] {
				x.Dressed, x.DocText, x.GroupText, x.Trail, x.GroupTags, x.Words = true, "", "", "", false, nil
				trail(x)
				switch {
				case whole && gw != nil:
					x.Words = gw
					if k == 0 {
						x.GroupText = comment(r, "the group", gw)
					}
					if r.Intn(4) == 0 {
						x.DocText = "// " + x.Name + " is part of the group.\n"
					}
				case !x.taggable():
				case r.Intn(10) == 0:
					// the comment does not belong to the declaration
					if t.Group == 0 || k > 0 {
						x.DocText = comment(r, x.Name, []string{"strict"}) + "\n"
					}
				default:
					x.Words = drawWords(r, !x.Struct && !strings.HasPrefix(x.Form, "["))
					x.DocText = comment(r, x.Name, x.Words)
				}
			}
			i = j
		}
	}
	return n
}

// Effective words of every declaration of a file: untagged element types take those of the first tagged list or array over them.
func (f *File) Effective() map[string][]string {
	out := map[string][]string{}
	by := map[string]*Type{}
	for _, t := range f.Types {
		by[t.Name] = t
		if t.Words != nil {
			out[t.Name] = t.Words
		}
	}
	var inherit func(t *Type, w []string)
	inherit = func(t *Type, w []string) {
		if t.Struct || !strings.HasPrefix(t.Form, "[") {
			return
		}
		el := t.Form[strings.IndexByte(t.Form, ']')+1:]
		if e := by[el]; e != nil && out[el] == nil {
			out[el] = w
			inherit(e, w)
		}
	}
	for _, t := range f.Types {
		if t.Words != nil {
			inherit(t, t.Words)
		}
	}
	return out
}
