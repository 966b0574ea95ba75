package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"vharness/schema"
)

var decMethods = []string{"UnmarshalJSON", "FillFromJSON", "validate"}
var encMethods = []string{"MarshalJSON", "MarshalTo", "IsZero", "Reset"}

func hasWord(w []string, x string) bool {
	for _, y := range w {
		if y == x {
			return true
		}
	}
	return false
}

func init() {
	specials["P19"] = &specialCheck{
		n: 300, tn: 12000,
		rule: "a case is one package of declarations with random json comments (words, letter case, order, spacing, other comment lines, groups); its generated methods are compared, by name and text, with those generated for the same declarations under one plain and one strict comment; non-trivial: distinct packages with at least two different sets of words",
		draw: func(r *rand.Rand, i int) *sample {
			o := schema.DefaultOptions()
			o.Omit, o.Default = .2, .1
			c := schema.Small(r, fmt.Sprintf("d%03d", i%1000), 1+r.Intn(8), 1+r.Intn(6), o)
			if r.Intn(2) == 0 {
				// drop some declarations nobody needs, so that files differ in size
				ts := c.AllTypes()
				c = c.Reach(ts[r.Intn(len(ts))].Name)
			}
			s := &sample{Case: c.Dress(r)}
			sets := map[string]bool{}
			for _, t := range s.Case.AllTypes() {
				sets[strings.Join(t.Words, ",")] = true
				if t.DocText != "" {
					s.Sample = strings.TrimSpace(t.DocText) + " => " + fmt.Sprint(t.Words)
				}
			}
			s.Trivial = len(sets) < 2
			return s
		},
		count: func(s *sample, n map[string]int) {
			if s.What != "" {
				n[s.What]++
			}
			for _, t := range s.Case.AllTypes() {
				switch {
				case t.Words == nil:
					n["without words"]++
				case t.GroupText != "":
					n["words of the group"]++
				}
				for _, w := range []string{"strict", "encode", "decode", "custom", "transit"} {
					if hasWord(t.Words, w) {
						n[w]++
					}
				}
			}
		},
		eval: evalP19,
		shrink: func(s *sample) []*sample {
			var r []*sample
			for _, t := range s.Case.AllTypes() {
				if x := s.Case.Reach(t.Name); len(x.AllTypes()) < len(s.Case.AllTypes()) && groupsWhole(s.Case, x) {
					r = append(r, &sample{Case: x})
				}
			}
			for _, t := range s.Case.AllTypes() {
				if t.Group == 0 && (len(t.Words) != 1 || t.Words[0] != "json" || t.DocText != "//json:json\n") {
					n := s.Case.Clone()
					for _, x := range n.AllTypes() {
						if x.Name == t.Name {
							x.Words, x.DocText, x.Trail = []string{"json"}, "//json:json\n", ""
						}
					}
					r = append(r, &sample{Case: n})
				}
			}
			for _, t := range s.Case.StructTypes() {
				if k := len(s.Case.FieldsOf(t)); k > 0 {
					r = append(r, &sample{Case: s.Case.DropFields(t, 0, k)})
				}
			}
			return r
		},
	}
}

// groupsWhole: the heads of the groups, which carry their comments, are still there.
func groupsWhole(a, b *schema.Case) bool {
	left := map[string]bool{}
	for _, t := range b.AllTypes() {
		left[t.Name] = true
	}
	heads := map[int]string{}
	for _, t := range a.AllTypes() {
		if t.Group != 0 {
			if _, ok := heads[t.Group]; !ok {
				heads[t.Group] = t.Name
			}
			if left[t.Name] && !left[heads[t.Group]] {
				return false
			}
		}
	}
	return true
}

func evalP19(e *evalEnv, s *sample) string {
	dirs := map[string]*schema.Case{"plain": s.Case.DressAll("json"), "strict": s.Case.DressAll("json,strict"), "test": s.Case}
	for _, k := range []string{"plain", "strict", "test"} {
		c := dirs[k]
		place(c, filepath.Join(e.dir, k))
		if msg := e.generateAll(c, filepath.Join(e.dir, k)); msg != "" {
			if k != "test" {
				s.Trivial, s.What = true, "unusable: "+msg
				return "" // the declarations themselves are refused: P21 reports that
			}
			return "the declarations are accepted with plain comments, but not with these: " + msg
		}
	}
	for _, f := range s.Case.Files {
		out := map[string]map[string]string{}
		for k := range dirs {
			d, err := declsOf(readFile(filepath.Join(e.dir, k, outFile(f.Name))))
			if err != nil {
				if k != "test" {
					return ""
				}
				return fmt.Sprintf("%s: %v", f.Name, err)
			}
			out[k] = d
		}
		eff := f.Effective()
		test := out["test"]
		owner := map[string]*schema.Type{}
		for _, t := range f.Types {
			owner[t.Name] = t
		}
		// what must be there
		for _, t := range f.Types {
			w := eff[t.Name]
			dec := w != nil && !hasWord(w, "custom") && !hasWord(w, "encode")
			enc := w != nil && !hasWord(w, "custom") && !hasWord(w, "decode")
			strict := hasWord(w, "strict")
			base := out["plain"]
			if strict {
				base = out["strict"]
			}
			check := func(names []string, want bool) string {
				for _, m := range names {
					k := t.Name + "." + m
					ref, exists := base[k]
					got, ok := test[k]
					switch {
					case !exists:
						if ok {
							return fmt.Sprintf("%s exists only with the words %v", k, w)
						}
					case want && !ok:
						return fmt.Sprintf("%s is missing: the words are %v", k, w)
					case !want && ok:
						return fmt.Sprintf("%s is generated: the words are %v", k, w)
					case want && got != ref:
						return fmt.Sprintf("%s is not the method generated with a plain comment (words %v): %s", k, w, firstDiff(ref, got))
					}
				}
				return ""
			}
			if msg := check(decMethods, dec); msg != "" {
				return msg
			}
			if msg := check(encMethods, enc); msg != "" {
				return msg
			}
		}
		// what must not: anything the plain variant has not
		var ks []string
		for k := range test {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if _, ok := out["plain"][k]; ok {
				continue
			}
			if _, ok := out["strict"][k]; ok {
				continue
			}
			return "unexpected declaration " + k
		}
		// strictness changes the validator only
		for k, v := range out["plain"] {
			if v2, ok := out["strict"][k]; ok && v2 != v && !strings.HasSuffix(k, ".validate") {
				return fmt.Sprintf("%s depends on strictness: %s", k, firstDiff(v, v2))
			}
		}
	}
	return ""
}
