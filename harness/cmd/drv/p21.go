package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"vharness/schema"
)

func init() {
	specials["P21"] = &specialCheck{
		n: 100, tn: 2500,
		rule: "a case is one package of declarations (names that occur in the generated code, sibling packages with and without alias and of the same name, several files, other declarations beside them) that the generator must accept and whose output go build and go vet must accept; the imports of the output are compared with those allowed; non-trivial: distinct packages",
		draw: func(r *rand.Rand, i int) *sample {
			o := schema.DefaultOptions()
			o.Hostile = []float64{0, .3, .8}[r.Intn(3)]
			o.Tails = .6
			c := schema.Small(r, pick(r, "c", "json", "types", "model2", "errors", "time", "fastjson", "main_", "dto_x")+fmt.Sprintf("%03d", i%1000), 5+r.Intn(40), 3+r.Intn(20), o)
			if r.Intn(4) == 0 {
				ts := c.AllTypes()
				c = c.Reach(ts[r.Intn(len(ts))].Name)
			}
			s := &sample{Case: c}
			s.Sample = fmt.Sprintf("%d declarations in %d files: %s", len(c.AllTypes()), len(c.GenFiles()), clip(renderCase(c), 300))
			return s
		},
		count: func(s *sample, n map[string]int) {
			n["declarations"] += len(s.Case.AllTypes())
			if s.Case.Ext != nil && s.Case.ExtAlias != "" {
				n["aliased import"]++
			} else if s.Case.Ext != nil {
				n["plain import"]++
			}
			if s.Case.Ext2 != nil {
				n["two packages of one name"]++
			}
			if len(s.Case.Files) > 1 {
				n["two files"]++
			}
			for _, f := range s.Case.Files {
				if f.Tail != "" {
					n["with other declarations"]++
				}
			}
		},
		eval: evalP21,
		shrink: func(s *sample) []*sample {
			var r []*sample
			all := s.Case.AllTypes()
			for _, t := range all {
				if x := s.Case.Reach(t.Name); len(x.AllTypes()) < len(all) {
					r = append(r, &sample{Case: x})
				}
			}
			sort.SliceStable(r, func(i, j int) bool { return len(r[i].Case.AllTypes()) < len(r[j].Case.AllTypes()) })
			for _, f := range s.Case.Files {
				if f.Tail != "" || f.Head != "" {
					n := s.Case.Clone()
					for _, g := range n.Files {
						if g.Name == f.Name {
							g.Tail, g.Head, g.Imports = "", "", nil
						}
					}
					r = append(r, &sample{Case: n})
				}
			}
			for _, t := range s.Case.StructTypes() {
				k := len(s.Case.FieldsOf(t))
				for size := (k + 1) / 2; size >= 1; size /= 2 {
					for i := 0; i+size <= k; i += size {
						r = append(r, &sample{Case: s.Case.DropFields(t, i, size)})
					}
				}
			}
			return r
		},
	}
}

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

// goTool runs the go command in a module; it tells the diagnostics, "" when there are none.
func goTool(dir string, args ...string) string {
	r := run(dir, 5*time.Minute, nil, "go", args...)
	if r.timedOut {
		infra("go %v did not finish", args)
	}
	if r.code == 0 {
		return ""
	}
	msg := strings.TrimSpace(r.out + r.err)
	if strings.Contains(msg, "no space left") || strings.Contains(msg, "signal: killed") || strings.Contains(msg, "cannot allocate memory") {
		infra("go %v: %s", args, clip(msg, 600))
	}
	return msg
}

func evalP21(e *evalEnv, s *sample) string {
	c := s.Case
	dir := filepath.Join(e.dir, "m")
	place(c, dir)
	if msg := e.generateAll(c, dir); msg != "" {
		if !soundSource(e, c) {
			return ""
		}
		return "the generator refuses the declarations: " + msg
	}
	if msg := goTool(dir, "build", "./..."); msg != "" {
		if !soundSource(e, c) {
			return ""
		}
		return "the output does not compile: " + clip(msg, 1500)
	}
	if msg := goTool(dir, "vet", "-assign=false", "-structtag=false", "./..."); msg != "" {
		return "go vet reports: " + clip(msg, 1500)
	}
	// imports
	base := "vt/" + c.Name
	for _, f := range c.GenFiles() {
		allowed := map[string]bool{"github.com/valyala/fastjson": true, "github.com/mailru/easyjson/jwriter": true, "github.com/mailru/easyjson/buffer": true, "github.com/google/uuid": true, "github.com/pkg/errors": true}
		for _, i := range importsOf(filepath.Join(dir, f)) {
			allowed[i] = true
		}
		for _, out := range []string{outFile(f), filepath.Join(filepath.Dir(f), "valyjson_utils.go")} {
			seen := map[string]bool{}
			for _, i := range importsOf(filepath.Join(dir, out)) {
				first, _, _ := strings.Cut(i, "/")
				std := !strings.Contains(first, ".") && i != base && !strings.HasPrefix(i, base+"/")
				if !std && !allowed[i] {
					return fmt.Sprintf("%s imports %s", out, i)
				}
				if seen[i] {
					return fmt.Sprintf("%s imports %s twice", out, i)
				}
				seen[i] = true
			}
		}
	}
	return ""
}

func importsOf(p string) []string {
	f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ImportsOnly)
	if err != nil {
		return nil
	}
	var r []string
	for _, i := range f.Imports {
		x, _ := strconv.Unquote(i.Path.Value)
		r = append(r, x)
	}
	return r
}

// soundSource: the declarations alone compile; anything else would be a mistake of the harness.
func soundSource(e *evalEnv, c *schema.Case) bool {
	dir := filepath.Join(e.dir, "src")
	_ = os.RemoveAll(dir)
	place(c, dir)
	if msg := goTool(dir, "build", "./..."); msg != "" {
		infra("the generated declarations do not compile: %s\n%s", msg, renderCase(c))
	}
	return true
}
