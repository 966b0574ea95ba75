package main

import (
	"fmt"
	"go/format"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"vharness/schema"
)

func init() {
	specials["P20"] = &specialCheck{
		n: 150, tn: 5000,
		rule: "a case is one package of declarations and a history: a fresh run, a run over its own output, a run over output of an earlier state of the declarations, a run in another directory with relative paths and another environment, and a run in one process after other modules; all outputs are compared byte for byte; non-trivial: distinct packages",
		draw: func(r *rand.Rand, i int) *sample {
			o := schema.DefaultOptions()
			small := func(name string) *schema.Case {
				c := schema.Small(r, name, 1+r.Intn(10), 1+r.Intn(8), o)
				if r.Intn(3) == 0 {
					ts := c.AllTypes()
					c = c.Reach(ts[r.Intn(len(ts))].Name)
				}
				return c
			}
			s := &sample{Case: small(fmt.Sprintf("m%03d", i%1000)), Int: r.Intn(1 << 20)}
			s.Other = small(fmt.Sprintf("n%03d", i%1000))
			s.Sample = fmt.Sprintf("%d declarations in %d files: %s", len(s.Case.AllTypes()), len(s.Case.GenFiles()), clip(renderCase(s.Case), 300))
			return s
		},
		count: func(s *sample, n map[string]int) {
			if s.What != "" {
				n[s.What]++
			}
			if s.Case.Ext != nil {
				n["with an external package"]++
			}
			if s.Case.Ext2 != nil {
				n["with two external packages of one name"]++
			}
			if len(s.Case.Files) > 1 {
				n["two files"]++
			}
		},
		eval: evalP20,
		shrink: func(s *sample) []*sample {
			var r []*sample
			for _, t := range s.Case.AllTypes() {
				if x := s.Case.Reach(t.Name); len(x.AllTypes()) < len(s.Case.AllTypes()) {
					r = append(r, &sample{Case: x, Other: s.Other, Int: s.Int})
				}
			}
			for _, t := range s.Other.AllTypes() {
				if x := s.Other.Reach(t.Name); len(x.AllTypes()) < len(s.Other.AllTypes()) {
					r = append(r, &sample{Case: s.Case, Other: x, Int: s.Int})
				}
			}
			return r
		},
	}
}

var markRe = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)

func evalP20(e *evalEnv, s *sample) string {
	c := s.Case
	r := rand.New(rand.NewSource(int64(s.Int)))
	gen := func(dir, cwd string, env []string, args ...string) string {
		x := run(cwd, goTimeout, env, e.vjgen, args...)
		if x.code != 0 {
			return strings.TrimSpace(x.out + x.err)
		}
		return ""
	}
	argsOf := func(c *schema.Case, dir string) []string {
		var a []string
		for _, f := range c.GenFiles() {
			a = append(a, filepath.Join(dir, f)+"="+filepath.Join(dir, outFile(f)))
		}
		return a
	}
	// expected new files
	allowed := map[string]bool{}
	for _, f := range c.GenFiles() {
		allowed[outFile(f)] = true
		allowed[filepath.Join(filepath.Dir(f), "valyjson_utils.go")] = true
	}
	fresh := filepath.Join(e.dir, "fresh")
	place(c, fresh)
	before := tree(e.dir)
	if msg := gen(fresh, fresh, nil, argsOf(c, fresh)...); msg != "" {
		s.Trivial, s.What = true, "unusable: "+clip(msg, 200)
		return ""
	}
	ref := tree(fresh)
	for _, d := range treeDiff(before, tree(e.dir)) {
		p, how, _ := strings.Cut(d, " ")
		p = strings.TrimPrefix(p, "fresh/")
		if how != "appeared" || !allowed[p] {
			return "the run changes more than its output: " + d
		}
	}
	for p := range allowed {
		t, ok := ref[p]
		if !ok {
			return p + " is not written"
		}
		_, src, _ := strings.Cut(t, "\n")
		out, err := format.Source([]byte(src))
		if err != nil {
			return fmt.Sprintf("%s is no Go source: %v", p, err)
		}
		if string(out) != src {
			return fmt.Sprintf("%s is not formatted: %s", p, firstDiff(src, string(out)))
		}
		if strings.HasSuffix(p, "_vj.go") {
			first, _, _ := strings.Cut(src, "\n")
			if !markRe.MatchString(first) {
				return fmt.Sprintf("%s is not marked as generated: %q", p, first)
			}
		}
	}
	// runs over earlier output: its own, and that of other declarations
	if msg := gen(fresh, fresh, nil, argsOf(c, fresh)...); msg != "" {
		return "the second run fails: " + msg
	}
	if d := treeDiff(ref, tree(fresh)); len(d) > 0 {
		return "the second run gives other output: " + strings.Join(d, "; ")
	}
	stale := filepath.Join(e.dir, "stale")
	place(c, stale)
	for _, f := range c.GenFiles() {
		pkg := "p"
		if m := regexp.MustCompile(`(?m)^package (\w+)`).FindStringSubmatch(readFile(filepath.Join(stale, f))); m != nil {
			pkg = m[1]
		}
		write(filepath.Join(stale, outFile(f)), "// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.\npackage "+pkg+"\n\nfunc (s *Gone) IsZero() bool { return false }\n"+strings.Repeat("// left over\n", r.Intn(3)*20000))
		write(filepath.Join(stale, filepath.Dir(f), "valyjson_utils.go"), "package "+pkg+"\n\n"+strings.Repeat("// left over\n", r.Intn(2)*1000))
	}
	if msg := gen(stale, stale, nil, argsOf(c, stale)...); msg != "" {
		return "the run over earlier output fails: " + msg
	}
	if d := treeDiff(ref, tree(stale)); len(d) > 0 {
		return "the run over earlier output gives other output: " + strings.Join(d, "; ")
	}
	// elsewhere, with relative paths and another environment
	deep := filepath.Join(e.dir, "some where", "dotted.d-1", "x")
	place(c, deep)
	old := time.Unix(1000000000, 0)
	_ = filepath.Walk(deep, func(p string, _ os.FileInfo, _ error) error { return os.Chtimes(p, old, old) })
	var rel []string
	for _, f := range c.GenFiles() {
		rel = append(rel, f+"="+outFile(f))
	}
	if msg := gen(deep, deep, []string{"HOME=/nonexistent", "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "GOPATH=/nonexistent", "GOMAXPROCS=1", "GOFLAGS=", "PWD=" + deep}, rel...); msg != "" {
		return "the run with relative paths fails: " + msg
	}
	if d := treeDiff(ref, tree(deep)); len(d) > 0 {
		return "the run with relative paths in another directory gives other output: " + strings.Join(d, "; ")
	}
	// one process, after other modules and in another order
	var args []string
	for i, x := range []*schema.Case{s.Other, s.Other.Reach(s.Other.AllTypes()[0].Name)} {
		d := filepath.Join(e.dir, fmt.Sprintf("other%d", i))
		place(x, d)
		args = append(args, argsOf(x, d)...)
	}
	again := filepath.Join(e.dir, "again")
	place(c, again)
	own := argsOf(c, again)
	r.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
	r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	k := r.Intn(len(args) + 1)
	args = append(append(append([]string{}, args[:k]...), own...), args[k:]...)
	x := run(again, goTimeout, nil, e.vjgen, args...)
	if x.code != 0 && x.code != 3 {
		return "the run among other modules fails: " + clip(x.out+x.err, 1000)
	}
	if d := treeDiff(ref, tree(again)); len(d) > 0 {
		return "the run among other modules gives other output: " + strings.Join(d, "; ") + " (" + clip(x.out, 600) + ")"
	}
	return ""
}
