package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vharness/schema"
)

// Checks of the generator itself. Each is a search over cases: draw makes case i, eval judges it.

// sample is one generated case of a special check.
type sample struct {
	Case    *schema.Case `json:"case,omitempty"`
	Other   *schema.Case `json:"other,omitempty"` // P20: an earlier state of the declarations; further modules
	Type    string       `json:"type,omitempty"`
	What    string       `json:"what,omitempty"`
	File    string       `json:"file,omitempty"`
	Text    string       `json:"text,omitempty"`
	Int     int          `json:"int,omitempty"`
	Trivial bool         `json:"-"`
	Sample  string       `json:"-"`
}

type specialCheck struct {
	n, tn  int // cases per tier
	rule   string
	draw   func(r *rand.Rand, i int) *sample
	eval   func(e *evalEnv, s *sample) string // "" - the property holds
	shrink func(s *sample) []*sample          // smaller candidates, in order of preference
	count  func(s *sample, counts map[string]int)
}

type evalEnv struct {
	vjgen string
	dir   string // scratch of this evaluation, empty
}

var specials = map[string]*specialCheck{}

func init() {
	for _, id := range []string{"P19", "P20", "P21", "P22"} {
		id := id
		special[id] = func(c *config) *outcome { return c.specialRun(specials[id]) }
	}
}

func (c *config) specialRun(sc *specialCheck) *outcome {
	out := &outcome{extra: map[string]any{}, rule: sc.rule}
	dir := mkScratch()
	vjgen := buildVjgen(dir)
	n := sc.n
	limit := 5 * time.Minute
	if c.thorough {
		n = sc.tn
		limit = 45 * time.Minute
	}
	counts := map[string]int{}
	var mu sync.Mutex
	var fails []*sample
	var msgs []string
	seen := map[string]bool{}
	parallel(n, 8, func(i int) {
		mu.Lock()
		stop := len(fails) >= 3 || time.Since(c.start) > limit
		mu.Unlock()
		if stop {
			return
		}
		s := sc.draw(rand.New(rand.NewSource(mix(c.seed, c.prop, i))), i)
		msg := evalIn(sc, dir, vjgen, s)
		mu.Lock()
		defer mu.Unlock()
		out.evals++
		key, _ := json.Marshal(s)
		if !s.Trivial && !seen[string(key)] {
			seen[string(key)] = true
			out.nontrivial++
		}
		if sc.count != nil {
			sc.count(s, counts)
		}
		if len(out.samples) < 400 && s.Sample != "" && !s.Trivial {
			out.samples = append(out.samples, clip(s.Sample, 600))
		}
		if msg != "" {
			fails = append(fails, s)
			msgs = append(msgs, msg)
		}
	})
	sort.Strings(out.samples)
	out.samples = spread(out.samples, 8)
	out.extra["classes"] = counts
	if len(fails) > 0 {
		s, msg := fails[0], msgs[0]
		deadline := time.Now().Add(60 * time.Second)
		for again := true; again && sc.shrink != nil; {
			again = false
			for _, x := range sc.shrink(s) {
				if time.Now().After(deadline) {
					break
				}
				if m := evalIn(sc, dir, vjgen, x); m != "" {
					s, msg, again = x, m, true
					break
				}
			}
		}
		out.violations = append(out.violations, &violation{Property: c.prop, Kind: "special", Message: msg, Case: s.Case, Type: s.Type, Data: s})
	}
	return out
}

var evalSeq struct {
	sync.Mutex
	n int
}

func evalIn(sc *specialCheck, dir, vjgen string, s *sample) string {
	evalSeq.Lock()
	evalSeq.n++
	d := filepath.Join(dir, fmt.Sprintf("e%d", evalSeq.n))
	evalSeq.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(d)
	return sc.eval(&evalEnv{vjgen: vjgen, dir: d}, s)
}

// specialReplay evaluates a stored case.
func (c *config) specialReplay(v *violation) *outcome {
	out := &outcome{extra: map[string]any{"replay": c.replay}, evals: 1, nontrivial: 1}
	b, err := json.Marshal(v.Data)
	if err != nil {
		infra("%v", err)
	}
	var s sample
	if err := json.Unmarshal(b, &s); err != nil {
		infra("%v", err)
	}
	dir := mkScratch()
	vjgen := buildVjgen(dir)
	if msg := evalIn(specials[v.Property], dir, vjgen, &s); msg != "" {
		v.Message = msg
		out.violations = append(out.violations, v)
	}
	return out
}

// place writes the sources of a case as a module of its own in dir.
func place(c *schema.Case, dir string) {
	base := "vt/" + c.Name
	for p, s := range c.Sources(base) {
		write(filepath.Join(dir, p), s)
	}
	write(filepath.Join(dir, "go.mod"), modFile(base, false))
	write(filepath.Join(dir, "go.sum"), sumFile())
}

// generateAll runs the generator on the files of the case placed in dir; "" when all went well.
func (e *evalEnv) generateAll(c *schema.Case, dir string) string {
	st, err := generate(e.vjgen, dir, c.GenFiles())
	if err != nil {
		return err.Error()
	}
	for _, o := range st {
		if o.Status != "OK" {
			return fmt.Sprintf("%s on %s: %s", o.Status, o.File, o.Msg)
		}
	}
	return ""
}

func outFile(src string) string { return strings.TrimSuffix(src, ".go") + "_vj.go" }

// tree reads all regular files below dir.
func tree(dir string) map[string]string {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			out[rel+"/"] = i.Mode().String()
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[rel] = i.Mode().String() + "\n" + string(b)
		return nil
	})
	if err != nil {
		infra("%v", err)
	}
	return out
}

func treeDiff(a, b map[string]string) []string {
	var r []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			r = append(r, k+" vanished")
		} else if v != w {
			r = append(r, k+" differs: "+firstDiff(v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k+" appeared")
		}
	}
	sort.Strings(r)
	return r
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var l, m string
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			m = y[i]
		}
		if l != m {
			return fmt.Sprintf("line %d: %q / %q", i+1, clip(l, 150), clip(m, 150))
		}
	}
	return ""
}

// decls of a generated file: method texts by receiver and name, other declarations by name.
func declsOf(src string) (map[string]string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	text := func(n any) string {
		var b bytes.Buffer
		_ = printer.Fprint(&b, fs, n)
		var l []string
		for _, x := range strings.Split(b.String(), "\n") {
			if x = strings.TrimSpace(x); x != "" {
				l = append(l, x)
			}
		}
		return strings.Join(l, "\n")
	}
	put := func(k, v string) error {
		if _, ok := out[k]; ok {
			return fmt.Errorf("%s is declared twice", k)
		}
		out[k] = v
		return nil
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			k := d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				k = text(t) + "." + k
			}
			if err := put(k, text(d)); err != nil {
				return nil, err
			}
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					for _, n := range s.Names {
						if err := put("var "+n.Name, text(s)); err != nil {
							return nil, err
						}
					}
				case *ast.TypeSpec:
					if err := put("type "+s.Name.Name, text(s)); err != nil {
						return nil, err
					}
				}
			}
		}
	}
	return out, nil
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	return string(b)
}
