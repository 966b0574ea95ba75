package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vharness/schema"
)

const repo = "/repo"

var verifDir = envOr("VERIF_DIR", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// infra aborts the check with an exit code that is neither "held" nor "violated".
func infra(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratchDirs []string

func cleanup() {
	for _, d := range scratchDirs {
		if strings.HasPrefix(d, "/tmp/vj.") && os.Getenv("VERIF_KEEP") == "" {
			_ = os.RemoveAll(d)
		}
	}
}

func mkScratch() string {
	d, err := os.MkdirTemp("/tmp", "vj.")
	if err != nil {
		infra("mktemp: %v", err)
	}
	scratchDirs = append(scratchDirs, d)
	return d
}

type runResult struct {
	out, err string
	code     int
	timedOut bool
}

func run(dir string, timeout time.Duration, env []string, name string, args ...string) runResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := runResult{out: o.String(), err: e.String()}
	if ctx.Err() != nil {
		r.timedOut = true
		r.code = -1
		return r
	}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				infra("%s was killed from outside", name)
			}
		} else {
			infra("cannot run %s: %v", name, err)
		}
	}
	return r
}

// goTimeout bounds single go tool invocations.
const goTimeout = 10 * time.Minute

// buildVjgen builds the generator driver from /repo's working tree.
func buildVjgen(dir string) string {
	bin := filepath.Join(dir, "vjgen")
	r := run(filepath.Join(verifDir, "harness"), goTimeout, nil, "go", "build", "-o", bin, "./cmd/vjgen")
	if r.code != 0 {
		infra("cannot build the generator driver: %s%s", r.out, r.err)
	}
	return bin
}

func write(path, content string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		infra("%v", err)
	}
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		infra("%v", err)
	}
}

func modFile(module string, vrt bool) string {
	s := "module " + module + "\n\ngo 1.24\n\nrequire (\n\tgithub.com/google/uuid v1.3.0\n\tgithub.com/mailru/easyjson v0.7.7\n\tgithub.com/pkg/errors v0.9.1\n\tgithub.com/valyala/fastjson v1.6.4\n"
	if vrt {
		s += "\tvrt v0.0.0\n\tpgregory.net/rapid v1.3.0\n"
	}
	s += "\tgithub.com/josharian/intern v1.0.0 // indirect\n)\n\nreplace github.com/valyala/fastjson => github.com/iv-menshenin/fastjson v0.0.0-20241112032938-e81832e503d5\n"
	if vrt {
		s += "\nreplace vrt => " + verifDir + "/harness/vrt\n"
	}
	return s
}

// genOutcome of running the generator on one source file.
type genOutcome struct {
	File, Status, Msg string
}

// generate runs the generator on files (paths relative to dir) in one isolated process; output OUT = strings.TrimSuffix(".go") + "_vj.go".
func generate(vjgen, dir string, files []string) ([]genOutcome, error) {
	var args []string
	for _, f := range files {
		abs := filepath.Join(dir, f)
		args = append(args, abs+"="+strings.TrimSuffix(abs, ".go")+"_vj.go")
	}
	r := run(dir, goTimeout, nil, vjgen, args...)
	if r.code != 0 && r.code != 3 {
		return nil, fmt.Errorf("vjgen exit %d: %s%s", r.code, r.out, r.err)
	}
	var out []genOutcome
	for _, l := range strings.Split(strings.TrimSpace(r.out), "\n") {
		p := strings.SplitN(l, "\t", 3)
		if len(p) < 2 {
			continue
		}
		o := genOutcome{Status: p[0]}
		o.File, _ = filepath.Rel(dir, p[1])
		if len(p) > 2 {
			o.Msg = p[2]
		}
		out = append(out, o)
	}
	return out, nil
}

type buildOpts struct {
	race   bool
	probes []string
}

func (b *builtCase) name() string {
	if b.c == nil {
		return b.probe
	}
	return b.c.Name
}

type builtCase struct {
	c     *schema.Case
	probe string // a package of fixed demonstrations instead of a generated case
	bad   string // reason the case is not part of the runner
	stat  []genOutcome
}

type project struct {
	dir    string // scratch
	root   string // module vt
	vjgen  string
	cases  []*builtCase
	runner string
	genT   time.Duration
	buildT time.Duration
}

func parallel(n, workers int, f func(i int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func sumFile() string {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "scratch.sum"))
	if err != nil {
		infra("%v", err)
	}
	return string(b)
}

// placeCase writes and generates one case below root; returns the generator's outcomes.
func placeCase(vjgen, root string, c *schema.Case) ([]genOutcome, error) {
	dir := filepath.Join(root, c.Name)
	base := "vt/" + c.Name
	for p, s := range c.Sources(base) {
		write(filepath.Join(dir, p), s)
	}
	write(filepath.Join(dir, "go.mod"), modFile(base, false))
	write(filepath.Join(dir, "go.sum"), sumFile())
	st, err := generate(vjgen, dir, c.GenFiles())
	if err != nil {
		return nil, err
	}
	_ = os.Remove(filepath.Join(dir, "go.mod"))
	_ = os.Remove(filepath.Join(dir, "go.sum"))
	for p, s := range c.PlainSources(base) {
		write(filepath.Join(dir, p), s)
	}
	write(filepath.Join(dir, "vreg.go"), c.RegSource(base))
	for d, s := range c.ExtRegSources(base) {
		write(filepath.Join(dir, d, "vreg.go"), s)
	}
	return st, nil
}

var pkgRe = regexp.MustCompile(`(?m)^# (vt/\S+)`)

// buildProject generates and compiles the batch and the runner.
func buildProject(dir, vjgen string, cases []*schema.Case, o buildOpts) *project {
	p, err := tryBuild(dir, vjgen, cases, o)
	if err != nil {
		infra("%v", err)
	}
	return p
}

func tryBuild(dir, vjgen string, cases []*schema.Case, o buildOpts) (*project, error) {
	p := &project{dir: dir, root: filepath.Join(dir, "vt"), vjgen: vjgen}
	t0 := time.Now()
	p.cases = make([]*builtCase, len(cases))
	var firstErr error
	var mu sync.Mutex
	parallel(len(cases), 8, func(i int) {
		b := &builtCase{c: cases[i]}
		st, err := placeCase(vjgen, p.root, cases[i])
		if err != nil {
			mu.Lock()
			firstErr = err
			mu.Unlock()
		}
		b.stat = st
		for _, o := range st {
			if o.Status != "OK" {
				b.bad = fmt.Sprintf("generator %s on %s: %s", o.Status, o.File, o.Msg)
			}
		}
		p.cases[i] = b
	})
	if firstErr != nil {
		return nil, firstErr
	}
	for _, x := range o.probes {
		if b := placeProbes(vjgen, p.root, x); b != nil {
			p.cases = append(p.cases, b)
		}
	}
	p.genT = time.Since(t0)
	write(filepath.Join(p.root, "go.mod"), modFile("vt", true))
	write(filepath.Join(p.root, "go.sum"), sumFile())
	t0 = time.Now()
	defer func() { p.buildT = time.Since(t0) }()
	for try := 0; ; try++ {
		p.writeRunner()
		args := []string{"build", "-o", filepath.Join(dir, "runner")}
		if o.race {
			args = append(args, "-race")
		}
		// -N -l is not used: the optimised build is what users run
		args = append(args, "./runner")
		r := run(p.root, goTimeout, []string{"GOFLAGS=-mod=mod"}, "go", args...)
		if r.code == 0 {
			break
		}
		n := 0
		for _, m := range pkgRe.FindAllStringSubmatch(r.err, -1) {
			name := strings.TrimPrefix(m[1], "vt/")
			name, _, _ = strings.Cut(name, "/")
			for _, b := range p.cases {
				if b.name() == name && b.bad == "" {
					b.bad = "does not compile: " + section(r.err, m[1])
					n++
				}
			}
		}
		if n == 0 || try > 40 {
			return nil, fmt.Errorf("cannot build the runner: %s%s", r.out, r.err)
		}
	}
	p.runner = filepath.Join(dir, "runner")
	return p, nil
}

func section(s, pkg string) string {
	i := strings.Index(s, "# "+pkg)
	if i < 0 {
		return s
	}
	s = s[i:]
	if j := strings.Index(s[2:], "\n# "); j >= 0 {
		s = s[:j+2]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func (p *project) writeRunner() {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"vrt\"\n")
	for _, c := range p.cases {
		if c.bad != "" {
			continue
		}
		fmt.Fprintf(&b, "\t_ %q\n", "vt/"+c.name())
		if c.c != nil {
			for d := range c.c.ExtRegSources("x") {
				fmt.Fprintf(&b, "\t_ %q\n", "vt/"+c.c.Name+"/"+d)
			}
		}
	}
	b.WriteString(")\n\nfunc main() { vrt.Main() }\n")
	write(filepath.Join(p.root, "runner", "main.go"), b.String())
}

func (p *project) badCases() []*builtCase {
	var r []*builtCase
	for _, c := range p.cases {
		if c.bad != "" {
			r = append(r, c)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name() < r[j].name() })
	return r
}
