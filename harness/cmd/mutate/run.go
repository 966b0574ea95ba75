package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Result of one mutant that compiles and passes the tests.
type Result struct {
	N      int
	File   string
	Line   int
	What   string
	Output string // same, differs: what is generated for the corpus
	Diff   string
}

func sh(dir string, limit time.Duration, name string, args ...string) (string, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	out, err := c.CombinedOutput()
	return string(out), err == nil
}

var modules = []struct {
	dir  string
	race bool
}{{"test/tests/fill", false}, {"test/vjson", true}, {"test/race", true}, {"benchmark", false}, {"test/ejson", false}}

var lastLog string // of some failing test run, for diagnosis

func tests(w string) bool {
	if log, ok := sh(w, 2*time.Minute, "go", "test", "-vet=off", "-count=1", "-p", "1", "./..."); !ok {
		lastLog = log
		return false
	}
	for _, m := range modules {
		args := []string{"test", "-vet=off", "-count=1"}
		if m.race {
			args = append(args, "-race")
		}
		if log, ok := sh(filepath.Join(w, m.dir), 4*time.Minute, "go", append(args, "./...")...); !ok {
			lastLog = log
			return false
		}
	}
	return true
}

// corpus: sources below WORK/corpus; each worker has a copy.
func generate(gen, corpus string) map[string]string {
	out := map[string]string{}
	filepath.Walk(corpus, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && (strings.HasSuffix(p, "_vj.go") || strings.HasSuffix(p, "valyjson_utils.go")) {
			os.Remove(p)
		}
		return nil
	})
	var mu sync.Mutex
	filepath.Walk(corpus, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			o := strings.TrimSuffix(p, ".go") + "_vj.go"
			log, _ := sh(corpus, time.Minute, gen, p+"="+o)
			b, _ := os.ReadFile(o)
			os.Remove(o)
			mu.Lock()
			rel, _ := filepath.Rel(corpus, p)
			out[rel] = strings.ReplaceAll(log, corpus, "") + string(b)
			mu.Unlock()
		}
		return nil
	})
	return out
}

func run(ms []Mutant) {
	repo, work, out := os.Args[2], os.Args[3], os.Args[5]
	var n int
	fmt.Sscan(os.Args[4], &n)
	f, err := os.OpenFile(out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	done := map[int]bool{}
	if b, err := os.ReadFile(out + ".done"); err == nil {
		for _, l := range strings.Fields(string(b)) {
			var i int
			fmt.Sscan(l, &i)
			done[i] = true
		}
	}
	d, err := os.OpenFile(out+".done", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	jobs := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		w := fmt.Sprintf("%s/w%d", work, k)
		sh("/", time.Minute, "rsync", "-a", "--delete", "--exclude=/.git", repo+"/", w+"/")
		corpus := fmt.Sprintf("%s/c%d", work, k)
		sh("/", time.Minute, "rsync", "-a", "--delete", work+"/corpus/", corpus+"/")
		gen := w + ".gen"
		build := func() bool {
			// the generator program of the harness, built with the worker's copy
			log, ok := sh(work+"/gen"+fmt.Sprint(k), time.Minute, "go", "build", "-o", gen, ".")
			if !ok && os.Getenv("DEBUG") != "" {
				fmt.Println(log)
			}
			return ok
		}
		os.MkdirAll(work+"/gen"+fmt.Sprint(k), 0o755)
		mod, _ := os.ReadFile(work + "/gen.mod")
		os.WriteFile(work+"/gen"+fmt.Sprint(k)+"/go.mod", bytes.ReplaceAll(mod, []byte("REPO"), []byte(w)), 0o644)
		sum, _ := os.ReadFile(repo + "/go.sum")
		os.WriteFile(work+"/gen"+fmt.Sprint(k)+"/go.sum", sum, 0o644)
		src, _ := os.ReadFile(work + "/gen.go")
		os.WriteFile(work+"/gen"+fmt.Sprint(k)+"/main.go", src, 0o644)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !build() {
				panic("cannot build the generator")
			}
			base := generate(gen, corpus)
			if !tests(w) && !tests(w) {
				panic("tests fail in " + w + "\n" + lastLog)
			}
			for i := range jobs {
				m := ms[i]
				path := w + "/" + m.File
				// the tests rewrite tracked files, and later runs read them
				sh("/", time.Minute, "rsync", "-a", "--delete", "--exclude=/.git", repo+"/", w+"/")
				orig, _ := os.ReadFile(repo + "/" + m.File)
				mut := m.apply(orig)
				if mut == nil {
					continue
				}
				os.WriteFile(path, mut, 0o644)
				if build() && tests(w) {
					r := Result{N: i, File: m.File, Line: m.Line, What: m.What, Output: "same"}
					got := generate(gen, corpus)
					for _, k := range sorted(base) {
						if got[k] != base[k] {
							r.Output = "differs"
							r.Diff = k + ": " + firstDiff(base[k], got[k])
							break
						}
					}
					b, _ := json.Marshal(r)
					mu.Lock()
					f.Write(append(b, '\n'))
					mu.Unlock()
				}
				os.WriteFile(path, orig, 0o644)
				mu.Lock()
				fmt.Fprintln(d, i)
				mu.Unlock()
			}
		}()
	}
	for i := range ms {
		if !done[i] {
			jobs <- i
		}
	}
	close(jobs)
	wg.Wait()
}

func sorted(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %q became %q", i+1, clip(p), clip(q))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}
