package vrt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
	"pgregory.net/rapid"
)

type unmarshaler interface{ UnmarshalJSON([]byte) error }
type filler interface {
	FillFromJSON(*fastjson.Value) error
}
type marshaler interface{ MarshalJSON() ([]byte, error) }
type marshalerTo interface {
	MarshalTo(*jwriter.Writer) error
}
type zeroer interface{ IsZero() bool }
type resetter interface{ Reset() }

// Prop is an executable property, checked for every registered type it applies to.
type Prop struct {
	ID      string
	Rule    string // when a case counts as non-trivial
	Applies func(t *Type, d *Desc) bool
	Check   func(c *C)
	Weight  float64 // number of cases relative to -checks
}

// C is one case of one property on one type.
type C struct {
	*G
	T   *Type
	D   *Desc
	rec *typeRun
	ev  []string
	nt  bool
	key []string
}

func (c *C) note(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	c.ev = append(c.ev, s)
}

// input records what was generated; it identifies the case.
func (c *C) input(kind, s string) {
	c.key = append(c.key, s)
	c.note("%s: %s", kind, s)
}

func (c *C) nontrivial(b bool) { c.nt = c.nt || b }

func (c *C) count(what string) { c.rec.counts[what]++ }

func (c *C) fail(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	c.rec.failure = &Failure{Case: c.T.Case, Type: c.T.Name, Msg: clip(msg, 4000), Log: append([]string(nil), c.ev...)}
	c.t.Fatalf("violation")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type Failure struct {
	Case, Type string
	Msg        string
	Log        []string
}

type typeRun struct {
	t       *Type
	failure *Failure
	failed  bool
	evals   int
	seen    map[uint64]bool
	nontriv int
	samples []string
	counts  map[string]int
	logs    []string
}

// tb implements rapid.TB.
type tb struct{ r *typeRun }

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.r.t.Case + "." + t.r.t.Name }
func (t *tb) Logf(f string, a ...any)   { t.r.logs = append(t.r.logs, clip(fmt.Sprintf(f, a...), 3000)) }
func (t *tb) Log(a ...any)              { t.r.logs = append(t.r.logs, clip(fmt.Sprint(a...), 3000)) }
func (t *tb) Skipf(string, ...any)      { panic(stopTB{}) }
func (t *tb) Skip(...any)               { panic(stopTB{}) }
func (t *tb) SkipNow()                  { panic(stopTB{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.r.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.r.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.r.failed = true; panic(stopTB{}) }
func (t *tb) Fail()                     { t.r.failed = true }
func (t *tb) Failed() bool              { return t.r.failed }

type stopTB struct{}

// Result of a run, written as JSON.
type Result struct {
	Types       int
	Evaluations int
	NonTrivial  int // distinct
	Samples     []string
	Failures    []*Failure
	Counts      map[string]int
	Cells       map[string]int
	Rule        string
	Millis      int64
	Probes      []ProbeResult // demonstrations that fail
}

var budget time.Duration

func Main() {
	testing.Init()
	prop := flag.String("prop", "", "property")
	out := flag.String("out", "", "result file")
	checks := flag.Int("n", 100, "cases per type")
	seed := flag.Uint64("seed", 1, "seed")
	only := flag.String("only", "", "CASE.TYPE")
	maxFail := flag.Int("maxfail", 3, "stop after that many failing types")
	list := flag.Bool("list", false, "")
	shrink := flag.Duration("shrink", 6*time.Second, "")
	budgetF := flag.Duration("budget", 0, "stop starting new types after that time")
	flag.Parse()
	budget = *budgetF
	must := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.seed", fmt.Sprint(*seed)))
	must(flag.Set("rapid.checks", fmt.Sprint(*checks)))
	must(flag.Set("rapid.shrinktime", shrink.String()))
	debug.SetGCPercent(400)
	sort.Slice(Types, func(i, j int) bool {
		if Types[i].Case != Types[j].Case {
			return Types[i].Case < Types[j].Case
		}
		return Types[i].Name < Types[j].Name
	})
	// descriptions are built up front: later access is read-only
	var ds = map[*Type]*Desc{}
	for _, t := range Types {
		ds[t] = DescOf(t.rt, t.U8)
	}
	for _, t := range Types {
		if t.Plain != nil {
			t.plainOK = stdComparable(ds[t], false)
			t.plainDec = stdComparable(ds[t], true)
		}
	}
	if *list {
		for _, t := range Types {
			fmt.Println(t.Case, t.Name, t.Cell, t.plainOK)
		}
		return
	}
	var p *Prop
	for _, x := range props {
		if x.ID == *prop {
			p = x
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property in the runner:", *prop)
		os.Exit(2)
	}
	t0 := time.Now()
	res := runProp(p, ds, *only, *maxFail, *checks)
	res.Probes = runProbes(p.ID)
	res.Millis = time.Since(t0).Milliseconds()
	b, err := json.MarshalIndent(res, "", " ")
	must(err)
	if *out == "" {
		fmt.Println(string(b))
	} else {
		must(os.WriteFile(*out, b, 0o644))
	}
	if len(res.Failures) > 0 {
		os.Exit(1)
	}
}

func runProp(p *Prop, ds map[*Type]*Desc, only string, maxFail, checks int) *Result {
	res := &Result{Counts: map[string]int{}, Cells: map[string]int{}, Rule: p.Rule}
	var list []*Type
	for _, t := range Types {
		if only != "" && t.Case+"."+t.Name != only && t.Case != only {
			continue
		}
		if !p.Applies(t, ds[t]) {
			continue
		}
		list = append(list, t)
	}
	res.Types = len(list)
	var mu sync.Mutex
	var failing atomic.Int32
	var wg sync.WaitGroup
	ch := make(chan *Type)
	start := time.Now()
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				if int(failing.Load()) >= maxFail {
					continue
				}
				if budget > 0 && time.Since(start) > budget {
					mu.Lock()
					res.Counts["types skipped: time budget"]++
					mu.Unlock()
					continue
				}
				r := runType(p, t, ds[t])
				if r.failed {
					failing.Add(1)
				}
				mu.Lock()
				res.Evaluations += r.evals
				res.NonTrivial += r.nontriv
				for k, v := range r.counts {
					res.Counts[k] += v
				}
				cell := t.Cell
				if cell == "" {
					cell = "struct"
				}
				res.Cells[cell] += r.evals
				if len(r.samples) > 0 && len(res.Samples) < 40 {
					res.Samples = append(res.Samples, r.samples[len(r.samples)-1])
				}
				if r.failed {
					f := r.failure
					if f == nil {
						f = &Failure{Case: t.Case, Type: t.Name, Msg: "the check stopped: " + strings.Join(r.logs, "\n")}
					}
					res.Failures = append(res.Failures, f)
				}
				mu.Unlock()
			}
		}()
	}
	for _, t := range list {
		ch <- t
	}
	close(ch)
	wg.Wait()
	sort.Slice(res.Failures, func(i, j int) bool {
		a, b := res.Failures[i], res.Failures[j]
		return a.Case+a.Type < b.Case+b.Type
	})
	sort.Strings(res.Samples)
	return res
}

func runType(p *Prop, t *Type, d *Desc) (r *typeRun) {
	r = &typeRun{t: t, seen: map[uint64]bool{}, counts: map[string]int{}}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stopTB); !ok {
				panic(x)
			}
		}
	}()
	w := p.Weight
	if w == 0 {
		w = 1
	}
	rapid.Check(&tb{r}, func(rt *rapid.T) {
		reps := 1
		if w >= 2 {
			reps = int(w)
		}
		for i := 0; i < reps; i++ {
			c := &C{G: &G{t: rt}, T: t, D: d, rec: r}
			if c.chance(1, 60) {
				c.Big = 300
			}
			c.run(p)
			r.evals++
			if c.nt {
				h := fnv.New64a()
				for _, k := range c.key {
					_, _ = h.Write([]byte(k))
					_, _ = h.Write([]byte{0})
				}
				if s := h.Sum64(); !r.seen[s] {
					r.seen[s] = true
					r.nontriv++
					if len(r.samples) < 3 || r.nontriv%64 == 0 {
						if len(r.samples) > 5 {
							r.samples = r.samples[:3]
						}
						r.samples = append(r.samples, clip(t.Case+"."+t.Name+" "+t.rt.String()+" "+strings.Join(c.ev, " | "), 500))
					}
				}
			}
		}
	})
	return r
}

// run recovers panics of the code under test that the check did not guard, and reports them.
func (c *C) run(p *Prop) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if isRapid(x) {
			panic(x)
		}
		c.note("stack: %s", stackOf())
		c.fail("panic: %v", x)
	}()
	p.Check(c)
}

func isRapid(x any) bool {
	if _, ok := x.(stopTB); ok {
		return true
	}
	t := reflect.TypeOf(x)
	return strings.HasPrefix(t.PkgPath(), "pgregory.net/rapid") || t.Kind() == reflect.Pointer && strings.HasPrefix(t.Elem().PkgPath(), "pgregory.net/rapid")
}

func stackOf() string {
	s := string(debug.Stack())
	if i := strings.LastIndex(s, "panic("); i >= 0 {
		s = s[i:]
	}
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		keep = append(keep, l)
		if len(keep) > 8 {
			break
		}
	}
	return strings.Join(keep, " < ")
}
