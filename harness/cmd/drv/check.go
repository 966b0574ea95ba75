package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"vharness/schema"
)

// violation found by a check; it is what a replay file holds.
type violation struct {
	Property string       `json:"property"`
	Kind     string       `json:"kind"` // runner, probe, or the name of a special check
	Message  string       `json:"message"`
	Log      []string     `json:"log,omitempty"`
	Case     *schema.Case `json:"case,omitempty"`
	Type     string       `json:"type,omitempty"`
	Probe    string       `json:"probe,omitempty"`
	Seed     uint64       `json:"seed,omitempty"`
	N        int          `json:"n,omitempty"`
	Race     bool         `json:"race,omitempty"`
	Source   string       `json:"source,omitempty"`
	Data     any          `json:"data,omitempty"`
}

type outcome struct {
	evals, nontrivial int
	rule              string
	samples           []string
	extra             map[string]any
	known             []string
	violations        []*violation
	assumptions       []string
}

// runnerResult mirrors vrt.Result.
type runnerResult struct {
	Types, Evaluations, NonTrivial int
	Samples                        []string
	Failures                       []*runnerFailure
	Counts, Cells                  map[string]int
	Rule                           string
	Millis                         int64
	Probes                         []probeResult
}
type runnerFailure struct {
	Case, Type, Msg string
	Log             []string
}
type probeResult struct{ ID, Prop, Msg string }

type knownFinding struct {
	Property string `json:"property"`
	Probe    string `json:"probe"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func knownFindings() map[string]knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		infra("%v", err)
	}
	r := map[string]knownFinding{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			infra("known_findings.jsonl: %v: %s", err, l)
		}
		r[k.Property+"/"+k.Probe] = k
	}
	return r
}

func mix(seed int64, s string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, s, i)
	return int64(h.Sum64() >> 1)
}

// tuning of one property.
type tune struct {
	batches, tBatches int
	n, tn             int
	sweeps            int
	opt               func(*schema.Options)
}

func (c *config) tune() tune {
	t, ok := tunes[c.prop]
	if !ok {
		t = tune{}
	}
	if t.batches == 0 {
		t.batches = 5
	}
	if t.tBatches == 0 {
		t.tBatches = 40
	}
	if t.n == 0 {
		t.n = 200
	}
	if t.tn == 0 {
		t.tn = 4 * t.n
	}
	return t
}

func optionsFor(prop string, thorough bool) schema.Options {
	o := schema.DefaultOptions()
	if t, ok := tunes[prop]; ok && t.opt != nil {
		t.opt(&o)
	}
	return o
}

func (c *config) runnerCheck() *outcome {
	out := &outcome{extra: map[string]any{}}
	t := c.tune()
	dir := mkScratch()
	vjgen := buildVjgen(dir)
	known := knownFindings()
	counts, cells := map[string]int{}, map[string]int{}
	rounds := 1
	if c.thorough {
		rounds = (t.tBatches + t.batches - 1) / t.batches
	}
	types, bad, programs := 0, 0, 0
	var badMsgs []string
	for round := 0; round < rounds; round++ {
		if c.thorough && time.Since(c.start) > 40*time.Minute {
			break
		}
		var cases []*schema.Case
		for b := 0; b < t.batches; b++ {
			l := schema.Batch(mix(c.seed, c.prop, round*t.batches+b), optionsFor(c.prop, c.thorough))
			for _, x := range l {
				x.Rename(fmt.Sprintf("b%d%s", b, x.Name))
			}
			cases = append(cases, l...)
		}
		opts := buildOpts{race: c.prop == "P14"}
		if round == 0 {
			opts.probes = []string{c.prop}
		}
		rd := filepath.Join(dir, fmt.Sprintf("r%d", round))
		p := buildProject(rd, vjgen, cases, opts)
		programs += len(cases)
		for _, b := range p.badCases() {
			bad++
			badMsgs = append(badMsgs, clip(b.name()+": "+b.bad, 300))
		}
		n := t.n
		if c.thorough {
			n = t.tn
		}
		seed := uint64(mix(c.seed, c.prop+"/cases", round)) | 1
		res, viol := c.runRunner(p, n, seed, "")
		if viol != nil {
			out.violations = append(out.violations, viol)
		}
		if res != nil {
			types += res.Types
			out.evals += res.Evaluations
			out.nontrivial += res.NonTrivial
			out.rule = res.Rule
			for k, v := range res.Counts {
				counts[k] += v
			}
			for k, v := range res.Cells {
				cells[k] += v
			}
			if len(out.samples) < 8 {
				out.samples = append(out.samples, spread(res.Samples, 8)...)
			}
			for _, pr := range res.Probes {
				k, listed := known[c.prop+"/"+pr.ID]
				if listed && k.Fixed == "" {
					out.known = append(out.known, k.What)
					continue
				}
				out.violations = append(out.violations, &violation{Property: c.prop, Kind: "probe", Probe: pr.ID, Message: pr.Msg})
			}
			var real []*runnerFailure
			for _, f := range res.Failures {
				if !strings.HasPrefix(f.Msg, "harness:") {
					real = append(real, f)
				}
			}
			if len(real) == 0 && len(res.Failures) > 0 {
				f := res.Failures[0]
				infra("%s.%s: %s\n%s", f.Case, f.Type, f.Msg, strings.Join(f.Log, "\n"))
			}
			if len(real) > 0 {
				out.violations = append(out.violations, c.shrinkSchema(p, real, n, seed, opts.race))
			}
		}
		if len(out.violations) > 0 {
			break
		}
		_ = os.RemoveAll(rd)
	}
	if types == 0 && len(out.violations) == 0 {
		infra("nothing was checked: %d of %d packages are unusable: %s", bad, programs, strings.Join(badMsgs, "; "))
	}
	out.extra["programs"] = programs
	out.extra["types"] = types
	out.extra["classes"] = counts
	out.extra["cells_covered"] = len(cells)
	out.extra["cells"] = cells
	if bad > 0 {
		out.extra["packages_unusable"] = badMsgs
		fmt.Fprintf(os.Stderr, "note: %d of %d packages are not usable: %s\n", bad, programs, clip(strings.Join(badMsgs, "; "), 800))
	}
	return out
}

func spread(s []string, n int) []string {
	if len(s) <= n {
		return s
	}
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, s[i*len(s)/n])
	}
	return r
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runRunner runs the property; a crash of the process is a violation, an unexplained death is not.
func (c *config) runRunner(p *project, n int, seed uint64, only string) (*runnerResult, *violation) {
	outFile := filepath.Join(p.dir, "result.json")
	_ = os.Remove(outFile)
	args := []string{"-prop", c.prop, "-n", fmt.Sprint(n), "-seed", fmt.Sprint(seed), "-out", outFile}
	if only != "" {
		args = append(args, "-only", only, "-shrink", "10s")
	}
	limit := 10 * time.Minute
	if c.thorough {
		limit = 40 * time.Minute
	}
	r := run(p.dir, limit, []string{"GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single"}, p.runner, args...)
	if r.timedOut {
		infra("the runner did not finish in %v (last lines: %s)", limit, tail(r.err, 1500))
	}
	if r.code == 0 || r.code == 1 {
		b, err := os.ReadFile(outFile)
		if err == nil {
			var res runnerResult
			if err = json.Unmarshal(b, &res); err == nil {
				return &res, nil
			}
		}
		if r.code == 0 {
			infra("no result of the runner: %v", err)
		}
	}
	crash := ""
	switch {
	case r.code == 66 && strings.Contains(r.err, "DATA RACE"):
		crash = "data race"
	case strings.Contains(r.err, "fatal error: stack overflow") || strings.Contains(r.err, "stack exceeds"):
		crash = "stack overflow"
	case strings.Contains(r.err, "fatal error: concurrent map"):
		crash = "concurrent map access"
	case strings.Contains(r.err, "unexpected fault address") || strings.Contains(r.err, "SIGSEGV"):
		crash = "invalid memory access"
	case strings.Contains(r.err, "fatal error: checkptr"), strings.Contains(r.err, "found bad pointer"):
		crash = "memory corruption"
	}
	if crash == "" || strings.Contains(r.err, "out of memory") {
		infra("the runner failed with code %d: %s", r.code, tail(r.err, 3000))
	}
	v := &violation{Property: c.prop, Kind: "runner", Message: "the process dies: " + crash, Log: strings.Split(clip(r.err, 6000), "\n"), Seed: seed, N: n, Race: c.prop == "P14"}
	return nil, v
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// shrinkSchema reduces the package of a failure while the failure persists.
func (c *config) shrinkSchema(p *project, fails []*runnerFailure, n int, seed uint64, race bool) *violation {
	// the smallest type first
	find := func(name string) *schema.Case {
		for _, b := range p.cases {
			if b.c != nil && b.c.Name == name {
				return b.c
			}
		}
		return nil
	}
	sort.SliceStable(fails, func(i, j int) bool {
		return len(strings.Join(fails[i].Log, "")) < len(strings.Join(fails[j].Log, ""))
	})
	f := fails[0]
	v := &violation{Property: c.prop, Kind: "runner", Message: f.Msg, Log: f.Log, Type: f.Type, Seed: seed, N: n, Race: race}
	cs := find(f.Case)
	if cs == nil {
		// a type of a package's dependency
		name, _, _ := strings.Cut(f.Case, "/")
		v.Case = find(name)
		v.Type = f.Case + "." + f.Type
		return v
	}
	v.Case = cs
	deadline := time.Now().Add(45 * time.Second)
	k := 0
	try := func(x *schema.Case) *runnerFailure {
		if time.Now().After(deadline) {
			return nil
		}
		k++
		sub := filepath.Join(p.dir, fmt.Sprintf("s%d", k))
		defer os.RemoveAll(sub)
		q, err := tryBuild(sub, p.vjgen, []*schema.Case{x}, buildOpts{race: race})
		if err != nil || len(q.badCases()) > 0 {
			return nil
		}
		res, viol := c.runRunner(q, n, seed, x.Name+"."+f.Type)
		if viol != nil || res == nil {
			return nil
		}
		for _, y := range res.Failures {
			if !strings.HasPrefix(y.Msg, "harness:") && y.Type == f.Type {
				return y
			}
		}
		return nil
	}
	accept := func(x *schema.Case) bool {
		if y := try(x); y != nil {
			v.Case, v.Message, v.Log = x, y.Msg, y.Log
			return true
		}
		return false
	}
	accept(v.Case.Reach(f.Type))
	// members of structs, in halves, then one at a time
	for again := true; again && time.Now().Before(deadline); {
		again = false
		for _, t := range v.Case.StructTypes() {
			for size := (len(v.Case.FieldsOf(t)) + 1) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= len(v.Case.FieldsOf(t)) && time.Now().Before(deadline); {
					x := v.Case.DropFields(t, i, size).Reach(f.Type)
					if accept(x) {
						again = true
						continue
					}
					i += size
				}
			}
		}
	}
	return v
}

func (c *config) doReplay() *outcome {
	b, err := os.ReadFile(c.replay)
	if err != nil {
		infra("%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		infra("%v", err)
	}
	out := &outcome{extra: map[string]any{"replay": c.replay}}
	if v.Kind == "special" {
		c.prop = v.Property
		return c.specialReplay(&v)
	}
	c.prop = v.Property
	dir := mkScratch()
	vjgen := buildVjgen(dir)
	opts := buildOpts{race: v.Race}
	var cases []*schema.Case
	if v.Kind == "probe" {
		opts.probes = []string{v.Property}
	}
	if v.Case == nil && v.Kind == "runner" {
		return c.runnerCheck()
	}
	if v.Case != nil {
		cases = append(cases, v.Case)
	}
	p := buildProject(filepath.Join(dir, "r"), vjgen, cases, opts)
	for _, b := range p.badCases() {
		infra("%s: %s", b.name(), b.bad)
	}
	only := ""
	if v.Case != nil {
		only = v.Case.Name + "." + v.Type
		if strings.Contains(v.Type, "/") {
			only = v.Type
		}
	}
	n := v.N
	if n == 0 {
		n = 1
	}
	res, viol := c.runRunner(p, n, v.Seed, only)
	if viol != nil {
		out.violations = append(out.violations, viol)
		return out
	}
	out.evals, out.nontrivial, out.rule, out.samples = res.Evaluations, res.NonTrivial, res.Rule, res.Samples
	for _, f := range res.Failures {
		w := v
		w.Message, w.Log = f.Msg, f.Log
		out.violations = append(out.violations, &w)
	}
	for _, pr := range res.Probes {
		if pr.ID == v.Probe {
			out.violations = append(out.violations, &v)
		}
	}
	return out
}

// finish writes the evidence and the replay files, prints the verdict and returns the exit code.
func (c *config) finish(out *outcome) int {
	wall := time.Since(c.start).Seconds()
	cov := map[string]any{}
	for k, v := range out.extra {
		cov[k] = v
	}
	cov["evaluations"] = out.evals
	cov["distinct_nontrivial"] = out.nontrivial
	cov["rule"] = ruleText(c.prop, out.rule)
	if len(out.samples) == 0 {
		out.samples = []string{"(no case was generated)"}
	}
	cov["samples"] = out.samples
	if c.replay == "" {
		ev := map[string]any{
			"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration",
			"coverage": cov, "wall_s": wall, "violations": len(out.violations),
			"assumptions": append([]string{"the reference model in harness/vrt states the intended mapping", "known findings (known_findings.jsonl) are excluded from the generated cases by construction"}, out.assumptions...),
		}
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			infra("%v", err)
		}
		write(filepath.Join(verifDir, "evidence", c.prop+".json"), string(b)+"\n")
	}
	sort.Strings(out.known)
	for _, k := range out.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
	}
	if len(out.violations) == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs\n", c.prop, c.tier, c.seed, out.evals, out.nontrivial, wall)
		return 0
	}
	for i, v := range out.violations {
		if i >= 3 {
			break
		}
		path := c.replay
		if path == "" {
			if v.Case != nil {
				v.Source = renderCase(v.Case)
			}
			b, err := json.MarshalIndent(v, "", " ")
			if err != nil {
				infra("%v", err)
			}
			h := fnv.New32a()
			_, _ = h.Write(b)
			path = filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%08x.json", c.prop, h.Sum32()))
			write(path, string(b)+"\n")
		}
		fmt.Printf("--- %s %s\n%s\n", v.Property, v.Type, v.Message)
		if v.Case != nil {
			fmt.Println(clip(renderCase(v.Case), 2500))
		}
		for _, l := range v.Log {
			fmt.Println("  " + clip(l, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	}
	return 1
}

func renderCase(c *schema.Case) string {
	src := c.Sources("vt/" + c.Name)
	var ks []string
	for k := range src {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString("// " + k + "\n" + src[k])
	}
	return b.String()
}

func ruleText(prop, rule string) string {
	if t, ok := rules[prop]; ok {
		return t
	}
	if specials[prop] != nil {
		return "cases are drawn from math/rand seeded by VERIF_SEED and the case number: " + rule
	}
	return "cases are drawn by rapid for every type of the generated packages (rapid.seed and package seed derived from VERIF_SEED); non-trivial: " + rule
}

var rules = map[string]string{}

// special are the checks that need no runner.
var special = map[string]func(*config) *outcome{}

var tunes = map[string]tune{
	"P08": {opt: func(o *schema.Options) { o.Required = .5 }},
	"P09": {opt: func(o *schema.Options) { o.Default = .8; o.Required = .05 }},
	"P10": {opt: func(o *schema.Options) { o.Omit = .8 }},
	"P06": {opt: func(o *schema.Options) { o.Strict = .5 }},
	"P16": {opt: func(o *schema.Options) {
		for i := 0; i < 6; i++ {
			for _, f := range []string{"v", "ptr", "v", "ptr", "sl", "arr", "slsl", "ptrptr", "v"} {
				o.Extra = append(o.Extra, schema.Cell{Form: f, Atom: "time"})
			}
			for _, f := range []string{"slptr", "slsl"} {
				o.Extra = append(o.Extra, schema.Cell{Form: f, Atom: "TTime"})
			}
		}
	}},
	"P17": {opt: func(o *schema.Options) { o.Embeds = 2 }},
	"P14": {batches: 2, tBatches: 16, n: 20, tn: 60},
}
