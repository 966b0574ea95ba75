package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"vharness/schema"
)

// devEval SEED [N]: development aid for planted changes: all properties on one build, until the first that fails.
// It prints one line "CAUGHT property ..." or "MISSED ...". Not used by the registered checks.
func devEval(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	n := 60
	if len(args) > 1 {
		n, _ = strconv.Atoi(args[1])
	}
	start := time.Now()
	d := mkScratch()
	v := buildVjgen(d)
	special := func() string {
		for _, prop := range strings.Fields("P22 P21 P19 P20") {
			c := &config{prop: prop, tier: "quick", seed: seed, start: time.Now()}
			sc := specials[prop]
			for i := 0; i < sc.n; i += 8 {
				msgs := make([]string, 8)
				parallel(8, 8, func(k int) {
					s := sc.draw(rand.New(rand.NewSource(mix(c.seed, c.prop, i+k))), i+k)
					msgs[k] = evalIn(sc, d, v, s)
				})
				for _, m := range msgs {
					if m != "" {
						return "CAUGHT " + prop + " " + clip(m, 300)
					}
				}
			}
		}
		return "MISSED"
	}
	verdict := func() string {
		if os.Getenv("DEVAL") == "special" {
			return special()
		}
		var cases []*schema.Case
		for i, prop := range []string{"P01", "P10", "P17"} {
			l := schema.Batch(mix(seed, prop, 0), optionsFor(prop, false))
			for _, x := range l {
				x.Rename(fmt.Sprintf("b%d%s", i, x.Name))
			}
			cases = append(cases, l...)
		}
		p, err := tryBuild(filepath.Join(d, "r"), v, cases, buildOpts{})
		if err != nil {
			return "CAUGHT P21 build fails: " + clip(err.Error(), 300)
		}
		var bad []string
		for _, b := range p.badCases() {
			bad = append(bad, clip(b.name()+": "+b.bad, 200))
		}
		if len(bad) > 0 {
			return fmt.Sprintf("CAUGHT P21 (%d packages unusable) %s", len(bad), bad[0])
		}
		for _, prop := range strings.Fields("P03 P01 P04 P12 P10 P09 P16 P15 P17 P08 P23 P24 P25 P26 P27 P11 P13 P18 P05 P06 P07 P02") {
			c := &config{prop: prop, tier: "quick", seed: seed, start: time.Now()}
			res, viol := c.runRunner(p, n, uint64(mix(seed, prop+"/cases", 0))|1, "")
			if viol != nil {
				return "CAUGHT " + prop + " " + viol.Message
			}
			for _, f := range res.Failures {
				if !strings.HasPrefix(f.Msg, "harness:") {
					return "CAUGHT " + prop + " " + f.Case + "." + f.Type + " " + clip(f.Msg, 300)
				}
			}
		}
		return special()
	}()
	fmt.Printf("%s (%.0fs)\n", strings.ReplaceAll(verdict, "\n", " "), time.Since(start).Seconds())
	cleanup()
	os.Exit(0)
}
