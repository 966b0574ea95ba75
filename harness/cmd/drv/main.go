// drv is the driver of the checks: it generates Go packages, runs the code generator of /repo on them,
// links the output with the run-time harness, runs a property and reports.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"vharness/schema"
)

type config struct {
	prop     string
	tier     string
	seed     int64
	replay   string
	start    time.Time
	thorough bool
}

func main() {
	if len(os.Args) < 2 {
		infra("usage: drv PROPERTY [--replay FILE]")
	}
	if os.Args[1] == "devbuild" {
		// devbuild SEED: keep the project for experiments
		seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
		d := mkScratch()
		v := buildVjgen(d)
		p := buildProject(d, v, schema.Batch(seed, optionsFor("P01", false)), buildOpts{probes: probeProps(), race: os.Getenv("RACE") != ""})
		fmt.Println(p.root, p.genT, p.buildT)
		for _, b := range p.badCases() {
			fmt.Println(b.name(), b.bad)
		}
		return
	}
	if os.Args[1] == "deval" {
		devEval(os.Args[2:])
	}
	c := &config{prop: os.Args[1], tier: envOr("VERIF_TIER", "quick"), start: time.Now()}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.thorough = c.tier == "thorough"
	c.seed, _ = strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if c.seed == 0 {
		c.seed = 1
	}
	if len(os.Args) > 3 && os.Args[2] == "--replay" {
		c.replay = os.Args[3]
	}
	var out *outcome
	switch {
	case c.replay != "":
		out = c.doReplay()
	case special[c.prop] != nil:
		out = special[c.prop](c)
	default:
		out = c.runnerCheck()
	}
	code := c.finish(out)
	cleanup()
	os.Exit(code)
}
