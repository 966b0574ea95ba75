package vrt

import (
	"fmt"
	"runtime/debug"
)

// ProbeT is a fixed demonstration of a defect: Run returns "" while the property holds, else what fails.
type ProbeT struct {
	Prop, ID string
	Run      func() string
}

var probes []ProbeT

// Probe registers a demonstration.
func Probe(prop, id string, run func() string) { probes = append(probes, ProbeT{prop, id, run}) }

type ProbeResult struct{ ID, Prop, Msg string }

func runProbes(prop string) (out []ProbeResult) {
	for _, p := range probes {
		if p.Prop != prop {
			continue
		}
		msg := func() (msg string) {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 1500))
				}
			}()
			return p.Run()
		}()
		if msg != "" {
			out = append(out, ProbeResult{p.ID, p.Prop, msg})
		}
	}
	return
}
