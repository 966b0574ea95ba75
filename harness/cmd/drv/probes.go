package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// probeDir holds, per property, a package of declarations (types.go) with fixed demonstrations (probes.go).
func probeDir() string { return filepath.Join(verifDir, "harness", "probes") }

func probeProps() []string {
	l, err := os.ReadDir(probeDir())
	if err != nil {
		return nil
	}
	var r []string
	for _, e := range l {
		if e.IsDir() {
			r = append(r, strings.ToUpper(e.Name()))
		}
	}
	sort.Strings(r)
	return r
}

// placeProbes copies the probes of a property below root and generates their code.
func placeProbes(vjgen, root, prop string) *builtCase {
	src := filepath.Join(probeDir(), strings.ToLower(prop))
	if _, err := os.Stat(src); err != nil {
		return nil
	}
	name := "probes_" + strings.ToLower(prop)
	dir := filepath.Join(root, name)
	b := &builtCase{probe: name}
	var gen []string
	err := filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		// the sources are kept with a suffix that hides them from the go tool
		rel = strings.TrimSuffix(rel, ".txt")
		write(filepath.Join(dir, rel), string(data))
		if strings.HasSuffix(rel, "types.go") {
			gen = append(gen, rel)
		}
		return nil
	})
	if err != nil {
		infra("%v", err)
	}
	write(filepath.Join(dir, "go.mod"), modFile("vt/"+name, false))
	write(filepath.Join(dir, "go.sum"), sumFile())
	st, err := generate(vjgen, dir, gen)
	if err != nil {
		infra("%v", err)
	}
	for _, o := range st {
		if o.Status != "OK" {
			b.bad = "generator " + o.Status + " on " + o.File + ": " + o.Msg
		}
	}
	_ = os.Remove(filepath.Join(dir, "go.mod"))
	_ = os.Remove(filepath.Join(dir, "go.sum"))
	return b
}
