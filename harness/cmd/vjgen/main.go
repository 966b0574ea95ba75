// vjgen runs the code generator of /repo. Each argument is IN=OUT; one process, sequential.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/iv-menshenin/valyjson/generator"
)

func main() {
	rc := 0
	for _, a := range os.Args[1:] {
		in, out, _ := strings.Cut(a, "=")
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("PANIC\t%s\t%s\n", in, strings.ReplaceAll(fmt.Sprint(r), "\n", " "))
					rc = 3
				}
			}()
			g := generator.New(in)
			if err := g.Parse(); err != nil {
				fmt.Printf("ERR\t%s\t%s\n", in, strings.ReplaceAll(err.Error(), "\n", " "))
				rc = 3
				return
			}
			g.BuildDecoders()
			g.BuildEncoders()
			g.FixImports()
			g.Print(out)
			fmt.Printf("OK\t%s\n", in)
		}()
	}
	os.Exit(rc)
}
