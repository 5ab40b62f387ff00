// govc generates proof obligations for Go functions under contract, from the source as it is now.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "directory with contracts and specs")
	prop := flag.String("prop", "", "property")
	out := flag.String("out", "", "Verus file to write")
	meta := flag.String("meta", "", "obligation list to write")
	covers := flag.Bool("covers", true, "emit reachability checks")
	onlyF := flag.String("only", "", "comma-separated obligation numbers")
	flag.Parse()
	ld, err := NewLoader(*repo, []string{"./ripsrc/..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	g := NewEngine(ld, *prop)
	if err := g.loadContracts(*verif + "/contracts"); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(4)
	}
	if err := g.Run(); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	var only map[int]bool
	if *onlyF != "" {
		only = map[int]bool{}
		for _, f := range strings.Split(*onlyF, ",") {
			n, _ := strconv.Atoi(f)
			only[n] = true
		}
	}
	if err := g.Emit(*verif+"/specs", *out, *meta, only, *covers); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(4)
	}
	fmt.Printf("govc: %s: %d obligations, %d covers, %d functions\n", *prop, len(g.obls), len(g.covers), len(g.verified))
	for _, f := range g.stale {
		fmt.Println("  loops differ:", f)
	}
	for _, f := range g.failures {
		fmt.Println("  outside the subset:", f)
	}
}
