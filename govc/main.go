package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|dev ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	}
}

var allPatterns = []string{".", "./httptrace", "./opentracing", "./sqltrace", "./internal/wire", "./traceapp", "./cmd/appdash"}

func prepare(repo, verif string) (*Prog, error) {
	mod, err := makeModfile(repo, verif)
	if err != nil {
		return nil, err
	}
	p, err := loadProg(repo, verif, mod, allPatterns)
	if err != nil {
		return p, err
	}
	theProg = p
	p.specs = loadSpecs(verif+"/contracts", func(s string) *typesPkg { return p.byPath[s] })
	p.guards = p.specs.guards
	p.prepareAxioms()
	return p, nil
}

func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	only := fs.String("only", "", "")
	verb := fs.Bool("v", false, "")
	fs.Parse(args)
	p, err := prepareSafe(*repo, *verif)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	if *prop == "ext" {
		lsext(p)
		return
	}
	rs := p.verifyProp(*prop, *only)
	for _, r := range rs {
		ok := 0
		for _, o := range r.obls {
			if o.Status == "discharged" {
				ok++
			}
		}
		fmt.Printf("%s: %d/%d discharged, %d paths, gen %d ms\n", r.name, ok, len(r.obls), r.paths, r.genMS)
		for _, o := range r.obls {
			if o.Status != "discharged" {
				fmt.Printf("   FAILED %s  (%s)\n", o.Name, o.Pos)
				if *verb {
					fmt.Printf("      %s\n", strings.ReplaceAll(o.Output, "\n", "\n      "))
					if o.Goal != nil {
						fmt.Printf("      goal: %s\n", o.Goal)
					}
				}
			} else if *verb {
				fmt.Printf("   ok %s (%s %d ms)\n", o.Name, o.Solver, o.TimeMS)
			}
		}
	}
}
