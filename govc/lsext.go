package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"sort"
	"strings"
)

func lsext(p *Prog) {
	m := map[string]map[string]bool{}
	p.repoFuncs(func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					n := ""
					if f := c.Common().StaticCallee(); f != nil {
						if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule) {
							continue
						}
						n = f.String()
					} else if c.Common().IsInvoke() {
						n = "invoke " + c.Common().Value.Type().String() + "." + c.Common().Method.Name()
					} else {
						continue
					}
					if m[n] == nil {
						m[n] = map[string]bool{}
					}
					m[n][shortFn(fn)] = true
				}
			}
		}
	})
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var fs []string
		for f := range m[k] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		if len(fs) > 3 {
			fs = fs[:3]
		}
		fmt.Println(k, fs)
	}
}
