package main

import (
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type typesPkg = types.Package

// makeModfile writes a copy of the module file that also resolves the asset
// package that the web application imports but that is not part of the tree.
func makeModfile(repo, verif string) (string, error) {
	dir := filepath.Join(verif, "build", "mod")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		b, err = os.ReadFile("/opt/vp/mod/go.mod")
		if err != nil {
			return "", err
		}
	}
	s := string(b)
	if !strings.Contains(s, "appdash-data") {
		s += "\nrequire sourcegraph.com/sourcegraph/appdash-data v0.0.0\nreplace sourcegraph.com/sourcegraph/appdash-data => " + verif + "/stubs/appdash-data\n"
	}
	f := filepath.Join(dir, "go.mod")
	if err := writeIfChanged(f, s); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		sum, _ = os.ReadFile("/opt/vp/mod/go.sum")
	}
	return f, writeIfChanged(filepath.Join(dir, "go.sum"), string(sum))
}

func writeIfChanged(f, s string) error {
	if b, err := os.ReadFile(f); err == nil && string(b) == s {
		return nil
	}
	return os.WriteFile(f, []byte(s), 0o644)
}

func (p *Prog) prepareAxioms() {
	v := newVer(p, nil, nil)
	for _, a := range p.specs.axioms {
		st := &State{heap: map[string]*Term{}, next: next0, log: log0}
		a.term = v.evalBool(a.expr, &env{v: v, st: st, old: st, vars: map[string]TV{}, pkg: a.pkg})
		a.funs = map[string]bool{}
		walk([]*Term{a.term}, func(t *Term) {
			n := t.op
			if n == "sym" {
				n = t.name
			}
			if strings.HasPrefix(n, "sf$") || strings.HasPrefix(n, "pure$") || strings.HasPrefix(n, "t$") {
				a.funs[n] = true
			}
		})
	}
}

// verifyProp verifies every contract tagged with the property.
func (p *Prog) verifyProp(prop, only string) []*FnResult {
	var cs []*Contract
	for _, c := range p.specs.contracts {
		has := prop == ""
		for _, x := range c.props {
			if x == prop {
				has = true
			}
		}
		if has {
			cs = append(cs, c)
		}
	}
	p.active = cs
	kinds := func(k string) bool { return true }
	if prop == "C23" {
		return p.verifyLocks(only)
	}
	var rs []*FnResult
	var opt []*FnResult
	for _, c := range cs {
		if c.optional {
			opt = append(opt, p.genContract(c, kinds))
		}
	}
	if len(opt) > 0 {
		proveAll(opt)
		for _, r := range opt {
			if r.failed {
				p.disabled[r.con] = true
			} else {
				rs = append(rs, r)
			}
		}
	}
	for _, c := range cs {
		if c.optional || only != "" && !strings.Contains(c.fnName, only) {
			continue
		}
		rs = append(rs, p.genContract(c, kinds))
	}
	proveAll(rs)
	return rs
}
