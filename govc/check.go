package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type replayRes struct {
	ran     bool
	input   string // the failing input, if one was found
	out     string
	cases   int
	samples []string
}

// bounded properties: part of the property is decided by a bounded check.
var boundedProps = map[string]string{
	"C09": "gob round trip of MemoryStore.Write / ReadFrom (encoding/gob is outside the verifier's reach)",
	"C21": "the round trip of every scalar kind through annotations: strconv and time print and parse inversely, durations' float arithmetic, and the struct cases of flattenValue / unflattenValue (recursion over reflect.Value is outside the verifier's reach)",
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	t0 := time.Now()
	deadline = t0.Add(330 * time.Second)
	if *tier == "thorough" {
		deadline = t0.Add(600 * time.Second)
		crossCheck = true
	}
	var rs []*FnResult
	p, err := prepareSafe(*repo, *verif)
	if err != nil {
		rs = []*FnResult{{name: "load", obls: []*Obl{failedObl("load", "load", "the packages and contracts load", err.Error())}}}
	} else {
		rs = p.verifyProp(*prop, "")
		if len(rs) == 0 {
			rs = []*FnResult{{name: "contracts", obls: []*Obl{failedObl("contracts", "load", "the property has contracts", "no contract found")}}}
		}
	}
	var all, failed []*Obl
	solvers := map[string]int{}
	assumes := map[string]bool{}
	inlined := map[string]bool{}
	modular := map[string]bool{}
	var fns []string
	for _, r := range rs {
		fns = append(fns, r.name)
		for k := range r.assumes {
			assumes[k] = true
		}
		for k := range r.inlined {
			inlined[k] = true
		}
		for k := range r.modular {
			modular[k] = true
		}
		for _, o := range r.obls {
			all = append(all, o)
			if o.Status == "discharged" {
				solvers[o.Solver]++
			} else {
				failed = append(failed, o)
			}
		}
	}
	for _, o := range failed {
		fmt.Printf("FAILED OBLIGATION %s (%s)\n", o.Name, o.Pos)
	}
	var rep replayRes
	_, bounded := boundedProps[*prop]
	if len(failed) > 0 || bounded || *tier == "thorough" {
		rep = runReplay(*repo, *verif, *prop, *tier, seed)
	}
	violated := len(failed) > 0 || rep.input != ""
	// evidence
	var as []string
	for k := range assumes {
		as = append(as, k)
	}
	as = append(as, p.standingAssumptions()...)
	if p != nil {
		for _, a := range p.specs.axioms {
			if a.used.Load() {
				as = append(as, "axiom "+a.name+" of a specification function (contracts/; the recursion schemes and govc's sequence axioms have a model, lean/Seq.lean)")
			}
		}
	}
	sort.Strings(as)
	cov := map[string]interface{}{
		"obligations": len(all), "discharged": len(all) - len(failed),
		"checker_cmd":              "./check.sh " + *prop,
		"trusted_base":             []string{"govc (this verifier: Go SSA to verification conditions)", "golang.org/x/tools/go/ssa", "z3 5.3.2 (z3-new)", "cvc5 1.1.2", "contract files in /verif/contracts", "models of library functions in govc/externs.go"},
		"functions_under_contract": fns,
		"functions_inlined":        keysOf(inlined),
		"functions_by_contract":    keysOf(modular),
		"discharged_by":            solvers,
		"solver_queries":           solverN, "solver_ms": solverMS,
	}
	if rep.ran {
		cov["bounded_cases"] = rep.cases
		cov["bounded_samples"] = rep.samples
		if bounded {
			cov["bounded_part"] = boundedProps[*prop]
		} else {
			cov["bounded_part"] = "replay harness (concrete inputs against the compiled code), not part of the proof"
		}
	}
	nv := 0
	if violated {
		nv = len(failed)
		if nv == 0 {
			nv = 1
		}
	}
	level := "proof"
	ev := map[string]interface{}{"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as,
		"wall_s": time.Since(t0).Seconds(), "violations": nv}
	os.MkdirAll(filepath.Join(*verif, "evidence", "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	if !violated {
		fmt.Printf("%s: %d obligations discharged (%d functions under contract), %.1f s\n", *prop, len(all), len(fns), time.Since(t0).Seconds())
		return 0
	}
	rf := filepath.Join(*verif, "evidence", "replay", *prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", *prop)
	if rep.input != "" {
		fmt.Fprintf(&sb, "failing input, replayed against the compiled code:\n  %s\n", rep.input)
	}
	for _, o := range failed {
		fmt.Fprintf(&sb, "failed obligation: %s\n  at %s\n  verifier output: %s\n", o.Name, o.Pos, strings.ReplaceAll(o.Output, "\n", "\n    "))
		if o.Goal != nil && o.Goal != False {
			g := o.Goal.String()
			if len(g) > 4000 {
				g = g[:4000] + "…"
			}
			fmt.Fprintf(&sb, "  goal: %s\n", g)
		}
	}
	if rep.ran {
		out := rep.out
		if len(out) > 20000 {
			out = out[:20000]
		}
		fmt.Fprintf(&sb, "replay harness output:\n%s\n", out)
	}
	os.WriteFile(rf, []byte(sb.String()), 0o644)
	if rep.input != "" {
		fmt.Printf("failing input: %s\n", rep.input)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rf)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rf)
	}
	return 1
}

func prepareSafe(repo, verif string) (p *Prog, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("contract: %s", e.msg)
			}
		}
	}()
	return prepare(repo, verif)
}

func (p *Prog) standingAssumptions() []string {
	return []string{
		"Go memory, slice, map and channel semantics as encoded by govc; slices and maps hold fewer than 2^50 elements",
		"methods are verified as sequential code; interference is excluded by the lock discipline decided under C23",
		"external functions (log, time, strconv, strings, net/http header methods, fmt) behave as modelled in govc/externs.go",
	}
}

func keysOf(m map[string]bool) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var replayDirs = []struct{ dir, pkg string }{
	{"root", "."}, {"root_in", "."}, {"httptrace", "./httptrace"}, {"httptrace_in", "./httptrace"}, {"opentracing", "./opentracing"}, {"opentracing_in", "./opentracing"},
	{"traceapp_in", "./traceapp"}, {"cmd_in", "./cmd/appdash"},
}

// runReplay searches for a concrete failing input with the property's harness.
func runReplay(repo, verif, prop, tier string, seed int) (res replayRes) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, d := range replayDirs {
		files, _ := filepath.Glob(filepath.Join(verif, "replay", d.dir, "*.go"))
		has := false
		ov := map[string]string{}
		for _, f := range files {
			b, _ := os.ReadFile(f)
			if bytes.Contains(b, []byte("func TestReplay_"+prop+"(")) {
				has = true
			}
			// the harness file of this property and the shared helpers
			if bytes.Contains(b, []byte("func TestReplay_"+prop+"(")) || !bytes.Contains(b, []byte("func TestReplay_")) {
				ov[filepath.Join(repo, d.pkg, "zz_verif_"+filepath.Base(f))] = f
			}
		}
		if !has {
			continue
		}
		d := d
		wg.Add(1)
		go func() {
			defer wg.Done()
			ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
			of := filepath.Join(verif, "build", "overlay_"+prop+"_"+d.dir+".json")
			os.WriteFile(of, ob, 0o644)
			to := 100 * time.Second
			if tier == "thorough" {
				to = 200 * time.Second
			}
			ctx, cancel := context.WithTimeout(context.Background(), to+60*time.Second)
			defer cancel()
			args := []string{"test"}
			if prop == "C23" {
				args = append(args, "-race") // the replay of a lock violation is a data race
			}
			args = append(args, "-modfile", filepath.Join(verif, "build", "mod", "go.mod"), "-overlay", of, "-vet=off",
				"-run", "^TestReplay_"+prop+"$", "-count=1", "-v", "-timeout", to.String(), d.pkg)
			cmd := exec.CommandContext(ctx, "go", args...)
			cmd.Dir = repo
			cmd.WaitDelay = 5 * time.Second
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "GORACE=halt_on_error=1")
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			res.ran = true
			o := out.String()
			res.out += o
			last := ""
			for _, l := range strings.Split(o, "\n") {
				if i := strings.Index(l, "REPLAY-INPUT: "); i >= 0 && res.input == "" {
					res.input = l[i+len("REPLAY-INPUT: "):]
				}
				if i := strings.Index(l, "REPLAY-CASE: "); i >= 0 {
					last = l[i+len("REPLAY-CASE: "):]
				}
				if i := strings.Index(l, "REPLAY-CASES: "); i >= 0 {
					n, _ := strconv.Atoi(strings.TrimSpace(l[i+len("REPLAY-CASES: "):]))
					res.cases += n
				}
				if i := strings.Index(l, "REPLAY-SAMPLE: "); i >= 0 && len(res.samples) < 12 {
					res.samples = append(res.samples, l[i+len("REPLAY-SAMPLE: "):])
				}
			}
			// a crash of the code under test while a case was running
			if err != nil && res.input == "" && last != "" && (strings.Contains(o, "panic: ") || strings.Contains(o, "fatal error: ")) && !strings.Contains(o, "[build failed]") {
				res.input = last + " (the process crashed or hung)"
			}
			if err != nil && res.input == "" && last != "" && strings.Contains(o, "WARNING: DATA RACE") {
				res.input = last + " (data race, see the race detector's report below)"
			}
			if err != nil && (strings.Contains(o, "[build failed]") || strings.Contains(o, "[setup failed]")) {
				res.out += "\n(the harness does not build against this tree)\n"
			}
		}()
	}
	wg.Wait()
	return
}
