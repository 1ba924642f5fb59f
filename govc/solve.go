package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	deadline   time.Time // no solver runs are started after this
	crossCheck bool      // discharge every obligation by a second solver as well
	renderMu   sync.Mutex
	cacheMu    sync.Mutex
	qCache     = map[[32]byte]bool{}
	solverMS   int64
	solverN    int64
	statMu     sync.Mutex
	workers    = 8
	quickTO    = 4000
	fullTO     = 20000
	dumpDir    = os.Getenv("GOVC_DUMP")
	theProg    *Prog
)

func parallel(n int, f func(int)) {
	if n == 0 {
		return
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	w := workers
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// collectAxioms returns the background axioms relevant to the given assertions.
func collectAxioms(asserts []*Term) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	addedAx := map[*AxiomSpec]bool{}
	var all []*Term
	all = append(all, asserts...)
	for round := 0; round < 12; round++ {
		used := map[string]bool{}
		sorts := map[string]bool{}
		var heaps []*Term
		var lits []*Term
		walk(all, func(t *Term) {
			sorts[t.sort] = true
			switch t.op {
			case "sym":
				used[t.name] = true
				if wfReg[t] != nil && !done[t] {
					heaps = append(heaps, t)
				}
				if _, ok := litText[t]; ok {
					lits = append(lits, t)
				}
			default:
				used[t.op] = true
			}
		})
		n := len(all)
		for _, h := range heaps {
			done[h] = true
			all = append(all, wfHeap(h)...)
		}
		// sequences
		key := ""
		for _, k := range seqOrder {
			if sorts[k] {
				key += k
				for _, f := range []string{"cat", "take", "mem", "nodup", "of", "seqeq"} {
					if used[f+"$"+k] {
						key += "," + f
					}
				}
			}
		}
		_ = key
		for _, a := range theProg.specs.axioms {
			if addedAx[a] {
				continue
			}
			hit := len(a.funs) == 0
			for f := range a.funs {
				if used[f] {
					hit = true
				}
			}
			if hit {
				addedAx[a] = true
				a.used.Store(true)
				all = append(all, a.term)
			}
		}
		if len(all) == n {
			_ = lits
			break
		}
	}
	var used, sorts map[string]bool
	var lits []*Term
	collect := func() {
		used, sorts, lits = map[string]bool{}, map[string]bool{}, nil
		walk(all, func(t *Term) {
			sorts[t.sort] = true
			if t.op == "sym" {
				used[t.name] = true
				if _, ok := litText[t]; ok {
					lits = append(lits, t)
				}
			} else {
				used[t.op] = true
			}
		})
	}
	collect()
	have := map[*Term]bool{}
	for r := 0; r < 3; r++ {
		for _, t := range append(baseAxioms(used, sorts), seqAxioms(used, sorts)...) {
			if !have[t] {
				have[t] = true
				all = append(all, t)
			}
		}
		collect()
	}
	out = append(out, all[len(asserts):]...)
	if len(lits) > 1 {
		out = append(out, raw("distinct", SBool, lits...))
	}
	for _, l := range lits {
		if used["str.len"] {
			out = append(out, Eq(raw("str.len", SInt, l), Num(int64(len(litText[l])))))
		}
	}
	return out
}

func render(pc []*Term, goal *Term) string {
	renderMu.Lock()
	defer renderMu.Unlock()
	as := append([]*Term(nil), pc...)
	as = append(as, Not(goal))
	ax := collectAxioms(as)
	all := append(append([]*Term(nil), ax...), as...)
	return SMT(all)
}

type solverRes struct {
	res    string // unsat, sat, unknown, timeout, error
	out    string
	ms     int64
	solver string
}

var constArrRE = regexp.MustCompile(`\(\(as const \(Array (\w+) (\w+)\)\) (str\$[\w$]+|inil|[A-Z]\w*\$[\w$]+)\)`)

// noConstArr replaces constant arrays of uninterpreted constants, which cvc5
// rejects, by array constants with a defining axiom.
func noConstArr(q string) string {
	ms := constArrRE.FindAllStringSubmatch(q, -1)
	if ms == nil {
		return q
	}
	names := map[string]string{}
	decl := ""
	for _, m := range ms {
		if names[m[0]] != "" {
			continue
		}
		n := fmt.Sprintf("constarr$%d", len(names))
		names[m[0]] = n
		decl += fmt.Sprintf("(declare-fun %s () (Array %s %s))\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, m[1], m[2], m[1], n, m[3], n)
	}
	q = constArrRE.ReplaceAllStringFunc(q, func(m string) string { return names[m] })
	i := strings.Index(q, "(define-fun ")
	if j := strings.Index(q, "(assert "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return q
	}
	return q[:i] + decl + q[i:]
}

func runSolver(name string, query string, ms int) solverRes {
	return runSolverCtx(context.Background(), name, query, ms)
}

// race runs several solvers on the same query until one decides it.
func race(names []string, query string, ms int) (rs []solverRes) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := make(chan solverRes, len(names))
	for _, n := range names {
		go func() { c <- runSolverCtx(ctx, n, query, ms) }()
	}
	for range names {
		r := <-c
		rs = append(rs, r)
		if r.res == "unsat" || r.res == "sat" {
			break
		}
	}
	return rs
}

func runSolverCtx(parent context.Context, name string, query string, ms int) solverRes {
	var cmd *exec.Cmd
	ctx, cancel := context.WithTimeout(parent, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	q := query
	switch name {
	case "z3-new", "z3":
		bin := name
		q = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.max_multi_patterns 1000)\n" + query
		cmd = exec.CommandContext(ctx, bin, "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-new-mbqi":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-mbqi":
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-mbqi-s1", "z3-mbqi-s2":
		q = "(set-option :smt.random_seed " + name[len(name)-1:] + ")\n" + query
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-mbqi-eager":
		q = "(set-option :smt.qi.eager_threshold 30)\n" + query
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-new-s2":
		q = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n" + query
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "cvc5-quick":
		q = "(set-logic ALL)\n" + noConstArr(query)
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
	case "cvc5":
		q = "(set-logic ALL)\n" + noConstArr(query)
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant", "-")
	}
	cmd.Stdin = strings.NewReader(q + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	t0 := time.Now()
	err := cmd.Run()
	d := time.Since(t0).Milliseconds()
	statMu.Lock()
	solverMS += d
	solverN++
	statMu.Unlock()
	s := strings.TrimSpace(out.String())
	for strings.HasPrefix(s, "WARNING") {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			break
		}
		s = strings.TrimSpace(s[i+1:])
	}
	r := solverRes{out: s, ms: d, solver: name}
	switch {
	case strings.HasPrefix(s, "unsat"):
		r.res = "unsat"
	case strings.HasPrefix(s, "sat"):
		r.res = "sat"
	case strings.HasPrefix(s, "unknown"):
		r.res = "unknown"
	case strings.Contains(s, "timeout") || ctx.Err() != nil:
		r.res = "timeout"
	default:
		r.res = "error"
		if err != nil {
			r.out += " " + err.Error()
		}
	}
	return r
}

func quickProve(pc []*Term, goal *Term, hard bool) bool {
	return quickProveMS(pc, goal, hard, quickTO)
}

func quickProveMS(pc []*Term, goal *Term, hard bool, ms int) bool {
	for _, t := range pc {
		if t == goal {
			return true
		}
	}
	q := render(pc, goal)
	h := sha256.Sum256([]byte(q))
	cacheMu.Lock()
	r, ok := qCache[h]
	cacheMu.Unlock()
	if ok {
		return r
	}

	sr := runSolver("z3-new", q, ms)
	if sr.res == "error" {
		fmt.Fprintf(os.Stderr, "solver error: %s\n", sr.out)
		dump("error", q)
	}
	r = sr.res == "unsat"
	if !r && hard && sr.res != "sat" {
		// a loop clause of a contract: other quantifier strategies as well
		c := make(chan bool, 3)
		for _, n := range []string{"cvc5-quick", "z3-new-mbqi", "z3-mbqi"} {
			go func() { c <- runSolver(n, q, 2000).res == "unsat" }()
		}
		r = <-c || <-c || <-c
	}
	if !r {
		dump("drop", q)
	}
	cacheMu.Lock()
	qCache[h] = r
	cacheMu.Unlock()
	return r
}

var dumpN int

func dump(kind, q string) string {
	if dumpDir == "" {
		return ""
	}
	statMu.Lock()
	dumpN++
	n := dumpN
	statMu.Unlock()
	f := filepath.Join(dumpDir, fmt.Sprintf("%s%04d.smt2", kind, n))
	os.WriteFile(f, []byte(q+"(check-sat)\n"), 0o644)
	return f
}

// prove discharges an obligation with the portfolio.
func (o *Obl) prove() {
	if o.Status != "" {
		return
	}
	if o.Kind == "cover" {
		q := render(o.PC, False)
		r := runSolver("z3-new", q, 3000)
		if r.res == "unsat" {
			o.Status, o.Output = "failed", "the assumptions are contradictory: "+o.Label
		} else {
			o.Status, o.Solver = "discharged", "z3-new (not refuted)"
		}
		return
	}
	if o.Goal == nil || o.Goal == False && len(o.PC) == 0 {
		o.Status = "failed"
		return
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		o.Status, o.Output = "failed", "not attempted: the check's time limit was reached"
		return
	}
	q := render(o.PC, o.Goal)
	h := sha256.Sum256([]byte(q))
	o.hash = fmt.Sprintf("%x", h[:8])
	var outs []string
	for _, st := range []struct {
		n  []string
		to int
	}{{[]string{"z3-new"}, 1000}, {[]string{"z3-new", "z3-mbqi", "cvc5"}, 8000}, {[]string{"z3-mbqi", "z3-mbqi-s1", "z3-mbqi-s2", "z3-mbqi-eager", "cvc5"}, fullTO}, {[]string{"z3-new", "z3-new-s2"}, fullTO * 3 / 2}} {
		sat := false
		for _, r := range race(st.n, q, st.to) {
			o.TimeMS += r.ms
			outs = append(outs, fmt.Sprintf("%s: %s (%d ms)", r.solver, firstLine(r.out), r.ms))
			if r.res == "error" {
				fmt.Fprintf(os.Stderr, "solver error (%s): %s\n", r.solver, firstLine(r.out))
				dump("error", q)
			}
			sat = sat || r.res == "sat"
			if r.res != "unsat" {
				continue
			}
			o.Status, o.Solver = "discharged", r.solver
			if crossCheck {
				for _, n := range []string{"cvc5", "z3-new", "z3"} {
					if n == r.solver {
						continue
					}
					if r := runSolver(n, q, 4000); r.res == "unsat" {
						o.Solver += "+" + n
						break
					} else if r.res == "sat" {
						o.Status, o.Output = "failed", "solvers disagree: "+o.Solver+" unsat, "+n+" sat"
						break
					}
				}
			}
			o.PC = nil
			return
		}
		if sat || vacMode {
			break
		}
	}
	o.Status = "failed"
	o.Output = strings.Join(outs, "\n")
	if f := dump("failed", q); f != "" {
		o.Output += "\nquery: " + f
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// baseAxioms: background theory of logs, strings, time and references.
func baseAxioms(used map[string]bool, sorts map[string]bool) []*Term {
	var out []*Term
	P := func(ts ...*Term) []*Term { return ts }
	l, m := FVar("l", SLog), FVar("m", SLog)
	e := FVar("e", SEv)
	E := Sym("log.empty", SLog)
	if used["lprev"] || used["llast"] {
		t := App("lsnoc", SLog, l, e)
		out = append(out, Forall(P(l, e), And(Eq(App("lprev", SLog, t), l), Eq(App("llast", SEv, t), e)), P(t)))
	}
	if used["lcat"] {
		cat := func(a, b *Term) *Term { return App("lcat", SLog, a, b) }
		out = append(out, Forall(P(l), Eq(cat(l, E), l), P(cat(l, E))),
			Forall(P(l), Eq(cat(E, l), l), P(cat(E, l))),
			Forall(P(l, m, e), Eq(cat(l, App("lsnoc", SLog, m, e)), App("lsnoc", SLog, cat(l, m), e)), P(cat(l, App("lsnoc", SLog, m, e)))))
	}
	x, y := FVar("x", SStr), FVar("y", SStr)
	z := FVar("z", SStr)
	if used["idx"] {
		o, i := FVar("o", SInt), FVar("i", SInt)
		t := App("idx", SInt, o, i)
		out = append(out, Forall(P(o, i), Eq(t, Add(o, i)), P(t)))
	}
	if used["str.cat"] {
		c := App("str.cat", SStr, x, y)
		if used["str.len"] {
			out = append(out, Forall(P(x, y), Eq(App("str.len", SInt, c), Add(App("str.len", SInt, x), App("str.len", SInt, y))), P(c)))
		}
		out = append(out, Forall(P(x, y, z), Eq(App("str.cat", SStr, c, z), App("str.cat", SStr, x, App("str.cat", SStr, y, z))), P(App("str.cat", SStr, c, z))))
	}
	if used["str.len"] {
		out = append(out, Forall(P(x), And(leRaw(Num(0), App("str.len", SInt, x)), Implies(Eq(App("str.len", SInt, x), Num(0)), Eq(x, StrLit("")))), P(App("str.len", SInt, x))))
	}
	if used["bytes.of"] {
		b := bytesOf(x)
		out = append(out, Forall(P(x), And(Eq(App("len$"+b.sort, SInt, b), App("str.len", SInt, x)), leRaw(Num(0), App("str.len", SInt, x))), P(b)))
	}
	for f := range used {
		if strings.HasPrefix(f, "fld$") {
			v := FVar("b", SInt)
			a := App(f, SInt, v)
			DeclFun("fldinv", SInt, SInt)
			DeclFun("fldtag", SInt, SInt)
			out = append(out, Forall(P(v), And(raw("<", SBool, a, Num(0)), Eq(App("fldinv", SInt, a), v), Eq(App("fldtag", SInt, a), Num(int64(fnv(f))))), P(a)))
		}
		if strings.HasPrefix(f, "box$") {
			d := funcTab[f]
			v := FVar("b", d.args[0])
			u := "unbox$" + f[4:]
			out = append(out, Forall(P(v), Eq(App(u, d.args[0], App(f, SBox, v)), v), P(App(f, SBox, v))))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	for _, g := range extraAxioms {
		out = append(out, g(used, sorts)...)
	}
	return out
}

var extraAxioms []func(map[string]bool, map[string]bool) []*Term
