package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	name     string
	con      *Contract
	obls     []*Obl
	assumes  map[string]bool
	inlined  map[string]bool
	modular  map[string]bool
	paths    int
	genMS    int64
	optional bool
	failed   bool
}

func sortFuncs(fs []*ssa.Function) {
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].String() != fs[j].String() {
			return fs[i].String() < fs[j].String()
		}
		return fs[i].Pos() < fs[j].Pos()
	})
}

func newVer(p *Prog, fn *ssa.Function, con *Contract) *Ver {
	return &Ver{prog: p, fn: fn, con: con, vars: map[string]TV{}, assumes: map[string]bool{}, inlined: map[string]bool{}, modular: map[string]bool{},
		noModular: map[string]bool{}, hints: map[string]bool{}, oncallSeen: map[string]int{}}
}

func failedObl(fn, kind, label, out string) *Obl {
	return &Obl{Name: fn + ": " + kind + " " + label, Kind: kind, Label: label, Fn: fn, Status: "failed", Output: out}
}

// genContract generates the obligations of one function against its contract.
func (p *Prog) genContract(con *Contract, kinds func(string) bool) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{con: con, name: con.pkgName + "." + con.fnName, optional: con.optional}
	fn := p.funcOf(con)
	if fn == nil || len(fn.Blocks) == 0 {
		if con.optional {
			res.failed = true
			return
		}
		res.obls = []*Obl{failedObl(res.name, "missing", "function under contract exists", "no such function in the current source")}
		return
	}
	res.name = shortFn(fn)
	v := newVer(p, fn, con)
	v.kinds = kinds
	v.lockMode = con.lockMode
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case unsupportedErr:
				msg = "outside the verifier's reach: " + e.msg
			case specErr:
				msg = "specification error: " + e.msg
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				msg = fmt.Sprintf("verifier error: %v", r)
			}
			v.obls = append(v.obls, failedObl(res.name, "unsupported", msg, msg))
		}
		res.obls = v.obls
		res.assumes, res.inlined, res.modular, res.paths = v.assumes, v.inlined, v.modular, v.paths
		res.genMS = time.Since(t0).Milliseconds()
	}()
	v.run(fn, con)
	return
}

func (v *Ver) run(fn *ssa.Function, con *Contract) {
	st := &State{heap: map[string]*Term{}, next: next0, log: log0}
	st.assume(raw("<=", SBool, Num(1), next0))
	var args []Val
	for i, pa := range fn.Params {
		x := Sym("p."+sanitize(pa.Name())+itoa(i), sortOf(pa.Type()))
		if hasRef(pa.Type(), 0) {
			x.upBase = next0
		}
		st.assume(wfValue(x, pa.Type(), next0))
		args = append(args, x)
		if i < len(con.params) && con.params[i] != "_" {
			v.vars[con.params[i]] = TV{x, pa.Type()}
		}
	}
	if len(con.params) > 0 && len(con.params) != len(fn.Params) {
		specFail("%s has %d parameters, its contract names %d", fn, len(fn.Params), len(con.params))
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
			st.assume(Not(Eq(args[0].(*Term), Num(0))))
		}
	}
	e := &env{v: v, st: st, old: st, vars: v.vars, con: con}
	for _, g := range con.ghosts {
		t := v.resolveType(g.typ, con.pkg)
		regHeap(con.ghostHeap(g.name), &heapInfo{kind: "global", typ: t, sort: sortOf(t)})
		st.heap[con.ghostHeap(g.name)] = v.eval(g.init, e).t
		if st.heap[con.ghostHeap(g.name)] == nil {
			st.heap[con.ghostHeap(g.name)] = zero(t)
		}
	}
	for _, h := range con.holds {
		v.noGuard = true
		v.setHeld(h.expr, e)
		v.noGuard = false
	}
	for _, r := range con.requires {
		st.assume(v.evalBool(r.expr, e))
		if !con.lockMode {
			v.assumes["precondition of "+shortFn(fn)+" (an obligation at calls from code under contract, assumed of other callers): "+r.label] = true
		}
	}
	if con.panicFreeBy != "" {
		v.panicFreeElsewhere(st, fn, args)
	}
	v.entry = st.clone()
	v.obls = append(v.obls, &Obl{Name: shortFn(fn) + ": cover precondition satisfiable", Kind: "cover", Label: "precondition satisfiable", Fn: fn.String(), PC: append([]*Term(nil), st.pc...)})
	outs := v.execFunc(st, fn, args, nil)
	if con.applies != nil {
		outs = v.applyResult(outs, con)
	}
	if len(outs) == 0 && !con.noReturn {
		v.obls = append(v.obls, &Obl{Name: shortFn(fn) + ": returns", Kind: "returns", Label: "some path returns", Fn: fn.String(), Goal: False, Status: "failed", Output: "no path through the function reaches a return"})
	}
	cover := 0
	for _, o := range outs {
		v.checkExit(o, fn, con)
		if cover < 12 {
			v.obls = append(v.obls, &Obl{Name: shortFn(fn) + fmt.Sprintf(": cover exit %d", cover), Kind: "coverexit", Label: "exit reachable", Fn: fn.String(), PC: append([]*Term(nil), o.st.pc...)})
			cover++
		}
	}
	for _, oc := range con.oncalls {
		_ = oc
	}
}

// panicFreeElsewhere leaves the function's panic freedom to another property's
// contract for it, whose preconditions must follow from this contract's.
func (v *Ver) panicFreeElsewhere(st *State, fn *ssa.Function, args []Val) {
	prop := v.con.panicFreeBy
	for _, o := range v.prog.specs.contracts {
		if v.prog.funcOf(o) != fn || !o.hasProp(prop) || o.panicFreeBy != "" || o.optional {
			continue
		}
		vars := map[string]TV{}
		for i, pa := range fn.Params {
			if i < len(o.params) && o.params[i] != "_" {
				vars[o.params[i]] = TV{args[i].(*Term), pa.Type()}
			}
		}
		e := &env{v: v, st: st, old: st, vars: vars, con: o}
		for _, r := range o.requires {
			v.oblige(st.clone(), "pre", "implies "+prop+"'s "+r.label, fn.Pos(), v.evalBool(r.expr, e))
		}
		outer := v.kinds
		v.kinds = func(k string) bool { return k != "safety" && (outer == nil || outer(k)) }
		v.assumes["panic freedom of "+shortFn(fn)+" is decided by the check of "+prop] = true
		return
	}
	specFail("%s has no contract for %s", prop, fn)
}

func (c *Contract) hasProp(p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	return false
}

func (v *Ver) setHeld(n *node, e *env) {
	h, base := v.heldLock(n, e)
	e.st.heap[h] = Store(e.st.get(h), base, True)
}

// heldLock resolves the lock a "holds" clause names.
func (v *Ver) heldLock(n *node, e *env) (string, *Term) {
	if n.op == "id" {
		return lockHeapG(e.thePkg().Name()+"."+n.name, ""), Num(0)
	}
	x := v.eval(n.args[0], e)
	pt := x.typ.Underlying().(*types.Pointer)
	_, path, _ := types.LookupFieldOrMethod(pt.Elem(), true, e.thePkg(), n.name)
	return lockHeap(pt.Elem(), path, ""), x.t
}

func (v *Ver) checkExit(o Out, fn *ssa.Function, con *Contract) {
	vars := map[string]TV{}
	for k, x := range v.vars {
		vars[k] = x
	}
	rs := fn.Signature.Results()
	if v.appSig != nil {
		rs = v.appSig.Results()
	}
	for i := 0; i < rs.Len(); i++ {
		if i < len(con.results) {
			vars[con.results[i]] = TV{v.toTerm(o.st, o.res[i], rs.At(i).Type()), rs.At(i).Type()}
		}
	}
	e := &env{v: v, st: o.st, old: v.entry, vars: vars, con: con}
	pos := fn.Pos()
	for _, en := range con.ensures {
		goal := v.evalBool(en.expr, e)
		st := o.st.clone()
		v.obligeSplit(st, "post", en.label, pos, goal)
	}
	// locks are released
	for _, n := range sortedKeys(o.st.heap) {
		hi := heapReg[n]
		if hi == nil || hi.kind != "lock" {
			continue
		}
		if o.st.get(n) != v.entry.get(n) {
			v.oblige(o.st.clone(), "lock", "released on return: "+n[2:], pos, Eq(o.st.get(n), v.entry.get(n)))
		} else {
			v.countLock(fn, n)
		}
	}
	if con.hasModifies || con.modular {
		allowed := map[string]bool{}
		logOK := false
		for _, g := range con.ghosts {
			allowed[con.ghostHeap(g.name)] = true
		}
		for _, m := range con.modifies {
			if m == "log" {
				logOK = true
				continue
			}
			if m == "clock" {
				allowed["clock"] = true
				continue
			}
			if m == "*" {
				return
			}
			for _, h := range v.prog.heapNames(con, m) {
				allowed[h] = true
			}
		}
		if !logOK && o.st.log != v.entry.log {
			v.oblige(o.st.clone(), "frame", "no observable calls", pos, Eq(o.st.log, v.entry.log))
		}
		for _, n := range sortedKeys(o.st.heap) {
			hi := heapReg[n]
			if allowed[n] || hi == nil || hi.kind == "lock" || hi.kind == "iter" || o.st.get(n) == v.entry.get(n) {
				continue
			}
			H, E := o.st.get(n), v.entry.get(n)
			if hi.kind == "global" {
				v.oblige(o.st.clone(), "frame", "unchanged: "+n, pos, Eq(H, E))
				continue
			}
			r := FVar("fr", SInt)
			_, vs := splitArr(H.sort)
			existed := existedBefore(n, r, next0)
			v.oblige(o.st.clone(), "frame", "unchanged: "+n, pos,
				Forall([]*Term{r}, Implies(existed, Eq(raw("select", vs, H, r), raw("select", vs, E, r))), []*Term{raw("select", vs, H, r)}))
		}
	}
}

func (v *Ver) countLock(fn *ssa.Function, n string) {
	v.obls = append(v.obls, &Obl{Name: shortFn(fn) + ": lock released on return: " + n[2:], Kind: "lock", Label: "released on return: " + n[2:], Fn: fn.String(), Status: "discharged", Solver: "simplifier", Goal: True})
}

// obligeSplit splits conjunctions into separate obligations.
func (v *Ver) obligeSplit(s *State, kind, label string, pos token.Pos, goal *Term) {
	if goal.op == "and" {
		for i, g := range goal.args {
			st := s.clone()
			v.obligeSplit(st, kind, fmt.Sprintf("%s/%d", label, i+1), pos, g)
			s.assume(g)
		}
		return
	}
	if goal.op == "forall" {
		// for arbitrary values of the variables
		m := map[*Term]*Term{}
		for _, b := range goal.vars {
			m[b] = Fresh("any", b.sort)
		}
		st := s.clone()
		v.obligeSplit(st, kind, label, pos, Subst(goal.args[0], m))
		return
	}
	var hyps []*Term
	g := goal
	for g.op == "=>" {
		hyps = append(hyps, g.args[0])
		g = g.args[1]
	}
	if vacMode {
		v.oblige(s.clone(), "vac", label, pos, Not(And(hyps...)))
		return
	}
	if len(hyps) > 0 && g.op == "and" {
		h := And(hyps...)
		for i, x := range g.args {
			st := s.clone()
			v.obligeSplit(st, kind, fmt.Sprintf("%s/%d", label, i+1), pos, Implies(h, x))
			s.assume(Implies(h, x))
		}
		return
	}
	v.oblige(s, kind, label, pos, goal)
}

// applyResult calls the function the verified function returned, with
// arbitrary arguments.
func (v *Ver) applyResult(outs []Out, con *Contract) []Out {
	var all []Out
	for _, o := range outs {
		if len(o.res) == 0 {
			v.unsupported("applies: no function result")
		}
		cl, ok := o.res[0].(*ClosureV)
		if t, isT := o.res[0].(*Term); isT && closTab[t] != nil {
			cl, ok = closTab[t], true
		}
		if !ok {
			v.unsupported("applies: the result is not a known function")
		}
		var args []Val
		ps := cl.fn.Params
		if len(ps) != len(con.applies) {
			specFail("the returned function has %d parameters, the contract names %d", len(ps), len(con.applies))
		}
		for i, pa := range ps {
			x := Sym("q."+sanitize(con.applies[i])+itoa(i), sortOf(pa.Type()))
			if hasRef(pa.Type(), 0) {
				x.upBase = next0
			}
			o.st.assume(wfValue(x, pa.Type(), next0))
			args = append(args, x)
			v.vars[con.applies[i]] = TV{x, pa.Type()}
		}
		v.appSig = cl.fn.Signature
		e := &env{v: v, st: v.entry, old: v.entry, vars: v.vars, con: con}
		for _, r := range con.appRequires {
			o.st.assume(v.evalBool(r.expr, e))
		}
		all = append(all, v.callStatic(o.st, cl.fn, args, cl.bindings, v.fn.Pos())...)
	}
	return all
}

// instTemplate instantiates a loop-invariant template over the loop's
// variables by type.
func (v *Ver) instTemplate(t *LoopTmpl, l *Loop, entry *PS, phis []*ssa.Phi, mod map[string]map[*Term]bool, add func(string, bool, func(*State, map[ssa.Value]Val) *Term)) {
	type binding struct {
		desc string
		f    func(s *State, regs map[ssa.Value]Val) TV
	}
	var choices [][]binding
	pkg := v.con.pkg
	for _, q := range t.vars {
		qt := v.resolveType(q.typ, pkg)
		var bs []binding
		st, isSpec := qt.(*specType)
		if isSpec && strings.HasPrefix(st.name, "set[") {
			var keys []string
			its := map[string]*IterV{}
			for _, rv := range entry.regs {
				if it, ok := rv.(*IterV); ok && mod[it.key] != nil {
					its[it.key] = it
				}
			}
			for k := range its {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				it := its[k]
				if setT(it.mt.Key()).sort != st.sort {
					continue
				}
				bs = append(bs, binding{k, func(s *State, _ map[ssa.Value]Val) TV { return TV{s.get(k), st} }})
			}
		} else {
			for _, ph := range phis {
				ph := ph
				if q.typ.inv {
					break
				}
				if _, ok := entry.regs[ph].(*Term); !ok {
					continue
				}
				pt := ph.Type()
				match := types.Identical(pt, qt)
				if isSpec && qt == types.Type(tMath) && sortOf(pt) == SInt {
					if _, ok := pt.Underlying().(*types.Basic); ok {
						match = true
					}
				}
				if !match {
					continue
				}
				bs = append(bs, binding{ph.Comment, func(_ *State, r map[ssa.Value]Val) TV { return TV{r[ph].(*Term), pt} }})
				if b, ok := pt.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					bs = append(bs, binding{ph.Comment + "+1", func(_ *State, r map[ssa.Value]Val) TV { return TV{Add(r[ph].(*Term), Num(1)), pt} }})
				}
			}
			// variables that live in memory (their address is taken)
			if !isSpec && !q.typ.inv && !q.typ.phi {
				var als []*ssa.Alloc
				for x := range entry.regs {
					if al, ok := x.(*ssa.Alloc); ok && al.Comment != "" && types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), qt) {
						als = append(als, al)
					}
				}
				sort.Slice(als, func(i, j int) bool { return als[i].Name() < als[j].Name() })
				for _, al := range als {
					addr := v.toAddr(entry.regs[al], al.Type())
					bs = append(bs, binding{al.Comment, func(s *State, _ map[ssa.Value]Val) TV {
						defer func(g bool) { v.noGuard = g }(v.noGuard)
						v.noGuard = true
						return TV{v.load(s, addr, token.NoPos), qt}
					}})
				}
			}
			// variables captured by a closure at hand
			if !isSpec && !q.typ.inv && !q.typ.phi {
				var cls []*ClosureV
				for _, rv := range entry.regs {
					if c, ok := rv.(*ClosureV); ok {
						cls = append(cls, c)
					}
				}
				sort.Slice(cls, func(i, j int) bool { return cls[i].fn.Name() < cls[j].fn.Name() })
				for _, c := range cls {
					for i, fv := range c.fn.FreeVars {
						pt, ok := fv.Type().Underlying().(*types.Pointer)
						if !ok || !types.Identical(pt.Elem(), qt) || i >= len(c.bindings) {
							continue
						}
						addr := v.toAddr(c.bindings[i], fv.Type())
						bs = append(bs, binding{fv.Name(), func(s *State, _ map[ssa.Value]Val) TV {
							defer func(g bool) { v.noGuard = g }(v.noGuard)
							v.noGuard = true
							return TV{v.load(s, addr, token.NoPos), qt}
						}})
					}
				}
			}
			// loop-invariant registers available at the header (e.g. the ranged slice)
			_, isMap := qt.Underlying().(*types.Map)
			if !isSpec && !q.typ.phi && (sortOf(qt) != SInt || isMap || q.typ.inv) {
				var vals []ssa.Value
				for x := range entry.regs {
					if _, isPhi := x.(*ssa.Phi); isPhi && x.(*ssa.Phi).Block() == l.header {
						continue
					}
					if types.Identical(x.Type(), qt) {
						if _, ok := entry.regs[x].(*Term); ok {
							vals = append(vals, x)
						}
					}
				}
				sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
				seen := map[*Term]bool{}
				var its []*IterV // the maps being ranged over
				for _, rv := range entry.regs {
					if it, ok := rv.(*IterV); ok && types.Identical(it.mt, qt.Underlying()) {
						its = append(its, it)
					}
				}
				sort.Slice(its, func(i, j int) bool { return its[i].key < its[j].key })
				for _, it := range its {
					tm := it.m
					if !seen[tm] {
						seen[tm] = true
						bs = append(bs, binding{"map of " + it.key, func(_ *State, r map[ssa.Value]Val) TV { return TV{tm, qt} }})
					}
				}
				for _, x := range vals {
					tm := entry.regs[x].(*Term)
					if seen[tm] {
						continue
					}
					seen[tm] = true
					bs = append(bs, binding{x.Name(), func(_ *State, r map[ssa.Value]Val) TV { return TV{tm, qt} }})
				}
			}
		}
		if len(bs) == 0 {
			return
		}
		choices = append(choices, bs)
	}
	n := 1
	for _, c := range choices {
		n *= len(c)
	}
	limit := 64
	if t.where != nil {
		limit = 4096
	}
	if n > limit {
		n = limit
	}
	es := entry.st
	for k := 0; k < n; k++ {
		var pick []binding
		x := k
		for _, c := range choices {
			pick = append(pick, c[x%len(c)])
			x /= len(c)
		}
		dup := false
		seen := map[string]int{}
		for _, b := range pick {
			seen[b.desc]++
			if seen[b.desc] > 1 {
				dup = true
			}
		}
		if dup {
			continue
		}
		desc := t.label
		for i, b := range pick {
			desc += " [" + t.vars[i].name + "=" + b.desc + "]"
		}
		f := func(s *State, regs map[ssa.Value]Val) *Term {
			vars := map[string]TV{}
			for kk, xx := range v.vars {
				vars[kk] = xx
			}
			for i, b := range pick {
				vars[t.vars[i].name] = b.f(s, regs)
			}
			return v.evalBool(t.expr, &env{v: v, st: s, old: v.entry, loopSt: es, vars: vars, con: v.con})
		}
		if t.where != nil {
			vars := map[string]TV{}
			for kk, xx := range v.vars {
				vars[kk] = xx
			}
			for i, b := range pick {
				vars[t.vars[i].name] = b.f(es, entry.regs)
			}
			es := es.clone()
			if !proveWhere(es.pc, v.evalBool(t.where, &env{v: v, st: es, old: v.entry, loopSt: es, vars: vars, con: v.con})) {
				continue
			}
		}
		add(desc, true, f)
	}
}

// proveAll discharges the obligations of a result.
func proveAll(rs []*FnResult) {
	var todo []*Obl
	for _, r := range rs {
		for _, o := range r.obls {
			if o.Status == "" {
				todo = append(todo, o)
			}
		}
	}
	parallel(len(todo), func(i int) {
		o := todo[i]
		if o.Kind == "coverexit" {
			q := render(o.PC, False)
			r := runSolver("z3-new", q, 2000)
			if r.res == "unsat" {
				o.Status = "unreachable"
			} else {
				o.Status, o.Solver = "discharged", "z3-new (not refuted)"
			}
			o.PC = nil
			return
		}
		o.prove()
	})
	for _, r := range rs {
		exits, live := 0, 0
		var keep []*Obl
		for _, o := range r.obls {
			if o.Kind == "coverexit" {
				exits++
				if o.Status == "discharged" {
					live++
				}
				continue
			}
			keep = append(keep, o)
		}
		r.obls = keep
		if exits > 0 {
			if live == 0 {
				r.obls = append(r.obls, failedObl(r.name, "cover", "some exit is reachable", "every exit path's assumptions are contradictory"))
			} else {
				r.obls = append(r.obls, &Obl{Name: r.name + ": cover some exit is reachable", Kind: "cover", Label: "some exit is reachable", Fn: r.name, Status: "discharged", Solver: "z3-new (not refuted)"})
			}
		}
		for _, o := range r.obls {
			if o.Status != "discharged" {
				r.failed = true
			}
		}
	}
}

// existedBefore: reference r of heap n was allocated before next (interior
// cells are negative references that belong to the object fldinv(r)).
func existedBefore(n string, r, next *Term) *Term {
	if !strings.HasPrefix(n, "C:") {
		return raw("<", SBool, r, next)
	}
	DeclFun("fldinv", SInt, SInt)
	return Or(And(leRaw(Num(0), r), raw("<", SBool, r, next)), And(raw("<", SBool, r, Num(0)), raw("<", SBool, App("fldinv", SInt, r), next)))
}

// proveWhere decides the guard of a loop clause.
func proveWhere(pc []*Term, goal *Term) bool {
	for _, g := range conjuncts(goal) {
		if g == True {
			continue
		}
		if g == False || !quickProveMS(pc, g, false, 700) {
			return false
		}
	}
	return true
}
