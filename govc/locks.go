package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: the lock discipline of every entry point that reaches shared state.

type recFrame struct {
	fn    *ssa.Function
	args  []Val
	locks map[string]*Term
}

// callees lists the repository functions fn may call or start directly, and
// the function literals it creates.
func (p *Prog) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					out = append(out, f)
				}
			}
			if m, ok := ins.(*ssa.MakeClosure); ok {
				out = append(out, m.Fn.(*ssa.Function))
			}
			for _, o := range ins.Operands(nil) {
				if f, ok := (*o).(*ssa.Function); ok {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

var recCache = map[*ssa.Function]int{}

// recursive: fn can reach itself.
func (p *Prog) recursive(fn *ssa.Function) bool {
	if r := recCache[fn]; r != 0 {
		return r == 2
	}
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		for _, g := range p.callees(f) {
			if g == fn {
				return true
			}
			if seen[g] || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), repoModule) {
				continue
			}
			seen[g] = true
			if reach(g) {
				return true
			}
		}
		return false
	}
	recCache[fn] = 1
	if reach(fn) {
		recCache[fn] = 2
	}
	return recCache[fn] == 2
}

// havocAll forgets everything about the heap but the locks.
func (v *Ver) havocAll(s *State) {
	if v.noLocks(s) {
		s.pc = nil // what was known before matters little to later lock operations
	}
	v.bumpNext(s)
	s.log = Fresh("log", SLog)
	for _, h := range sortedHeaps() {
		hi := heapReg[h]
		if hi.kind == "lock" || hi.kind == "iter" {
			continue
		}
		s.heap[h] = freshHeap(h, s.next)
		for _, w := range v.writes {
			w.add(h, nil)
		}
	}
}

func (v *Ver) lockState(s *State) map[string]*Term {
	m := map[string]*Term{}
	for h, hi := range heapReg {
		if hi.kind == "lock" {
			m[h] = s.get(h)
		}
	}
	return m
}

func (v *Ver) sameLocks(s *State, m map[string]*Term, what string, pos token.Pos) {
	for _, h := range sortedHeaps() {
		if heapReg[h].kind != "lock" {
			continue
		}
		was := m[h]
		if was == nil {
			was = baseHeap(h)
		}
		if s.get(h) != was {
			v.oblige(s.clone(), "lock", what+": "+h[2:], pos, Eq(s.get(h), was))
		}
	}
}

func (v *Ver) guardedType(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	for _, g := range v.prog.guards {
		if g.typ != nil && types.Identical(g.typ, pt.Elem()) {
			return true
		}
	}
	return false
}

// execRec runs a recursive function once, for an arbitrary heap and arbitrary
// arguments apart from the objects that carry locks; a recursive call must have the
// same such objects and the same locks held, and then leaves them as they were.
func (v *Ver) execRec(s *State, fn *ssa.Function, args []Val, bindings []Val, pos token.Pos) []Out {
	sig := fullSig(fn)
	for _, r := range v.recs {
		if r.fn != fn {
			continue
		}
		v.sameLocks(s, r.locks, "recursive call with the same locks held", pos)
		for i := range args {
			if t := sig.Params().At(i).Type(); v.guardedType(t) {
				v.oblige(s, "lock", "recursive call on the same object", pos, Eq(v.toTerm(s, args[i], t), r.args[i].(*Term)))
			}
		}
		v.havocAll(s)
		return []Out{{s, v.results(s, fn.Signature, func(i int, t types.Type) *Term { return v.fresh(s, "rec", t) })}}
	}
	f := &recFrame{fn: fn}
	v.havocAll(s)
	for i, a := range args {
		t := sig.Params().At(i).Type()
		if v.guardedType(t) {
			f.args = append(f.args, v.toTerm(s, a, t))
		} else {
			f.args = append(f.args, v.fresh(s, "arg", t))
		}
	}
	f.locks = v.lockState(s)
	v.recs = append(v.recs, f)
	outs := v.execFunc(s, fn, f.args, bindings)
	v.recs = v.recs[:len(v.recs)-1]
	for _, o := range outs {
		v.sameLocks(o.st, f.locks, "recursive function leaves the locks as they were", pos)
	}
	return outs
}

// guardedAccess: does ins load or store a guarded variable?
func (v *Ver) guardedAccess(ins ssa.Instruction) (what string) {
	var a ssa.Value
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a = x.X
		}
	case *ssa.Store:
		a = x.Addr
	}
	for a != nil {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			for _, g := range v.prog.guards {
				if g.typ != nil && types.Identical(g.typ, st) && g.fields[fieldNameOf(x)] {
					return typeKey(st) + "." + fieldNameOf(x)
				}
			}
			a = x.X
			continue
		case *ssa.Global:
			for _, g := range v.prog.guards {
				if g.typ == nil && x.Pkg.Pkg.Name() == g.pkg && g.fields[x.Name()] {
					return x.Pkg.Pkg.Name() + "." + x.Name()
				}
			}
		}
		break
	}
	return ""
}

// locksIn: fn itself accesses guarded state or operates on a lock.
func (v *Ver) locksIn(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v.guardedAccess(ins) != "" {
				return true
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && (strings.HasPrefix(f.String(), "(*sync.Mutex)") || strings.HasPrefix(f.String(), "(*sync.RWMutex)")) {
					return true
				}
			}
		}
	}
	return false
}

var lockMemo = map[*ssa.Function]int{}

// reachesLocks: fn or something it calls or creates touches locks or guarded state.
func (p *Prog) reachesLocks(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) {
		return false
	}
	if m := lockMemo[fn]; m != 0 {
		return m == 2
	}
	top := len(seen) == 0
	seen[fn] = true
	r := (&Ver{prog: p}).locksIn(fn)
	for _, g := range p.callees(fn) {
		r = r || p.reachesLocks(g, seen)
	}
	if r {
		lockMemo[fn] = 2
	} else if top {
		lockMemo[fn] = 1
	}
	return r
}

func (p *Prog) reach(fn *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[fn] || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) {
		return
	}
	seen[fn] = true
	for _, g := range p.callees(fn) {
		p.reach(g, seen)
	}
}

// lockEntry: fn can be called from outside its package with no lock held, and is
// checked for that; a call of it in such a state leaves no lock held.
func (p *Prog) lockEntry(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Synthetic == "" && (token.IsExported(fn.Name()) || fn.Name() == "main" || fn.Name() == "init")
}

func (v *Ver) noLocks(s *State) bool {
	for h, t := range s.heap {
		if hi := heapReg[h]; hi == nil || hi.kind != "lock" {
			continue
		}
		for t.op == "store" && t.args[2] == False {
			t = t.args[0]
		}
		if t.op == "store" || t != baseHeap(h) {
			return false
		}
	}
	return true
}

// lockFree: a call of fn cannot touch locks or guarded state, not even through
// functions it is handed.
func (p *Prog) lockFree(fn *ssa.Function) bool {
	sig := fullSig(fn)
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return false
		}
	}
	return fn.Parent() == nil && fn.Synthetic == "" && !p.reachesLocks(fn, map[*ssa.Function]bool{})
}

// verifyLocks checks every function that can be called from outside.
func (p *Prog) verifyLocks(only string) []*FnResult {
	v := newVer(p, nil, nil)
	var fns []*ssa.Function
	invoked := map[string]bool{}
	live := map[*ssa.Function]bool{}
	p.repoFuncs(func(fn *ssa.Function) {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || strings.Contains(p.pos(fn.Pos()), "zz_verif_") {
			return
		}
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					invoked[c.Common().Method.Name()] = true
				}
			}
		}
	})
	kinds := func(k string) bool { return k == "lock" || k == "unsupported" }
	var rs []*FnResult
	for _, fn := range fns {
		if fn.Parent() != nil || !p.reachesLocks(fn, map[*ssa.Function]bool{}) {
			continue
		}
		if !p.lockEntry(fn) && !(fn.Signature.Recv() != nil && invoked[fn.Name()]) {
			continue // checked where it is called, if at all
		}
		p.reach(fn, live)
		if only != "" && !strings.Contains(fn.String(), only) {
			continue
		}
		con := &Contract{file: "(locks)", pkgName: fn.Pkg.Pkg.Name(), pkg: fn.Pkg.Pkg, fnName: fn.Name(), fn: fn,
			props: []string{"C23"}, spawn: "locks", lockMode: true, noReturn: true}
		if r := fn.Signature.Recv(); r != nil {
			con.fnName = "(" + types.TypeString(r.Type(), func(*types.Package) string { return "" }) + ")." + fn.Name()
		}
		dbg("C23 %s", fn)
		rs = append(rs, p.genContract(con, kinds))
	}
	if only == "" {
		res := &FnResult{name: "accesses", con: &Contract{file: "(locks)", pkgName: "all", fnName: "accesses", props: []string{"C23"}}}
		for _, fn := range fns {
			if !live[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if w := v.guardedAccess(ins); w != "" && !p.guardSeen[ins] {
						res.obls = append(res.obls, failedObl(shortFn(fn), "lock", "access to "+w+" is reached by the check", p.pos(ins.Pos())))
					}
				}
			}
		}
		rs = append(rs, res)
	}
	proveAll(rs)
	return rs
}

// join merges p into q exactly: what differs becomes a fresh symbol that equals
// either side's value.
func (v *Ver) join(q, p *PS) bool {
	if len(p.defers) != len(q.defers) || len(p.regs) != len(q.regs) {
		return false
	}
	for i := range p.defers {
		if p.defers[i] != q.defers[i] {
			return false
		}
	}
	for k, x := range p.st.locals {
		if y := q.st.locals[k]; y != nil && y.sort != x.sort {
			return false
		}
	}
	type diff struct {
		k    ssa.Value
		a, b *Term
	}
	var ds []diff
	for k, x := range p.regs {
		y, ok := q.regs[k]
		if !ok {
			return false
		}
		if x == y || valKey(x) == valKey(y) {
			continue
		}
		a, ok1 := y.(*Term)
		b, ok2 := x.(*Term)
		if !ok1 || !ok2 || a.sort != b.sort {
			return false
		}
		ds = append(ds, diff{k, a, b})
	}
	for k := range q.regs {
		if _, ok := p.regs[k]; !ok {
			return false
		}
	}
	for h, t := range p.st.heap {
		if hi := heapReg[h]; hi != nil && (hi.kind == "lock" || hi.kind == "iter") && q.st.get(h) != t {
			return false
		}
	}
	for h, t := range q.st.heap {
		if hi := heapReg[h]; hi != nil && (hi.kind == "lock" || hi.kind == "iter") && p.st.get(h) != t {
			return false
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].k.Name() < ds[j].k.Name() })
	eq := func(n string, a, b *Term) *Term {
		x := Fresh(n, a.sort)
		q.st.pc = append(q.st.pc, Eq(x, a))
		p.st.pc = append(p.st.pc, Eq(x, b))
		return x
	}
	for _, d := range ds {
		q.regs[d.k] = eq("join", d.a, d.b)
	}
	// a cell only one side has is not reachable from the other side's registers
	ls := make(map[string]*Term, len(p.st.locals)+len(q.st.locals))
	for k, x := range p.st.locals {
		ls[k] = x
	}
	for k, x := range q.st.locals {
		if y := p.st.locals[k]; y != nil && y != x {
			ls[k] = nil
		} else {
			ls[k] = x
		}
	}
	for _, k := range sortedKeys(ls) {
		if ls[k] == nil {
			ls[k] = eq("local", q.st.locals[k], p.st.locals[k])
		}
	}
	q.st.locals = ls
	hs := map[string]bool{}
	for h := range p.st.heap {
		hs[h] = true
	}
	for h := range q.st.heap {
		hs[h] = true
	}
	for _, h := range sortedBools(hs) {
		a, b := q.st.get(h), p.st.get(h)
		if a == b {
			continue
		}
		x := freshHeap(h, q.st.next)
		q.st.pc = append(q.st.pc, Eq(x, a))
		p.st.pc = append(p.st.pc, Eq(x, b))
		q.st.heap[h] = x
	}
	if q.st.log != p.st.log {
		q.st.log = eq("log", q.st.log, p.st.log)
	}
	if q.st.next != p.st.next {
		nn := Fresh("next", SInt)
		nn.geBase, nn.geOff = next0, 0
		q.st.pc = append(q.st.pc, Eq(nn, q.st.next), leRaw(next0, nn))
		p.st.pc = append(p.st.pc, Eq(nn, p.st.next), leRaw(next0, nn))
		q.st.next = nn
	}
	q.st.pc = mergePC(q.st.pc, p.st.pc)
	return true
}

func sortedBools(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
