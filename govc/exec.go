package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name   string
	Kind   string // post, pre, safety, lock, inv, frame, call, cover, unsupported
	Fn     string
	Pos    string
	PC     []*Term
	Goal   *Term
	Label  string
	Status string // discharged, failed
	Solver string
	TimeMS int64
	Output string
	Model  map[string]string
	hash   string
}

type Ver struct {
	appSig     *types.Signature
	prog       *Prog
	fn         *ssa.Function
	con        *Contract
	entry      *State
	obls       []*Obl
	mute       int
	writes     []*writeSet
	noGuard    bool
	stack      []*ssa.Function
	vars       map[string]TV
	assumes    map[string]bool
	inlined    map[string]bool
	modular    map[string]bool
	curIns     ssa.Instruction
	lockMode   bool // only the lock discipline is checked (locks.go)
	recs       []*recFrame
	loopSt     []*State
	paths      int
	curPos     token.Pos
	noModular  map[string]bool
	hints      map[string]bool
	oncallSeen map[string]int
	kinds      func(string) bool
}

type unsupportedErr struct{ msg string }

func (v *Ver) unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...) + " at " + v.prog.pos(v.curPos)})
}

// vacMode replaces the obligations by the negated antecedents of the
// postconditions: one that is discharged on every path is vacuous.
var vacMode = os.Getenv("GOVC_VAC") != ""

func (v *Ver) oblige(s *State, kind, label string, pos token.Pos, goal *Term) {
	if v.mute == 0 && (v.kinds == nil || v.kinds(kind)) && (!vacMode || kind == "vac") {
		o := &Obl{Kind: kind, Label: label, Fn: v.fn.String(), Pos: v.prog.pos(pos), Goal: goal}
		o.Name = fmt.Sprintf("%s: %s %s", shortFn(v.fn), kind, label)
		if goal == True || s.knows(goal) {
			o.Status, o.Solver = "discharged", "simplifier"
		} else {
			o.PC = append([]*Term(nil), s.pc...)
		}
		v.obls = append(v.obls, o)
	}
	s.assume(goal)
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), repoModule, "appdash")
}

type deferRec struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type PS struct {
	st     *State
	regs   map[ssa.Value]Val
	defers []*deferRec
	blk    *ssa.BasicBlock
}

func (p *PS) clone() *PS {
	n := &PS{st: p.st.clone(), regs: make(map[ssa.Value]Val, len(p.regs)), defers: append([]*deferRec(nil), p.defers...), blk: p.blk}
	for k, v := range p.regs {
		n.regs[k] = v
	}
	return n
}

type Out struct {
	st  *State
	res []Val
}

type fnInfo struct {
	fn     *ssa.Function
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*Loop // by header
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i := fnInfos[fn]; i != nil {
		return i
	}
	in := &fnInfo{fn: fn, rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	fnInfos[fn] = in
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := range post {
		in.rpo[post[len(post)-1-i]] = i
	}
	// natural loops
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := in.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] || !seen[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			} else if in.rpo[s] <= in.rpo[b] {
				panic(unsupportedErr{"irreducible control flow in " + fn.String()})
			}
		}
	}
	// The RPO must place every loop body before the loop's exits are processed;
	// loops are collapsed so only relative order of non-loop blocks matters.
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	var rands []*ssa.Value
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				d[ins.(ssa.Value)] = true
				continue
			}
			rands = ins.Operands(rands[:0])
			for _, r := range rands {
				if *r != nil && !d[*r] {
					u[*r] = true
				}
			}
			if val, ok := ins.(ssa.Value); ok {
				d[val] = true
			}
		}
		use[b], def[b] = u, d
		in.liveIn[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			li := in.liveIn[b]
			add := func(x ssa.Value) {
				if !li[x] {
					li[x] = true
					ch = true
				}
			}
			for x := range use[b] {
				add(x)
			}
			for _, s := range b.Succs {
				for x := range in.liveIn[s] {
					if _, isPhi := x.(*ssa.Phi); isPhi && x.(*ssa.Phi).Block() == s {
						continue
					}
					if !def[b][x] {
						add(x)
					}
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && !def[b][ph.Edges[k]] {
							add(ph.Edges[k])
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				in.liveIn[b][ph] = true
			}
		}
	}
	return in
}

// ---------- function execution ----------

func (v *Ver) execFunc(st *State, fn *ssa.Function, args []Val, bindings []Val) []Out {
	if len(v.stack) > 24 {
		v.unsupported("inlining too deep: %s", fn)
	}
	if len(fn.Blocks) == 0 {
		v.unsupported("no body for %s", fn)
	}
	for _, f := range v.stack {
		if f == fn {
			v.unsupported("recursion without a contract: %s", fn)
		}
	}
	v.stack = append(v.stack, fn)
	defer func() { v.stack = v.stack[:len(v.stack)-1] }()
	info := infoOf(fn)
	p := &PS{st: st, regs: map[ssa.Value]Val{}, blk: fn.Blocks[0]}
	for i, pa := range fn.Params {
		p.regs[pa] = args[i]
	}
	for i, fv := range fn.FreeVars {
		p.regs[fv] = bindings[i]
	}
	r := v.runRegion(info, nil, []*PS{p})
	return v.mergeOuts(r.outs)
}

type regionRes struct {
	exits []*PS
	backs []*PS
	outs  []Out
}

func (v *Ver) runRegion(info *fnInfo, l *Loop, init []*PS) *regionRes {
	res := &regionRes{}
	pend := map[*ssa.BasicBlock][]*PS{}
	for _, p := range init {
		pend[p.blk] = append(pend[p.blk], p)
	}
	first := true
	route := func(p *PS) {
		if l != nil && p.blk == l.header {
			res.backs = append(res.backs, p)
		} else if l != nil && !l.blocks[p.blk] {
			res.exits = append(res.exits, p)
		} else {
			pend[p.blk] = append(pend[p.blk], p)
		}
	}
	for len(pend) > 0 {
		var b *ssa.BasicBlock
		for x := range pend {
			if b == nil || info.rpo[x] < info.rpo[b] {
				b = x
			}
		}
		ps := pend[b]
		delete(pend, b)
		ps = v.merge(info, b, ps)
		if inner := info.loops[b]; inner != nil && !(first && l != nil && inner == l) {
			for _, p := range ps {
				rr := v.execLoop(info, inner, p, 0)
				res.outs = append(res.outs, rr.outs...)
				for _, e := range rr.exits {
					route(e)
				}
			}
			first = false
			continue
		}
		first = false
		for _, p := range ps {
			v.paths++
			if v.paths > 200000 {
				v.unsupported("too many paths")
			}
			for _, n := range v.execBlock(info, p, 0, res) {
				route(n)
			}
		}
	}
	return res
}

func sameState(a, b *State) bool {
	if a.next != b.next || a.log != b.log {
		return false
	}
	for k, t := range a.heap {
		if b.get(k) != t {
			return false
		}
	}
	for k, t := range b.heap {
		if a.get(k) != t {
			return false
		}
	}
	return true
}

func mergePC(a, b []*Term) []*Term {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	out := append([]*Term(nil), a[:i]...)
	// common facts in the remainder
	inB := map[*Term]bool{}
	for _, t := range b[i:] {
		inB[t] = true
	}
	var ra, rb []*Term
	common := map[*Term]bool{}
	for _, t := range a[i:] {
		if inB[t] {
			common[t] = true
			out = append(out, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b[i:] {
		if !common[t] {
			rb = append(rb, t)
		}
	}
	d := Or(And(ra...), And(rb...))
	if d != True {
		// (c & x) | (!c & y): drop when it is only a branch difference without facts
		out = append(out, d)
	}
	return out
}

func (v *Ver) merge(info *fnInfo, b *ssa.BasicBlock, ps []*PS) []*PS {
	live := info.liveIn[b]
	for _, p := range ps {
		for k := range p.regs {
			if !live[k] {
				switch k.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
					continue
				}
				delete(p.regs, k)
			}
		}
	}
	if len(ps) < 2 {
		return ps
	}
	var out []*PS
next:
	for _, p := range ps {
		for _, q := range out {
			if v.mergeable(p, q) {
				q.st.pc = mergePC(q.st.pc, p.st.pc)
				continue next
			}
			if v.lockMode && v.join(q, p) {
				continue next
			}
		}
		out = append(out, p)
	}
	return out
}

func (v *Ver) mergeable(p, q *PS) bool {
	if len(p.defers) != len(q.defers) || !sameState(p.st, q.st) {
		return false
	}
	for i := range p.defers {
		if p.defers[i] != q.defers[i] {
			return false
		}
	}
	for k, x := range p.regs {
		y, ok := q.regs[k]
		if !ok {
			return false
		}
		if x != y && valKey(x) != valKey(y) {
			return false
		}
	}
	if len(p.regs) != len(q.regs) {
		return false
	}
	return true
}

func (v *Ver) mergeOuts(os []Out) []Out {
	var out []Out
next:
	for _, o := range os {
		for i := range out {
			q := &out[i]
			if len(q.res) == len(o.res) && sameState(q.st, o.st) {
				ok := true
				for j := range o.res {
					if valKey(o.res[j]) != valKey(q.res[j]) {
						ok = false
					}
				}
				if ok {
					q.st.pc = mergePC(q.st.pc, o.st.pc)
					continue next
				}
			}
		}
		out = append(out, o)
	}
	return out
}

// goTo transfers p along the edge b->succ, evaluating phis.
func (v *Ver) goTo(p *PS, from, to *ssa.BasicBlock, which int) *PS {
	idx := -1
	cnt := 0
	for k, q := range to.Preds {
		if q == from {
			if idx < 0 || cnt == which {
				idx = k
			}
			cnt++
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, v.val(p, ph.Edges[idx]))
	}
	for i, ph := range phis {
		p.regs[ph] = vals[i]
	}
	p.blk = to
	return p
}

func (v *Ver) branch(p *PS, c *Term) (t, f *PS) {
	if c == True || p.st.knows(c) {
		return p, nil
	}
	if c == False || p.st.knows(Not(c)) {
		return nil, p
	}
	q := p.clone()
	p.st.assume(c)
	q.st.assume(Not(c))
	if p.st.inconsistent() {
		p = nil
	}
	if q.st.inconsistent() {
		q = nil
	}
	return p, q
}

func (s *State) inconsistent() bool {
	if len(s.pc) == 0 {
		return false
	}
	t := s.pc[len(s.pc)-1]
	return t == False
}

// execBlock runs block p.blk from instruction i.
func (v *Ver) execBlock(info *fnInfo, p *PS, i int, res *regionRes) []*PS {
	b := p.blk
	for ; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		v.curIns = ins
		if ins.Pos().IsValid() {
			v.curPos = ins.Pos()
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := v.term(p, ins.Cond)
			t, f := v.branch(p, c)
			var out []*PS
			same := b.Succs[0] == b.Succs[1]
			if t != nil {
				out = append(out, v.goTo(t, b, b.Succs[0], 0))
			}
			if f != nil {
				w := 0
				if same {
					w = 1
				}
				out = append(out, v.goTo(f, b, b.Succs[1], w))
			}
			return out
		case *ssa.Jump:
			return []*PS{v.goTo(p, b, b.Succs[0], 0)}
		case *ssa.Return:
			var rs []Val
			for _, r := range ins.Results {
				rs = append(rs, v.val(p, r))
			}
			res.outs = append(res.outs, Out{p.st, rs})
			return nil
		case *ssa.Panic:
			v.doPanic(p, ins)
			return nil
		case *ssa.RunDefers:
			ps := []*PS{p}
			for len(p.defers) > 0 {
				// all ps share the same defers
				d := ps[0].defers[len(ps[0].defers)-1]
				var nps []*PS
				for _, q := range ps {
					q.defers = q.defers[:len(q.defers)-1]
					for _, o := range v.callWith(q.st, q, d.call, d.fn, d.args, d.pos, nil) {
						n := &PS{st: o.st, regs: copyRegs(q.regs), defers: q.defers, blk: q.blk}
						nps = append(nps, n)
					}
				}
				ps = nps
				if len(ps) == 0 {
					return nil
				}
				p = ps[0]
			}
			var out []*PS
			for _, q := range ps {
				out = append(out, v.execBlock(info, q, i+1, res)...)
			}
			return out
		case *ssa.Defer:
			fnv, args := v.callOperands(p, &ins.Call)
			p.defers = append(append([]*deferRec(nil), p.defers...), &deferRec{&ins.Call, fnv, args, ins.Pos()})
		case *ssa.Go:
			v.doGo(p, ins)
		case *ssa.Call:
			fnv, args := v.callOperands(p, &ins.Call)
			outs := v.callWith(p.st, p, &ins.Call, fnv, args, ins.Pos(), ins)
			if len(outs) == 0 {
				return nil
			}
			if len(outs) == 1 {
				p.st = outs[0].st
				v.setRes(p, ins, outs[0].res)
				continue
			}
			var out []*PS
			for _, o := range outs {
				n := &PS{st: o.st, regs: copyRegs(p.regs), defers: p.defers, blk: p.blk}
				v.setRes(n, ins, o.res)
				out = append(out, v.execBlock(info, n, i+1, res)...)
			}
			return out
		case *ssa.Next:
			a, c := v.doNext(p, ins)
			if c == nil {
				p = a
				continue
			}
			var out []*PS
			out = append(out, v.execBlock(info, a, i+1, res)...)
			out = append(out, v.execBlock(info, c, i+1, res)...)
			return out
		case *ssa.Select:
			outs := v.doSelect(p, ins)
			var out []*PS
			for _, n := range outs {
				out = append(out, v.execBlock(info, n, i+1, res)...)
			}
			return out
		default:
			v.simple(p, ins)
			if p.st.inconsistent() {
				return nil
			}
		}
	}
	v.unsupported("fell off block")
	return nil
}

func copyRegs(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (v *Ver) setRes(p *PS, ins *ssa.Call, res []Val) {
	sig := ins.Call.Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		if len(res) != 1 {
			v.unsupported("result arity of %s", ins)
		}
		p.regs[ins] = res[0]
	default:
		p.regs[ins] = TupleV(res)
	}
}

func (v *Ver) doPanic(p *PS, ins *ssa.Panic) {
	goal := False
	if v.con != nil && len(v.stack) == 1 {
		var cs []*Term
		for _, c := range v.con.panics {
			cs = append(cs, v.evalBool(c.expr, &env{v: v, st: p.st, old: v.entry, vars: v.vars}))
		}
		goal = Or(cs...)
	} else if v.con != nil {
		var cs []*Term
		for _, c := range v.con.panics {
			cs = append(cs, v.evalBool(c.expr, &env{v: v, st: p.st, old: v.entry, vars: v.vars}))
		}
		goal = Or(cs...)
	}
	v.oblige(p.st, "safety", "no panic", ins.Pos(), goal)
}

// ---------- operands ----------

func (v *Ver) val(p *PS, x ssa.Value) Val {
	switch x := x.(type) {
	case *ssa.Const:
		return constTerm(x.Value, x.Type())
	case *ssa.Global:
		return v.prog.globalAddr(x)
	case *ssa.Function:
		return &ClosureV{fn: x}
	case *ssa.Builtin:
		return nil
	}
	r, ok := p.regs[x]
	if !ok {
		v.unsupported("no value for %s = %s in %s", x.Name(), x, x.Parent())
	}
	return r
}

func (v *Ver) term(p *PS, x ssa.Value) *Term {
	return v.toTerm(p.st, v.val(p, x), x.Type())
}

// toTerm converts an engine value to a first-class term.
func (v *Ver) toTerm(s *State, x Val, t types.Type) *Term {
	switch x := x.(type) {
	case *Term:
		return x
	case *AddrV:
		switch x.kind {
		case "root":
			if len(x.path) == 0 {
				return x.base
			}
			if v.prog.cellField(x.typ, x.path) {
				return v.fld(s, x)
			}
			// Interior pointer to a struct field escaping: opaque but non-nil reference.
			v.unsupported("interior pointer escapes: field %s of %s", v.pathName(x), x.typ)
		case "global":
			if len(x.path) == 0 {
				r := v.prog.globalRef(x)
				globalByRef[r] = x
				return r
			}
		}
		v.unsupported("interior pointer escapes (%s)", x.kind)
	case *ClosureV:
		if x.bound == nil {
			if len(x.bindings) == 0 {
				x.bound = Sym("fn$"+sanitize(x.fn.String()), SInt)
			} else {
				x.bound = Fresh("clo", SInt)
			}
			closTab[x.bound] = x
		}
		s.assume(ltRaw(Num(0), x.bound))
		return x.bound
	case *SliceLit:
		return v.materialize(s, x)
	case nil:
		return Num(0)
	}
	v.unsupported("cannot represent %T as a term", x)
	return nil
}

var closTab = map[*Term]*ClosureV{}

func (v *Ver) pathName(a *AddrV) string {
	t := a.typ
	var ns []string
	for _, i := range a.path {
		f := t.Underlying().(*types.Struct).Field(i)
		ns = append(ns, f.Name())
		t = f.Type()
	}
	return strings.Join(ns, ".")
}

func (v *Ver) materialize(s *State, sl *SliceLit) *Term {
	if len(sl.elems) == 0 {
		return NilSlice
	}
	c := ConstArr(arr(SInt, sortOf(sl.elem)), zero(sl.elem))
	for i, e := range sl.elems {
		c = Store(c, Num(int64(i)), e)
	}
	r := v.newArr(s, sl.elem, c)
	n := Num(int64(len(sl.elems)))
	return Ctr("sl", r, Num(0), n, n)
}

// ---------- simple instructions ----------

func (v *Ver) nilCheck(p *PS, x Val, pos token.Pos, what string) {
	if t, ok := x.(*Term); ok {
		if globalByRef[t] != nil {
			return
		}
		v.oblige(p.st, "safety", "nil dereference: "+what, pos, Not(Eq(t, Num(0))))
	}
}

func (v *Ver) simple(p *PS, ins ssa.Instruction) {
	s := p.st
	switch ins := ins.(type) {
	case *ssa.Alloc:
		et := ins.Type().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok && v.prog.localArr(ins) {
			v.prog.nloc++
			p.regs[ins] = &LocalArr{elem: at.Elem(), n: int(at.Len()), id: v.prog.nloc}
			return
		}
		p.regs[ins] = v.alloc(s, et)
	case *ssa.Store:
		a := v.val(p, ins.Addr)
		v.nilCheck(p, a, ins.Pos(), "store")
		x := v.term(p, ins.Val)
		v.store(s, v.toAddr(a, ins.Addr.Type()), x, ins.Pos())
	case *ssa.UnOp:
		v.unop(p, ins)
	case *ssa.BinOp:
		v.binop(p, ins)
	case *ssa.FieldAddr:
		x := v.val(p, ins.X)
		v.nilCheck(p, x, ins.Pos(), "field "+fieldNameOf(ins))
		p.regs[ins] = v.toAddr(x, ins.X.Type()).field(ins.Field)
	case *ssa.Field:
		t := v.term(p, ins.X)
		p.regs[ins] = Sel(fieldSel(ins.X.Type(), ins.Field), t)
	case *ssa.IndexAddr:
		v.indexAddr(p, ins)
	case *ssa.Index:
		x := v.term(p, ins.X)
		i := v.term(p, ins.Index)
		if at, ok := ins.X.Type().Underlying().(*types.Array); ok {
			v.oblige(s, "safety", "index in range", ins.Pos(), And(Le(Num(0), i), Lt(i, Num(at.Len()))))
			p.regs[ins] = Select(x, i)
			return
		}
		v.oblige(s, "safety", "index in range", ins.Pos(), And(Le(Num(0), i), Lt(i, StrLen(x))))
		r := App("str.byte", SInt, x, i)
		s.assume(inRange(r, ins.Type()))
		p.regs[ins] = r
	case *ssa.Lookup:
		v.lookup(p, ins)
	case *ssa.MapUpdate:
		m := v.term(p, ins.Map)
		v.oblige(s, "safety", "assignment to entry in nil map", ins.Pos(), Not(Eq(m, Num(0))))
		v.mapStore(s, m, ins.Map.Type().Underlying().(*types.Map), v.term(p, ins.Key), v.term(p, ins.Value))
	case *ssa.MakeMap:
		p.regs[ins] = v.makeMap(s, ins.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		el := ins.Type().Underlying().(*types.Slice).Elem()
		n, c := v.term(p, ins.Len), v.term(p, ins.Cap)
		v.oblige(s, "safety", "makeslice: len out of range", ins.Pos(), And(Le(Num(0), n), Le(n, c)))
		s.assume(leRaw(c, NumS("1125899906842624")))
		r := v.newArr(s, el, ConstArr(arr(SInt, sortOf(el)), zero(el)))
		p.regs[ins] = Ctr("sl", r, Num(0), n, c)
	case *ssa.MakeChan:
		r := s.next
		s.next = Add(s.next, Num(1))
		regHeap("CH:closed", &heapInfo{kind: "chan", typ: tBool, sort: arr(SInt, SBool)})
		v.put(s, "CH:closed", r, Store(s.get("CH:closed"), r, False))
		p.regs[ins] = r
	case *ssa.MakeInterface:
		x := v.val(p, ins.X)
		p.regs[ins] = mkIface(v.toTerm(s, x, ins.X.Type()), ins.X.Type())
	case *ssa.ChangeInterface:
		p.regs[ins] = v.val(p, ins.X)
	case *ssa.ChangeType:
		v.changeType(p, ins, ins.X)
	case *ssa.Convert:
		v.convert(p, ins)
	case *ssa.MakeClosure:
		c := &ClosureV{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			c.bindings = append(c.bindings, v.val(p, b))
		}
		p.regs[ins] = c
	case *ssa.Slice:
		v.slice(p, ins)
	case *ssa.Extract:
		t, ok := v.val(p, ins.Tuple).(TupleV)
		if !ok {
			v.unsupported("extract from %T", v.val(p, ins.Tuple))
		}
		p.regs[ins] = t[ins.Index]
	case *ssa.TypeAssert:
		v.typeAssert(p, ins)
	case *ssa.Range:
		v.doRange(p, ins)
	case *ssa.Send:
		v.unsupported("channel send")
	default:
		v.unsupported("instruction %T", ins)
	}
}

func fieldNameOf(ins *ssa.FieldAddr) string {
	return ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(ins.Field).Name()
}

func StrLen(s *Term) *Term {
	if l, ok := litText[s]; ok {
		return Num(int64(len(l)))
	}
	if s.op == "str.cat" {
		return Add(StrLen(s.args[0]), StrLen(s.args[1]))
	}
	return App("str.len", SInt, s)
}
func StrCat(a, b *Term) *Term {
	la, ok1 := litText[a]
	lb, ok2 := litText[b]
	if ok1 && la == "" {
		return b
	}
	if ok2 && lb == "" {
		return a
	}
	if ok1 && ok2 {
		return StrLit(la + lb)
	}
	// right-assoc normal form
	if a.op == "str.cat" {
		return StrCat(a.args[0], StrCat(a.args[1], b))
	}
	if ok1 && b.op == "str.cat" {
		if l2, ok := litText[b.args[0]]; ok {
			return StrCat(StrLit(la+l2), b.args[1])
		}
	}
	return App("str.cat", SStr, a, b)
}

func (v *Ver) unop(p *PS, ins *ssa.UnOp) {
	s := p.st
	switch ins.Op {
	case token.MUL:
		x := v.val(p, ins.X)
		v.nilCheck(p, x, ins.Pos(), "load")
		a := v.toAddr(x, ins.X.Type())
		want := ins.Type()
		have := a.leafType()
		if !types.Identical(want.Underlying(), have.Underlying()) && a.kind == "elem" && len(a.path) == 0 {
			// reinterpretation of bytes (unsafe)
			if hb, ok := have.Underlying().(*types.Basic); ok && hb.Kind() == types.Uint8 {
				if bits, _ := intBits(want.Underlying().(*types.Basic).Kind()); bits > 0 {
					v.oblige(s, "safety", "unsafe read stays inside the slice", ins.Pos(), And(Le(Num(0), a.idx), Le(Add(a.idx, Num(int64(bits/8))), a.hi)))
					A := Select(s.get(elemHeap(a.typ)), a.base)
					r := App(fmt.Sprintf("bytes.le%d", bits), SInt, A, a.idx)
					s.assume(inRange(r, want))
					p.regs[ins] = r
					return
				}
			}
			v.unsupported("unsafe reinterpretation of %s as %s", have, want)
		}
		r := v.load(s, a, ins.Pos())
		if a.kind == "global" {
			v.prog.globalFacts(s, a, r)
		}
		if f, ok := want.Underlying().(*types.Signature); ok && f != nil {
			if c := closTab[r]; c != nil {
				p.regs[ins] = c
				return
			}
		}
		p.regs[ins] = r
	case token.NOT:
		p.regs[ins] = Not(v.term(p, ins.X))
	case token.SUB:
		x := v.term(p, ins.X)
		if x.sort == SInt {
			p.regs[ins] = wrap(Sub(Num(0), x), ins.Type())
		} else {
			p.regs[ins] = App("flt.neg", x.sort, x)
		}
	case token.XOR:
		x := v.term(p, ins.X)
		r := App("bv.not$"+typeKey(ins.Type()), SInt, x)
		s.assume(inRange(r, ins.Type()))
		p.regs[ins] = r
	case token.ARROW:
		r := v.fresh(s, "recv", ins.X.Type().Underlying().(*types.Chan).Elem())
		if ins.CommaOk {
			p.regs[ins] = TupleV{r, Fresh("ok", SBool)}
		} else {
			p.regs[ins] = r
		}
	default:
		v.unsupported("unop %s", ins.Op)
	}
}

// fresh returns an arbitrary well-formed value of type t.
func (v *Ver) fresh(s *State, name string, t types.Type) *Term {
	x := Fresh(name, sortOf(t))
	x.upBase = nil
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Struct:
		b, k := offset(s.next)
		x.upBase, x.upOff = b, k
	}
	s.assume(wfValue(x, t, s.next))
	return x
}

func (v *Ver) binop(p *PS, ins *ssa.BinOp) {
	s := p.st
	x, y := v.term(p, ins.X), v.term(p, ins.Y)
	t := ins.X.Type()
	srt := x.sort
	var r *Term
	switch ins.Op {
	case token.EQL, token.NEQ:
		if x.sort != y.sort {
			// interface vs concrete comparisons
			if x.sort == SIface {
				y = mkIface(y, ins.Y.Type())
			} else if y.sort == SIface {
				x = mkIface(x, ins.X.Type())
			}
		}
		if srt == SSlice {
			// comparison with nil
			if ins.Y.(*ssa.Const) != nil {
				r = Eq(Sel("s.arr", x), Num(0))
			}
		} else if srt == SFlt {
			r = App("flt.eq", SBool, x, y)
		} else {
			r = Eq(x, y)
		}
		if ins.Op == token.NEQ {
			r = Not(r)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b := x, y
		if ins.Op == token.GTR || ins.Op == token.GEQ {
			a, b = y, x
		}
		strict := ins.Op == token.LSS || ins.Op == token.GTR
		switch srt {
		case SInt:
			if strict {
				r = Lt(a, b)
			} else {
				r = Le(a, b)
			}
		case SStr:
			if strict {
				r = App("str.lt", SBool, a, b)
			} else {
				r = Or(App("str.lt", SBool, a, b), Eq(a, b))
			}
		default:
			if strict {
				r = App("flt.lt", SBool, a, b)
			} else {
				r = App("flt.le", SBool, a, b)
			}
		}
	case token.ADD:
		switch srt {
		case SInt:
			r = wrap(Add(x, y), t)
			// The index go/ssa makes for a range statement runs over 0..len-1.
			if ph, ok := ins.X.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
				r = Add(x, y)
			}
		case SStr:
			r = StrCat(x, y)
		default:
			r = App("flt.add", srt, x, y)
		}
	case token.SUB:
		if srt == SInt {
			r = wrap(Sub(x, y), t)
		} else {
			r = App("flt.sub", srt, x, y)
		}
	case token.MUL:
		if srt == SInt {
			r = wrap(Mul(x, y), t)
		} else {
			r = App("flt.mul", srt, x, y)
		}
	case token.QUO, token.REM:
		if srt != SInt {
			r = App("flt.div", srt, x, y)
			break
		}
		v.oblige(s, "safety", "division by zero", ins.Pos(), Not(Eq(y, Num(0))))
		if n, ok := y.num(); ok && n > 0 {
			if ins.Op == token.QUO {
				r = Ite(Le(Num(0), x), raw("div", SInt, x, y), raw("-", SInt, raw("div", SInt, raw("-", SInt, x), y)))
			} else {
				r = Ite(Le(Num(0), x), raw("mod", SInt, x, y), raw("-", SInt, raw("mod", SInt, raw("-", SInt, x), y)))
			}
		} else if ins.Op == token.REM {
			r = App("go.rem", SInt, x, y)
			s.assume(Implies(And(Le(Num(0), x), Lt(Num(0), y)), And(Le(Num(0), r), Lt(r, y), Le(r, x),
				Implies(Lt(x, y), Eq(r, x)), Implies(And(Le(y, x), Lt(Sub(x, y), y)), Eq(r, Sub(x, y))))))
			s.assume(inRange(r, t))
		} else {
			r = App("go.quo", SInt, x, y)
			s.assume(Implies(And(Le(Num(0), x), Lt(Num(0), y)), And(Le(Num(0), r), Le(r, x))))
			s.assume(inRange(r, t))
		}
	case token.SHL, token.SHR:
		if n, ok := y.num(); ok && n >= 0 && n < 63 {
			if ins.Op == token.SHL {
				r = wrap(Mul(x, Num(1<<uint(n))), t)
			} else {
				r = raw("div", SInt, x, Num(1<<uint(n)))
			}
			break
		}
		fallthrough
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if srt == SBool {
			if ins.Op == token.AND {
				r = And(x, y)
			} else {
				r = Or(x, y)
			}
			break
		}
		r = App("bv."+sanitize(fmt.Sprintf("%d", int(ins.Op)))+"$"+sanitize(typeKey(t)), SInt, x, y)
		s.assume(inRange(r, ins.Type()))
	default:
		v.unsupported("binop %s", ins.Op)
	}
	p.regs[ins] = r
}

func (v *Ver) indexAddr(p *PS, ins *ssa.IndexAddr) {
	s := p.st
	x := v.val(p, ins.X)
	i := v.term(p, ins.Index)
	if la, ok := x.(*LocalArr); ok {
		if n, ok := i.num(); ok && n >= 0 && int(n) < la.n {
			p.regs[ins] = &AddrV{kind: "local", loc: la, idx: i, typ: la.elem}
			return
		}
		v.unsupported("index into local array")
	}
	switch t := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		sl := v.toTerm(s, x, ins.X.Type())
		v.oblige(s, "safety", "index in range", ins.Pos(), And(Le(Num(0), i), Lt(i, Sel("s.len", sl))))
		off := Sel("s.off", sl)
		p.regs[ins] = &AddrV{kind: "elem", base: Sel("s.arr", sl), idx: ElIdx(off, i), hi: Add(off, Sel("s.len", sl)), typ: t.Elem()}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		a := v.toAddr(x, ins.X.Type())
		if a.kind == "elem" || a.kind == "arrval" {
			v.oblige(s, "safety", "index in range", ins.Pos(), And(Le(Num(0), i), Lt(i, Num(at.Len()))))
			p.regs[ins] = &AddrV{kind: "arrval", par: a, idx: i, typ: at.Elem()}
			return
		}
		if a.kind != "root" || len(a.path) != 0 {
			v.unsupported("address of element of embedded array")
		}
		v.oblige(s, "safety", "index in range", ins.Pos(), And(Le(Num(0), i), Lt(i, Num(at.Len()))))
		p.regs[ins] = &AddrV{kind: "elem", base: a.base, idx: i, hi: Num(at.Len()), typ: at.Elem()}
	default:
		v.unsupported("indexaddr %s", ins.X.Type())
	}
}

func (v *Ver) lookup(p *PS, ins *ssa.Lookup) {
	s := p.st
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		x, i := v.term(p, ins.X), v.term(p, ins.Index)
		v.oblige(s, "safety", "index in range", ins.Pos(), And(Le(Num(0), i), Lt(i, StrLen(x))))
		r := App("str.byte", SInt, x, i)
		s.assume(inRange(r, ins.Type()))
		p.regs[ins] = r
		return
	}
	m, k := v.term(p, ins.X), v.term(p, ins.Index)
	d, val := v.mapGet(s, m, mt, k)
	v.guardMap(s, m, ins.Pos())
	if ins.CommaOk {
		p.regs[ins] = TupleV{val, d}
	} else {
		p.regs[ins] = val
	}
}

// mapGet returns (present, value-or-zero).
func (v *Ver) mapGet(s *State, m *Term, mt *types.Map, k *Term) (*Term, *Term) {
	dom, val, _ := mapHeaps(mt)
	D := Select(Select(s.get(dom), m), k)
	if m.isNum() {
		D = False
	}
	V := Select(Select(s.get(val), m), k)
	return D, Ite(D, V, zero(mt.Elem()))
}

func (v *Ver) mapStore(s *State, m *Term, mt *types.Map, k, x *Term) {
	dom, val, ln := mapHeaps(mt)
	D, V, L := s.get(dom), s.get(val), s.get(ln)
	d := Select(D, m)
	had := Select(d, k)
	v.mapFacts(s, m, mt)
	v.put(s, dom, m, Store(D, m, Store(d, k, True)))
	v.put(s, val, m, Store(V, m, Store(Select(V, m), k, x)))
	v.put(s, ln, m, Store(L, m, Add(Select(L, m), Ite(had, Num(0), Num(1)))))
	v.mapFacts(s, m, mt)
}

func (v *Ver) mapFacts(s *State, m *Term, mt *types.Map) {
	dom, _, ln := mapHeaps(mt)
	s.assume(mapLenFacts(Select(s.get(dom), m), Select(s.get(ln), m), sortOf(mt.Key())))
}

func (v *Ver) mapDelete(s *State, m *Term, mt *types.Map, k *Term) {
	dom, _, ln := mapHeaps(mt)
	D, L := s.get(dom), s.get(ln)
	d := Select(D, m)
	had := Select(d, k)
	v.mapFacts(s, m, mt)
	// delete on a nil map is a no-op: its domain is empty, so nothing changes
	v.put(s, dom, m, Store(D, m, Store(d, k, False)))
	v.put(s, ln, m, Store(L, m, Sub(Select(L, m), Ite(had, Num(1), Num(0)))))
	v.mapFacts(s, m, mt)
}

func (v *Ver) makeMap(s *State, mt *types.Map) *Term {
	dom, val, ln := mapHeaps(mt)
	r := s.next
	s.next = Add(s.next, Num(1))
	v.put(s, dom, r, Store(s.get(dom), r, ConstArr(arr(sortOf(mt.Key()), SBool), False)))
	v.put(s, val, r, Store(s.get(val), r, ConstArr(arr(sortOf(mt.Key()), sortOf(mt.Elem())), zero(mt.Elem()))))
	v.put(s, ln, r, Store(s.get(ln), r, Num(0)))
	return r
}

func (v *Ver) changeType(p *PS, ins ssa.Value, x ssa.Value) {
	val := v.val(p, x)
	if a, ok := val.(*AddrV); ok {
		if _, isPtr := ins.Type().Underlying().(*types.Pointer); isPtr {
			if a.kind == "root" && len(a.path) > 0 && v.prog.cellField(a.typ, a.path) {
				p.regs[ins] = v.fld(p.st, a)
				return
			}
		}
		p.regs[ins] = val
		return
	}
	if t, ok := val.(*Term); ok {
		want := sortOf(ins.Type())
		if t.sort != want {
			// structurally identical struct types
			if st, ok := isStruct(x.Type()); ok {
				var as []*Term
				for i := 0; i < st.NumFields(); i++ {
					as = append(as, Sel(fieldSel(x.Type(), i), t))
				}
				p.regs[ins] = Ctr("mk."+structSort(ins.Type()), as...)
				return
			}
			v.unsupported("type change %s to %s", x.Type(), ins.Type())
		}
	}
	p.regs[ins] = val
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// strOfBytes is string(b) for the byte slice sl.
func (v *Ver) strOfBytes(s *State, sl *Term, elem types.Type) *Term {
	q := v.seqOfSlice(s, sl, elem)
	if q.op == "bytes.of" {
		return q.args[0]
	}
	r := App("str.of", SStr, q)
	s.assume(Eq(StrLen(r), SeqLen(q)))
	s.assume(Eq(App("bytes.of", q.sort, r), q))
	return r
}

func bytesOf(x *Term) *Term {
	return App("bytes.of", seqT(types.Typ[types.Uint8]).sort, x)
}

// newBytes is a fresh byte slice holding the bytes of string x.
func (v *Ver) newBytes(s *State, x *Term) *Term {
	bt := types.Typ[types.Uint8]
	A := Fresh("bytes", arr(SInt, SInt))
	n := StrLen(x)
	s.assume(Le(Num(0), n))
	s.assume(leRaw(n, NumS("1099511627776")))
	r := v.newArr(s, bt, A)
	sl := Ctr("sl", r, Num(0), n, n)
	q := App("of$"+seqT(bt).sort, seqT(bt).sort, A, Num(0), n)
	s.assume(Eq(q, bytesOf(x)))
	s.assume(Eq(App("str.of", SStr, bytesOf(x)), x))
	i := FVar("i", SInt)
	s.assume(Forall([]*Term{i}, inRange(raw("select", SInt, A, i), bt), []*Term{raw("select", SInt, A, i)}))
	return sl
}

func (v *Ver) convert(p *PS, ins *ssa.Convert) {
	s := p.st
	from, to := ins.X.Type(), ins.Type()
	x := v.val(p, ins.X)
	// pointers / unsafe
	if _, ok := to.Underlying().(*types.Pointer); ok {
		p.regs[ins] = x
		return
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		p.regs[ins] = x
		return
	}
	t := v.toTerm(s, x, from)
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		p.regs[ins] = wrap(t, to)
	case fs == SStr && isByteSlice(to):
		p.regs[ins] = v.newBytes(s, t)
	case isByteSlice(from) && ts == SStr:
		p.regs[ins] = v.strOfBytes(s, t, from.Underlying().(*types.Slice).Elem())
	case fs == SStr && ts == SStr:
		p.regs[ins] = t
	case fs == SInt && ts == SFlt:
		p.regs[ins] = App("flt.ofint$"+typeKey(to.Underlying()), SFlt, t)
	case fs == SFlt && ts == SInt:
		r := App("flt.toint$"+typeKey(to.Underlying()), SInt, t)
		s.assume(inRange(r, to))
		p.regs[ins] = r
	case fs == SFlt && ts == SFlt:
		if typeKey(from.Underlying()) == typeKey(to.Underlying()) {
			p.regs[ins] = t
		} else {
			p.regs[ins] = App("flt.conv$"+typeKey(to.Underlying()), SFlt, t)
		}
	case fs == SInt && ts == SStr:
		p.regs[ins] = App("str.rune", SStr, t)
	default:
		v.unsupported("conversion %s to %s", from, to)
	}
}

func (v *Ver) slice(p *PS, ins *ssa.Slice) {
	s := p.st
	x := v.val(p, ins.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return v.term(p, o)
	}
	lo, hi, mx := opt(ins.Low), opt(ins.High), opt(ins.Max)
	if la, ok := x.(*LocalArr); ok {
		if lo == nil && hi == nil && mx == nil {
			sl := &SliceLit{elem: la.elem}
			for i := 0; i < la.n; i++ {
				e := s.locals[fmt.Sprintf("%p:%d", la, i)]
				if e == nil {
					e = zero(la.elem)
				}
				sl.elems = append(sl.elems, e)
			}
			if v.prog.litUse(ins) {
				p.regs[ins] = sl
			} else {
				p.regs[ins] = v.materialize(s, sl)
			}
			return
		}
		v.unsupported("partial slice of local array")
	}
	switch t := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		sl := v.toTerm(s, x, ins.X.Type())
		l := Sel("s.len", sl)
		c := Sel("s.cap", sl)
		if lo == nil {
			lo = Num(0)
		}
		if hi == nil {
			hi = l
		}
		if mx == nil {
			mx = c
		}
		v.oblige(s, "safety", "slice bounds in range", ins.Pos(), And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, c)))
		p.regs[ins] = Ctr("sl", Sel("s.arr", sl), Add(Sel("s.off", sl), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Basic: // string
		str := v.toTerm(s, x, ins.X.Type())
		n := StrLen(str)
		if lo == nil {
			lo = Num(0)
		}
		if hi == nil {
			hi = n
		}
		v.oblige(s, "safety", "slice bounds in range", ins.Pos(), And(Le(Num(0), lo), Le(lo, hi), Le(hi, n)))
		if lo.isNum() && lo.name == "0" && hi == n {
			p.regs[ins] = str
			return
		}
		r := App("str.sub", SStr, str, lo, hi)
		s.assume(Eq(StrLen(r), Sub(hi, lo)))
		p.regs[ins] = r
	case *types.Pointer: // array
		at := t.Elem().Underlying().(*types.Array)
		a := v.toAddr(x, ins.X.Type())
		if a.kind != "root" || len(a.path) != 0 {
			v.unsupported("slice of embedded array")
		}
		n := Num(at.Len())
		if lo == nil {
			lo = Num(0)
		}
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		v.oblige(s, "safety", "slice bounds in range", ins.Pos(), And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		p.regs[ins] = Ctr("sl", a.base, lo, Sub(hi, lo), Sub(mx, lo))
	default:
		v.unsupported("slice of %s", ins.X.Type())
	}
}

func (v *Ver) typeAssert(p *PS, ins *ssa.TypeAssert) {
	s := p.st
	x := v.term(p, ins.X)
	isNil := Eq(x, NilIface)
	var ok, val *Term
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if x.op == "imk" && tagType(x.args[0]) != nil {
			ok = Bool(types.Implements(tagType(x.args[0]), it))
		} else {
			tag := Sel("i.tag", x)
			ok = And(Not(isNil), App("impl$"+sanitize(typeKey(ins.AssertedType)), SBool, tag))
			if types.Implements(ins.X.Type(), it) {
				ok = Not(isNil)
			}
			// known implementations
			for i, tt := range tagTypes {
				s.assume(Iff(App("impl$"+sanitize(typeKey(ins.AssertedType)), SBool, Num(int64(i+1))), Bool(types.Implements(tt, it))))
			}
		}
		val = x
	} else {
		tag := typeTag(ins.AssertedType)
		ok = And(Not(isNil), Eq(Sel("i.tag", x), tag))
		if x.op == "imk" {
			ok = Eq(x.args[0], tag)
		}
		val = unbox(x, ins.AssertedType)
	}
	if ins.CommaOk {
		ok2 := ok
		if _, isI := ins.AssertedType.Underlying().(*types.Interface); !isI {
			bf, _ := boxFn(val.sort)
			if ok != False {
				s.assume(Implies(ok, wfValue(val, ins.AssertedType, s.next)))
				if x.op != "imk" {
					s.assume(Implies(ok, Eq(x, Ctr("imk", typeTag(ins.AssertedType), App(bf, SBox, val)))))
				}
			}
		}
		p.regs[ins] = TupleV{Ite(ok2, val, zero(ins.AssertedType)), ok2}
		return
	}
	v.oblige(s, "safety", "type assertion holds", ins.Pos(), ok)
	if _, isI := ins.AssertedType.Underlying().(*types.Interface); !isI {
		s.assume(wfValue(val, ins.AssertedType, s.next))
	}
	p.regs[ins] = val
}

// ---------- map iteration ----------

func (v *Ver) doRange(p *PS, ins *ssa.Range) {
	s := p.st
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		v.unsupported("range over %s", ins.X.Type())
	}
	m := v.term(p, ins.X)
	dom, _, _ := mapHeaps(mt)
	key := fmt.Sprintf("IT:%s:%s:%d", ins.Parent().Name(), ins.Name(), len(v.stack))
	ks := sortOf(mt.Key())
	regHeap(key, &heapInfo{kind: "iter", typ: &specType{name: "set", sort: arr(ks, SBool), elem: mt.Key()}, key: mt.Key(), sort: arr(ks, SBool)})
	v.put(s, key, nil, ConstArr(arr(ks, SBool), False))
	d0 := Select(s.get(dom), m)
	v.mapFacts(s, m, mt)
	p.regs[ins] = &IterV{key: key, m: m, mt: mt, dom0: d0}
}

func (v *Ver) doNext(p *PS, ins *ssa.Next) (*PS, *PS) {
	it, ok := v.val(p, ins.Iter).(*IterV)
	if !ok {
		v.unsupported("iterator")
	}
	mt := it.mt
	dom, val, _ := mapHeaps(mt)
	// done branch
	q := p.clone()
	ks := sortOf(mt.Key())
	{
		s := q.st
		k := FVar("k", ks)
		V := s.get(it.key)
		D := Select(s.get(dom), it.m)
		in := And(raw("select", SBool, it.dom0, k), raw("select", SBool, D, k))
		if it.dom0 == D {
			in = raw("select", SBool, D, k)
		}
		body := Implies(in, Select(V, k))
		s.assume(Forall([]*Term{k}, body, []*Term{raw("select", SBool, it.dom0, k)}, []*Term{raw("select", SBool, D, k)}, []*Term{Select(V, k)}))
		q.regs[ins] = TupleV{False, zero(mt.Key()), zero(mt.Elem())}
	}
	s := p.st
	k := v.fresh(s, "key", mt.Key())
	V := s.get(it.key)
	D := Select(s.get(dom), it.m)
	if it.m.isNum() { // nil map
		return q, nil
	}
	s.assume(Select(D, k))
	s.assume(Not(Select(V, k)))
	v.put(s, it.key, nil, Store(V, k, True))
	p.regs[ins] = TupleV{True, k, Select(Select(s.get(val), it.m), k)}
	return p, q
}

func (v *Ver) doSelect(p *PS, ins *ssa.Select) []*PS {
	var out []*PS
	n := len(ins.States)
	for i := 0; i < n || (i == n && !ins.Blocking); i++ {
		q := p.clone()
		idx := i
		if i == n {
			idx = -1
		}
		t := TupleV{Num(int64(idx)), Fresh("ok", SBool)}
		for j, st := range ins.States {
			if st.Dir == types.RecvOnly {
				el := st.Chan.Type().Underlying().(*types.Chan).Elem()
				if j == i {
					t = append(t, v.fresh(q.st, "recv", el))
				} else {
					t = append(t, zero(el))
				}
			}
		}
		q.regs[ins] = t
		out = append(out, q)
	}
	return out
}

// ---------- loops ----------

var debugLoops = os.Getenv("GOVC_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debugLoops {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type cand struct {
	name string
	user bool
	f    func(st *State, regs map[ssa.Value]Val) *Term
	dead bool
}

func headerPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, ph)
	}
	return out
}

func (v *Ver) execLoop(info *fnInfo, l *Loop, p *PS, iter int) *regionRes {
	// concrete unrolling
	if iter < 80 && !v.lockMode && v.constHeader(info, l, p) {
		rr := v.runRegion(info, l, []*PS{p})
		res := &regionRes{exits: rr.exits, outs: rr.outs}
		for _, b := range v.merge(info, l.header, rr.backs) {
			r2 := v.execLoop(info, l, b, iter+1)
			res.exits = append(res.exits, r2.exits...)
			res.outs = append(res.outs, r2.outs...)
		}
		return res
	}
	if !v.lockMode && quickProve(p.st.pc, False, false) {
		dbg("  infeasible loop entry")
		return &regionRes{} // the loop is not reached on this path
	}
	pos := token.NoPos
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() && (pos == token.NoPos || ins.Pos() < pos) {
				pos = ins.Pos()
			}
		}
	}
	dbg("  loop entry %s", v.prog.pos(pos))
	entry := p
	mod := map[string]map[*Term]bool{}
	nextMod, logMod := false, false
	phis := headerPhis(l.header)
	mark := len(termList)
	var cands []*cand
	mkHeader := func() *PS {
		h := entry.clone()
		s := h.st
		if nextMod {
			nn := Fresh("next", SInt)
			b, k := offset(entry.st.next)
			nn.geBase, nn.geOff = b, k
			s.next = nn
			s.assume(leRaw(entry.st.next, nn))
		}
		var names []string
		for n := range mod {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if v.lockMode && heapReg[n].kind == "lock" {
				continue // as before the loop: obliged on the way back
			}
			s.heap[n] = freshHeap(n, s.next)
		}
		if logMod {
			s.log = Fresh("log", SLog)
		}
		for _, ph := range phis {
			switch x := entry.regs[ph].(type) {
			case *Term:
				t := v.fresh(s, "phi."+ph.Comment, ph.Type())
				_ = x
				h.regs[ph] = t
			case *ClosureV, *AddrV:
				v.unsupported("loop-carried %T", x)
			case *SliceLit:
				entry.regs[ph] = v.toTerm(entry.st, x, ph.Type())
				h.regs[ph] = v.fresh(s, "phi."+ph.Comment, ph.Type())
			default:
				v.unsupported("loop-carried %T", x)
			}
		}
		for _, c := range cands {
			if !c.dead {
				s.assume(c.f(s, h.regs))
			}
		}
		return h
	}
	v.loopSt = append(v.loopSt, entry.st)
	defer func() { v.loopSt = v.loopSt[:len(v.loopSt)-1] }()
	runMuted := func() (*PS, *regionRes, *writeSet) {
		h := mkHeader()
		hr := h.clone()
		w := &writeSet{m: map[string]map[*Term]bool{}}
		v.writes = append(v.writes, w)
		v.mute++
		rr := v.runRegion(info, l, []*PS{h})
		v.mute--
		v.writes = v.writes[:len(v.writes)-1]
		return hr, rr, w
	}
	stabilize := func() (*PS, *regionRes) {
		for {
			h, rr, w := runMuted()
			ch := false
			for n, rs := range w.m {
				if mod[n] == nil {
					mod[n] = map[*Term]bool{}
					ch = true
				}
				for r := range rs {
					mod[n][r] = true
				}
			}
			check := func(st *State) {
				if !nextMod && st.next != h.st.next {
					nextMod, ch = true, true
				}
				if !logMod && st.log != h.st.log {
					logMod, ch = true, true
				}
			}
			for _, b := range rr.backs {
				check(b.st)
				if len(b.defers) != len(entry.defers) {
					v.unsupported("defer inside a loop")
				}
			}
			if !ch {
				return h, rr
			}
		}
	}
	h, rr := stabilize()
	cands = v.loopCands(info, l, entry, mod, mark, phis)
	// initiation
	v.filterCands(cands, "init", func(c *cand) []chk {
		return []chk{{entry.st.pc, c.f(entry.st, entry.regs)}}
	})
	for round := 0; ; round++ {
		h, rr = stabilize()
		_ = h
		n := v.filterCands(cands, fmt.Sprintf("step%d", round), func(c *cand) []chk {
			var out []chk
			for _, b := range rr.backs {
				out = append(out, chk{b.st.pc, c.f(b.st, b.regs)})
			}
			return out
		})
		if n == 0 {
			break
		}
	}
	for _, c := range cands {
		if !c.dead {
			dbg("  loop %s keeps %s", v.prog.pos(pos), c.name)
		}
	}
	// The surviving candidates are loop invariants; record them as obligations.
	if v.mute == 0 {
		for _, c := range cands {
			if !c.dead {
				o := &Obl{Kind: "inv", Label: c.name + " (init, preserved)", Fn: v.fn.String(), Pos: v.prog.pos(pos), Status: "discharged", Solver: "houdini", Goal: True}
				o.Name = shortFn(v.fn) + ": loop invariant " + c.name
				v.obls = append(v.obls, o)
			}
		}
	}
	// final pass
	h2 := mkHeader()
	v.paths++
	w := &writeSet{m: map[string]map[*Term]bool{}}
	v.writes = append(v.writes, w)
	fin := v.runRegion(info, l, []*PS{h2})
	if v.lockMode {
		for _, b := range fin.backs {
			v.sameLocks(b.st, v.lockState(entry.st), "locks held are the same after each iteration", pos)
		}
	}
	v.writes = v.writes[:len(v.writes)-1]
	return &regionRes{exits: fin.exits, outs: fin.outs}
}

// constHeader: is the loop condition decided by constants in state p?
func (v *Ver) constHeader(info *fnInfo, l *Loop, p *PS) bool {
	b := l.header
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, ins := range b.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.Convert:
		case *ssa.Call:
			if bi, ok := ins.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	q := p.clone()
	v.mute++
	defer func() { v.mute-- }()
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			fnv, args := v.callOperands(q, &ins.Call)
			outs := v.callWith(q.st, q, &ins.Call, fnv, args, ins.Pos(), ins)
			v.setRes(q, ins, outs[0].res)
		default:
			v.simple(q, ins)
		}
	}
	c := v.term(q, ifi.Cond)
	if c != True && c != False {
		return false
	}
	// both sides must be genuinely concrete numbers
	x, y := v.term(q, bo.X), v.term(q, bo.Y)
	return x.isNum() && y.isNum()
}

func (v *Ver) loopCands(info *fnInfo, l *Loop, entry *PS, mod map[string]map[*Term]bool, mark int, phis []*ssa.Phi) []*cand {
	var cs []*cand
	add := func(name string, user bool, f func(*State, map[ssa.Value]Val) *Term) {
		if v.lockMode {
			return
		}
		cs = append(cs, &cand{name: name, user: user, f: f})
	}
	rt := func(regs map[ssa.Value]Val, x ssa.Value) *Term { return regs[x].(*Term) }
	es := entry.st
	nextE := es.next
	// loop-invariant integer operands compared inside the loop
	var bounds []*Term
	seenB := map[*Term]bool{}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok || sortOf(bo.X.Type()) != SInt {
				continue
			}
			if _, ok := bo.X.Type().Underlying().(*types.Basic); !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				var t *Term
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					t = constTerm(c.Value, c.Type())
				} else if r, ok := entry.regs[o].(*Term); ok {
					if ph, isPhi := o.(*ssa.Phi); isPhi && ph.Block() == l.header {
						continue
					}
					t = r
				} else if call, ok := o.(*ssa.Call); ok && l.blocks[call.Block()] {
					// len(x) evaluated in the loop on a loop-invariant slice register
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if r, ok := entry.regs[call.Call.Args[0]].(*Term); ok && r.sort == SSlice {
							t = Sel("s.len", r)
						}
					}
				}
				if t != nil && t.sort == SInt && !seenB[t] {
					seenB[t] = true
					bounds = append(bounds, t)
				}
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
	for _, ph := range phis {
		ph := ph
		init, _ := entry.regs[ph].(*Term)
		if init == nil {
			continue
		}
		switch {
		case sortOf(ph.Type()) == SInt:
			if _, isInt := ph.Type().Underlying().(*types.Basic); isInt {
				add(fmt.Sprintf("%s >= initial", ph.Comment), false, func(s *State, r map[ssa.Value]Val) *Term { return Le(init, rt(r, ph)) })
				add(fmt.Sprintf("%s <= initial", ph.Comment), false, func(s *State, r map[ssa.Value]Val) *Term { return Le(rt(r, ph), init) })
				for _, b := range bounds {
					b := b
					if b == init {
						continue
					}
					add(fmt.Sprintf("%s < %s", ph.Comment, b), false, func(s *State, r map[ssa.Value]Val) *Term { return Lt(rt(r, ph), b) })
					add(fmt.Sprintf("%s <= %s", ph.Comment, b), false, func(s *State, r map[ssa.Value]Val) *Term { return Le(rt(r, ph), b) })
					add(fmt.Sprintf("%s >= %s", ph.Comment, b), false, func(s *State, r map[ssa.Value]Val) *Term { return Le(b, rt(r, ph)) })
				}
			}
		case sortOf(ph.Type()) == SSlice:
			if nextE != next0 {
				add(ph.Comment+" array created by this call or nil", false, func(s *State, r map[ssa.Value]Val) *Term {
					a := Sel("s.arr", rt(r, ph))
					return Or(Eq(a, Num(0)), Le(next0, a))
				})
			}
			add(ph.Comment+" array is the initial one or fresh", false, func(s *State, r map[ssa.Value]Val) *Term {
				a := Sel("s.arr", rt(r, ph))
				return Or(Eq(a, Sel("s.arr", init)), Le(nextE, a))
			})
			add(ph.Comment+" array fresh or nil", false, func(s *State, r map[ssa.Value]Val) *Term {
				a := Sel("s.arr", rt(r, ph))
				return Or(Eq(a, Num(0)), Le(nextE, a))
			})
			// distinct accumulators have distinct arrays
			for _, ph2 := range phis {
				ph2 := ph2
				if ph2 != ph && ph2.Name() < ph.Name() && sortOf(ph2.Type()) == SSlice && types.Identical(ph.Type(), ph2.Type()) {
					add("accumulators do not share", false, func(s *State, r map[ssa.Value]Val) *Term {
						a, b := Sel("s.arr", rt(r, ph)), Sel("s.arr", rt(r, ph2))
						return Or(Eq(a, Num(0)), Not(Eq(a, b)))
					})
				}
			}
		}
	}
	var names []string
	for n := range mod {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		hi := heapReg[n]
		E := es.get(n)
		switch hi.kind {
		case "iter":
			// visited keys come from the initial domain
			for _, rv := range entry.regs {
				if it, ok := rv.(*IterV); ok && it.key == n {
					it := it
					ks := sortOf(it.mt.Key())
					add("visited keys belong to the map", false, func(s *State, r map[ssa.Value]Val) *Term {
						k := FVar("k", ks)
						V := s.get(n)
						return Forall([]*Term{k}, Implies(Select(V, k), raw("select", SBool, it.dom0, k)), []*Term{raw("select", SBool, V, k)})
					})
				}
			}
			continue
		case "global":
			continue
		}
		var inv []*Term
		okRef := true
		for r := range mod[n] {
			if r == nil {
				okRef = false
				continue
			}
			if loopInvariant(r, mark) && r.op != "#" {
				inv = append(inv, r)
			}
		}
		_ = okRef
		sort.Slice(inv, func(i, j int) bool { return inv[i].id < inv[j].id })
		mk := func(excl []*Term) func(*State, map[ssa.Value]Val) *Term {
			return func(s *State, _ map[ssa.Value]Val) *Term {
				r := FVar("r", SInt)
				H := s.get(n)
				if H == E {
					return True
				}
				cond := []*Term{existedBefore(n, r, nextE)}
				for _, x := range excl {
					cond = append(cond, Not(Eq(r, x)))
				}
				_, vs := splitArr(H.sort)
				l, rr := raw("select", vs, H, r), raw("select", vs, E, r)
				return Forall([]*Term{r}, Implies(And(cond...), Eq(l, rr)), []*Term{l})
			}
		}
		add("frame "+n, false, mk(nil))
		if v.entry != nil && nextE != next0 {
			E0 := v.entry.get(n)
			add("frame since entry "+n, false, func(s *State, _ map[ssa.Value]Val) *Term {
				r := FVar("r", SInt)
				H := s.get(n)
				if H == E0 {
					return True
				}
				_, vs := splitArr(H.sort)
				l, rr := raw("select", vs, H, r), raw("select", vs, E0, r)
				return Forall([]*Term{r}, Implies(existedBefore(n, r, next0), Eq(l, rr)), []*Term{l})
			})
		}
		if len(inv) > 0 {
			add("frame "+n+" except written", false, mk(inv))
		}
	}
	if v.con != nil {
		for _, t := range v.con.loops {
			v.instTemplate(t, l, entry, phis, mod, add)
		}
	}
	return cs
}

func loopInvariant(t *Term, mark int) bool {
	ok := true
	walk([]*Term{t}, func(x *Term) {
		if x.op == "sym" && x.id >= mark && x.bound == false {
			ok = false
		}
	})
	return ok
}

type chk struct {
	pc   []*Term
	goal *Term
}

// filterCands drops candidates whose checks are not all proved; returns the number dropped.
func (v *Ver) filterCands(cs []*cand, what string, f func(*cand) []chk) int {
	type job struct {
		c  *cand
		k  chk
		ok bool
	}
	var jobs []*job
	for _, c := range cs {
		if c.dead {
			continue
		}
		for _, k := range f(c) {
			if k.goal == True {
				continue
			}
			if gs := conjuncts(k.goal); len(gs) > 1 {
				for _, g := range gs {
					jobs = append(jobs, &job{c: c, k: chk{k.pc, g}})
				}
				continue
			}
			jobs = append(jobs, &job{c: c, k: k})
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		if j.k.goal == False {
			return
		}
		j.ok = quickProve(j.k.pc, j.k.goal, strings.HasPrefix(j.c.name, "("))
	})
	n := 0
	for _, j := range jobs {
		if !j.ok && !j.c.dead {
			j.c.dead = true
			n++
			dbg("  [%s] %s drop %s", shortFn(v.fn), what, j.c.name)
			dbg("      GOAL %s", j.k.goal)
		}
	}
	return n
}

func conjuncts(t *Term) []*Term {
	if t.op != "and" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.args {
		out = append(out, conjuncts(a)...)
	}
	return out
}
