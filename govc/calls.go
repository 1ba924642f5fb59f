package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *Ver) callOperands(p *PS, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, v.val(p, a))
	}
	if c.IsInvoke() {
		return v.term(p, c.Value), args
	}
	return v.val(p, c.Value), args
}

func LogSnoc(l, e *Term) *Term { return App("lsnoc", SLog, l, e) }
func sortTag(s string) string {
	return sanitize(strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s))
}
func EvTerm(name string, args ...*Term) *Term {
	var ss []string
	for _, a := range args {
		ss = append(ss, sortTag(a.sort))
	}
	return App("ev$"+sanitize(name)+"$"+strings.Join(ss, "$"), SEv, args...)
}
func ResTerm(i int, sort string, log *Term) *Term {
	return App(fmt.Sprintf("res%d$%s", i, sortTag(sort)), sort, log)
}

// evArg converts an argument to what an event records: slices by content.
func (v *Ver) evArg(s *State, x Val, t types.Type) *Term {
	if sl, ok := x.(*SliceLit); ok {
		q := SeqEmpty(seqT(sl.elem).sort)
		for _, e := range sl.elems {
			q = SeqSnoc(q, e)
		}
		return q
	}
	if st, ok := t.Underlying().(*types.Slice); ok {
		return v.seqOfSlice(s, v.toTerm(s, x, t), st.Elem())
	}
	return v.toTerm(s, x, t)
}

// event appends an observable call to the ghost log and returns its results.
func (v *Ver) event(s *State, name string, recv *Term, args []Val, sig *types.Signature, pos token.Pos, full string) []Val {
	var as []*Term
	if recv != nil {
		as = append(as, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, v.evArg(s, args[i], sig.Params().At(i).Type()))
	}
	v.onCall(s, name, recv, args, sig, pos)
	s.log = LogSnoc(s.log, EvTerm(name, as...))
	v.applyExternMod(s, full, name, recv, args, sig)
	rs := v.results(s, sig, func(i int, t types.Type) *Term { return ResTerm(i, sortOf(t), s.log) })
	v.ghostUpd(s, name, recv, args, sig)
	return rs
}

func (v *Ver) bumpNext(s *State) {
	n := Fresh("next", SInt)
	b, k := offset(s.next)
	n.geBase, n.geOff = b, k
	s.assume(leRaw(s.next, n))
	v.wfMaps(s, n)
	s.next = n
}

// wfMaps: every map holds well-formed values (in particular those the callee
// allocated).
func (v *Ver) wfMaps(s *State, hi *Term) {
	for _, nm := range sortedHeaps() {
		w := heapReg[nm]
		if w.kind != "mapval" || !hasRef(w.typ, 0) {
			continue
		}
		r, k := FVar("r", SInt), FVar("k", sortOf(w.key))
		x := raw("select", sortOf(w.typ), raw("select", arr(sortOf(w.key), sortOf(w.typ)), s.get(nm), r), k)
		s.assume(Forall([]*Term{r, k}, Implies(ltRaw(r, hi), wfValue(x, w.typ, hi)), []*Term{x}))
	}
}

func sortedHeaps() []string {
	var ks []string
	for k := range heapReg {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hasRef(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		if st, ok := isStruct(t); ok {
			for i := 0; i < st.NumFields(); i++ {
				if hasRef(st.Field(i).Type(), d+1) {
					return true
				}
			}
		}
	case *types.Array:
		return hasRef(u.Elem(), d+1)
	}
	return false
}

func (v *Ver) results(s *State, sig *types.Signature, f func(int, types.Type) *Term) []Val {
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		if hasRef(sig.Results().At(i).Type(), 0) {
			v.bumpNext(s)
			break
		}
	}
	var out []Val
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		r := f(i, t)
		if hasRef(t, 0) && r.upBase == nil {
			r.upBase = s.next
		}
		s.assume(wfValue(r, t, s.next))
		out = append(out, r)
	}
	return out
}

func (v *Ver) opaque(s *State, name string, sig *types.Signature) []Val {
	v.assumes["external function "+name+": arbitrary result, no effect on the verified state"] = true
	return v.results(s, sig, func(i int, t types.Type) *Term { return Fresh("ext."+name, sortOf(t)) })
}

// applyExternMod havocs the pointees an external call is declared to modify.
func (v *Ver) applyExternMod(s *State, full, name string, recv *Term, args []Val, sig *types.Signature) {
	d := v.prog.extern(full)
	if d == nil {
		d = v.prog.extern(name)
	}
	if d == nil || len(d.modifies) == 0 {
		return
	}
	for _, i := range d.modifies {
		var x Val
		var t types.Type
		if i < 0 || i >= len(args) {
			continue
		}
		x, t = args[i], sig.Params().At(i).Type()
		if tt, ok := x.(*Term); ok && tt.sort == SIface {
			if tt.op == "imk" && tagType(tt.args[0]) != nil {
				t = tagType(tt.args[0])
				x = unbox(tt, t)
			} else {
				continue
			}
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			a := v.toAddr(x, t)
			v.bumpNext(s)
			ng := v.noGuard
			v.noGuard = true
			v.havocObj(s, a)
			v.noGuard = ng
			_ = pt
		}
	}
}

func (v *Ver) havocObj(s *State, a *AddrV) {
	t := a.leafType()
	if st, ok := isStruct(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			v.havocObj(s, a.field(i))
		}
		return
	}
	v.store(s, a, v.fresh(s, "havoc", t), token.NoPos)
}

func (v *Ver) callWith(s *State, p *PS, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, instr ssa.Instruction) []Out {
	if pos.IsValid() {
		v.curPos = pos
	}
	one := func(rs ...Val) []Out { return []Out{{s, rs}} }
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return v.builtin(s, b, c, args, pos)
	}
	if c.IsInvoke() {
		recv := fnv.(*Term)
		v.oblige(s, "safety", "call of method "+c.Method.Name()+" on nil interface", pos, Not(Eq(recv, NilIface)))
		if recv.op == "imk" {
			if dt := tagType(recv.args[0]); dt != nil {
				if fn := v.prog.ssa.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); fn != nil && v.canCall(fn) {
					return v.callStatic(s, fn, append([]Val{unbox(recv, dt)}, args...), nil, pos)
				}
			}
		}
		return v.callIface(s, recv, c, args, pos)
	}
	sig := c.Signature()
	switch f := fnv.(type) {
	case *ClosureV:
		return v.callStatic(s, f.fn, args, f.bindings, pos)
	case *Term:
		v.oblige(s, "safety", "call of nil function", pos, Not(Eq(f, Num(0))))
		if cl := closTab[f]; cl != nil {
			return v.callStatic(s, cl.fn, args, cl.bindings, pos)
		}
		nm := "call"
		return one(v.event(s, nm, f, args, sig, pos, "call")...)
	}
	v.unsupported("call of %T", fnv)
	return nil
}

func (v *Ver) inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), repoModule) || fn.Synthetic != ""
	}
	return fn.Synthetic != ""
}

func (v *Ver) canCall(fn *ssa.Function) bool {
	if externModels[fn.String()] != nil || v.prog.extern(fn.String()) != nil {
		return true
	}
	return v.inRepo(fn) && len(fn.Blocks) > 0
}

func (v *Ver) callStatic(s *State, fn *ssa.Function, args []Val, bindings []Val, pos token.Pos) []Out {
	name := fn.String()
	if m := externModels[name]; m != nil {
		if os := m(v, s, fn, args, pos); os != nil {
			return os
		}
	}
	if m := v.prog.modelOf(fn); m != nil {
		v.assumeExt(shortFn(fn) + ": replaced by the stand-in " + m.Name() + " (models/)")
		return v.execFunc(s, m, args, nil)
	}
	sig := fn.Signature
	// flatten receiver into parameters for event purposes
	if d := v.prog.extern(name); d != nil && (!v.inRepo(fn) || d.force && !v.lockMode) {
		full := fullSig(fn)
		switch d.kind {
		case "event":
			return []Out{{s, v.event(s, fn.Name(), nil, args, full, pos, name)}}
		case "pure":
			return []Out{{s, v.pureCall(s, name, nil, args, full)}}
		case "opaque":
			v.applyExternMod(s, name, name, nil, args, full)
			return []Out{{s, v.opaque(s, name, sig)}}
		case "skip":
			return []Out{{s, v.results(s, sig, func(i int, t types.Type) *Term { return Fresh("skip", sortOf(t)) })}}
		}
	}
	if con := v.prog.contractFor(fn); con != nil && (con.modular || con.decreases != nil) && !v.noModular[name] {
		onStack := fn == v.fn
		if onStack || len(v.stack) > 0 {
			return v.applyContract(s, con, fn, args, pos)
		}
	}
	if v.lockMode && v.inRepo(fn) && len(fn.Blocks) > 0 && (v.prog.lockFree(fn) || v.prog.lockEntry(fn) && v.noLocks(s)) {
		v.havocAll(s)
		return []Out{{s, v.results(s, fn.Signature, func(i int, t types.Type) *Term { return v.fresh(s, "r", t) })}}
	}
	if v.lockMode && v.inRepo(fn) && len(fn.Blocks) > 0 && v.prog.recursive(fn) {
		return v.execRec(s, fn, args, bindings, pos)
	}
	if v.inRepo(fn) && len(fn.Blocks) > 0 {
		if fn.Synthetic == "" && len(v.stack) > 0 && fn.Parent() == nil {
			v.inlined[shortFn(fn)] = true
		}
		return v.execFunc(s, fn, args, bindings)
	}
	v.applyExternMod(s, name, name, nil, args, fullSig(fn))
	if d := v.prog.externByPkg(fn); d == "event" {
		return []Out{{s, v.event(s, fn.Name(), nil, args, fullSig(fn), pos, name)}}
	}
	return []Out{{s, v.opaque(s, name, sig)}}
}

// fullSig returns the signature with the receiver as first parameter.
func fullSig(fn *ssa.Function) *types.Signature {
	sig := fn.Signature
	if sig.Recv() == nil {
		return sig
	}
	var ps []*types.Var
	ps = append(ps, sig.Recv())
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), false)
}

// pureCall: results are functions of the arguments (slices by content).
func (v *Ver) pureCall(s *State, name string, recv *Term, args []Val, sig *types.Signature) []Val {
	var as []*Term
	if recv != nil {
		as = append(as, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, v.evArg(s, args[i], sig.Params().At(i).Type()))
	}
	v.assumes["external function "+name+" assumed to be a function of its arguments"] = true
	return v.results(s, sig, func(i int, t types.Type) *Term {
		return PureTerm(name, i, sortOf(t), as...)
	})
}

func PureTerm(name string, i int, sort string, args ...*Term) *Term {
	n := "pure$" + sanitize(name)
	if i > 0 {
		n += "$" + itoa(i)
	}
	for _, a := range args {
		n += "$" + sortTag(a.sort)
	}
	return App(n, sort, args...)
}

func (v *Ver) callIface(s *State, recv *Term, c *ssa.CallCommon, args []Val, pos token.Pos) []Out {
	m := c.Method
	sig := c.Signature()
	it := c.Value.Type()
	full := "(" + types.TypeString(it, nil) + ")." + m.Name()
	if full == "(context.Context).Value" {
		v.assumeExt("context.Context.Value")
		return []Out{{s, []Val{App("ctx.value", SIface, recv, v.toTerm(s, args[0], sig.Params().At(0).Type()))}}}
	}
	d := v.prog.extern(full)
	if d == nil {
		d = v.prog.extern("." + m.Name())
	}
	if d != nil {
		switch d.kind {
		case "pure":
			return []Out{{s, v.pureCall(s, m.Name(), recv, args, sig)}}
		case "opaque":
			v.applyExternMod(s, full, m.Name(), recv, args, sig)
			return []Out{{s, v.opaque(s, full, sig)}}
		case "skip":
			return []Out{{s, v.results(s, sig, func(i int, t types.Type) *Term { return Fresh("skip", sortOf(t)) })}}
		}
	}
	return []Out{{s, v.event(s, m.Name(), recv, args, sig, pos, full)}}
}

// ghostUpd applies the contract's ghost updates for an observable call.
func (v *Ver) ghostUpd(s *State, name string, recv *Term, args []Val, sig *types.Signature) {
	if v.con == nil {
		return
	}
	for _, oc := range v.con.afters {
		if oc.name == name && v.matchCall(name, oc.params, oc.ptypes, recv, sig) {
			v.assumes["assumed of "+name+": "+oc.label] = true
			s.assume(v.evalBool(oc.expr, &env{v: v, st: s, old: v.entry, vars: v.callVars(s, oc.params, recv, args, sig), con: v.con}))
		}
	}
	v.ghostAssign(s, v.con.upds, name, recv, args, sig)
}

func (v *Ver) ghostAssign(s *State, us []*GhostUpd, name string, recv *Term, args []Val, sig *types.Signature) {
	for _, u := range us {
		if u.ev == name && v.matchCall(name, u.params, u.ptypes, recv, sig) {
			vars := v.callVars(s, u.params, recv, args, sig)
			x := v.eval(u.expr, &env{v: v, st: s, old: v.entry, vars: vars, con: v.con})
			if h := heapReg[v.con.ghostHeap(u.ghost)]; x.t == nil {
				x.t = nilOf(h.typ)
			} else if x.t.sort != h.sort {
				specFail("ghost %s: %s assigned, want %s", u.ghost, tname2(x.typ), tname2(h.typ))
			}
			v.put(s, v.con.ghostHeap(u.ghost), nil, x.t)
		}
	}
}

// matchCall: a clause about calls of function values applies only to functions
// of the parameter types it names.
func (v *Ver) matchCall(name string, names []string, ts []*tnode, recv *Term, sig *types.Signature) bool {
	k := 0
	if recv != nil {
		k = 1
	}
	n := sig.Params().Len() + k
	if len(names) > n || name == "call" && len(names) != n {
		return false
	}
	for i, t := range ts {
		if t != nil && i >= k && !types.Identical(v.resolveType(t, v.con.pkg), sig.Params().At(i-k).Type()) {
			return false
		}
	}
	return true
}

func (v *Ver) callVars(s *State, names []string, recv *Term, args []Val, sig *types.Signature) map[string]TV {
	vars := map[string]TV{}
	for k, t := range v.vars {
		vars[k] = t
	}
	i := 0
	if recv != nil && len(names) > 0 {
		rt := types.Type(tMath)
		if recv.sort == SIface {
			rt = types.Universe.Lookup("error").Type()
		}
		vars[names[0]] = TV{recv, rt}
		i = 1
	}
	for j := 0; j < sig.Params().Len() && i+j < len(names); j++ {
		t := sig.Params().At(j).Type()
		if sl, ok := args[j].(*SliceLit); ok {
			vars[names[i+j]] = TV{v.evArg(s, sl, t), seqT(sl.elem)}
			continue
		}
		vars[names[i+j]] = TV{v.toTerm(s, args[j], t), t}
	}
	return vars
}

func (v *Ver) onCall(s *State, name string, recv *Term, args []Val, sig *types.Signature, pos token.Pos) {
	if v.con == nil {
		return
	}
	for _, oc := range v.con.oncalls {
		if oc.name != name || !v.matchCall(name, oc.params, oc.ptypes, recv, sig) {
			continue
		}
		vars := v.callVars(s, oc.params, recv, args, sig)
		if v.mute == 0 {
			v.oncallSeen[oc.label]++
		}
		g := v.evalBool(oc.expr, &env{v: v, st: s, old: v.entry, vars: vars})
		v.oblige(s, "call", "at "+name+": "+oc.label, pos, g)
	}
	v.ghostAssign(s, v.con.befores, name, recv, args, sig)
}

// ---------- builtins ----------

func (v *Ver) builtin(s *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) []Out {
	one := func(r Val) []Out { return []Out{{s, []Val{r}}} }
	switch b.Name() {
	case "len", "cap":
		if sl, ok := args[0].(*SliceLit); ok {
			return one(Num(int64(len(sl.elems))))
		}
		t := c.Args[0].Type()
		x := v.toTerm(s, args[0], t)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				return one(Sel("s.len", x))
			}
			return one(Sel("s.cap", x))
		case *types.Basic:
			l := StrLen(x)
			s.assume(And(Le(Num(0), l), leRaw(l, NumS("1125899906842624"))))
			return one(l)
		case *types.Map:
			_, _, ln := mapHeaps(u)
			v.mapFacts(s, x, u)
			v.guardMap(s, x, pos)
			return one(Select(s.get(ln), x))
		case *types.Array:
			return one(Num(u.Len()))
		case *types.Pointer:
			return one(Num(u.Elem().Underlying().(*types.Array).Len()))
		}
		v.unsupported("len of %s", t)
	case "append":
		return one(v.appendB(s, c, args, pos))
	case "copy":
		v.unsupported("copy")
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := v.toTerm(s, args[0], c.Args[0].Type())
		v.guardMap(s, m, pos)
		v.mapDelete(s, m, mt, v.toTerm(s, args[1], c.Args[1].Type()))
		return []Out{{s, nil}}
	case "close":
		x := v.toTerm(s, args[0], c.Args[0].Type())
		regHeap("CH:closed", &heapInfo{kind: "chan", typ: tBool, sort: arr(SInt, SBool)})
		H := s.get("CH:closed")
		v.oblige(s, "safety", "close of nil channel", pos, Not(Eq(x, Num(0))))
		v.oblige(s, "safety", "close of closed channel", pos, Not(Select(H, x)))
		v.put(s, "CH:closed", x, Store(H, x, True))
		return []Out{{s, nil}}
	case "ssa:wrapnilchk":
		if t, ok := args[0].(*Term); ok {
			v.oblige(s, "safety", "nil receiver", pos, Not(Eq(t, Num(0))))
		}
		return one(args[0])
	case "print", "println":
		return []Out{{s, nil}}
	case "recover":
		return one(NilIface)
	case "min", "max":
		r := v.toTerm(s, args[0], c.Args[0].Type())
		for i := 1; i < len(args); i++ {
			y := v.toTerm(s, args[i], c.Args[i].Type())
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(r, y), y, r)
			}
		}
		return one(r)
	}
	v.unsupported("builtin %s", b.Name())
	return nil
}

func (v *Ver) appendB(s *State, c *ssa.CallCommon, args []Val, pos token.Pos) *Term {
	st := c.Args[0].Type().Underlying().(*types.Slice)
	el := st.Elem()
	x := v.toTerm(s, args[0], c.Args[0].Type())
	q := v.seqOfSlice(s, x, el)
	h := elemHeap(el)
	xa, xo, xl, xc := Sel("s.arr", x), Sel("s.off", x), Sel("s.len", x), Sel("s.cap", x)
	var n *Term
	var elems []*Term
	lit := false
	var yContent, yOff *Term
	var yq *Term
	if sl, ok := args[1].(*SliceLit); ok {
		lit = true
		elems = sl.elems
		n = Num(int64(len(elems)))
	} else if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		str := v.toTerm(s, args[1], c.Args[1].Type())
		y := v.newBytes(s, str)
		yContent, yOff, n = v.content(s, y, el), Num(0), Sel("s.len", y)
		yq = bytesOf(str)
	} else {
		y := v.toTerm(s, args[1], c.Args[1].Type())
		if y == NilSlice {
			return x
		}
		yContent, yOff, n = v.content(s, y, el), Sel("s.off", y), Sel("s.len", y)
		yq = v.seqOfSlice(s, y, el)
	}
	if lit && len(elems) == 0 {
		return x
	}
	newLen := Add(xl, n)
	fits := Le(newLen, xc)
	if x == NilSlice {
		fits = Eq(n, Num(0))
	}
	r := s.next
	s.next = Add(s.next, Num(1))
	H := s.get(h)
	A := Select(H, xa)
	asort := A.sort
	newCap := Fresh("cap", SInt)
	s.assume(And(Le(newLen, newCap), leRaw(newCap, NumS("562949953421312"))))
	var inPlace, freshC *Term
	if lit {
		inPlace = A
		for i, e := range elems {
			inPlace = Store(inPlace, ElIdx(xo, Add(xl, Num(int64(i)))), e)
		}
		base := Fresh("grow", asort)
		i := FVar("i", SInt)
		s.assume(Forall([]*Term{i}, Implies(And(Le(Num(0), i), Lt(i, xl)), Eq(raw("select", sortOf(el), base, i), Select(A, ElIdx(xo, i)))), []*Term{raw("select", sortOf(el), base, i)}))
		freshC = base
		for i, e := range elems {
			freshC = Store(freshC, Add(xl, Num(int64(i))), e)
		}
		if x == NilSlice {
			freshC = ConstArr(asort, zero(el))
			for i, e := range elems {
				freshC = Store(freshC, Num(int64(i)), e)
			}
		}
	} else {
		es := sortOf(el)
		inPlace = Fresh("inplace", asort)
		i := FVar("i", SInt)
		at := raw("select", es, inPlace, i)
		s.assume(Forall([]*Term{i}, Eq(at, Ite(And(Le(Add(xo, xl), i), Lt(i, Add(xo, newLen))), Select(yContent, Add(yOff, Sub(i, Add(xo, xl)))), Select(A, i))), []*Term{at}))
		s.assume(Implies(Eq(n, Num(0)), Eq(inPlace, A)))
		freshC = Fresh("grow", asort)
		at2 := raw("select", es, freshC, i)
		s.assume(Forall([]*Term{i}, And(
			Implies(And(Le(Num(0), i), Lt(i, xl)), Eq(at2, Select(A, ElIdx(xo, i)))),
			Implies(And(Le(xl, i), Lt(i, newLen)), Eq(at2, Select(yContent, Add(yOff, Sub(i, xl)))))), []*Term{at2}))
	}
	tgt := Ite(fits, xa, r)
	cont := Ite(fits, inPlace, freshC)
	var res *Term
	if fits == False {
		v.put(s, h, r, Store(H, r, freshC))
		res = Ctr("sl", r, Num(0), newLen, newCap)
	} else if fits == True {
		v.put(s, h, xa, Store(H, xa, inPlace))
		res = Ctr("sl", xa, xo, newLen, xc)
	} else {
		for _, w := range v.writes {
			w.add(h, xa)
		}
		v.put(s, h, r, Store(H, tgt, cont))
		res = Ctr("sl", tgt, Ite(fits, xo, Num(0)), newLen, Ite(fits, xc, newCap))
		if x != NilSlice && Eq(n, Num(0)) == True {
			res = x
		}
	}
	// sequence view of the result (consequence of the definitions above)
	var nq *Term
	if lit {
		nq = q
		for _, e := range elems {
			nq = SeqSnoc(nq, e)
		}
	} else {
		nq = SeqCat(q, yq)
	}
	rq := v.seqOfSlice(s, res, el)
	if rq != nq {
		s.assume(Eq(rq, nq))
	}
	if lit && fits != False && fits != True {
		// reading either variant
		s.assume(Implies(fits, Eq(SeqOf(inPlace, xo, newLen), nq)))
		s.assume(Implies(Not(fits), Eq(SeqOf(freshC, Num(0), newLen), nq)))
	}
	return res
}

// ---------- locks ----------

func (v *Ver) lockOp(s *State, a Val, ptr types.Type, op string, pos token.Pos) {
	addr := v.toAddr(a, ptr)
	mode := ""
	if op == "RLock" || op == "RUnlock" {
		mode = "R"
	}
	var name string
	base := addr.base
	if addr.kind == "global" {
		name = lockHeapG(addr.name, mode)
		base = Num(0)
	} else if addr.kind == "root" {
		name = lockHeap(addr.typ, addr.path, mode)
	} else {
		v.unsupported("lock inside %s", addr.kind)
	}
	H := s.get(name)
	other := ""
	if mode == "" {
		other = "R"
	}
	var oname string
	if addr.kind == "global" {
		oname = lockHeapG(addr.name, other)
	} else {
		oname = lockHeap(addr.typ, addr.path, other)
	}
	rel := "rel:" + name + fmt.Sprint(base.id)
	switch op {
	case "Lock", "RLock":
		v.oblige(s, "lock", "no re-acquisition of "+name[2:], pos, And(Not(Select(H, base)), Not(Select(s.get(oname), base))))
		v.put(s, name, base, Store(H, base, True))
		if s.locals[rel] != nil || s.locals["rel:spawned"] != nil {
			v.relock(s, addr)
		}
		v.ghostUpd(s, op, base, nil, noSig)
	case "Unlock", "RUnlock":
		v.oblige(s, "lock", "unlock of held "+name[2:], pos, Select(H, base))
		v.onCall(s, op, base, nil, noSig, pos)
		v.ghostUpd(s, op, base, nil, noSig)
		v.put(s, name, base, Store(H, base, False))
		m := make(map[string]*Term, len(s.locals)+1)
		for k, x := range s.locals {
			m[k] = x
		}
		m[rel] = True
		s.locals = m
	}
}

var noSig = types.NewSignatureType(nil, nil, nil, nil, nil, false)

func lockHeapG(name, mode string) string {
	n := "L" + mode + ":global " + name
	regHeap(n, &heapInfo{kind: "lock", typ: tBool, sort: arr(SInt, SBool)})
	return n
}

// relock: another goroutine may have changed the guarded fields meanwhile.
func (v *Ver) relock(s *State, addr *AddrV) {
	for _, g := range v.prog.guards {
		if addr.kind == "root" && g.typ != nil && types.Identical(g.typ, addr.typ) {
			st := addr.typ.Underlying().(*types.Struct)
			if len(addr.path) != 1 || st.Field(addr.path[0]).Name() != g.mu {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if g.fields[st.Field(i).Name()] {
					v.havocObj(s, (&AddrV{kind: "root", base: addr.base, typ: addr.typ}).field(i))
				}
			}
		}
	}
}

func (v *Ver) guardOf(a *AddrV) (lock, rlock string, base *Term, what string) {
	for _, g := range v.prog.guards {
		if a.kind == "root" && g.typ != nil && len(a.path) > 0 && types.Identical(g.typ, a.typ) {
			st := a.typ.Underlying().(*types.Struct)
			f := st.Field(a.path[0]).Name()
			if !g.fields[f] {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == g.mu {
					return lockHeap(a.typ, []int{i}, ""), lockHeap(a.typ, []int{i}, "R"), a.base, typeKey(a.typ) + "." + f
				}
			}
			panic(unsupportedErr{"guard: no lock field " + g.mu + " in " + typeKey(a.typ)})
		}
		if a.kind == "global" && g.typ == nil && g.pkg+"."+"" != "" {
			if strings.HasPrefix(a.name, g.pkg+".") && g.fields[strings.TrimPrefix(a.name, g.pkg+".")] {
				return lockHeapG(g.pkg+"."+g.mu, ""), lockHeapG(g.pkg+"."+g.mu, "R"), Num(0), a.name
			}
		}
	}
	return "", "", nil, ""
}

func (v *Ver) guard(s *State, a *AddrV, write bool, pos token.Pos) {
	if v.noGuard {
		return
	}
	l, r, base, what := v.guardOf(a)
	if l == "" {
		return
	}
	if v.mute == 0 {
		v.prog.guardSeen[v.curIns] = true
	}
	if b, k := offset(base); isNext(b) && k >= 0 {
		return // object allocated by this very call, not yet shared
	}
	h := Select(s.get(l), base)
	if !write {
		h = Or(h, Select(s.get(r), base))
	}
	op := "read"
	if write {
		op = "write"
	}
	v.oblige(s, "lock", op+" of "+what+" under its lock", v.curPos, h)
}

// guardMap: the contents of a map still reachable from a guarded field may
// only be touched under the lock.
func (v *Ver) guardMap(s *State, m *Term, pos token.Pos) {
	if v.noGuard || m.op != "select" || m.args[0].op != "sym" {
		return
	}
	nm := m.args[0].name
	i := strings.Index(nm, "@0")
	if i < 0 {
		return
	}
	hn := nm[:i]
	hi := heapReg[hn]
	if hi == nil || hi.kind != "field" {
		return
	}
	for _, g := range v.prog.guards {
		if g.typ == nil {
			continue
		}
		st := g.typ.Underlying().(*types.Struct)
		for f := range g.fields {
			if hn == "H:"+typeKey(g.typ)+"."+f {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == g.mu {
						base := m.args[1]
						l := Select(s.get(lockHeap(g.typ, []int{i}, "")), base)
						r := Select(s.get(lockHeap(g.typ, []int{i}, "R")), base)
						cur := Select(s.get(hn), base)
						v.oblige(s, "lock", "map of "+hn[2:]+" used under its lock", pos, Or(l, r, Eq(m, Num(0)), Not(Eq(cur, m))))
					}
				}
			}
		}
	}
}

// ---------- goroutines ----------

func (v *Ver) doGo(p *PS, ins *ssa.Go) {
	s := p.st
	fnv, args := v.callOperands(p, &ins.Call)
	var name string
	var fn *ssa.Function
	if cl, ok := fnv.(*ClosureV); ok {
		fn = cl.fn
		name = fn.Name()
		mode := "event"
		if v.con != nil && v.con.spawn != "" {
			mode = v.con.spawn
		}
		if mode == "locks" {
			q := s.clone()
			m := make(map[string]*Term, len(q.locals)+1)
			for k, x := range q.locals {
				m[k] = x
			}
			m["rel:spawned"] = True
			q.locals = m
			v.havocAll(q)
			for n := range heapReg {
				if heapReg[n].kind == "lock" {
					q.heap[n] = ConstArr(arr(SInt, SBool), False)
				}
			}
			e := q.clone()
			for _, o := range v.callStatic(q, fn, args, cl.bindings, ins.Pos()) {
				for _, n := range sortedKeys(o.st.heap) {
					if hi := heapReg[n]; hi != nil && hi.kind == "lock" && o.st.get(n) != e.get(n) {
						v.oblige(o.st.clone(), "lock", "released when the goroutine ends: "+n[2:], ins.Pos(), Eq(o.st.get(n), e.get(n)))
					}
				}
			}
			return
		}
		if mode == "inline" {
			// Execute the goroutine body on a copy of the state: its obligations are
			// generated and its observable calls are recorded in the ghost list of
			// asynchronous actions.
			q := s.clone()
			q.log = Sym("log.empty", SLog)
			m := make(map[string]*Term, len(q.locals)+1)
			for k, x := range q.locals {
				m[k] = x
			}
			m["rel:spawned"] = True // others may run before its first lock
			q.locals = m
			for n := range heapReg { // the goroutine holds no locks
				if heapReg[n].kind == "lock" {
					q.heap[n] = ConstArr(arr(SInt, SBool), False)
				}
			}
			outs := v.callStatic(q, fn, args, cl.bindings, ins.Pos())
			regHeap("async", &heapInfo{kind: "global", typ: tLog, sort: SLog})
			if len(outs) == 0 {
				return
			}
			// all normal outcomes must perform the same calls
			l := outs[0].st.log
			for _, o := range outs[1:] {
				if o.st.log != l {
					v.unsupported("goroutine with differing observable calls per path")
				}
			}
			v.put(s, "async", nil, App("lcat", SLog, s.get("async"), l))
			if v.con != nil {
				for _, g := range v.con.ghosts {
					h := v.con.ghostHeap(g.name)
					x := outs[0].st.get(h)
					for _, o := range outs[1:] {
						if o.st.get(h) != x {
							v.unsupported("goroutine with differing ghost updates per path")
						}
					}
					if x != s.get(h) {
						v.put(s, h, nil, x)
					}
				}
			}
			return
		}
		if mode == "skip" {
			return
		}
	} else if ins.Call.IsInvoke() {
		name = ins.Call.Method.Name()
	} else {
		name = "dynamic"
	}
	var as []*Term
	if fn != nil {
		for i, pa := range fn.Params {
			as = append(as, v.evArg(s, args[i], pa.Type()))
		}
	}
	s.log = LogSnoc(s.log, EvTerm("go."+strings.ReplaceAll(name, "$", "."), as...))
}

// ---------- contracts at call sites ----------

func scalarResults(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func (v *Ver) applyContract(s *State, con *Contract, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	v.modular[shortFn(fn)] = true
	vars := map[string]TV{}
	full := fullSig(fn)
	for i := 0; i < full.Params().Len(); i++ {
		t := full.Params().At(i).Type()
		var x *Term
		if a, ok := args[i].(*AddrV); ok && a.kind != "root" {
			v.unsupported("interior pointer passed to %s", fn)
		}
		if a, ok := args[i].(*AddrV); ok && len(a.path) > 0 && !v.prog.cellField(a.typ, a.path) && con.hasModifies && len(con.modifies) == 0 && scalarResults(full) {
			// A callee that writes nothing and returns no pointers sees no difference
			// between the embedded struct and a copy of it.
			c := v.alloc(s, a.leafType())
			v.store(s, v.toAddr(c, t), v.load(s, a, pos), pos)
			x = v.toTerm(s, c, t)
		} else {
			x = v.toTerm(s, args[i], t)
		}
		if i < len(con.params) {
			vars[con.params[i]] = TV{x, t}
		}
	}
	e := &env{v: v, st: s, old: s, vars: vars, con: con}
	for _, oc := range v.con.steps {
		if oc.name != fn.Name() || len(oc.params) != len(args) {
			continue
		}
		sv := map[string]TV{}
		for k, t := range v.vars {
			sv[k] = t
		}
		for i, n := range oc.params {
			t := full.Params().At(i).Type()
			sv[n] = TV{v.toTerm(s, args[i], t), t}
		}
		g := v.evalBool(oc.expr, &env{v: v, st: s, old: v.entry, vars: sv, con: v.con})
		v.obligeSplit(s.clone(), "step", "at "+fn.Name()+": "+oc.label, pos, g)
		s.assume(g)
	}
	kind := "pre"
	if p := v.con.panicFreeBy; p != "" && con.hasProp(p) {
		kind = "safety" // the same call is checked against the same contract there
	}
	for _, h := range con.holds {
		name, base := v.heldLock(h.expr, e)
		v.oblige(s, "lock", shortFn(fn)+" is called with "+name[2:]+" held", pos, Select(s.get(name), base))
	}
	for _, r := range con.requires {
		g := v.evalBool(r.expr, e)
		v.obligeSplit(s.clone(), kind, shortFn(fn)+" requires "+r.label, pos, g)
		s.assume(g)
	}
	if con.decreases != nil && fn == v.fn {
		m0 := v.eval(con.decreases, &env{v: v, st: v.entry, old: v.entry, vars: v.vars, con: con})
		m1 := v.eval(con.decreases, e)
		v.oblige(s, "pre", "recursion decreases", pos, And(Le(Num(0), m1.t), Lt(m1.t, m0.t)))
	}
	old := s.clone()
	// frame
	needNext := false
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if hasRef(fn.Signature.Results().At(i).Type(), 0) {
			needNext = true
		}
	}
	if needNext || len(con.modifies) > 0 {
		v.bumpNext(s)
	}
	for _, m := range con.modifies {
		switch m {
		case "log":
			s.log = Fresh("log", SLog)
			continue
		case "clock":
			s.heap["clock"] = Fresh("clock", SInt)
			continue
		}
		for _, h := range v.prog.heapNames(con, m) {
			nh := freshHeap(h, s.next)
			if heapReg[h].kind != "global" && heapReg[h].kind != "iter" {
				// callee-side frame is spelled out in ensures
			}
			s.heap[h] = nh
			for _, w := range v.writes {
				w.add(h, nil)
			}
		}
	}
	var res []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		r := v.fresh(s, "r."+fn.Name(), rs.At(i).Type())
		res = append(res, r)
		if i < len(con.results) {
			vars[con.results[i]] = TV{r, rs.At(i).Type()}
		}
	}
	e2 := &env{v: v, st: s, old: old, vars: vars, con: con}
	for _, en := range con.ensures {
		s.assume(v.evalBool(en.expr, e2))
	}
	for _, en := range con.assumedEnsures {
		v.assumes["assumed contract on "+shortFn(fn)+": "+en.label] = true
		s.assume(v.evalBool(en.expr, e2))
	}
	return []Out{{s, res}}
}
