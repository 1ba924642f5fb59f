package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- values ----------

type Val interface{}

type AddrV struct {
	kind string     // "root", "elem", "global", "local"
	base *Term      // root: ref; elem: array ref
	idx  *Term      // elem: absolute index
	hi   *Term      // elem: absolute limit of the slice it came from
	name string     // global name
	typ  types.Type // type of the root object / element / global
	path []int
	loc  *LocalArr
	par  *AddrV // arrval: the array the element is part of (only read)
}

func (a *AddrV) key() string {
	s := a.kind + a.name + types.TypeString(a.typ, nil)
	if a.base != nil {
		s += fmt.Sprint("b", a.base.id)
	}
	if a.idx != nil {
		s += fmt.Sprint("i", a.idx.id)
	}
	if a.loc != nil {
		s += fmt.Sprintf("l%p", a.loc)
	}
	if a.par != nil {
		s += "(" + a.par.key() + ")"
	}
	return s + fmt.Sprint(a.path)
}

func (a *AddrV) leafType() types.Type {
	t := a.typ
	for _, i := range a.path {
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

type ClosureV struct {
	fn       *ssa.Function
	bindings []Val
	bound    *Term // canonical term once escaped
}

type TupleV []Val

type IterV struct {
	key  string // heap key of visited set
	m    *Term
	mt   *types.Map
	dom0 *Term
	str  bool
}

// LocalArr is a non-escaping array used to build variadic arguments.
type LocalArr struct {
	elem types.Type
	n    int
	id   int
}

// SliceLit is a slice whose elements are known and whose identity is irrelevant.
type SliceLit struct {
	elem  types.Type
	elems []*Term
}

func valKey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		return fmt.Sprint("t", v.id)
	case *AddrV:
		return "a" + v.key()
	case *ClosureV:
		s := "c" + v.fn.String()
		for _, b := range v.bindings {
			s += "," + valKey(b)
		}
		return s
	case TupleV:
		s := "("
		for _, b := range v {
			s += valKey(b) + ","
		}
		return s
	case *IterV:
		return "it" + v.key + fmt.Sprint(v.m.id, v.dom0.id)
	case *LocalArr:
		return fmt.Sprintf("la%p", v)
	case *SliceLit:
		s := "sl"
		for _, e := range v.elems {
			s += fmt.Sprint(",", e.id)
		}
		return s
	}
	return fmt.Sprintf("%p", v)
}

// ---------- state ----------

type State struct {
	heap   map[string]*Term
	next   *Term
	log    *Term
	pc     []*Term
	locals map[string]*Term // "id:idx" -> value for LocalArr
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), next: s.next, log: s.log, locals: s.locals}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term(nil), s.pc...)
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.knows(t) {
		return
	}
	s.pc = append(s.pc, t)
}

// knows: is the literal t syntactically among the assumptions?
func (s *State) knows(t *Term) bool {
	for i := len(s.pc) - 1; i >= 0; i-- {
		if s.pc[i] == t {
			return true
		}
	}
	return false
}

// ---------- heap schema ----------

type heapInfo struct {
	kind string     // "field","cell","elem","mapdom","mapval","maplen","lock","global","iter","chan"
	typ  types.Type // value type stored (leaf / elem / map value / global)
	key  types.Type // map key type
	sort string
}

var heapReg = map[string]*heapInfo{}

type wfInfo struct {
	h    *heapInfo
	next *Term
}

var wfReg = map[*Term]*wfInfo{}

var next0 = func() *Term { t := Sym("next0", SInt); return t }()
var log0 = Sym("log0", SLog)

func regHeap(name string, h *heapInfo) {
	if heapReg[name] == nil {
		heapReg[name] = h
	}
}

func baseHeap(name string) *Term {
	h := heapReg[name]
	if h == nil {
		panic("unregistered heap " + name)
	}
	if h.kind == "lock" {
		return ConstArr(h.sort, False)
	}
	t := Sym(sanitizeHeap(name)+"@0", h.sort)
	if wfReg[t] == nil {
		wfReg[t] = &wfInfo{h, next0}
		t.upBase = next0
	}
	return t
}
func sanitizeHeap(s string) string {
	return strings.NewReplacer("|", "!", "\\", "!").Replace(s)
}

func freshHeap(name string, next *Term) *Term {
	h := heapReg[name]
	t := Fresh(name, h.sort)
	wfReg[t] = &wfInfo{h, next}
	t.upBase = next
	return t
}

func (s *State) get(name string) *Term {
	if t := s.heap[name]; t != nil {
		return t
	}
	return baseHeap(name)
}

type writeRec struct {
	name string
	ref  *Term // nil: scalar / unknown
}

func (v *Ver) put(s *State, name string, ref *Term, t *Term) {
	if old := s.get(name); old == t {
		return
	}
	s.heap[name] = t
	for _, w := range v.writes {
		w.add(name, ref)
	}
}

type writeSet struct {
	m map[string]map[*Term]bool
}

func (w *writeSet) add(name string, ref *Term) {
	if w.m[name] == nil {
		w.m[name] = map[*Term]bool{}
	}
	if ref != nil {
		w.m[name][ref] = true
	} else {
		w.m[name][nil] = true
	}
}

func fieldHeap(root types.Type, path []int) (string, types.Type) {
	t := root
	var names []string
	for _, i := range path {
		f := t.Underlying().(*types.Struct).Field(i)
		names = append(names, f.Name())
		t = f.Type()
	}
	n := "H:" + typeKey(root) + "." + strings.Join(names, ".")
	regHeap(n, &heapInfo{kind: "field", typ: t, sort: arr(SInt, sortOf(t))})
	return n, t
}

func typeKey(t types.Type) string {
	k := strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), " ", "_")
	return aliasRE.ReplaceAllStringFunc(k, func(s string) string { return aliasOf[s] })
}

var aliasRE = regexp.MustCompile(`\b(byte|rune|any)\b`)
var aliasOf = map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}

func cellHeap(t types.Type) string {
	u := t
	if b, ok := t.Underlying().(*types.Basic); ok {
		u = b
	}
	n := "C:" + typeKey(u)
	regHeap(n, &heapInfo{kind: "cell", typ: u, sort: arr(SInt, sortOf(u))})
	return n
}
func elemHeap(t types.Type) string {
	n := "E:" + typeKey(t)
	regHeap(n, &heapInfo{kind: "elem", typ: t, sort: arr(SInt, arr(SInt, sortOf(t)))})
	return n
}
func mapHeaps(m *types.Map) (dom, val, ln string) {
	k := typeKey(m.Key()) + "=>" + typeKey(m.Elem())
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	dom, val, ln = "MD:"+k, "MV:"+k, "ML:"+k
	regHeap(dom, &heapInfo{kind: "mapdom", typ: tBool, key: m.Key(), sort: arr(SInt, arr(ks, SBool))})
	regHeap(val, &heapInfo{kind: "mapval", typ: m.Elem(), key: m.Key(), sort: arr(SInt, arr(ks, vs))})
	regHeap(ln, &heapInfo{kind: "maplen", typ: tInt, key: m.Key(), sort: arr(SInt, SInt)})
	return
}
func lockHeap(root types.Type, path []int, mode string) string {
	t := root
	var names []string
	for _, i := range path {
		f := t.Underlying().(*types.Struct).Field(i)
		names = append(names, f.Name())
		t = f.Type()
	}
	n := "L" + mode + ":" + typeKey(root) + "." + strings.Join(names, ".")
	regHeap(n, &heapInfo{kind: "lock", typ: tBool, sort: arr(SInt, SBool)})
	return n
}

// wfValue: well-formedness of a value of type t (allocated references, slice
// shape, machine-integer ranges).
func wfValue(x *Term, t types.Type, next *Term) *Term {
	if _, ok := t.(*specType); ok {
		return True
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return inRange(x, t)
		}
	case *types.Pointer:
		if st, ok := u.Elem().Underlying().(*types.Basic); ok {
			_ = st
			DeclFun("fldinv", SInt, SInt)
			return And(ltRaw(x, next), Or(leRaw(Num(0), x), And(leRaw(Num(0), App("fldinv", SInt, x)), ltRaw(App("fldinv", SInt, x), next))))
		}
		return And(leRaw(Num(0), x), ltRaw(x, next))
	case *types.Map, *types.Chan:
		return And(leRaw(Num(0), x), ltRaw(x, next))
	case *types.Slice:
		a, o, l, c := Sel("s.arr", x), Sel("s.off", x), Sel("s.len", x), Sel("s.cap", x)
		return And(leRaw(Num(0), a), ltRaw(a, next), leRaw(Num(0), o), leRaw(Num(0), l), leRaw(l, c),
			leRaw(Add(o, c), NumS("1125899906842624")), Implies(Eq(a, Num(0)), And(Eq(c, Num(0)), Eq(o, Num(0)))))
	case *types.Struct:
		if st, ok := isStruct(t); ok {
			var cs []*Term
			for i := 0; i < st.NumFields(); i++ {
				cs = append(cs, wfValue(Sel(fieldSel(t, i), x), st.Field(i).Type(), next))
			}
			return And(cs...)
		}
	case *types.Array:
		i := FVar("ai", SInt)
		b := wfValue(raw("select", sortOf(u.Elem()), x, i), u.Elem(), next)
		return Forall([]*Term{i}, b, []*Term{raw("select", sortOf(u.Elem()), x, i)})
	}
	return True
}

func leRaw(a, b *Term) *Term {
	if x, ok := a.num(); ok {
		if y, ok := b.num(); ok {
			return Bool(x <= y)
		}
	}
	return raw("<=", SBool, a, b)
}
func ltRaw(a, b *Term) *Term {
	if x, ok := a.num(); ok {
		if y, ok := b.num(); ok {
			return Bool(x < y)
		}
	}
	return raw("<", SBool, a, b)
}

// wfHeap: axiom for a base (entry or havocked) heap symbol.
func wfHeap(h *Term) []*Term {
	w := wfReg[h]
	if w == nil {
		return nil
	}
	var out []*Term
	r := FVar("r", SInt)
	old := raw("<", SBool, r, w.next)
	guard := func(b *Term, t types.Type) *Term {
		if hasRef(t, 0) {
			return Implies(old, b) // objects allocated later are unconstrained
		}
		return b
	}
	switch w.h.kind {
	case "field", "cell":
		if w.h.kind == "cell" {
			old = existedBefore("C:", r, w.next)
		}
		s := raw("select", sortOf(w.h.typ), h, r)
		b := wfValue(s, w.h.typ, w.next)
		if b != True {
			out = append(out, Forall([]*Term{r}, guard(b, w.h.typ), []*Term{s}))
		}
	case "elem":
		i := FVar("i", SInt)
		s := raw("select", sortOf(w.h.typ), raw("select", arr(SInt, sortOf(w.h.typ)), h, r), i)
		b := wfValue(s, w.h.typ, w.next)
		if b != True {
			out = append(out, Forall([]*Term{r, i}, guard(b, w.h.typ), []*Term{s}))
		}
	case "mapval":
		k := FVar("k", sortOf(w.h.key))
		s := raw("select", sortOf(w.h.typ), raw("select", arr(sortOf(w.h.key), sortOf(w.h.typ)), h, r), k)
		b := wfValue(s, w.h.typ, w.next)
		if b != True {
			out = append(out, Forall([]*Term{r, k}, guard(b, w.h.typ), []*Term{s}))
		}
	case "mapdom":
		ks := sortOf(w.h.key)
		out = append(out, Eq(raw("select", arr(ks, SBool), h, Num(0)), ConstArr(arr(ks, SBool), False)))
	case "maplen":
		s := raw("select", SInt, h, r)
		out = append(out, Forall([]*Term{r}, And(leRaw(Num(0), s), leRaw(s, NumS("1125899906842624"))), []*Term{s}), Eq(raw("select", SInt, h, Num(0)), Num(0)))
	case "global":
		out = append(out, wfValue(h, w.h.typ, w.next))
	case "iter":
	}
	return out
}

// mapLenFacts links the length and domain of map m in state s.
func mapLenFacts(dom, ln *Term, ks string) *Term {
	k := FVar("k", ks)
	return And(
		Implies(Eq(ln, Num(0)), Forall([]*Term{k}, Not(raw("select", SBool, dom, k)), []*Term{raw("select", SBool, dom, k)})),
		Forall([]*Term{k}, Implies(raw("select", SBool, dom, k), leRaw(Num(1), ln)), []*Term{raw("select", SBool, dom, k)}))
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---------- loads and stores ----------

func (v *Ver) toAddr(x Val, ptr types.Type) *AddrV {
	switch x := x.(type) {
	case *AddrV:
		return x
	case *Term:
		pt, ok := ptr.Underlying().(*types.Pointer)
		if !ok {
			v.unsupported("address of type %s", ptr)
		}
		if g := globalByRef[x]; g != nil {
			return g
		}
		return &AddrV{kind: "root", base: x, typ: pt.Elem()}
	}
	v.unsupported("address value %T", x)
	return nil
}

var globalByRef = map[*Term]*AddrV{}

func (a *AddrV) field(i int) *AddrV {
	n := *a
	n.path = append(append([]int(nil), a.path...), i)
	return &n
}

// escRef returns the first-class reference of an interior address in cell mode.
func fldRef(root types.Type, path []int, base *Term) *Term {
	n, _ := fieldHeap(root, path)
	return App("fld$"+sanitize(n), SInt, base)
}

func (v *Ver) load(s *State, a *AddrV, pos token.Pos) *Term {
	t := a.leafType()
	switch a.kind {
	case "root":
		if st, ok := isStruct(t); ok {
			var as []*Term
			for i := 0; i < st.NumFields(); i++ {
				as = append(as, v.load(s, a.field(i), pos))
			}
			return Ctr("mk."+structSort(t), as...)
		}
		if at, ok := t.Underlying().(*types.Array); ok && len(a.path) == 0 {
			return Select(s.get(elemHeap(at.Elem())), a.base)
		}
		if len(a.path) == 0 {
			return Select(s.get(cellHeap(t)), a.base)
		}
		v.guard(s, a, false, pos)
		if v.prog.cellField(a.typ, a.path) {
			return Select(s.get(cellHeap(t)), v.fld(s, a))
		}
		n, _ := fieldHeap(a.typ, a.path)
		return Select(s.get(n), a.base)
	case "elem":
		e := Select(Select(s.get(elemHeap(a.typ)), a.base), a.idx)
		tt := a.typ
		for _, i := range a.path {
			e = Sel(fieldSel(tt, i), e)
			tt = tt.Underlying().(*types.Struct).Field(i).Type()
		}
		return e
	case "global":
		if st, ok := isStruct(t); ok {
			var as []*Term
			for i := 0; i < st.NumFields(); i++ {
				as = append(as, v.load(s, a.field(i), pos))
			}
			return Ctr("mk."+structSort(t), as...)
		}
		v.guard(s, a, false, pos)
		if c := v.prog.globalConst(a); c != nil {
			return c
		}
		return s.get(v.globalHeap(a))
	case "local":
		k := fmt.Sprintf("%p:%s", a.loc, a.idx.name)
		e := s.locals[k]
		if e == nil {
			e = zero(a.typ)
		}
		tt := a.typ
		for _, i := range a.path {
			e = Sel(fieldSel(tt, i), e)
			tt = tt.Underlying().(*types.Struct).Field(i).Type()
		}
		return e
	}
	if a.kind == "arrval" {
		e := Select(v.load(s, a.par, pos), a.idx)
		tt := a.typ
		for _, i := range a.path {
			e = Sel(fieldSel(tt, i), e)
			tt = tt.Underlying().(*types.Struct).Field(i).Type()
		}
		return e
	}
	panic("load " + a.kind)
}

func (v *Ver) fld(s *State, a *AddrV) *Term {
	r := fldRef(a.typ, a.path, a.base)
	n, _ := fieldHeap(a.typ, a.path)
	s.assume(Eq(App("fldinv", SInt, r), a.base))
	s.assume(Eq(App("fldkind", SInt, r), Num(int64(fnv(n)))))
	s.assume(ltRaw(r, Num(-1000)))
	return r
}

func (v *Ver) globalHeap(a *AddrV) string {
	n := "G:" + a.name
	t := a.typ
	for _, i := range a.path {
		f := t.Underlying().(*types.Struct).Field(i)
		n += "." + f.Name()
		t = f.Type()
	}
	regHeap(n, &heapInfo{kind: "global", typ: t, sort: sortOf(t)})
	return n
}

func updPath(e *Term, t types.Type, path []int, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	st := t.Underlying().(*types.Struct)
	var as []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := Sel(fieldSel(t, i), e)
		if i == path[0] {
			f = updPath(f, st.Field(i).Type(), path[1:], x)
		}
		as = append(as, f)
	}
	return Ctr("mk."+structSort(t), as...)
}

func (v *Ver) store(s *State, a *AddrV, x *Term, pos token.Pos) {
	if a.kind == "arrval" {
		v.unsupported("write to an element of an embedded array")
	}
	t := a.leafType()
	switch a.kind {
	case "root":
		if st, ok := isStruct(t); ok {
			for i := 0; i < st.NumFields(); i++ {
				v.store(s, a.field(i), Sel(fieldSel(t, i), x), pos)
			}
			return
		}
		if at, ok := t.Underlying().(*types.Array); ok && len(a.path) == 0 {
			h := elemHeap(at.Elem())
			v.put(s, h, a.base, Store(s.get(h), a.base, x))
			return
		}
		if len(a.path) == 0 {
			h := cellHeap(t)
			v.put(s, h, a.base, Store(s.get(h), a.base, x))
			return
		}
		v.guard(s, a, true, pos)
		if v.prog.cellField(a.typ, a.path) {
			h := cellHeap(t)
			r := v.fld(s, a)
			v.put(s, h, r, Store(s.get(h), r, x))
			return
		}
		n, _ := fieldHeap(a.typ, a.path)
		v.put(s, n, a.base, Store(s.get(n), a.base, x))
	case "elem":
		h := elemHeap(a.typ)
		H := s.get(h)
		A := Select(H, a.base)
		e := x
		if len(a.path) > 0 {
			e = updPath(Select(A, a.idx), a.typ, a.path, x)
		}
		v.put(s, h, a.base, Store(H, a.base, Store(A, a.idx, e)))
	case "global":
		if st, ok := isStruct(t); ok {
			for i := 0; i < st.NumFields(); i++ {
				v.store(s, a.field(i), Sel(fieldSel(t, i), x), pos)
			}
			return
		}
		v.guard(s, a, true, pos)
		v.put(s, v.globalHeap(a), nil, x)
	case "local":
		k := fmt.Sprintf("%p:%s", a.loc, a.idx.name)
		e := x
		if len(a.path) > 0 {
			o := s.locals[k]
			if o == nil {
				o = zero(a.typ)
			}
			e = updPath(o, a.typ, a.path, x)
		}
		m := make(map[string]*Term, len(s.locals)+1)
		for kk, vv := range s.locals {
			m[kk] = vv
		}
		m[k] = e
		s.locals = m
	default:
		panic("store " + a.kind)
	}
}

// alloc creates a fresh object of type t and returns its reference.
func (v *Ver) alloc(s *State, t types.Type) *Term {
	r := s.next
	s.next = Add(s.next, Num(1))
	v.allocInit(s, &AddrV{kind: "root", base: r, typ: t})
	return r
}
func (v *Ver) allocInit(s *State, a *AddrV) {
	t := a.leafType()
	if st, ok := isStruct(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			v.allocInit(s, a.field(i))
		}
		return
	}
	save := v.noGuard
	v.noGuard = true
	v.store(s, a, zero(t), token.NoPos)
	v.noGuard = save
	if len(a.path) > 0 && isLockType(t) {
		for _, m := range []string{"", "R"} {
			n := lockHeap(a.typ, a.path, m)
			v.put(s, n, a.base, Store(s.get(n), a.base, False))
		}
	}
}

func isLockType(t types.Type) bool {
	n := types.TypeString(t, nil)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

// newArr allocates an element array with the given content.
func (v *Ver) newArr(s *State, elem types.Type, content *Term) *Term {
	r := s.next
	s.next = Add(s.next, Num(1))
	h := elemHeap(elem)
	v.put(s, h, r, Store(s.get(h), r, content))
	return r
}

func (v *Ver) content(s *State, sl *Term, elem types.Type) *Term {
	return Select(s.get(elemHeap(elem)), Sel("s.arr", sl))
}

// seqOfSlice is the abstract sequence held by slice sl in state s.
func (v *Ver) seqOfSlice(s *State, sl *Term, elem types.Type) *Term {
	if sl == NilSlice {
		return SeqEmpty(seqT(elem).sort)
	}
	if sl.op == "ite" {
		return Ite(sl.args[0], v.seqOfSlice(s, sl.args[1], elem), v.seqOfSlice(s, sl.args[2], elem))
	}
	return SeqOf(v.content(s, sl, elem), Sel("s.off", sl), Sel("s.len", sl))
}
