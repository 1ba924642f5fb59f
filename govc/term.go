package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed first-order terms printed as SMT-LIB.

type Term struct {
	id   int
	op   string // "#": integer literal, "sym": 0-ary symbol, "forall"/"exists", otherwise SMT operator
	name string // literal / symbol name
	args []*Term
	sort string
	vars []*Term // bound variables
	pats [][]*Term
	fv   []*Term // free bound-variables occurring inside
	size int

	bound bool
	// allocation metadata (reference reasoning)
	upBase *Term // value is known to lie in [0, upBase+upOff)
	upOff  int64
	geBase *Term // symbol is known >= geBase+geOff
	geOff  int64
}

type FuncDecl struct {
	name string
	args []string
	ret  string
}

type Ctor struct {
	name   string
	fields []string // selector names
	sorts  []string
}
type Datatype struct {
	name  string
	ctors []Ctor
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	funcTab  = map[string]*FuncDecl{}
	dtTab    = map[string]*Datatype{}
	dtOrder  []string
	ctorOf   = map[string]*Ctor{}
	ctorDT   = map[string]*Datatype{}
	selOf    = map[string]struct {
		c *Ctor
		i int
	}{}
	freshCnt    = map[string]int{}
	strLits     = map[string]*Term{}
	litText     = map[*Term]string{}
	opaqueSorts = map[string]bool{}
)

const (
	SInt  = "Int"
	SBool = "Bool"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// splitArr returns index and element sort of an array sort.
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(t.sort)
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.vars != nil {
		for _, v := range t.vars {
			b.WriteByte(';')
			b.WriteString(strconv.Itoa(v.id))
		}
		for _, p := range t.pats {
			b.WriteByte('/')
			for _, q := range p {
				b.WriteByte(',')
				b.WriteString(strconv.Itoa(q.id))
			}
		}
	}
	k := b.String()
	if o := termTab[k]; o != nil {
		return o
	}
	t.id = len(termList)
	t.size = 1
	set := map[*Term]bool{}
	for _, a := range t.args {
		t.size += a.size
		for _, v := range a.fv {
			set[v] = true
		}
	}
	for _, p := range t.pats {
		for _, q := range p {
			for _, v := range q.fv {
				set[v] = true
			}
		}
	}
	for _, v := range t.vars {
		delete(set, v)
	}
	if t.bound {
		set[t] = true
	}
	for v := range set {
		t.fv = append(t.fv, v)
	}
	sort.Slice(t.fv, func(i, j int) bool { return t.fv[i].id < t.fv[j].id })
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func Num(n int64) *Term { return intern(&Term{op: "#", name: strconv.FormatInt(n, 10), sort: SInt}) }
func NumS(s string) *Term {
	return intern(&Term{op: "#", name: s, sort: SInt})
}
func Sym(name, sort string) *Term { return intern(&Term{op: "sym", name: name, sort: sort}) }
func Fresh(prefix, sort string) *Term {
	prefix = sanitize(prefix)
	freshCnt[prefix]++
	return Sym(fmt.Sprintf("%s!%d", prefix, freshCnt[prefix]), sort)
}
func BVar(prefix, sort string) *Term {
	prefix = sanitize(prefix)
	freshCnt["?"+prefix]++
	t := &Term{op: "sym", name: fmt.Sprintf("?%s%d", prefix, freshCnt["?"+prefix]), sort: sort, bound: true}
	return intern(t)
}

// FVar is a bound variable with a fixed name; only for closed formulas whose
// free terms contain no variable of the same name.
func FVar(name, sort string) *Term {
	return intern(&Term{op: "sym", name: "?" + name + "!" + sanitize(sort), sort: sort, bound: true})
}

var True = intern(&Term{op: "sym", name: "true", sort: SBool})
var False = intern(&Term{op: "sym", name: "false", sort: SBool})

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (t *Term) isNum() bool { return t.op == "#" }
func (t *Term) num() (int64, bool) {
	if t.op != "#" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.name, 10, 64)
	return n, err == nil
}

func raw(op, sort string, args ...*Term) *Term {
	return intern(&Term{op: op, sort: sort, args: args})
}

// App applies a declared (uninterpreted) function.
func DeclFun(name string, ret string, args ...string) *FuncDecl {
	if f := funcTab[name]; f != nil {
		if f.ret != ret || len(f.args) != len(args) {
			panic("conflicting declaration of " + name)
		}
		for i := range args {
			if f.args[i] != args[i] {
				panic(fmt.Sprintf("conflicting declaration of %s: %v vs %v", name, f.args, args))
			}
		}
		return f
	}
	f := &FuncDecl{name, args, ret}
	funcTab[name] = f
	return f
}
func App(name string, ret string, args ...*Term) *Term {
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	DeclFun(name, ret, as...)
	if len(args) == 0 {
		return Sym(name, ret)
	}
	return raw(name, ret, args...)
}

func DeclDT(d *Datatype) {
	if dtTab[d.name] != nil {
		return
	}
	dtTab[d.name] = d
	dtOrder = append(dtOrder, d.name)
	for i := range d.ctors {
		c := &d.ctors[i]
		ctorOf[c.name] = c
		ctorDT[c.name] = d
		for j, f := range c.fields {
			selOf[f] = struct {
				c *Ctor
				i int
			}{c, j}
		}
	}
}

func Ctr(name string, args ...*Term) *Term {
	c := ctorOf[name]
	if c == nil {
		panic("no constructor " + name)
	}
	if len(args) != len(c.sorts) {
		panic("ctor arity " + name)
	}
	for i, a := range args {
		if a.sort != c.sorts[i] {
			panic(fmt.Sprintf("ctor %s arg %d: sort %s, want %s (%s)", name, i, a.sort, c.sorts[i], a))
		}
	}
	// eta: mk(sel0(x),sel1(x),...) = x
	if len(args) > 0 && len(ctorDT[name].ctors) == 1 {
		var x *Term
		ok := true
		for i, a := range args {
			if a.op != c.fields[i] {
				ok = false
				break
			}
			if x == nil {
				x = a.args[0]
			} else if x != a.args[0] {
				ok = false
				break
			}
		}
		if ok && x != nil {
			return x
		}
	}
	if len(args) == 0 {
		return Sym(name, ctorDT[name].name)
	}
	return raw(name, ctorDT[name].name, args...)
}

func Sel(sel string, t *Term) *Term {
	s, ok := selOf[sel]
	if !ok {
		panic("no selector " + sel)
	}
	if t.op == s.c.name {
		return t.args[s.i]
	}
	if t.op == "ite" {
		a, b := Sel(sel, t.args[1]), Sel(sel, t.args[2])
		return Ite(t.args[0], a, b)
	}
	return raw(sel, s.c.sorts[s.i], t)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == True {
			continue
		}
		if t == False {
			return False
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("and", SBool, out...)
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == False {
			continue
		}
		if t == True {
			return True
		}
		l := []*Term{t}
		if t.op == "or" {
			l = t.args
		}
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("or", SBool, out...)
}
func Not(t *Term) *Term {
	if t == True {
		return False
	}
	if t == False {
		return True
	}
	if t.op == "not" {
		return t.args[0]
	}
	return raw("not", SBool, t)
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return raw("=>", SBool, a, b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.sort + " " + b.sort)
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
	}
	return raw("ite", a.sort, c, a, b)
}

// offset splits t as base+k.
func offset(t *Term) (*Term, int64) {
	if n, ok := t.num(); ok {
		return nil, n
	}
	if t.op == "+" && len(t.args) == 2 {
		if n, ok := t.args[1].num(); ok {
			return t.args[0], n
		}
	}
	return t, 0
}

func addOK(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) {
		return c, true
	}
	return 0, false
}

func Add(a, b *Term) *Term {
	ab, ak := offset(a)
	bb, bk := offset(b)
	if k, ok := addOK(ak, bk); ok && (a.op != "#" || ab == nil) {
		switch {
		case a.isNum() && ab == nil && b.isNum() && bb == nil:
			if _, ok1 := a.num(); ok1 {
				if _, ok2 := b.num(); ok2 {
					return Num(k)
				}
			}
		case b.isNum() && bb == nil && ab != nil:
			if k == 0 {
				return ab
			}
			return raw("+", SInt, ab, Num(k))
		case a.isNum() && ab == nil && bb != nil:
			if k == 0 {
				return bb
			}
			return raw("+", SInt, bb, Num(k))
		case ab != nil && bb != nil:
			s := raw("+", SInt, ab, bb)
			if ab.id > bb.id {
				s = raw("+", SInt, bb, ab)
			}
			// x + (y - x)
			if bb.op == "-" && len(bb.args) == 2 && bb.args[1] == ab {
				s = bb.args[0]
			} else if ab.op == "-" && len(ab.args) == 2 && ab.args[1] == bb {
				s = ab.args[0]
			}
			if k == 0 {
				return s
			}
			return Add(s, Num(k))
		}
	}
	return raw("+", SInt, a, b)
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Num(0)
	}
	ab, ak := offset(a)
	bb, bk := offset(b)
	if ab == bb && (ab != nil || (a.isNum() && b.isNum())) {
		if k, ok := addOK(ak, -bk); ok {
			return Num(k)
		}
	}
	if n, ok := b.num(); ok && n != -n {
		return Add(a, Num(-n))
	}
	if bb != nil && bk != 0 {
		return Add(Sub(a, bb), Num(-bk))
	}
	if ab != nil && ak != 0 {
		return Add(Sub(ab, b), Num(ak))
	}
	return raw("-", SInt, a, b)
}
func Mul(a, b *Term) *Term {
	x, ok1 := a.num()
	y, ok2 := b.num()
	if ok1 && ok2 && (x == 0 || (x*y)/x == y) {
		return Num(x * y)
	}
	if ok1 && x == 1 {
		return b
	}
	if ok2 && y == 1 {
		return a
	}
	if ok1 && x == 0 || ok2 && y == 0 {
		return Num(0)
	}
	return raw("*", SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	ab, ak := offset(a)
	bb, bk := offset(b)
	if ab == bb {
		return Bool(ak <= bk)
	}
	if upLe(a, b) {
		return True
	}
	return raw("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	ab, ak := offset(a)
	bb, bk := offset(b)
	if ab == bb {
		return Bool(ak < bk)
	}
	if below(a, b) {
		return True
	}
	return raw("<", SBool, a, b)
}
func upLe(a, b *Term) bool { return below(a, b) }

// upper returns a known strict upper bound of a reference term.
func upper(t *Term) (*Term, int64, bool) {
	if t.upBase != nil {
		return t.upBase, t.upOff, true
	}
	switch t.op {
	case "ite":
		b1, o1, k1 := upper(t.args[1])
		b2, o2, k2 := upper(t.args[2])
		if k1 && k2 {
			if geq(b2, o2, b1, o1) {
				return b2, o2, true
			}
			if geq(b1, o1, b2, o2) {
				return b1, o1, true
			}
		}
		if n, ok := t.args[1].num(); ok && n <= 0 && k2 {
			return b2, o2, true
		}
		if n, ok := t.args[2].num(); ok && n <= 0 && k1 {
			return b1, o1, true
		}
	case "+":
		if b, k := offset(t); b != nil && b.geBase != nil || isNext(b) {
			return b, k + 1, true
		}
	case "sym":
		if isNext(t) {
			return t, 1, true
		}
	default:
		// values read from a heap symbol are bounded by the symbol's metadata,
		// provided the object read was itself allocated before that
		if t.op != "select" && !isSel(t.op) {
			break
		}
		h := t
		var ref *Term
		for len(h.args) > 0 && (h.op == "select" || isSel(h.op)) {
			ref = nil
			if h.op == "select" {
				ref = h.args[1]
			}
			h = h.args[0]
		}
		if h.op != "sym" || h.upBase == nil {
			break
		}
		if ref != nil {
			if strings.HasPrefix(ref.op, "fld$") {
				ref = ref.args[0]
			}
			if n, ok := ref.num(); !ok || n > 0 {
				b, o, k := upper(ref)
				if !k || !geq(h.upBase, h.upOff, b, o) {
					break
				}
			}
		}
		return h.upBase, h.upOff, true
	}
	return nil, 0, false
}
func isSel(op string) bool { _, ok := selOf[op]; return ok }
func isNext(t *Term) bool {
	return t != nil && t.op == "sym" && strings.HasPrefix(t.name, "next")
}

// geq: is b1+o1 >= b2+o2 known?
func geq(b1 *Term, o1 int64, b2 *Term, o2 int64) bool {
	for i := 0; i < 64; i++ {
		if b1 == b2 {
			return o1 >= o2
		}
		if b1 == nil || b1.geBase == nil {
			return false
		}
		o1 += b1.geOff
		b1 = b1.geBase
	}
	return false
}

// below reports whether a < b is known from allocation metadata.
func below(a, b *Term) bool {
	bb, bk := offset(b)
	if bb == nil || !isNext(bb) {
		return false
	}
	if n, ok := a.num(); ok && n <= 0 {
		return true
	}
	ub, uo, ok := upper(a)
	if !ok {
		return false
	}
	return geq(bb, bk, ub, uo)
}

// ElIdx is the position of element i of a slice that starts at offset o of
// its array. It is kept as an application (defined by an axiom) so that it can
// serve as a quantifier pattern.
func ElIdx(o, i *Term) *Term {
	if o.isNum() {
		return Add(o, i)
	}
	return App("idx", SInt, o, i)
}

func knownDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "idx" && b.op == "idx" && a.args[0] == b.args[0] {
		return knownDistinct(a.args[1], b.args[1])
	}
	if a.isNum() && b.isNum() {
		return true
	}
	ab, ak := offset(a)
	bb, bk := offset(b)
	if ab == bb && ak != bk {
		return true
	}
	if a.sort == SInt && (below(a, b) || below(b, a)) {
		return true
	}
	if fa, fb := strings.HasPrefix(a.op, "fld$"), strings.HasPrefix(b.op, "fld$"); fa && fb {
		return a.op != b.op || knownDistinct(a.args[0], b.args[0])
	} else if fa || fb {
		if fb {
			a, b = b, a
		}
		// interior references are negative
		if n, ok := b.num(); ok && n >= 0 {
			return true
		}
		if bb, k := offset(b); isNext(bb) && k >= 0 {
			return true
		}
	}
	if _, ok := litText[a]; ok {
		if _, ok := litText[b]; ok {
			return true
		}
	}
	if ca, cb := ctorOf[a.op], ctorOf[b.op]; ca != nil && cb != nil {
		if ca != cb {
			return true
		}
		for i := range a.args {
			if knownDistinct(a.args[i], b.args[i]) {
				return true
			}
		}
	} else if a.op == "sym" && ctorOf[a.name] != nil && ctorOf[b.op] != nil {
		return true
	} else if b.op == "sym" && ctorOf[b.name] != nil && ctorOf[a.op] != nil {
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.sort, b.sort, a, b))
	}
	if knownDistinct(a, b) {
		return False
	}
	if ca := ctorOf[a.op]; ca != nil && ca == ctorOf[b.op] {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.op == "idx" && b.op == "idx" && a.args[0] == b.args[0] {
		return Eq(a.args[1], b.args[1])
	}
	// ite with constants against constant
	if a.op == "ite" && !strings.HasPrefix(a.sort, "(Array") {
		if x, y := Eq2(a.args[1], b), Eq2(a.args[2], b); x != nil && y != nil {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == "ite" && !strings.HasPrefix(b.sort, "(Array") {
		if x, y := Eq2(b.args[1], a), Eq2(b.args[2], a); x != nil && y != nil {
			return Ite(b.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("=", SBool, a, b)
}

// Eq2 decides equality when it is decided syntactically, else nil.
func Eq2(a, b *Term) *Term {
	if a == b {
		return True
	}
	if knownDistinct(a, b) {
		return False
	}
	return nil
}

func Select(a, i *Term) *Term {
	k, v := splitArr(a.sort)
	if i.sort != k {
		panic(fmt.Sprintf("select index sort %s want %s", i.sort, k))
	}
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if knownDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "const" {
		return a.args[0]
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store") {
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		if x == y {
			return x
		}
	}
	return raw("select", v, a, i)
}
func Store(a, i, v *Term) *Term {
	k, e := splitArr(a.sort)
	if i.sort != k || v.sort != e {
		panic(fmt.Sprintf("store sorts: %s [%s] = %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if a.op == "select" || a.op == "sym" || a.op == "store" {
		if v.op == "select" && v.args[0] == a && v.args[1] == i {
			return a
		}
	}
	return raw("store", a.sort, a, i, v)
}
func ConstArr(sort string, v *Term) *Term { return raw("const", sort, v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || len(vars) == 0 {
		return body
	}
	// drop unused variables
	used := map[*Term]bool{}
	for _, v := range body.fv {
		used[v] = true
	}
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		var q []*Term
		for _, t := range p {
			if okPattern(t) {
				q = append(q, t)
			}
		}
		if len(q) > 0 && coversAll(q, vs) {
			ps = append(ps, q)
		}
	}
	return intern(&Term{op: "forall", sort: SBool, args: []*Term{body}, vars: vs, pats: ps})
}

// okPattern: patterns may not contain logical connectives or comparisons.
func okPattern(t *Term) bool {
	if len(t.fv) == 0 || len(t.args) == 0 {
		return false
	}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		switch t.op {
		case "and", "or", "not", "=>", "=", "ite", "<", "<=", "distinct", "forall", "exists", "const":
			return false
		}
		for _, a := range t.args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	if t.op == "+" || t.op == "*" || t.op == "-" {
		return false
	}
	return ok(t)
}
func coversAll(p []*Term, vs []*Term) bool {
	set := map[*Term]bool{}
	for _, t := range p {
		for _, v := range t.fv {
			set[v] = true
		}
	}
	for _, v := range vs {
		if !set[v] {
			return false
		}
	}
	return true
}
func Exists(vars []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	used := map[*Term]bool{}
	for _, v := range body.fv {
		used[v] = true
	}
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return intern(&Term{op: "exists", sort: SBool, args: []*Term{body}, vars: vs})
}

// Subst replaces symbols by terms, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		var ps [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				y := f(x)
				ch = ch || y != x
				q = append(q, y)
			}
			ps = append(ps, q)
		}
		r := t
		if ch {
			r = rebuild(t, as, ps)
		}
		cache[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term, ps [][]*Term) *Term {
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Implies(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "+":
		return Add(as[0], as[1])
	case "-":
		return Sub(as[0], as[1])
	case "*":
		return Mul(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "<":
		return Lt(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "const":
		return ConstArr(t.sort, as[0])
	case "forall":
		return Forall(t.vars, as[0], ps...)
	case "exists":
		return Exists(t.vars, as[0])
	}
	if isSel(t.op) {
		return Sel(t.op, as[0])
	}
	if ctorOf[t.op] != nil {
		return Ctr(t.op, as...)
	}
	return raw(t.op, t.sort, as...)
}

// ---------- printing ----------

func (t *Term) String() string {
	var b strings.Builder
	t.print(&b, nil)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func qname(n string) string {
	if n == "true" || n == "false" {
		return n
	}
	if strings.HasPrefix(n, "str.") {
		n = "x" + n // str.* names are predefined in SMT-LIB
	}
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$?-", r)) {
			return "|" + n + "|"
		}
	}
	return n
}

func (t *Term) print(b *strings.Builder, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	t.printTop(b, names)
}
func (t *Term) printTop(b *strings.Builder, names map[*Term]string) {
	switch t.op {
	case "#":
		if strings.HasPrefix(t.name, "-") {
			b.WriteString("(- " + t.name[1:] + ")")
		} else {
			b.WriteString(t.name)
		}
	case "sym":
		b.WriteString(qname(t.name))
	case "const":
		b.WriteString("((as const " + t.sort + ") ")
		t.args[0].print(b, names)
		b.WriteByte(')')
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			b.WriteString("(" + qname(v.name) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].print(b, names)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					x.print(b, names)
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		b.WriteByte('(')
		b.WriteString(qname(t.op))
		for _, a := range t.args {
			b.WriteByte(' ')
			a.print(b, names)
		}
		b.WriteByte(')')
	}
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "distinct": true, "ite": true,
	"+": true, "-": true, "*": true, "div": true, "mod": true, "<=": true, "<": true, "select": true, "store": true, "const": true,
	"forall": true, "exists": true, "#": true, "sym": true}

// walk visits every distinct subterm once (post-order).
func walk(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var g func(*Term)
	g = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			g(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				g(x)
			}
		}
		f(t)
	}
	for _, t := range ts {
		g(t)
	}
}

func sortDeps(s string, f func(string)) {
	if strings.HasPrefix(s, "(Array ") {
		a, b := splitArr(s)
		sortDeps(a, f)
		sortDeps(b, f)
		return
	}
	f(s)
}

// SMT renders a query: assertions followed by check-sat.
func SMT(asserts []*Term) string {
	var b strings.Builder
	// collect
	refs := map[*Term]int{}
	syms := map[string]string{}
	var symOrder []string
	funs := map[string]*FuncDecl{}
	var funOrder []string
	sorts := map[string]bool{}
	var order []*Term
	walk(asserts, func(t *Term) {
		order = append(order, t)
		for _, a := range t.args {
			refs[a]++
		}
		sortDeps(t.sort, func(s string) { sorts[s] = true })
		for _, v := range t.vars {
			sortDeps(v.sort, func(s string) { sorts[s] = true })
		}
		if t.op == "sym" {
			if !t.bound && t != True && t != False && ctorOf[t.name] == nil {
				if _, ok := syms[t.name]; !ok {
					syms[t.name] = t.sort
					symOrder = append(symOrder, t.name)
				}
			}
			return
		}
		if builtinOps[t.op] || ctorOf[t.op] != nil || isSel(t.op) {
			return
		}
		f := funcTab[t.op]
		if f == nil {
			panic("undeclared function " + t.op)
		}
		if funs[t.op] == nil {
			funs[t.op] = f
			funOrder = append(funOrder, t.op)
			for _, a := range f.args {
				sortDeps(a, func(s string) { sorts[s] = true })
			}
			sortDeps(f.ret, func(s string) { sorts[s] = true })
		}
	})
	// datatype closure
	var dts []string
	done := map[string]bool{}
	var need func(s string)
	var opq []string
	need = func(s string) {
		if done[s] || s == SInt || s == SBool {
			return
		}
		done[s] = true
		if d := dtTab[s]; d != nil {
			for _, c := range d.ctors {
				for _, fs := range c.sorts {
					sortDeps(fs, need)
				}
			}
			dts = append(dts, s)
			return
		}
		opq = append(opq, s)
	}
	var ss []string
	for s := range sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		need(s)
	}
	sort.Strings(opq)
	for _, s := range opq {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, s := range dts {
		d := dtTab[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) ((", s)
		for _, c := range d.ctors {
			fmt.Fprintf(&b, "(%s", qname(c.name))
			for i, f := range c.fields {
				fmt.Fprintf(&b, " (%s %s)", qname(f), c.sorts[i])
			}
			b.WriteString(")")
		}
		b.WriteString(")))\n")
	}
	for _, n := range symOrder {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", qname(n), syms[n])
	}
	for _, n := range funOrder {
		f := funs[n]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", qname(n), strings.Join(f.args, " "), f.ret)
	}
	names := map[*Term]string{}
	for _, t := range order {
		if refs[t] > 1 && t.size > 3 && len(t.fv) == 0 && len(t.args) > 0 {
			n := "t." + strconv.Itoa(t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.sort)
			t.printTop(&b, names)
			b.WriteString(")\n")
			names[t] = n
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		a.print(&b, names)
		b.WriteString(")\n")
	}
	return b.String()
}
