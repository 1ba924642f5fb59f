package main

import "strings"

// Abstract finite sequences. One uninterpreted sort per element sort; axioms
// are those of finite lists (checked against Lean's List in selftest).

var seqElem = map[string]string{} // seq sort -> element sort
var seqOrder []string

func declSeq(k, es string) {
	if _, ok := seqElem[k]; ok {
		return
	}
	seqElem[k] = es
	seqOrder = append(seqOrder, k)
}

func seqSortOfElem(es string) string {
	k := "Seq_" + sanitize(strings.NewReplacer("(", "", ")", "", " ", "_").Replace(es))
	declSeq(k, es)
	return k
}

func SeqEmpty(k string) *Term { return App("empty$"+k, k) }
func SeqLen(s *Term) *Term {
	switch {
	case s.op == "sym" && strings.HasPrefix(s.name, "empty$"):
		return Num(0)
	case strings.HasPrefix(s.op, "snoc$"):
		return Add(SeqLen(s.args[0]), Num(1))
	case strings.HasPrefix(s.op, "cat$"):
		return Add(SeqLen(s.args[0]), SeqLen(s.args[1]))
	}
	return App("len$"+s.sort, SInt, s)
}
func SeqAt(s, i *Term) *Term {
	for strings.HasPrefix(s.op, "snoc$") {
		n := SeqLen(s.args[0])
		if n == i {
			return s.args[1]
		}
		if a, ok := i.num(); ok {
			if b, ok := n.num(); ok && a < b {
				s = s.args[0]
				continue
			}
		}
		break
	}
	return App("at$"+s.sort, seqElem[s.sort], s, i)
}
func SeqSnoc(s, x *Term) *Term { return App("snoc$"+s.sort, s.sort, s, x) }
func SeqCat(s, t *Term) *Term {
	if t.op == "sym" && strings.HasPrefix(t.name, "empty$") {
		return s
	}
	if s.op == "sym" && strings.HasPrefix(s.name, "empty$") {
		return t
	}
	if strings.HasPrefix(t.op, "snoc$") {
		return SeqSnoc(SeqCat(s, t.args[0]), t.args[1])
	}
	return App("cat$"+s.sort, s.sort, s, t)
}
func SeqTake(s, n *Term) *Term {
	if v, ok := n.num(); ok && v == 0 {
		return SeqEmpty(s.sort)
	}
	return App("take$"+s.sort, s.sort, s, n)
}
func SeqMem(s, x *Term) *Term {
	if s.op == "sym" && strings.HasPrefix(s.name, "empty$") {
		return False
	}
	return App("mem$"+s.sort, SBool, s, x)
}
func SeqNodup(s *Term) *Term { return App("nodup$"+s.sort, SBool, s) }

// SeqEq is equality with extensionality available to the solver.
func SeqEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("seqeq$"+a.sort, SBool, a, b)
}

// SeqOf: the n elements of array content A starting at o.
func SeqOf(A, o, n *Term) *Term {
	_, es := splitArr(A.sort)
	k := seqSortOfElem(es)
	if v, ok := n.num(); ok && v == 0 {
		return SeqEmpty(k)
	}
	if v, ok := n.num(); ok && v > 0 && v <= 8 {
		s := SeqEmpty(k)
		for i := int64(0); i < v; i++ {
			s = SeqSnoc(s, Select(A, ElIdx(o, Num(i))))
		}
		return s
	}
	return App("of$"+k, k, A, o, n)
}

func seqAxioms(used map[string]bool, sorts map[string]bool) []*Term {
	var out []*Term
	for _, k := range seqOrder {
		if !sorts[k] {
			continue
		}
		es := seqElem[k]
		s, t := FVar("s", k), FVar("t", k)
		x, y := FVar("x", es), FVar("y", es)
		i, j, n := FVar("i", SInt), FVar("j", SInt), FVar("n", SInt)
		L := func(t *Term) *Term { return App("len$"+k, SInt, t) }
		At := func(t, i *Term) *Term { return App("at$"+k, es, t, i) }
		Snoc := func(t, x *Term) *Term { return App("snoc$"+k, k, t, x) }
		Cat := func(s, t *Term) *Term { return App("cat$"+k, k, s, t) }
		Take := func(s, n *Term) *Term { return App("take$"+k, k, s, n) }
		Mem := func(s, x *Term) *Term { return App("mem$"+k, SBool, s, x) }
		Nd := func(s *Term) *Term { return App("nodup$"+k, SBool, s) }
		E := App("empty$"+k, k)
		P := func(ts ...*Term) []*Term { return ts }
		le := func(a, b *Term) *Term { return raw("<=", SBool, a, b) }
		lt := func(a, b *Term) *Term { return raw("<", SBool, a, b) }
		out = append(out,
			Eq(L(E), Num(0)),
			Forall(P(s), And(le(Num(0), L(s)), Implies(Eq(L(s), Num(0)), Eq(s, E))), P(L(s))),
			Forall(P(s, x), And(Eq(L(Snoc(s, x)), Add(L(s), Num(1))), Eq(At(Snoc(s, x), L(s)), x)), P(Snoc(s, x))),
			Forall(P(s, x, i), Implies(And(le(Num(0), i), lt(i, L(s))), Eq(At(Snoc(s, x), i), At(s, i))), P(At(Snoc(s, x), i))),
			Forall(P(s, x, i), Implies(And(le(Num(0), i), lt(i, L(s))), Eq(At(Snoc(s, x), i), At(s, i))), P(Snoc(s, x), At(s, i))),
		)
		has := func(p string) bool { return used[p+"$"+k] }
		if has("cat") {
			out = append(out,
				Forall(P(s, t), Eq(L(Cat(s, t)), Add(L(s), L(t))), P(Cat(s, t))),
				Forall(P(s, t, i), Implies(And(le(Num(0), i), lt(i, Add(L(s), L(t)))),
					Eq(At(Cat(s, t), i), Ite(lt(i, L(s)), At(s, i), At(t, Sub(i, L(s)))))), P(At(Cat(s, t), i))),
				Forall(P(s), Eq(Cat(s, E), s), P(Cat(s, E))),
				Forall(P(s), Eq(Cat(E, s), s), P(Cat(E, s))),
				Forall(P(s, t, x), Eq(Cat(s, Snoc(t, x)), Snoc(Cat(s, t), x)), P(Cat(s, Snoc(t, x)))),
			)
			if has("mem") {
				out = append(out, Forall(P(s, t, x), Eq(Mem(Cat(s, t), x), Or(Mem(s, x), Mem(t, x))), P(Mem(Cat(s, t), x))))
			}
			// associativity
			u := FVar("u", k)
			out = append(out, Forall(P(s, t, u), Eq(Cat(Cat(s, t), u), Cat(s, Cat(t, u))), P(Cat(Cat(s, t), u))))
		}
		if has("take") {
			out = append(out,
				Forall(P(s, n), Implies(And(le(Num(0), n), le(n, L(s))), Eq(L(Take(s, n)), n)), P(Take(s, n))),
				Forall(P(s, n, i), Implies(And(le(Num(0), i), lt(i, n), le(n, L(s))), Eq(At(Take(s, n), i), At(s, i))), P(At(Take(s, n), i))),
				Forall(P(s, n), Implies(Eq(n, L(s)), Eq(Take(s, n), s)), P(Take(s, n))),
				Forall(P(s), Eq(Take(s, Num(0)), E), P(Take(s, Num(0)))),
				Forall(P(s, n), Implies(And(le(Num(0), n), lt(n, L(s))), Eq(Take(s, Add(n, Num(1))), Snoc(Take(s, n), At(s, n)))), P(Take(s, n), At(s, n))),
				Forall(P(s, n), Implies(And(le(Num(0), n), lt(n, L(s))), Eq(Take(s, Add(n, Num(1))), Snoc(Take(s, n), At(s, n)))), P(Take(s, Add(n, Num(1))))),
			)
		}
		if has("mem") {
			ix := App("idx$"+k, SInt, s, x)
			out = append(out,
				Forall(P(x), Not(Mem(E, x)), P(Mem(E, x))),
				Forall(P(s, x), Implies(Mem(s, x), And(le(Num(0), ix), lt(ix, L(s)), Eq(At(s, ix), x))), P(Mem(s, x))),
				Forall(P(s, i), Implies(And(le(Num(0), i), lt(i, L(s))), Mem(s, At(s, i))), P(At(s, i))),
				Forall(P(s, x, y), Eq(Mem(Snoc(s, x), y), Or(Mem(s, y), Eq(x, y))), P(Mem(Snoc(s, x), y))),
			)
		}
		if has("nodup") {
			out = append(out,
				Nd(E),
				Forall(P(s, x), Eq(Nd(Snoc(s, x)), And(Nd(s), Not(Mem(s, x)))), P(Nd(Snoc(s, x)))),
				Forall(P(s, i, j), Implies(And(Nd(s), le(Num(0), i), lt(i, L(s)), le(Num(0), j), lt(j, L(s)), Not(Eq(i, j))), Not(Eq(At(s, i), At(s, j)))), P(Nd(s), At(s, i), At(s, j))),
			)
			if !has("mem") {
				out = append(out, Forall(P(s, x, y), Eq(Mem(Snoc(s, x), y), Or(Mem(s, y), Eq(x, y))), P(Mem(Snoc(s, x), y))),
					Forall(P(x), Not(Mem(E, x)), P(Mem(E, x))))
			}
		}
		if has("of") {
			A := FVar("A", arr(SInt, es))
			o := FVar("o", SInt)
			Of := func(A, o, n *Term) *Term { return App("of$"+k, k, A, o, n) }
			out = append(out,
				Forall(P(A, o, n), And(Eq(L(Of(A, o, n)), Ite(le(Num(0), n), n, Num(0))), Implies(le(n, Num(0)), Eq(Of(A, o, n), E))), P(Of(A, o, n))),
				Forall(P(A, o, n, i), Implies(And(le(Num(0), i), lt(i, n)), Eq(At(Of(A, o, n), i), raw("select", es, A, App("idx", SInt, o, i)))), P(At(Of(A, o, n), i))),
				Forall(P(A, o, n, i), Implies(And(le(Num(0), i), lt(i, n)), Eq(At(Of(A, o, n), i), raw("select", es, A, App("idx", SInt, o, i)))), P(Of(A, o, n), raw("select", es, A, App("idx", SInt, o, i)))),
			)
		}
		if has("seqeq") {
			d := App("diff$"+k, SInt, s, t)
			q := App("seqeq$"+k, SBool, s, t)
			out = append(out,
				Forall(P(s, t), And(Eq(q, Eq(s, t)),
					Or(Eq(s, t), Not(Eq(L(s), L(t))), And(le(Num(0), d), lt(d, L(s)), Not(Eq(At(s, d), At(t, d)))))), P(q)),
			)
		}
	}
	return out
}
