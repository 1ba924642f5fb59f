package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Callers of UnmarshalEvents (C24, C25) see it as: the events decoded from the
// annotations, a function of their contents, are added to *events; or an error, also a
// function of them. How it decodes is C22's subject.
func init() {
	const name = repoModule + ".UnmarshalEvents"
	externModels[name] = func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
		if v.lockMode {
			return nil // executed
		}
		v.assumeExt("appdash.UnmarshalEvents, as seen by its callers: the decoded events are a function of the annotations (its own contract is C22's)")
		ps := fullSig(fn).Params()
		et := ps.At(1).Type().Underlying().(*types.Pointer).Elem()
		elem := et.Underlying().(*types.Slice).Elem()
		k := seqT(elem)
		q := v.evArg(s, args[0], ps.At(0).Type())
		evs := PureTerm(name, 0, k.sort, q)
		err := PureTerm(name+".err", 0, SIface, q)
		a := v.toAddr(args[1], ps.At(1).Type())
		old := v.load(s, a, pos)
		was := v.seqOfSlice(s, old, elem)
		A := Fresh("events", arr(SInt, sortOf(elem)))
		n := Fresh("nevents", SInt)
		s.assume(And(Le(Num(0), n), leRaw(n, NumS("1099511627776"))))
		s.assume(Le(Num(0), SeqLen(evs)))
		r := v.newArr(s, elem, A)
		i := FVar("i", SInt)
		s.assume(Implies(Eq(err, NilIface), Forall([]*Term{i}, Implies(And(Le(Num(0), i), Lt(i, n)), Eq(Select(A, i), SeqAt(SeqCat(was, evs), i))), []*Term{Select(A, i)})))
		s.assume(Implies(Eq(err, NilIface), And(Eq(App("of$"+k.sort, k.sort, A, Num(0), n), SeqCat(was, evs)), Eq(n, SeqLen(SeqCat(was, evs))))))
		v.store(s, a, Ctr("sl", r, Num(0), n, n), pos)
		return ret(s, err)
	}
	// parseuint(s, base, bits): what strconv.ParseUint yields; parsesuint: whether it does.
	specBuiltins["parseuint"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("parseuint.val", SInt, a[0].t, a[1].t, a[2].t), tMath}
	}
	specBuiltins["parsesuint"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("parseuint.ok", SBool, a[0].t, a[1].t, a[2].t), tBool}
	}
	specBuiltins["reports"] = func(v *Ver, e *env, a []TV) TV { // the errors a combined error reports
		return TV{errReports(a[0].t), seqT(tError)}
	}
	specBuiltins["fmtuint"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("fmtuint", SStr, a[0].t, a[1].t), tString}
	}
	specBuiltins["clampdur"] = func(v *Ver, e *env, a []TV) TV { return TV{clampDur(a[0].t), tMath} }
	// roundms(d): int64(float64(d)/float64(time.Millisecond) + 0.5), in float arithmetic.
	specBuiltins["roundms"] = func(v *Ver, e *env, a []TV) TV {
		f := App("flt.div", SFlt, App("flt.ofint$float64", SFlt, a[0].t), Sym("flt$"+sanitize("1000000"), SFlt))
		return TV{App("flt.toint$int64", SInt, App("flt.add", SFlt, f, Sym("flt$"+sanitize("1/2"), SFlt))), tMath}
	}
}
