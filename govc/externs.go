package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/http"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of standard-library functions. Each is an assumption, listed in the
// evidence of every property whose functions call it.

type extModel func(*Ver, *State, *ssa.Function, []Val, token.Pos) []Out

var externModels map[string]extModel

func ret(s *State, rs ...Val) []Out { return []Out{{s, rs}} }

func (v *Ver) assumeExt(name string) {
	v.assumes["model of "+name+" (standard library) assumed"] = true
}

const SNanoT = "O_time.Time"

func regClock() {
	regHeap("clock", &heapInfo{kind: "global", typ: tMath, sort: SInt})
}

func clockOf(s *State) *Term {
	regClock()
	return s.get("clock")
}

var timeSort string

func (v *Ver) tick(s *State) *Term {
	regClock()
	k := Add(clockOf(s), Num(1))
	v.put(s, "clock", nil, k)
	return App("t$at", timeSort, k)
}
func nano(t *Term) *Term {
	switch t.op {
	case "t$add":
		return Add(nano(t.args[0]), t.args[1])
	}
	return App("t$nano", SInt, t)
}

func clampDur(x *Term) *Term {
	lo, hi := NumS("-9223372036854775808"), NumS("9223372036854775807")
	return Ite(raw("<", SBool, x, lo), lo, Ite(raw("<", SBool, hi, x), hi, x))
}

// newError is a fresh non-nil error value.
func (v *Ver) newError(s *State) *Term {
	r := s.next
	s.next = Add(s.next, Num(1))
	return Ctr("imk", Num(-1), App("box$Int", SBox, r))
}

func canon(k *Term) *Term {
	if l, ok := litText[k]; ok {
		return StrLit(http.CanonicalHeaderKey(l))
	}
	return App("http.canon", SStr, k)
}

func hasPrefix(s, p *Term) *Term {
	a, ok1 := litText[s]
	b, ok2 := litText[p]
	if ok1 && ok2 {
		return Bool(strings.HasPrefix(a, b))
	}
	if s.op == "str.cat" && ok2 {
		if h, ok := litText[s.args[0]]; ok {
			if strings.HasPrefix(h, b) {
				return True
			}
			if len(h) >= len(b) {
				return False
			}
		}
	}
	return App("str.hasprefix", SBool, s, p)
}

func fieldNamed(a *AddrV, name string) *AddrV {
	st := a.leafType().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return a.field(i)
		}
	}
	panic(unsupportedErr{"no field " + name})
}

func (v *Ver) headerMap() *types.Map {
	return types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String]))
}

func argT(v *Ver, s *State, fn *ssa.Function, args []Val, i int) *Term {
	return v.toTerm(s, args[i], fullSig(fn).Params().At(i).Type())
}

func init() {
	timeSort = "O_time.Time"
	lock := func(op string) extModel {
		return func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.lockOp(s, args[0], fullSig(fn).Params().At(0).Type(), op, pos)
			return ret(s)
		}
	}
	skip := func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
		return []Out{{s, v.results(s, fn.Signature, func(i int, t types.Type) *Term { return Fresh("ign", sortOf(t)) })}}
	}
	logger := func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
		if t, ok := args[0].(*Term); ok {
			v.oblige(s, "safety", "nil logger", pos, Not(Eq(t, Num(0))))
		}
		return ret(s)
	}
	dies := func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out { return []Out{} }
	newErr := func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
		return ret(s, v.newError(s))
	}
	pure := func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
		return []Out{{s, v.pureCall(s, fn.String(), nil, args, fullSig(fn))}}
	}
	externModels = map[string]extModel{
		"(*sync.Mutex).Lock":      lock("Lock"),
		"(*sync.Mutex).Unlock":    lock("Unlock"),
		"(*sync.RWMutex).Lock":    lock("Lock"),
		"(*sync.RWMutex).Unlock":  lock("Unlock"),
		"(*sync.RWMutex).RLock":   lock("RLock"),
		"(*sync.RWMutex).RUnlock": lock("RUnlock"),
		"(*sync.Once).Do": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			cl, ok := args[1].(*ClosureV)
			if !ok {
				v.unsupported("sync.Once.Do of unknown function")
			}
			q := s.clone()
			outs := v.callStatic(q, cl.fn, nil, cl.bindings, pos)
			var r []Out
			r = append(r, Out{s, nil})
			for _, o := range outs {
				r = append(r, Out{o.st, nil})
			}
			return v.mergeOuts(r)
		},
		"log.Printf": skip, "log.Println": skip, "log.Print": skip, "log.New": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			r := s.next
			s.next = Add(s.next, Num(1))
			return ret(s, r)
		},
		"log.Fatal": dies, "log.Fatalf": dies, "os.Exit": dies,
		"(*log.Logger).Printf": logger, "(*log.Logger).Println": logger, "(*log.Logger).Print": logger,
		"errors.New": newErr, "fmt.Errorf": errorf, "errors.Join": errJoin,
		"time.Sleep": skip, "fmt.Fprint": skip, "fmt.Fprintf": skip, "fmt.Fprintln": skip,
		"strings.EqualFold": pure, "strings.Repeat": pure,
		"time.Now": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("package time: a clock that never goes backwards, UnixNano within int64")
			return ret(s, v.tick(s))
		},
		"time.Since": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("package time: a clock that never goes backwards, UnixNano within int64")
			t := argT(v, s, fn, args, 0)
			return ret(s, clampDur(Sub(nano(v.tick(s)), nano(t))))
		},
		"(time.Time).Add": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, App("t$add", timeSort, argT(v, s, fn, args, 0), argT(v, s, fn, args, 1)))
		},
		"(time.Time).Sub": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, clampDur(Sub(nano(argT(v, s, fn, args, 0)), nano(argT(v, s, fn, args, 1)))))
		},
		"(time.Time).UnixNano": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, nano(argT(v, s, fn, args, 0)))
		},
		"(time.Time).IsZero": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, timeIsZero(argT(v, s, fn, args, 0)))
		},
		"(time.Time).Before": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, Lt(nano(argT(v, s, fn, args, 0)), nano(argT(v, s, fn, args, 1))))
		},
		"(time.Time).After": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, Lt(nano(argT(v, s, fn, args, 1)), nano(argT(v, s, fn, args, 0))))
		},
		"(time.Time).Equal": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, Eq(nano(argT(v, s, fn, args, 1)), nano(argT(v, s, fn, args, 0))))
		},
		"(time.Duration).Nanoseconds": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, argT(v, s, fn, args, 0))
		},
		"strconv.ParseUint": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("strconv.ParseUint: a function of its arguments; parsing 16-digit hexadecimal text gives the number back")
			x, b, w := argT(v, s, fn, args, 0), argT(v, s, fn, args, 1), argT(v, s, fn, args, 2)
			ok, val := App("parseuint.ok", SBool, x, b, w), App("parseuint.val", SInt, x, b, w)
			s.assume(Implies(ok, inRange(val, tUint64)))
			e := v.newError(s)
			// on error the value is arbitrary (0 or the largest value)
			bad := v.fresh(s, "parsebad", tUint64)
			return ret(s, Ite(ok, val, bad), Ite(ok, NilIface, e))
		},
		"strconv.FormatUint": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, App("fmtuint", SStr, argT(v, s, fn, args, 0), argT(v, s, fn, args, 1)))
		},
		"strings.Split": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("strings.Split")
			k := seqT(tString).sort
			q := App("str.split", k, argT(v, s, fn, args, 0), argT(v, s, fn, args, 1))
			A := Fresh("parts", arr(SInt, SStr))
			n := SeqLen(q)
			s.assume(And(Le(Num(1), n), leRaw(n, NumS("1099511627776"))))
			r := v.newArr(s, tString, A)
			s.assume(Eq(App("of$"+k, k, A, Num(0), n), q))
			return ret(s, Ctr("sl", r, Num(0), n, n))
		},
		"strings.SplitN": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			x, sep, k := argT(v, s, fn, args, 0), argT(v, s, fn, args, 1), argT(v, s, fn, args, 2)
			if c, ok := k.num(); !ok || c != 2 {
				return []Out{{s, v.opaque(s, "strings.SplitN", fn.Signature)}}
			}
			v.assumeExt("strings.SplitN with a limit of 2")
			A := Fresh("parts", arr(SInt, SStr))
			n := Ite(App("str.contains", SBool, x, sep), Num(2), Num(1))
			r := v.newArr(s, tString, A)
			s.assume(Eq(x, Ite(App("str.contains", SBool, x, sep), StrCat(Select(A, Num(0)), StrCat(sep, Select(A, Num(1)))), Select(A, Num(0)))))
			return ret(s, Ctr("sl", r, Num(0), n, n))
		},
		"strings.Join": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("strings.Join: a function of its arguments")
			ps := fullSig(fn).Params()
			return ret(s, App("str.join", SStr, v.evArg(s, args[0], ps.At(0).Type()), argT(v, s, fn, args, 1)))
		},
		"strings.HasPrefix": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("strings.HasPrefix")
			return ret(s, hasPrefix(argT(v, s, fn, args, 0), argT(v, s, fn, args, 1)))
		},
		"strings.TrimPrefix": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			x, p := argT(v, s, fn, args, 0), argT(v, s, fn, args, 1)
			return ret(s, Ite(hasPrefix(x, p), App("str.sub", SStr, x, StrLen(p), StrLen(x)), x))
		},
		"(*net/http.Request).Context": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("http.Request.Context and WithContext")
			a := v.toAddr(args[0], fullSig(fn).Params().At(0).Type())
			c := v.load(s, fieldNamed(a, "ctx"), pos)
			s.assume(Not(Eq(App("ctx.background", SIface), NilIface)))
			return ret(s, Ite(Eq(c, NilIface), App("ctx.background", SIface), c))
		},
		"(*net/http.Request).WithContext": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("http.Request.Context and WithContext")
			pt := fullSig(fn).Params().At(0).Type()
			a := v.toAddr(args[0], pt)
			r := s.next
			s.next = Add(s.next, Num(1))
			b := v.toAddr(r, pt)
			v.store(s, b, v.load(s, a, pos), pos)
			v.store(s, fieldNamed(b, "ctx"), argT(v, s, fn, args, 1), pos)
			return ret(s, r)
		},
		"context.WithValue": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			c := App("ctx.with", SIface, argT(v, s, fn, args, 0), argT(v, s, fn, args, 1), argT(v, s, fn, args, 2))
			s.assume(Not(Eq(c, NilIface)))
			return ret(s, c)
		},
		"net/http.CanonicalHeaderKey": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return ret(s, canon(argT(v, s, fn, args, 0)))
		},
		"(net/http.Header).Get": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("http.Header")
			mt := v.headerMap()
			_, x := v.mapGet(s, argT(v, s, fn, args, 0), mt, canon(argT(v, s, fn, args, 1)))
			first := Select(v.content(s, x, tString), Sel("s.off", x))
			return ret(s, Ite(Eq(Sel("s.len", x), Num(0)), StrLit(""), first))
		},
		"(net/http.Header).Set": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("http.Header")
			h := argT(v, s, fn, args, 0)
			v.oblige(s, "safety", "assignment to entry in nil header", pos, Not(Eq(h, Num(0))))
			x := v.materialize(s, &SliceLit{elem: tString, elems: []*Term{argT(v, s, fn, args, 2)}})
			v.mapStore(s, h, v.headerMap(), canon(argT(v, s, fn, args, 1)), x)
			return ret(s)
		},
		"(net/http.Header).Del": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.mapDelete(s, argT(v, s, fn, args, 0), v.headerMap(), canon(argT(v, s, fn, args, 1)))
			return ret(s)
		},
		"fmt.Sprintf": sprintf,
		"encoding/json.Marshal": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			if t, ok := args[0].(*Term); ok && t.op == "imk" {
				if dt := tagType(t.args[0]); dt != nil && sortOf(dt) == SStr && !methodOK(dt, "MarshalJSON") && !methodOK(dt, "MarshalText") {
					v.assumeExt("encoding/json: a string encodes without error; 16-digit hexadecimal text decodes to itself")
					return ret(s, v.newBytes(s, App("json.str", SStr, unbox(t, dt))), NilIface)
				}
			}
			return []Out{{s, v.opaque(s, "encoding/json.Marshal", fn.Signature)}}
		},
		"encoding/json.Unmarshal": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			if t, ok := args[1].(*Term); ok && t.op == "imk" {
				if dt := tagType(t.args[0]); dt != nil {
					if pt, ok := dt.Underlying().(*types.Pointer); ok {
						kind := ""
						if types.Identical(pt.Elem(), tString) {
							kind = "str"
						} else if types.Identical(pt.Elem(), tUint64) {
							kind = "uint"
						}
						if kind != "" {
							v.assumeExt("encoding/json.Unmarshal into a string or uint64: a function of the data; the destination is arbitrary on error")
							d := v.evArg(s, args[0], fn.Signature.Params().At(0).Type())
							okT, val := App("json."+kind+".ok", SBool, d), App("json."+kind+".val", sortOf(pt.Elem()), d)
							s.assume(Implies(okT, wfValue(val, pt.Elem(), s.next)))
							bad := v.fresh(s, "jsonbad", pt.Elem())
							v.store(s, v.toAddr(unbox(t, dt), dt), Ite(okT, val, bad), pos)
							return ret(s, Ite(okT, NilIface, v.newError(s)))
						}
					}
				}
			}
			v.unsupported("json.Unmarshal into this type")
			return nil
		},
		"crypto/subtle.ConstantTimeCompare": func(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			v.assumeExt("subtle.ConstantTimeCompare: 1 exactly when the contents are equal")
			ps := fullSig(fn).Params()
			return ret(s, Ite(SeqEq(v.evArg(s, args[0], ps.At(0).Type()), v.evArg(s, args[1], ps.At(1).Type())), Num(1), Num(0)))
		},
	}
	extraAxioms = append(extraAxioms, stdAxioms)
	specBuiltins["nano"] = func(v *Ver, e *env, a []TV) TV { return TV{nano(a[0].t), tMath} }
	specBuiltins["iszero"] = func(v *Ver, e *env, a []TV) TV { return TV{timeIsZero(a[0].t), tBool} }
	specBuiltins["now"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("t$at", timeSort, a[0].t), v.prog.timeType()}
	}
	specBuiltins["parseok"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("parseuint.ok", SBool, a[0].t, Num(16), Num(64)), tBool}
	}
	specBuiltins["parseval"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("parseuint.val", SInt, a[0].t, Num(16), Num(64)), tMath}
	}
	specBuiltins["split"] = func(v *Ver, e *env, a []TV) TV {
		k := seqT(tString)
		return TV{App("str.split", k.sort, a[0].t, a[1].t), k}
	}
	specBuiltins["join"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("str.join", SStr, v.asEvArg(a[0], e), a[1].t), tString}
	}
	specBuiltins["jsonstr"] = func(v *Ver, e *env, a []TV) TV { return TV{App("json.str", SStr, a[0].t), tString} }
	for _, k := range []string{"str", "uint"} {
		k := k
		t := types.Type(tString)
		if k == "uint" {
			t = tUint64
		}
		specBuiltins["json"+k+"ok"] = func(v *Ver, e *env, a []TV) TV {
			return TV{App("json."+k+".ok", SBool, v.asEvArg(a[0], e)), tBool}
		}
		specBuiltins["json"+k+"val"] = func(v *Ver, e *env, a []TV) TV {
			return TV{App("json."+k+".val", sortOf(t), v.asEvArg(a[0], e)), t}
		}
	}
	// fmt("%+v", x): what that verb prints for x
	specBuiltins["fmt"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("fmt."+sanitize(litText[a[0].t][1:]), SStr, a[1].t), tString}
	}
	specBuiltins["hex16"] = func(v *Ver, e *env, a []TV) TV { return TV{App("hex16", SStr, a[0].t), tString} }
	specBuiltins["hasprefix"] = func(v *Ver, e *env, a []TV) TV { return TV{hasPrefix(a[0].t, a[1].t), tBool} }
	specBuiltins["substr"] = func(v *Ver, e *env, a []TV) TV {
		return TV{App("str.sub", SStr, a[0].t, a[1].t, a[2].t), tString}
	}
	specBuiltins["canon"] = func(v *Ver, e *env, a []TV) TV { return TV{canon(a[0].t), tString} }
	specBuiltins["ctxvalue"] = func(v *Ver, e *env, a []TV) TV { return TV{App("ctx.value", SIface, a[0].t, a[1].t), a[1].typ} }
	specBuiltins["ctxof"] = func(v *Ver, e *env, a []TV) TV { // the context of a request
		c := v.load(e.st, fieldNamed(v.toAddr(a[0].t, a[0].typ), "ctx"), token.NoPos)
		return TV{Ite(Eq(c, NilIface), App("ctx.background", SIface), c), types.Universe.Lookup("any").Type()}
	}
	specBuiltins["elem"] = func(v *Ver, e *env, a []TV) TV { return v.evalIndex(a[0], a[1], e) }
}

func (p *Prog) timeType() types.Type {
	return p.byPath["time"].Scope().Lookup("Time").Type()
}

func timeIsZero(t *Term) *Term { return Eq(nano(t), NumS("-62135596800000000000")) }

// errorf: a new error; one that is given a list of errors reports that list.
func errorf(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	r := v.newError(s)
	var list *Term
	n := 0
	if sl, ok := args[1].(*SliceLit); ok {
		for _, a := range sl.elems {
			if a.op != "imk" {
				continue
			}
			if t, ok := tagType(a.args[0]).(*types.Slice); ok && types.Identical(t.Elem(), tError) {
				list = v.seqOfSlice(s, unbox(a, t), t.Elem())
				n++
			}
		}
	}
	if n == 1 {
		v.assumeExt("fmt.Errorf: a list of errors among the arguments is reported in full")
		s.assume(Eq(errReports(r), list))
	}
	return ret(s, r)
}

func errReports(e *Term) *Term { return App("err.reports", seqSortOfElem(SIface), e) }

// errJoin: nil of an empty list, otherwise (no nil among them) an error that reports the list.
func errJoin(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	v.assumeExt("errors.Join")
	sl := argT(v, s, fn, args, 0)
	q := v.seqOfSlice(s, sl, tError)
	r := Fresh("joined", SIface)
	i := FVar("i", SInt)
	at := SeqAt(q, i)
	all := Forall([]*Term{i}, Implies(And(Le(Num(0), i), Lt(i, SeqLen(q))), Not(Eq(at, NilIface))), []*Term{at})
	s.assume(Implies(Eq(SeqLen(q), Num(0)), Eq(r, NilIface)))
	s.assume(Implies(And(all, Lt(Num(0), SeqLen(q))), And(Not(Eq(r, NilIface)), Eq(errReports(r), q))))
	return ret(s, r)
}

var tError = types.Universe.Lookup("error").Type()

// sprintf interprets constant formats built from %s, %v, %d and %016x.
func sprintf(v *Ver, s *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	f, ok := args[0].(*Term)
	lit, isLit := litText[f]
	sl, ok2 := args[1].(*SliceLit)
	if args[1] == Val(NilSlice) {
		sl, ok2 = &SliceLit{}, true
	}
	if !ok || !isLit || !ok2 {
		return ret(s, Fresh("sprintf", SStr))
	}
	v.assumeExt("fmt.Sprintf for the verbs used")
	out := StrLit("")
	ai := 0
	for i := 0; i < len(lit); {
		j := strings.IndexByte(lit[i:], '%')
		if j < 0 {
			out = StrCat(out, StrLit(lit[i:]))
			break
		}
		if j > 0 {
			out = StrCat(out, StrLit(lit[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(lit) && strings.IndexByte("0123456789+-# .", lit[k]) >= 0 {
			k++
		}
		if k >= len(lit) {
			return ret(s, Fresh("sprintf", SStr))
		}
		verb := lit[i : k+1]
		i = k + 1
		if verb == "%%" {
			out = StrCat(out, StrLit("%"))
			continue
		}
		if ai >= len(sl.elems) {
			return ret(s, Fresh("sprintf", SStr))
		}
		a := sl.elems[ai]
		ai++
		var dt types.Type
		if a.op == "imk" {
			dt = tagType(a.args[0])
		}
		var piece *Term
		if dt != nil {
			x := unbox(a, dt)
			last := verb[len(verb)-1]
			if last == 's' || last == 'v' && len(verb) == 2 {
				var m *ssa.Function
				if methodOK(dt, "String") {
					m = v.prog.ssa.LookupMethod(dt, nil, "String")
				}
				if m != nil && v.canCall(m) {
					outs := v.callStatic(s, m, []Val{x}, nil, pos)
					if len(outs) == 1 {
						s = outs[0].st
						piece = outs[0].res[0].(*Term)
					}
				} else if x.sort == SStr && !methodOK(dt, "Error") {
					piece = x
				}
			}
			if piece == nil && x.sort == SInt {
				switch verb {
				case "%016x":
					piece = App("hex16", SStr, x)
				default:
					piece = App("fmt."+sanitize(verb[1:])+"$int", SStr, x)
				}
			}
		}
		if piece == nil {
			piece = App("fmt."+sanitize(verb[1:]), SStr, a)
		}
		out = StrCat(out, piece)
	}
	return ret(s, out)
}

func methodOK(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func stdAxioms(used, sorts map[string]bool) []*Term {
	var out []*Term
	P := func(ts ...*Term) []*Term { return ts }
	if used["t$nano"] {
		t := FVar("t", timeSort)
		d := FVar("d", SInt)
		add := App("t$add", timeSort, t, d)
		out = append(out, Forall(P(t, d), Eq(App("t$nano", SInt, add), Add(App("t$nano", SInt, t), d)), P(add)))
		if used["t$at"] {
			j, k := FVar("j", SInt), FVar("k", SInt)
			tj, tk := App("t$at", timeSort, j), App("t$at", timeSort, k)
			out = append(out, Forall(P(j, k), Implies(leRaw(j, k), leRaw(App("t$nano", SInt, tj), App("t$nano", SInt, tk))), P(tj, tk)),
				Forall(P(j), And(leRaw(Num(0), App("t$nano", SInt, tj)), leRaw(App("t$nano", SInt, tj), NumS("9000000000000000000"))), P(tj)))
		}
		z := Sym("zero$"+timeSort, timeSort)
		out = append(out, Eq(App("t$nano", SInt, z), NumS("-62135596800000000000")))
	}
	n, m := FVar("n", SInt), FVar("m", SInt)
	h := App("hex16", SStr, n)
	u64 := func(x *Term) *Term { return inRange(x, tUint64) }
	if used["hex16"] {
		if used["parseuint.ok"] {
			out = append(out, Forall(P(n), Implies(u64(n), And(App("parseuint.ok", SBool, h, Num(16), Num(64)), Eq(App("parseuint.val", SInt, h, Num(16), Num(64)), n))), P(h)))
		}
		out = append(out, Forall(P(n), Implies(u64(n), Eq(App("str.len", SInt, h), Num(16))), P(h)))
		if used["json.str"] && used["json.str.ok"] {
			d := App("bytes.of", seqSortOfElem(SInt), App("json.str", SStr, h))
			out = append(out, Forall(P(n), Implies(u64(n), And(App("json.str.ok", SBool, d), Eq(App("json.str.val", SStr, d), h))), P(d)))
		}
		if used["str.split"] {
			out = append(out, Forall(P(n), Implies(u64(n), App("str.nosep", SBool, h, StrLit("/"))), P(h)))
		}
	}
	if used["fmtuint"] && used["parseuint.ok"] {
		f := App("fmtuint", SStr, n, m)
		out = append(out, Forall(P(n, m), Implies(u64(n), And(App("parseuint.ok", SBool, f, m, Num(64)), Eq(App("parseuint.val", SInt, f, m, Num(64)), n))), P(f)))
		if used["str.split"] {
			out = append(out, Forall(P(n, m), App("str.nosep", SBool, f, StrLit("/")), P(f)))
		}
	}
	x, y, z := FVar("x", SStr), FVar("y", SStr), FVar("z", SStr)
	if used["str.split"] {
		k := seqSortOfElem(SStr)
		sp := func(a, b *Term) *Term { return App("str.split", k, a, b) }
		ns := App("str.nosep", SBool, x, z)
		cons := func(a, b *Term) *Term { return SeqCat(SeqSnoc(SeqEmpty(k), a), b) }
		out = append(out,
			Forall(P(x, z), Implies(ns, Eq(sp(x, z), SeqSnoc(SeqEmpty(k), x))), P(sp(x, z))),
			Forall(P(x, y, z), Implies(ns, Eq(sp(App("str.cat", SStr, x, App("str.cat", SStr, z, y)), z), cons(x, sp(y, z)))), P(sp(App("str.cat", SStr, x, App("str.cat", SStr, z, y)), z))),
			Forall(P(x, z), leRaw(Num(1), App("len$"+k, SInt, sp(x, z))), P(sp(x, z))))
	}
	if used["ctx.value"] && used["ctx.with"] {
		c, k, a, j := FVar("c", SIface), FVar("k", SIface), FVar("a", SIface), FVar("j", SIface)
		w := App("ctx.with", SIface, c, k, a)
		g := App("ctx.value", SIface, w, j)
		out = append(out, Forall(P(c, k, a, j), Eq(g, Ite(Eq(j, k), a, App("ctx.value", SIface, c, j))), P(g)))
	}
	if used["str.hasprefix"] {
		hp := App("str.hasprefix", SBool, x, y)
		sub := App("str.sub", SStr, x, App("str.len", SInt, y), App("str.len", SInt, x))
		out = append(out, Forall(P(x, y), Implies(hp, And(leRaw(App("str.len", SInt, y), App("str.len", SInt, x)), Eq(App("str.cat", SStr, y, sub), x))), P(hp)),
			Forall(P(x, y), App("str.hasprefix", SBool, App("str.cat", SStr, x, y), x), P(App("str.hasprefix", SBool, App("str.cat", SStr, x, y), x))),
			Forall(P(x), App("str.hasprefix", SBool, x, x), P(App("str.hasprefix", SBool, x, x))))
	}
	if used["str.sub"] && used["str.cat"] {
		c := App("str.cat", SStr, x, y)
		sub := App("str.sub", SStr, c, n, m)
		out = append(out, Forall(P(x, y, n, m), Implies(And(Eq(n, App("str.len", SInt, x)), Eq(m, App("str.len", SInt, c))), Eq(sub, y)), P(sub)))
	}
	_ = fmt.Sprint
	return out
}
