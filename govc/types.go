package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

const (
	SStr   = "Str"
	SFlt   = "Flt"
	SSlice = "Slice"
	SIface = "Iface"
	SBox   = "Box"
	SEv    = "Ev"
	SLog   = "Log"
)

var dtInit = func() bool {
	DeclDT(&Datatype{SSlice, []Ctor{{"sl", []string{"s.arr", "s.off", "s.len", "s.cap"}, []string{SInt, SInt, SInt, SInt}}}})
	DeclDT(&Datatype{SIface, []Ctor{{"inil", nil, nil}, {"imk", []string{"i.tag", "i.box"}, []string{SInt, SBox}}}})
	return true
}()

var (
	NilSlice = mustDT(dtInit, "sl", Num(0), Num(0), Num(0), Num(0))
	NilIface = mustDT(dtInit, "inil")
)

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return p.Name()
	})
}

// module path prefix of the code under verification
const repoModule = "sourcegraph.com/sourcegraph/appdash"

var exposedStructs = map[string]bool{
	"net/http.Request": true, "net/http.Response": true, "net/url.URL": true,
	"github.com/opentracing/basictracer-go.RawSpan":     true,
	"github.com/opentracing/basictracer-go.SpanContext": true,
	"github.com/opentracing/opentracing-go.LogRecord":   true,
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if strings.HasPrefix(p.Path(), repoModule) {
		return false
	}
	if exposedStructs[p.Path()+"."+n.Obj().Name()] {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return p.Path() == "sync" || p.Path() == "time" || p.Path() == "crypto/tls"
}

var structDTDone = map[string]bool{}

func structSort(t types.Type) string {
	n := "T_" + sanitize(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	if len(n) > 80 {
		n = n[:60] + fmt.Sprintf("_%x", fnv(n))
	}
	if structDTDone[n] {
		return n
	}
	structDTDone[n] = true
	st := t.Underlying().(*types.Struct)
	c := Ctor{name: "mk." + n}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		c.fields = append(c.fields, n+"."+fmt.Sprint(i)+"."+f.Name())
		c.sorts = append(c.sorts, sortOf(f.Type()))
	}
	DeclDT(&Datatype{n, []Ctor{c}})
	return n
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func sortOf(t types.Type) string {
	if st, ok := t.(*specType); ok {
		return st.sort
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
		return "Opq"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIface
	case *types.Slice:
		return SSlice
	case *types.Struct:
		if isOpaqueStruct(t) {
			return "O_" + sanitize(tname(t))
		}
		return structSort(t)
	case *types.Array:
		return arr(SInt, sortOf(u.Elem()))
	}
	return "Opq"
}

func StrLit(s string) *Term {
	if t := strLits[s]; t != nil {
		return t
	}
	nm := sanitize(s)
	if len(nm) > 24 {
		nm = nm[:24]
	}
	t := Sym(fmt.Sprintf("str$%s$%x", nm, fnv(s)), SStr)
	strLits[s] = t
	litText[t] = s
	return t
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if _, ok := t.(*specType); ok {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isOpaqueStruct(t) {
		return nil, false
	}
	return st, true
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return False
		case SInt:
			return Num(0)
		case SStr:
			return StrLit("")
		case SFlt:
			return Sym("flt0", SFlt)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Num(0)
	case *types.Interface:
		return NilIface
	case *types.Slice:
		return NilSlice
	case *types.Struct:
		if st, ok := isStruct(t); ok {
			var as []*Term
			for i := 0; i < st.NumFields(); i++ {
				as = append(as, zero(st.Field(i).Type()))
			}
			return Ctr("mk."+structSort(t), as...)
		}
		return Sym("zero$"+sortOf(t), sortOf(t))
	case *types.Array:
		return ConstArr(sortOf(t), zero(u.Elem()))
	}
	return Sym("zero$"+sortOf(t), sortOf(t))
}

func fieldSel(t types.Type, i int) string {
	n := structSort(t)
	return dtTab[n].ctors[0].fields[i]
}

// intRange returns the inclusive range of an integer type.
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return "", "", false
	}
	bits, signed := intBits(b.Kind())
	if bits == 0 {
		return "", "", false
	}
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		l := new(big.Int).Neg(h)
		return l.String(), h.Sub(h, one).String(), true
	}
	h := new(big.Int).Lsh(one, uint(bits))
	return "0", h.Sub(h, one).String(), true
}

func intBits(k types.BasicKind) (int, bool) {
	switch k {
	case types.Int, types.Int64:
		return 64, true
	case types.Int32:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

// wrap applies machine-integer wraparound: the identity when in range, an
// exact modulo for narrow types, otherwise an unconstrained in-range value.
func wrap(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if n, ok := x.num(); ok {
		l, _ := new(big.Int).SetString(lo, 10)
		h, _ := new(big.Int).SetString(hi, 10)
		v := big.NewInt(n)
		if v.Cmp(l) >= 0 && v.Cmp(h) <= 0 {
			return x
		}
	} else if x.isNum() {
		v, _ := new(big.Int).SetString(x.name, 10)
		l, _ := new(big.Int).SetString(lo, 10)
		h, _ := new(big.Int).SetString(hi, 10)
		if v.Cmp(l) >= 0 && v.Cmp(h) <= 0 {
			return x
		}
	}
	b := t.Underlying().(*types.Basic)
	bits, signed := intBits(b.Kind())
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if !signed {
		return raw("mod", SInt, x, NumS(m.String()))
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	// ((x + 2^(b-1)) mod 2^b) - 2^(b-1)
	w := raw("-", SInt, raw("mod", SInt, raw("+", SInt, x, NumS(h.String())), NumS(m.String())), NumS(h.String()))
	return Ite(And(raw("<=", SBool, NumS(lo), x), raw("<=", SBool, x, NumS(hi))), x, w)
}

func inRange(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return True
	}
	if x.isNum() {
		return True
	}
	return And(raw("<=", SBool, NumS(lo), x), raw("<=", SBool, x, NumS(hi)))
}

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zero(t)
	}
	switch sortOf(t) {
	case SBool:
		return Bool(constant.BoolVal(v))
	case SInt:
		iv := constant.ToInt(v)
		if n, ok := constant.Int64Val(iv); ok {
			return Num(n)
		}
		return NumS(iv.ExactString())
	case SStr:
		return StrLit(constant.StringVal(v))
	case SFlt:
		return Sym("flt$"+sanitize(v.ExactString()), SFlt)
	}
	return Sym("const$"+sanitize(v.ExactString()), sortOf(t))
}

// dynamic type tags
var (
	tagOf    = map[string]int{}
	tagTypes []types.Type
)

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	n, ok := tagOf[k]
	if !ok {
		n = len(tagTypes) + 1
		tagOf[k] = n
		tagTypes = append(tagTypes, t)
	}
	return Num(int64(n))
}
func tagType(t *Term) types.Type {
	if n, ok := t.num(); ok && n >= 1 && int(n) <= len(tagTypes) {
		return tagTypes[n-1]
	}
	return nil
}

func boxFn(sort string) (string, string) {
	s := sanitize(strings.NewReplacer("(", "", ")", "", " ", "_").Replace(sort))
	return "box$" + s, "unbox$" + s
}

// mkIface builds an interface value holding v of static type t.
func mkIface(v *Term, t types.Type) *Term {
	bf, _ := boxFn(v.sort)
	if _, u := boxFn(v.sort); v.op == u {
		return Ctr("imk", typeTag(t), v.args[0])
	}
	return Ctr("imk", typeTag(t), App(bf, SBox, v))
}
func unbox(i *Term, t types.Type) *Term {
	s := sortOf(t)
	bf, uf := boxFn(s)
	b := Sel("i.box", i)
	if b.op == bf {
		return b.args[0]
	}
	return App(uf, s, b)
}

// specType is a specification-only type (sequence, log, event, mathematical sort).
type specType struct {
	name string
	sort string
	elem types.Type // for Seq
}

func (s *specType) Underlying() types.Type { return s }
func (s *specType) String() string         { return s.name }

var (
	tInt    = types.Typ[types.Int]
	tUint64 = types.Typ[types.Uint64]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tMath   = &specType{name: "math", sort: SInt}
	tLog    = &specType{name: "Log", sort: SLog}
	tEv     = &specType{name: "Ev", sort: SEv}
)

var seqTypes = map[string]*specType{}

// seqT returns the abstract sequence type over the sort of elem.
func seqT(elem types.Type) *specType {
	es := sortOf(elem)
	k := "Seq_" + sanitize(strings.NewReplacer("(", "", ")", "", " ", "_").Replace(es))
	full := k + "|" + types.TypeString(elem, nil)
	if s := seqTypes[full]; s != nil {
		return s
	}
	s := &specType{name: "seq[" + tname2(elem) + "]", sort: k, elem: elem}
	seqTypes[full] = s
	declSeq(k, es)
	return s
}
func tname2(t types.Type) string {
	if s, ok := t.(*specType); ok {
		return s.name
	}
	return tname(t)
}

func itoa(i int) string { return strconv.Itoa(i) }

func mustDT(_ bool, n string, args ...*Term) *Term { return Ctr(n, args...) }
