package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	repo      string
	fset      *token.FileSet
	ssa       *ssa.Program
	pkgs      []*ssa.Package
	allPkgs   []*types.Package
	byPath    map[string]*types.Package
	specs     *Specs
	guards    []*Guard
	guardSeen map[ssa.Instruction]bool
	nloc      int
	cellFlds  map[string]bool
	globals   map[*types.Var]*AddrV
	gref      map[string]*Term
	constG    map[string]*ssa.Global // globals written only by their package initialiser
	initVal   map[*ssa.Global]ssa.Value
	disabled  map[*Contract]bool
	active    []*Contract
	loadErrs  []string
}

func loadProg(repo, verif, modfile string, patterns []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:        repo,
		BuildFlags: []string{"-modfile=" + modfile},
		Env:        os.Environ(),
		Overlay:    map[string][]byte{},
	}
	for dir, sub := range map[string]string{"root": "", "httptrace": "httptrace", "opentracing": "opentracing", "traceapp": "traceapp", "cmd": "cmd/appdash"} {
		ms, _ := filepath.Glob(filepath.Join(verif, "models", dir, "*.go"))
		for _, m := range ms {
			b, err := os.ReadFile(m)
			if err != nil {
				return nil, err
			}
			cfg.Overlay[filepath.Join(repo, sub, "zz_verif_"+filepath.Base(m))] = b
		}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Prog{repo: repo, byPath: map[string]*types.Package{}, guardSeen: map[ssa.Instruction]bool{}, cellFlds: map[string]bool{},
		globals: map[*types.Var]*AddrV{}, gref: map[string]*Term{}, constG: map[string]*ssa.Global{}, initVal: map[*ssa.Global]ssa.Value{}, disabled: map[*Contract]bool{}}
	for _, k := range pkgs {
		for _, e := range k.Errors {
			p.loadErrs = append(p.loadErrs, e.Error())
		}
	}
	if len(p.loadErrs) > 0 {
		return p, fmt.Errorf("source does not type-check: %s", strings.Join(p.loadErrs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p.ssa = prog
	p.fset = prog.Fset
	for _, s := range spkgs {
		if s != nil {
			p.pkgs = append(p.pkgs, s)
		}
	}
	seen := map[string]bool{}
	var add func(t *types.Package)
	add = func(t *types.Package) {
		if seen[t.Path()] {
			return
		}
		seen[t.Path()] = true
		p.allPkgs = append(p.allPkgs, t)
		p.byPath[t.Path()] = t
		for _, i := range t.Imports() {
			add(i)
		}
	}
	for _, k := range pkgs {
		add(k.Types)
	}
	p.scan()
	return p, nil
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return ""
	}
	q := p.fset.Position(x)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// repoFuncs visits every function of the repository, including closures.
func (p *Prog) repoFuncs(f func(*ssa.Function)) {
	all := ssautil.AllFunctions(p.ssa)
	var fs []*ssa.Function
	for fn := range all {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) {
			fs = append(fs, fn)
		}
	}
	sortFuncs(fs)
	for _, fn := range fs {
		f(fn)
	}
}

func fldKey(root types.Type, path []int) string {
	return typeKey(root) + fmt.Sprint(path)
}

func (p *Prog) scan() {
	written := map[*ssa.Global]int{}
	p.repoFuncs(func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				// globals
				var rands []*ssa.Value
				rands = ins.Operands(rands)
				for _, r := range rands {
					g, ok := (*r).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && x.Val != ssa.Value(g) {
							if fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#") && false {
								p.initVal[g] = x.Val
								continue
							}
						}
					case *ssa.DebugRef:
						continue
					case *ssa.FieldAddr:
						if onlyLoads(x) {
							continue
						}
					}
					written[g]++
				}
				// escaping interior pointers
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if root, path, ok := rootPath(fa); ok && escapes(fa) {
					p.cellFlds[fldKey(root, path)] = true
				}
			}
		}
	})
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				if written[g] == 0 && !(ast_exported(g.Name()) && false) {
					p.constG[globalName(g)] = g
				}
			}
		}
	}
}

func ast_exported(s string) bool { return token.IsExported(s) }

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoads(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func rootPath(fa *ssa.FieldAddr) (types.Type, []int, bool) {
	if up, ok := fa.X.(*ssa.FieldAddr); ok {
		r, p, ok := rootPath(up)
		return r, append(append([]int(nil), p...), fa.Field), ok
	}
	switch fa.X.(type) {
	case *ssa.IndexAddr, *ssa.Global:
		return nil, nil, false
	}
	return fa.X.Type().Underlying().(*types.Pointer).Elem(), []int{fa.Field}, true
}

// escapes: is the field address used as a first-class pointer?
func escapes(v ssa.Value) bool {
	if _, isS := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); isS {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.Store:
			if r.Val == v {
				return true
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			c := r.(ssa.CallInstruction).Common()
			if f := c.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func (p *Prog) cellField(t types.Type, path []int) bool { return p.cellFlds[fldKey(t, path)] }

func globalName(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

func (p *Prog) globalAddr(g *ssa.Global) *AddrV {
	a := &AddrV{kind: "global", name: globalName(g), typ: g.Type().(*types.Pointer).Elem()}
	return a
}
func (p *Prog) globalByObj(o *types.Var) *AddrV {
	if o.Pkg() == nil || o.Parent() != o.Pkg().Scope() {
		return nil
	}
	return &AddrV{kind: "global", name: o.Pkg().Name() + "." + o.Name(), typ: o.Type()}
}
func (p *Prog) globalRef(a *AddrV) *Term {
	if t := p.gref[a.name]; t != nil {
		return t
	}
	// references to globals are negative numbers
	t := Num(int64(-10 - len(p.gref)))
	p.gref[a.name] = t
	return t
}

// globalConst: a symbolic constant for globals never written after initialisation.
func (p *Prog) globalConst(a *AddrV) *Term {
	g := p.constG[a.name]
	external := g == nil && !p.isRepoGlobal(a.name)
	if g == nil && !external {
		return nil
	}
	if g != nil {
		if c, ok := p.initVal[g].(*ssa.Const); ok && len(a.path) == 0 {
			return constTerm(c.Value, c.Type())
		}
	}
	t := Sym("glob$"+sanitize(a.name)+fmt.Sprint(a.path), sortOf(a.leafType()))
	if hasRef(a.leafType(), 0) && t.upBase == nil {
		t.upBase = next0
	}
	if wfReg[t] == nil {
		wfReg[t] = &wfInfo{&heapInfo{kind: "global", typ: a.leafType(), sort: t.sort}, next0}
	}
	if t.sort == SIface && isErrorType(a.leafType()) {
		errGlobals[t] = true
	}
	if g != nil && len(a.path) == 0 {
		if _, ok := a.leafType().Underlying().(*types.Map); ok {
			return t
		}
	}
	return t
}

var errGlobals = map[*Term]bool{}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (p *Prog) isRepoGlobal(name string) bool {
	for _, pk := range p.pkgs {
		if strings.HasPrefix(name, pk.Pkg.Name()+".") {
			return true
		}
	}
	return false
}

// globalFacts records what is known about the value of a constant global.
func (p *Prog) globalFacts(s *State, a *AddrV, r *Term) {
	if !strings.HasPrefix(r.name, "glob$") || r.op != "sym" {
		return
	}
	s.assume(wfValue(r, a.leafType(), next0))
	if errGlobals[r] {
		s.assume(Not(Eq(r, NilIface)))
		for o := range errGlobals {
			if o != r && o.id < r.id {
				s.assume(Not(Eq(o, r)))
			}
		}
	}
	g := p.constG[a.name]
	if g == nil {
		return
	}
	switch a.leafType().Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		if iv := p.initVal[g]; iv != nil {
			switch iv.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.MakeChan:
				s.assume(Not(Eq(r, Num(0))))
			}
		}
	}
}

// localArr: an array only used to build a variadic argument slice.
func (p *Prog) localArr(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if c, ok := r.Index.(*ssa.Const); !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return false
			}
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.Store:
					if q.Val == ssa.Value(r) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr:
					for _, z := range *q.Referrers() {
						switch z := z.(type) {
						case *ssa.Store:
							if z.Val == ssa.Value(q) {
								return false
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return false
						}
					}
				default:
					return false
				}
			}
		case *ssa.Slice:
			if r.Low != nil || r.High != nil || r.Max != nil {
				return false
			}
			// all stores must precede the slicing: guaranteed for composite literals in
			// one block; the slice must be in the same block as the allocation
			if r.Block() != a.Block() {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// litUse: the slice value is only used where its identity cannot be observed.
func (p *Prog) litUse(sl *ssa.Slice) bool {
	for _, r := range *sl.Referrers() {
		switch r := r.(type) {
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && r.Call.Args[0] != ssa.Value(sl) || b.Name() == "len" {
					continue
				}
				return false
			}
			f := r.Call.StaticCallee()
			if f == nil && r.Call.IsInvoke() {
				continue
			}
			if f != nil && (f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule)) {
				continue
			}
			return false
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// ---------- lookup of externs and contracts ----------

// modelOf returns the stand-in a contract file names for fn.
func (p *Prog) modelOf(fn *ssa.Function) *ssa.Function {
	n := p.specs.models[fn.String()]
	if n == "" || fn.Pkg == nil {
		return nil
	}
	for _, k := range p.pkgs {
		if m := k.Func(n[strings.LastIndex(n, ".")+1:]); m != nil && m.String() == n && types.Identical(fullSig(m), fullSig(fn)) {
			return m
		}
	}
	return nil
}

func (p *Prog) extern(name string) *Extern { return p.specs.externs[name] }

func (p *Prog) externByPkg(fn *ssa.Function) string {
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if e := p.specs.externs["package "+path]; e != nil {
		return e.kind
	}
	return ""
}

func (p *Prog) contractFor(fn *ssa.Function) *Contract {
	for _, c := range p.active {
		if !p.disabled[c] && (c.modular || c.decreases != nil) && p.funcOf(c) == fn {
			return c
		}
	}
	return nil
}

var funcOfCache = map[*Contract]*ssa.Function{}

// funcOf resolves the function a contract is attached to (nil if it is gone).
func (p *Prog) funcOf(c *Contract) *ssa.Function {
	if c.fn != nil {
		return c.fn
	}
	if f, ok := funcOfCache[c]; ok {
		return f
	}
	f := p.lookupFunc(c.pkg, c.fnName)
	funcOfCache[c] = f
	return f
}

func (p *Prog) lookupFunc(pkg *types.Package, name string) *ssa.Function {
	if pkg == nil {
		return nil
	}
	if strings.HasPrefix(name, "(") {
		j := strings.Index(name, ")")
		tn := name[1:j]
		m := strings.TrimPrefix(name[j+1:], ".")
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		o, ok := pkg.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		t := o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := types.NewMethodSet(t).Lookup(pkg, m)
		if sel == nil {
			return nil
		}
		fo := sel.Obj().(*types.Func)
		if f := p.ssa.FuncValue(fo); f != nil {
			// declared on the other receiver form or promoted: only accept direct declarations
			rt := fo.Type().(*types.Signature).Recv().Type()
			if types.Identical(rt, t) {
				return f
			}
			return p.ssa.MethodValue(sel)
		}
		return nil
	}
	if o, ok := pkg.Scope().Lookup(name).(*types.Func); ok {
		return p.ssa.FuncValue(o)
	}
	return nil
}

// heapNames translates a modifies item into heap names.
func (p *Prog) heapNames(con *Contract, m string) []string {
	v := &Ver{prog: p}
	parseT := func(s string) types.Type {
		q := newParser(s)
		t := q.typ()
		q.end()
		return v.resolveType(t, con.pkg)
	}
	switch {
	case strings.HasPrefix(m, "elems "):
		return []string{elemHeap(parseT(m[6:]))}
	case strings.HasPrefix(m, "cells "):
		return []string{cellHeap(parseT(m[6:]))}
	case strings.HasPrefix(m, "map "):
		t := parseT(m[4:]).Underlying().(*types.Map)
		d, val, l := mapHeaps(t)
		return []string{d, val, l}
	case strings.HasPrefix(m, "ghost "):
		return []string{con.ghostHeap(m[6:])}
	case m == "async":
		regHeap("async", &heapInfo{kind: "global", typ: tLog, sort: SLog})
		return []string{"async"}
	case strings.HasPrefix(m, "global "):
		o := con.pkg.Scope().Lookup(m[7:])
		if gv, ok := o.(*types.Var); ok {
			return []string{v.globalHeap(p.globalByObj(gv))}
		}
		specFail("modifies %s: no such global", m)
	}
	// Type.field[.field]
	parts := strings.Split(m, ".")
	t := parseT(parts[0])
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	var path []int
	cur := t
	for _, f := range parts[1:] {
		_, pa, _ := types.LookupFieldOrMethod(cur, true, con.pkg, f)
		if pa == nil {
			specFail("modifies %s: no field %s", m, f)
		}
		for _, i := range pa {
			cur = cur.Underlying().(*types.Struct).Field(i).Type()
		}
		path = append(path, pa...)
	}
	return leafHeaps(p, t, path)
}

func leafHeaps(p *Prog, root types.Type, path []int) []string {
	t := root
	for _, i := range path {
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	if st, ok := isStruct(t); ok {
		var out []string
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, leafHeaps(p, root, append(append([]int(nil), path...), i))...)
		}
		return out
	}
	if p.cellField(root, path) {
		return []string{cellHeap(t)}
	}
	n, _ := fieldHeap(root, path)
	return []string{n}
}
