package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"unicode"
)

// ---------- contract files ----------

var labelRE = regexp.MustCompile(`^(\w+\([^)]*\))\s*\[([^\]]*)\]\s*:(.*)$`)

type Clause struct {
	label string
	expr  *node
	src   string
}

type OnCall struct {
	ptypes []*tnode
	name   string
	params []string
	label  string
	expr   *node
}

type GhostUpd struct {
	ptypes []*tnode
	ev     string
	ghost  string
	params []string
	expr   *node
}

type Ghost struct {
	name string
	typ  *tnode
	init *node
}

type LoopTmpl struct {
	vars  []qvar
	where *node // must be provable when the loop is entered
	expr  *node
	label string
}

type qvar struct {
	name string
	typ  *tnode
}

type Contract struct {
	noReturn       bool   // it need not return
	panicFreeBy    string // the property whose check decides that this function does not panic
	file, pkgName  string
	pkg            *types.Package
	fnName         string // as written
	params         []string
	results        []string
	props          []string
	requires       []*Clause
	ensures        []*Clause
	assumedEnsures []*Clause
	panics         []*Clause
	modifies       []string
	hasModifies    bool
	loops          []*LoopTmpl
	oncalls        []*OnCall
	steps          []*OnCall // proof steps at calls of functions with a contract
	ghosts         []*Ghost
	upds           []*GhostUpd
	befores        []*GhostUpd
	afters         []*OnCall // assumptions about the outcome of an observable call
	spawn          string
	lockMode       bool
	fn             *ssa.Function // set for contracts not written down (locks.go)
	applies        []string
	appRequires    []*Clause // what is required of the arguments of the returned function
	modular        bool
	optional       bool // auxiliary contract: dropped when it does not hold
	holds          []*Clause
	decreases      *node
	inlines        map[string]bool
	line           int
}

func (c *Contract) ghostHeap(name string) string { return "GH:" + c.fnName + "." + name }

type Define struct {
	name   string
	params []qvar
	ret    *tnode
	body   *node
	pkg    *types.Package
}

type FuncSpec struct {
	name string
	args []*tnode
	ret  *tnode
	pkg  *types.Package
}

type AxiomSpec struct {
	name string
	expr *node
	pkg  *types.Package
	term *Term
	funs map[string]bool
	used atomic.Bool
}

type Guard struct {
	typ    types.Type
	tname  string
	pkg    string
	mu     string
	fields map[string]bool
}

type Extern struct {
	kind     string
	modifies []int
	force    bool
}

type Specs struct {
	contracts []*Contract
	defs      map[string]*Define
	funs      map[string]*FuncSpec
	axioms    []*AxiomSpec
	guards    []*Guard
	externs   map[string]*Extern
	models    map[string]string // function -> stand-in from /verif/models
}

type specErr struct{ msg string }

func specFail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func loadSpecs(dir string, pkgByPath func(string) *types.Package) *Specs {
	sp := &Specs{defs: map[string]*Define{}, funs: map[string]*FuncSpec{}, externs: map[string]*Extern{}, models: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			specFail("%v", err)
		}
		sp.parseFile(f, string(b), pkgByPath)
	}
	return sp
}

type rawClause struct {
	indent int
	text   string
	line   int
}

func (sp *Specs) parseFile(file, src string, pkgByPath func(string) *types.Package) {
	var cl []rawClause
	for i, l := range strings.Split(src, "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		t := strings.TrimRight(l, " \t")
		if strings.TrimSpace(t) == "" || strings.HasPrefix(strings.TrimSpace(t), "#") {
			continue
		}
		ind := len(t) - len(strings.TrimLeft(t, " "))
		if ind >= 4 && len(cl) > 0 {
			cl[len(cl)-1].text += " " + strings.TrimSpace(t)
			continue
		}
		cl = append(cl, rawClause{ind, strings.TrimSpace(t), i + 1})
	}
	var pkg *types.Package
	var pkgName string
	var cur *Contract
	for _, c := range cl {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(specErr); ok {
						specFail("%s:%d: %s", filepath.Base(file), c.line, e.msg)
					}
					panic(r)
				}
			}()
			word, rest := splitWord(c.text)
			if c.indent == 0 {
				cur = nil
				p := newParser(rest)
				switch word {
				case "package":
					pkgName = p.ident()
					path := p.next().text
					pkg = pkgByPath(path)
					if pkg == nil {
						specFail("package %s not loaded", path)
					}
				case "define":
					d := &Define{name: p.ident(), pkg: pkg}
					d.params = p.params()
					p.want(":")
					d.ret = p.typ()
					p.want("=")
					d.body = p.expr()
					p.end()
					sp.defs[d.name] = d
				case "function":
					f := &FuncSpec{name: p.ident(), pkg: pkg}
					p.want("(")
					for !p.is(")") {
						f.args = append(f.args, p.typ())
						if !p.eat(",") {
							break
						}
					}
					p.want(")")
					p.want(":")
					f.ret = p.typ()
					p.end()
					sp.funs[f.name] = f
				case "axiom":
					a := &AxiomSpec{name: p.ident(), pkg: pkg}
					p.want(":")
					a.expr = p.expr()
					p.end()
					sp.axioms = append(sp.axioms, a)
				case "guard":
					g := &Guard{fields: map[string]bool{}, pkg: ""}
					n := p.ident()
					if n == "global" {
						g.pkg = pkg.Name()
						g.mu = p.ident()
					} else {
						p.want(".")
						g.tname = n
						g.mu = p.ident()
						o := pkg.Scope().Lookup(n)
						if o == nil {
							specFail("no type %s", n)
						}
						g.typ = o.Type()
					}
					p.want(":")
					for p.tok.kind == 'i' {
						g.fields[p.ident()] = true
					}
					p.end()
					sp.guards = append(sp.guards, g)
				case "extern":
					name := p.next().text
					e := &Extern{kind: p.ident()}
					for p.tok.kind == 'i' {
						switch p.ident() {
						case "modifies":
							for p.tok.kind == 'n' {
								e.modifies = append(e.modifies, atoi(p.next().text))
							}
						case "force":
							e.force = true
						}
					}
					p.end()
					sp.externs[name] = e
				case "model":
					name := p.next().text
					sp.models[name] = pkg.Path() + "." + p.ident()
					p.end()
				case "func":
					cur = &Contract{file: filepath.Base(file), pkgName: pkgName, pkg: pkg, line: c.line}
					h := rest
					if strings.HasPrefix(h, "(") {
						j := strings.Index(h, ")")
						cur.fnName = h[:j+1]
						h = h[j+1:]
					}
					j := strings.Index(h, "(")
					cur.fnName += h[:j]
					p := newParser(h[j:])
					cur.params = p.names()
					if p.is("(") {
						cur.results = p.names()
					}
					p.end()
					sp.contracts = append(sp.contracts, cur)
				default:
					specFail("unknown directive %q", word)
				}
				return
			}
			if cur == nil {
				specFail("clause outside a func block: %s", c.text)
			}
			cur.clause(word, rest)
		}()
	}
}

func (cur *Contract) clause(word, rest string) {
	labelled := func() *Clause {
		lab, body := splitLabel(rest)
		p := newParser(body)
		e := p.expr()
		p.end()
		if lab == "" {
			lab = body
		}
		return &Clause{label: lab, expr: e, src: body}
	}
	switch word {
	case "property":
		cur.props = strings.Fields(rest)
	case "modular":
		cur.modular = true
	case "auxiliary":
		cur.modular, cur.optional = true, true
	case "requires":
		if cur.applies != nil {
			cur.appRequires = append(cur.appRequires, labelled())
		} else {
			cur.requires = append(cur.requires, labelled())
		}
	case "ensures":
		cur.ensures = append(cur.ensures, labelled())
	case "assume-ensures":
		cur.assumedEnsures = append(cur.assumedEnsures, labelled())
	case "holds":
		cur.holds = append(cur.holds, labelled())
	case "panics":
		p := newParser(rest)
		if p.ident() != "when" {
			specFail("panics when")
		}
		e := p.expr()
		p.end()
		cur.panics = append(cur.panics, &Clause{label: rest, expr: e})
	case "modifies":
		cur.hasModifies = true
		for _, m := range strings.Split(rest, ",") {
			if m = strings.TrimSpace(m); m != "" && m != "nothing" {
				cur.modifies = append(cur.modifies, m)
			}
		}
	case "panicfree":
		// panic freedom of this function is decided by the named property's check
		cur.panicFreeBy = strings.TrimSpace(strings.TrimPrefix(rest, "by"))
	case "noreturn":
		cur.noReturn = true
	case "loop":
		p := newParser(rest)
		lt := &LoopTmpl{label: rest}
		if p.is("(") {
			lt.vars = p.params()
		}
		if p.eat("where") {
			lt.where = p.expr()
		}
		p.want(":")
		lt.expr = p.expr()
		p.end()
		cur.loops = append(cur.loops, lt)
	case "oncall", "step":
		label := ""
		if m := labelRE.FindStringSubmatch(rest); m != nil {
			rest, label = m[1]+":"+m[3], m[2]
		}
		p := newParser(rest)
		oc := &OnCall{name: p.ident(), label: label}
		oc.params = p.names()
		oc.ptypes = p.ntypes
		if p.tok.kind == 'i' {
			oc.label = p.ident()
		}
		p.want(":")
		oc.expr = p.expr()
		p.end()
		if oc.label == "" {
			oc.label = rest
		}
		if word == "step" {
			cur.steps = append(cur.steps, oc)
		} else {
			cur.oncalls = append(cur.oncalls, oc)
		}
	case "ghost":
		p := newParser(rest)
		g := &Ghost{name: p.ident()}
		p.want(":")
		g.typ = p.typ()
		p.want("=")
		g.init = p.expr()
		p.end()
		cur.ghosts = append(cur.ghosts, g)
	case "assume-after":
		label := ""
		if m := labelRE.FindStringSubmatch(rest); m != nil {
			rest, label = m[1]+":"+m[3], m[2]
		}
		p := newParser(rest)
		oc := &OnCall{name: p.ident(), label: label}
		oc.params = p.names()
		oc.ptypes = p.ntypes
		p.want(":")
		oc.expr = p.expr()
		p.end()
		cur.afters = append(cur.afters, oc)
	case "on", "before": // ghost updates after and before an observable call
		p := newParser(rest)
		u := &GhostUpd{ev: p.ident()}
		u.params = p.names()
		u.ptypes = p.ntypes
		p.want(":")
		n := p.ident()
		p.want("=")
		u.expr = p.expr()
		p.end()
		for _, g := range cur.ghosts {
			if g.name == n {
				u.ghost = n
				if word == "before" {
					cur.befores = append(cur.befores, u)
				} else {
					cur.upds = append(cur.upds, u)
				}
				return
			}
		}
		specFail("no ghost %s", n)
	case "applies": // the contract covers a call of the returned function
		p := newParser(rest)
		cur.applies = p.names()
		p.end()
	case "spawn":
		cur.spawn = strings.TrimSpace(rest)
	case "decreases":
		p := newParser(rest)
		cur.decreases = p.expr()
		p.end()
	default:
		specFail("unknown clause %q", word)
	}
}

func atoi(s string) int {
	n := 0
	neg := false
	for _, c := range s {
		if c == '-' {
			neg = true
			continue
		}
		n = n*10 + int(c-'0')
	}
	if neg {
		return -n
	}
	return n
}

func splitWord(s string) (string, string) {
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func splitLabel(s string) (string, string) {
	for i, r := range s {
		if r == ':' {
			if i+1 < len(s) && s[i+1] == ':' {
				return "", s
			}
			return s[:i], strings.TrimSpace(s[i+1:])
		}
		if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-' || r == '_') {
			return "", s
		}
	}
	return "", s
}

// ---------- lexer / parser ----------

type token_ struct {
	kind byte // 'i' ident, 'n' number, 's' string, 'o' operator, 0 end
	text string
}

type parser struct {
	ntypes []*tnode
	src    string
	pos    int
	tok    token_
	peek   *token_
}

func newParser(s string) *parser {
	p := &parser{src: s}
	p.tok = p.lex()
	return p
}

var ops = []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "::", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ":", ".", "=", ";", "?"}

func (p *parser) lex() token_ {
	for p.pos < len(p.src) && (p.src[p.pos] == ' ' || p.src[p.pos] == '\t') {
		p.pos++
	}
	if p.pos >= len(p.src) {
		return token_{0, ""}
	}
	c := p.src[p.pos]
	isId := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9' || c == '$'
	}
	if c >= '0' && c <= '9' {
		j := p.pos
		for j < len(p.src) && isId(p.src[j]) {
			j++
		}
		t := token_{'n', p.src[p.pos:j]}
		p.pos = j
		return t
	}
	if isId(c) {
		j := p.pos
		for j < len(p.src) && isId(p.src[j]) {
			j++
		}
		t := token_{'i', p.src[p.pos:j]}
		p.pos = j
		return t
	}
	if c == '"' {
		j := p.pos + 1
		var b strings.Builder
		for j < len(p.src) && p.src[j] != '"' {
			if p.src[j] == '\\' {
				j++
			}
			b.WriteByte(p.src[j])
			j++
		}
		p.pos = j + 1
		return token_{'s', b.String()}
	}
	for _, o := range ops {
		if strings.HasPrefix(p.src[p.pos:], o) {
			p.pos += len(o)
			return token_{'o', o}
		}
	}
	specFail("bad character %q", c)
	return token_{}
}

func (p *parser) next() token_ {
	t := p.tok
	if p.peek != nil {
		p.tok = *p.peek
		p.peek = nil
	} else {
		p.tok = p.lex()
	}
	return t
}
func (p *parser) is(s string) bool {
	return (p.tok.kind == 'o' || p.tok.kind == 'i') && p.tok.text == s
}
func (p *parser) eat(s string) bool {
	if p.is(s) {
		p.next()
		return true
	}
	return false
}
func (p *parser) want(s string) {
	if !p.eat(s) {
		specFail("expected %q, found %q in %q", s, p.tok.text, p.src)
	}
}
func (p *parser) ident() string {
	if p.tok.kind != 'i' {
		specFail("expected identifier, found %q in %q", p.tok.text, p.src)
	}
	return p.next().text
}
func (p *parser) end() {
	if p.tok.kind != 0 {
		specFail("unexpected %q in %q", p.tok.text, p.src)
	}
}
func (p *parser) names() []string {
	var ns []string
	p.ntypes = nil
	p.want("(")
	for !p.is(")") {
		ns = append(ns, p.ident())
		var t *tnode
		if p.eat(":") {
			t = p.typ()
		}
		p.ntypes = append(p.ntypes, t)
		if !p.eat(",") {
			break
		}
	}
	p.want(")")
	return ns
}
func (p *parser) params() []qvar {
	p.want("(")
	var vs []qvar
	for !p.is(")") {
		n := p.ident()
		p.want(":")
		vs = append(vs, qvar{n, p.typ()})
		if !p.eat(",") {
			break
		}
	}
	p.want(")")
	return vs
}

type tnode struct {
	inv  bool
	phi  bool
	kind string // "name","ptr","slice","map","seq","set","arr"
	name string
	pkg  string
	a, b *tnode
}

func (p *parser) typ() *tnode {
	switch {
	case p.eat("*"):
		return &tnode{kind: "ptr", a: p.typ()}
	case p.eat("["):
		if p.tok.kind == 'n' {
			n := p.next().text
			p.want("]")
			return &tnode{kind: "array", name: n, a: p.typ()}
		}
		p.want("]")
		return &tnode{kind: "slice", a: p.typ()}
	}
	n := p.ident()
	switch n {
	case "struct":
		p.want("{")
		p.want("}")
		return &tnode{kind: "name", name: "struct{}"}
	case "map":
		p.want("[")
		k := p.typ()
		p.want("]")
		return &tnode{kind: "map", a: k, b: p.typ()}
	case "var": // a variable the loop changes
		t := p.typ()
		t.phi = true
		return t
	case "const": // a value the loop does not change
		t := p.typ()
		t.inv = true
		return t
	case "seq", "set":
		p.want("[")
		k := p.typ()
		p.want("]")
		return &tnode{kind: n, a: k}
	case "fmap":
		p.want("[")
		k := p.typ()
		p.want(",")
		e := p.typ()
		p.want("]")
		return &tnode{kind: n, a: k, b: e}
	}
	if p.is(".") {
		p.next()
		return &tnode{kind: "name", pkg: n, name: p.ident()}
	}
	return &tnode{kind: "name", name: n}
}

type node struct {
	op    string // "id","num","str","call","index","field","un","bin","forall","exists","if","let","old","entry"
	name  string
	args  []*node
	vars  []qvar
	pats  [][]*node
	types []*tnode
}

var nodeIDs = map[*node]int{}

func (n *node) nid() int {
	if i, ok := nodeIDs[n]; ok {
		return i
	}
	nodeIDs[n] = len(nodeIDs) + 1
	return len(nodeIDs)
}

func (p *parser) expr() *node { return p.iff() }

func (p *parser) iff() *node {
	l := p.imp()
	for p.eat("<==>") {
		l = &node{op: "bin", name: "<==>", args: []*node{l, p.imp()}}
	}
	return l
}
func (p *parser) imp() *node {
	l := p.or()
	if p.eat("==>") {
		return &node{op: "bin", name: "==>", args: []*node{l, p.imp()}}
	}
	return l
}
func (p *parser) or() *node {
	l := p.and()
	for p.eat("||") {
		l = &node{op: "bin", name: "||", args: []*node{l, p.and()}}
	}
	return l
}
func (p *parser) and() *node {
	l := p.cmp()
	for p.eat("&&") {
		l = &node{op: "bin", name: "&&", args: []*node{l, p.cmp()}}
	}
	return l
}
func (p *parser) cmp() *node {
	l := p.add()
	var conj *node
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">", "in"} {
			if p.is(o) {
				op = o
				break
			}
		}
		if op == "" {
			break
		}
		p.next()
		r := p.add()
		c := &node{op: "bin", name: op, args: []*node{l, r}}
		if conj == nil {
			conj = c
		} else {
			conj = &node{op: "bin", name: "&&", args: []*node{conj, c}}
		}
		l = r
	}
	if conj != nil {
		return conj
	}
	return l
}
func (p *parser) add() *node {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().text
		l = &node{op: "bin", name: o, args: []*node{l, p.mul()}}
	}
	return l
}
func (p *parser) mul() *node {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().text
		l = &node{op: "bin", name: o, args: []*node{l, p.unary()}}
	}
	return l
}
func (p *parser) unary() *node {
	if p.is("!") || p.is("-") || p.is("*") {
		o := p.next().text
		return &node{op: "un", name: o, args: []*node{p.unary()}}
	}
	return p.postfix(p.primary())
}

// calls taking types as their last arguments
var typeArgs = map[string]int{"typeis": 1, "unbox": 1, "res": 1, "res1": 1, "res2": 1, "mk": 0, "emptyset": 0, "emptyseq": 0, "zero": 0, "fresh_t": 0, "iface": 1, "strict": 1, "pure": 1, "pure1": 1, "content": 0}

func (p *parser) postfix(l *node) *node {
	for {
		switch {
		case p.eat("."):
			l = &node{op: "field", name: p.ident(), args: []*node{l}}
		case p.eat("["):
			i := p.expr()
			p.want("]")
			l = &node{op: "index", args: []*node{l, i}}
		case p.is("("):
			p.next()
			n := &node{op: "call", args: []*node{l}}
			k, hasT := -1, false
			if l.op == "id" {
				k, hasT = typeArgs[l.name]
			}
			cnt := 0
			for !p.is(")") {
				if hasT && cnt == k {
					n.types = append(n.types, p.typ())
				} else {
					n.args = append(n.args, p.expr())
				}
				cnt++
				if !p.eat(",") {
					break
				}
			}
			p.want(")")
			l = n
		default:
			return l
		}
	}
}

func (p *parser) primary() *node {
	t := p.tok
	switch t.kind {
	case 'n':
		p.next()
		return &node{op: "num", name: t.text}
	case 's':
		p.next()
		return &node{op: "str", name: t.text}
	case 'i':
		switch t.text {
		case "forall", "exists":
			p.next()
			n := &node{op: t.text}
			for {
				v := p.ident()
				p.want(":")
				n.vars = append(n.vars, qvar{v, p.typ()})
				if !p.eat(",") {
					break
				}
			}
			p.want("::")
			for p.is("{") {
				p.next()
				var ps []*node
				for {
					ps = append(ps, p.expr())
					if !p.eat(",") {
						break
					}
				}
				p.want("}")
				n.pats = append(n.pats, ps)
			}
			n.args = []*node{p.expr()}
			return n
		case "if":
			p.next()
			c := p.expr()
			p.want("then")
			a := p.expr()
			p.want("else")
			b := p.expr()
			return &node{op: "if", args: []*node{c, a, b}}
		case "let":
			p.next()
			v := p.ident()
			p.want("=")
			e := p.expr()
			p.want(";")
			b := p.expr()
			return &node{op: "let", name: v, args: []*node{e, b}}
		}
		p.next()
		return &node{op: "id", name: t.text}
	case 'o':
		if t.text == "(" {
			p.next()
			e := p.expr()
			p.want(")")
			return e
		}
	}
	specFail("unexpected %q in %q", t.text, p.src)
	return nil
}

// ---------- evaluation ----------

type TV struct {
	t   *Term
	typ types.Type
}

type env struct {
	v      *Ver
	st     *State
	old    *State
	loopSt *State
	vars   map[string]TV
	con    *Contract
	pkg    *types.Package
	depth  int
}

func (e *env) with(name string, tv TV) *env {
	n := *e
	n.vars = make(map[string]TV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = tv
	return &n
}

func (e *env) thePkg() *types.Package {
	if e.pkg != nil {
		return e.pkg
	}
	if e.con != nil {
		return e.con.pkg
	}
	if e.v.con != nil {
		return e.v.con.pkg
	}
	return nil
}

func (v *Ver) evalBool(n *node, e *env) *Term {
	r := v.eval(n, e)
	if r.t.sort != SBool {
		specFail("boolean expected, got %s", tname2(r.typ))
	}
	return r.t
}

func setT(elem types.Type) *specType {
	return &specType{name: "set[" + tname2(elem) + "]", sort: arr(sortOf(elem), SBool), elem: elem}
}

var fmapVal = map[string]types.Type{}

func (v *Ver) resolveType(t *tnode, pkg *types.Package) types.Type {
	switch t.kind {
	case "ptr":
		return types.NewPointer(v.resolveType(t.a, pkg))
	case "slice":
		return types.NewSlice(v.resolveType(t.a, pkg))
	case "array":
		return types.NewArray(v.resolveType(t.a, pkg), int64(atoi(t.name)))
	case "map":
		return types.NewMap(v.resolveType(t.a, pkg), v.resolveType(t.b, pkg))
	case "seq":
		return seqT(v.resolveType(t.a, pkg))
	case "set":
		return setT(v.resolveType(t.a, pkg))
	case "fmap":
		k, e := v.resolveType(t.a, pkg), v.resolveType(t.b, pkg)
		s := &specType{name: "fmap[" + tname2(k) + "," + tname2(e) + "]", sort: arr(sortOf(k), sortOf(e)), elem: k}
		fmapVal[s.name] = e
		return s
	}
	if t.pkg == "" {
		switch t.name {
		case "math":
			return tMath
		case "Log":
			return tLog
		case "Ev":
			return tEv
		case "struct{}":
			return types.NewStruct(nil, nil)
		case "any":
			return types.NewInterfaceType(nil, nil)
		}
		if pkg != nil {
			if o, ok := pkg.Scope().Lookup(t.name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		if o, ok := types.Universe.Lookup(t.name).(*types.TypeName); ok {
			return o.Type()
		}
		specFail("unknown type %s", t.name)
	}
	for _, p := range v.prog.allPkgs {
		if p.Name() == t.pkg {
			if o, ok := p.Scope().Lookup(t.name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	specFail("unknown type %s.%s", t.pkg, t.name)
	return nil
}

func num64(s string) *Term {
	if strings.HasPrefix(s, "0x") {
		n := int64(0)
		for _, c := range s[2:] {
			d := strings.IndexRune("0123456789abcdef", c)
			n = n*16 + int64(d)
		}
		return Num(n)
	}
	return NumS(s)
}

func (v *Ver) eval(n *node, e *env) (res TV) {
	save := v.noGuard
	v.noGuard = true
	defer func() { v.noGuard = save }()
	switch n.op {
	case "num":
		return TV{num64(n.name), tMath}
	case "str":
		return TV{StrLit(n.name), tString}
	case "id":
		return v.evalIdent(n.name, e)
	case "let":
		x := v.eval(n.args[0], e)
		return v.eval(n.args[1], e.with(n.name, x))
	case "if":
		c := v.evalBool(n.args[0], e)
		a, b := v.eval(n.args[1], e), v.eval(n.args[2], e)
		a, b = v.coerce(a, b)
		return TV{Ite(c, a.t, b.t), a.typ}
	case "un":
		switch n.name {
		case "!":
			return TV{Not(v.evalBool(n.args[0], e)), tBool}
		case "-":
			return TV{Sub(Num(0), v.eval(n.args[0], e).t), tMath}
		case "*":
			x := v.eval(n.args[0], e)
			pt, ok := x.typ.Underlying().(*types.Pointer)
			if !ok {
				specFail("* of non-pointer")
			}
			return TV{v.specLoad(e, &AddrV{kind: "root", base: x.t, typ: pt.Elem()}), pt.Elem()}
		}
	case "forall", "exists":
		ne := *e
		ne.depth++
		pe := &ne
		var vs []*Term
		var ranges []*Term
		for _, q := range n.vars {
			t := v.resolveType(q.typ, e.thePkg())
			b := FVar(q.name+"$"+itoa(n.nid()), sortOf(t))
			vs = append(vs, b)
			pe = pe.with(q.name, TV{b, t})
		}
		_ = ranges
		body := v.evalBool(n.args[0], pe)
		var pats [][]*Term
		for _, ps := range n.pats {
			var q []*Term
			for _, x := range ps {
				q = append(q, v.eval(x, pe).t)
			}
			pats = append(pats, q)
		}
		if n.op == "forall" {
			return TV{Forall(vs, body, pats...), tBool}
		}
		if len(pats) > 0 {
			return TV{Not(Forall(vs, Not(body), pats...)), tBool}
		}
		return TV{Exists(vs, body), tBool}
	case "field":
		if n.args[0].op == "id" {
			if tv, ok := v.pkgGlobal(n.args[0].name, n.name, e); ok {
				return tv
			}
		}
		return v.evalField(n, e)
	case "index":
		x, i := v.eval(n.args[0], e), v.eval(n.args[1], e)
		return v.evalIndex(x, i, e)
	case "bin":
		return v.evalBin(n, e)
	case "call":
		return v.evalCall(n, e)
	}
	specFail("cannot evaluate %s", n.op)
	return
}

func (v *Ver) specLoad(e *env, a *AddrV) *Term {
	if e.depth > 0 && a.base != nil && len(a.base.fv) > 0 {
		// quantified base: do not record facts about it
		if len(a.path) > 0 && v.prog.cellField(a.typ, a.path) {
			return Select(e.st.get(cellHeap(a.leafType())), fldRef(a.typ, a.path, a.base))
		}
	}
	return v.load(e.st, a, 0)
}

// pkgGlobal resolves pkg.Name to a package-level variable or constant.
func (v *Ver) pkgGlobal(pkg, name string, e *env) (TV, bool) {
	if _, ok := e.vars[pkg]; ok {
		return TV{}, false
	}
	for _, p := range v.prog.allPkgs {
		if p.Name() != pkg {
			continue
		}
		switch o := p.Scope().Lookup(name).(type) {
		case *types.Const:
			return TV{constTerm(o.Val(), o.Type()), o.Type()}, true
		case *types.Var:
			if a := v.prog.globalByObj(o); a != nil {
				return TV{v.load(e.st, a, 0), o.Type()}, true
			}
		}
	}
	return TV{}, false
}

func (v *Ver) evalIdent(name string, e *env) TV {
	if tv, ok := e.vars[name]; ok {
		return tv
	}
	switch name {
	case "true":
		return TV{True, tBool}
	case "false":
		return TV{False, tBool}
	case "nil":
		return TV{nil, types.Typ[types.UntypedNil]}
	case "log":
		return TV{e.st.log, tLog}
	case "async":
		regHeap("async", &heapInfo{kind: "global", typ: tLog, sort: SLog})
		return TV{e.st.get("async"), tLog}
	case "emptylog":
		return TV{Sym("log.empty", SLog), tLog}
	case "clock":
		return TV{clockOf(e.st), tMath}
	case "next":
		return TV{e.st.next, tMath}
	}
	if v.con != nil {
		if h := heapReg[v.con.ghostHeap(name)]; h != nil {
			return TV{e.st.get(v.con.ghostHeap(name)), h.typ}
		}
	}
	if d := v.prog.specs.defs[name]; d != nil && len(d.params) == 0 {
		ne := *e
		ne.pkg = d.pkg
		return v.eval(d.body, &ne)
	}
	if f := v.prog.specs.funs[name]; f != nil && len(f.args) == 0 {
		t := v.resolveType(f.ret, f.pkg)
		return TV{App("sf$"+name, sortOf(t)), t}
	}
	if pkg := e.thePkg(); pkg != nil {
		switch o := pkg.Scope().Lookup(name).(type) {
		case *types.Const:
			return TV{constTerm(o.Val(), o.Type()), o.Type()}
		case *types.Var:
			if a := v.prog.globalByObj(o); a != nil {
				return TV{v.load(e.st, a, 0), o.Type()}
			}
		}
	}
	specFail("unknown identifier %s", name)
	return TV{}
}

func isNilTV(x TV) bool { return x.t == nil }

func nilOf(t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Interface:
		return NilIface
	case *types.Slice:
		return NilSlice
	}
	return Num(0)
}

func (v *Ver) coerce(a, b TV) (TV, TV) {
	if isNilTV(a) && isNilTV(b) {
		return TV{Num(0), tMath}, TV{Num(0), tMath}
	}
	if isNilTV(a) {
		return TV{nilOf(b.typ), b.typ}, b
	}
	if isNilTV(b) {
		return a, TV{nilOf(a.typ), a.typ}
	}
	if a.t.sort != b.t.sort {
		if a.t.sort == SIface {
			if _, ok := b.typ.(*specType); !ok {
				return a, TV{mkIface(b.t, b.typ), a.typ}
			}
		}
		if b.t.sort == SIface {
			if _, ok := a.typ.(*specType); !ok {
				return TV{mkIface(a.t, a.typ), b.typ}, b
			}
		}
	}
	return a, b
}

func (v *Ver) evalBin(n *node, e *env) TV {
	switch n.name {
	case "&&":
		return TV{And(v.evalBool(n.args[0], e), v.evalBool(n.args[1], e)), tBool}
	case "||":
		return TV{Or(v.evalBool(n.args[0], e), v.evalBool(n.args[1], e)), tBool}
	case "==>":
		return TV{Implies(v.evalBool(n.args[0], e), v.evalBool(n.args[1], e)), tBool}
	case "<==>":
		return TV{Iff(v.evalBool(n.args[0], e), v.evalBool(n.args[1], e)), tBool}
	}
	a, b := v.eval(n.args[0], e), v.eval(n.args[1], e)
	switch n.name {
	case "==", "!=":
		var r *Term
		// comparison of a slice with nil looks at the array only
		if isNilTV(b) && a.t != nil && a.t.sort == SSlice {
			r = Eq(Sel("s.arr", a.t), Num(0))
		} else {
			a, b = v.coerce(a, b)
			if a.t.sort != b.t.sort {
				specFail("comparing %s with %s", tname2(a.typ), tname2(b.typ))
			}
			if strings.HasPrefix(a.t.sort, "Seq_") {
				r = SeqEq(a.t, b.t)
			} else {
				r = Eq(a.t, b.t)
			}
		}
		if n.name == "!=" {
			r = Not(r)
		}
		return TV{r, tBool}
	case "in":
		return TV{v.evalIn(a, b, e), tBool}
	case "<", "<=", ">", ">=":
		x, y := a.t, b.t
		if n.name == ">" || n.name == ">=" {
			x, y = y, x
		}
		if x.sort == SInt {
			if n.name == "<" || n.name == ">" {
				return TV{Lt(x, y), tBool}
			}
			return TV{Le(x, y), tBool}
		}
		f := "flt.lt"
		if x.sort == SStr {
			f = "str.lt"
		}
		return TV{App(f, SBool, x, y), tBool}
	case "+":
		if a.t.sort == SLog {
			if b.t.sort == SLog {
				return TV{App("lcat", SLog, a.t, b.t), tLog}
			}
			return TV{LogSnoc(a.t, b.t), tLog}
		}
		if a.t.sort == SStr {
			return TV{StrCat(a.t, b.t), tString}
		}
		if strings.HasPrefix(a.t.sort, "Seq_") {
			return TV{SeqCat(a.t, b.t), a.typ}
		}
		return TV{Add(a.t, b.t), tMath}
	case "-":
		return TV{Sub(a.t, b.t), tMath}
	case "*":
		return TV{Mul(a.t, b.t), tMath}
	case "/":
		return TV{raw("div", SInt, a.t, b.t), tMath}
	case "%":
		return TV{raw("mod", SInt, a.t, b.t), tMath}
	}
	specFail("operator %s", n.name)
	return TV{}
}

func (v *Ver) evalIn(k, c TV, e *env) *Term {
	if st, ok := c.typ.(*specType); ok {
		if strings.HasPrefix(st.sort, "Seq_") {
			return SeqMem(c.t, k.t)
		}
		return Select(c.t, k.t)
	}
	switch u := c.typ.Underlying().(type) {
	case *types.Map:
		dom, _, _ := mapHeaps(u)
		return Select(Select(e.st.get(dom), c.t), k.t)
	case *types.Slice:
		return SeqMem(v.seqOfSlice(e.st, c.t, u.Elem()), k.t)
	}
	specFail("in %s", tname2(c.typ))
	return nil
}

func (v *Ver) evalIndex(x, i TV, e *env) TV {
	if st, ok := x.typ.(*specType); ok {
		if strings.HasPrefix(st.sort, "Seq_") {
			return TV{SeqAt(x.t, i.t), st.elem}
		}
		if val, ok := fmapVal[st.name]; ok && strings.HasPrefix(st.name, "fmap") {
			return TV{Select(x.t, i.t), val}
		}
		return TV{Select(x.t, i.t), tBool}
	}
	switch u := x.typ.Underlying().(type) {
	case *types.Slice:
		A := v.content(e.st, x.t, u.Elem())
		return TV{Select(A, ElIdx(Sel("s.off", x.t), i.t)), u.Elem()}
	case *types.Map:
		_, val, _ := mapHeaps(u)
		return TV{Select(Select(e.st.get(val), x.t), i.t), u.Elem()}
	case *types.Array:
		return TV{Select(x.t, i.t), u.Elem()}
	}
	specFail("index of %s", tname2(x.typ))
	return TV{}
}

func (v *Ver) evalField(n *node, e *env) TV {
	x := v.eval(n.args[0], e)
	if x.t == nil {
		specFail("field of nil")
	}
	obj, path, _ := types.LookupFieldOrMethod(x.typ, true, e.thePkg(), n.name)
	f, ok := obj.(*types.Var)
	if !ok {
		// unexported field of another package of the repository
		if pt := derefNamed(x.typ); pt != nil {
			obj, path, _ = types.LookupFieldOrMethod(x.typ, true, pt.Obj().Pkg(), n.name)
			f, ok = obj.(*types.Var)
		}
		if !ok {
			specFail("no field %s in %s", n.name, tname2(x.typ))
		}
	}
	_ = f
	var cur TV = x
	var addr *AddrV
	flush := func() {
		if addr != nil {
			cur = TV{v.specLoad(e, addr), addr.leafType()}
			addr = nil
		}
	}
	for _, i := range path {
		var t types.Type
		if addr != nil {
			t = addr.leafType()
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				flush()
				t = cur.typ
			}
		} else {
			t = cur.typ
		}
		if addr == nil {
			if pt, isPtr := t.Underlying().(*types.Pointer); isPtr {
				addr = &AddrV{kind: "root", base: cur.t, typ: pt.Elem()}
			}
		}
		if addr != nil {
			addr = addr.field(i)
			continue
		}
		ft := cur.typ.Underlying().(*types.Struct).Field(i).Type()
		cur = TV{Sel(fieldSel(cur.typ, i), cur.t), ft}
	}
	flush()
	return cur
}

func derefNamed(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// asEvArg converts a spec value to what events record.
func (v *Ver) asEvArg(x TV, e *env) *Term {
	if x.t == nil {
		specFail("untyped nil in event argument; use zero(T)")
	}
	if _, ok := x.typ.(*specType); ok {
		return x.t
	}
	if sl, ok := x.typ.Underlying().(*types.Slice); ok {
		return v.seqOfSlice(e.st, x.t, sl.Elem())
	}
	return x.t
}

func (v *Ver) evalCall(n *node, e *env) TV {
	f := n.args[0]
	args := n.args[1:]
	pkg := e.thePkg()
	if f.op == "field" && f.args[0].op == "id" {
		var as []*Term
		switch f.args[0].name {
		case "ev":
			for _, a := range args {
				as = append(as, v.asEvArg(v.eval(a, e), e))
			}
			return TV{EvTerm(f.name, as...), tEv}
		case "go":
			for _, a := range args {
				as = append(as, v.asEvArg(v.eval(a, e), e))
			}
			return TV{EvTerm("go."+f.name, as...), tEv}
		}
	}
	if f.op != "id" {
		specFail("call of %s", f.op)
	}
	ar := func(i int) TV {
		if i >= len(args) {
			specFail("%s: missing argument", f.name)
		}
		return v.eval(args[i], e)
	}
	ty := func(i int) types.Type { return v.resolveType(n.types[i], pkg) }
	switch f.name {
	case "old":
		ne := *e
		ne.st = e.old
		return v.eval(args[0], &ne)
	case "entry":
		ne := *e
		if e.loopSt == nil {
			specFail("entry() outside a loop")
		}
		ne.st = e.loopSt
		return v.eval(args[0], &ne)
	case "seq":
		x := ar(0)
		if st, ok := x.typ.(*specType); ok && strings.HasPrefix(st.sort, "Seq_") {
			return x
		}
		sl := x.typ.Underlying().(*types.Slice)
		return TV{v.seqOfSlice(e.st, x.t, sl.Elem()), seqT(sl.Elem())}
	case "seqof": // seqof(slice, from, n): elements from..from+n
		x := ar(0)
		sl := x.typ.Underlying().(*types.Slice)
		return TV{SeqOf(v.content(e.st, x.t, sl.Elem()), Add(Sel("s.off", x.t), ar(1).t), ar(2).t), seqT(sl.Elem())}
	case "len":
		x := ar(0)
		if st, ok := x.typ.(*specType); ok && strings.HasPrefix(st.sort, "Seq_") {
			return TV{SeqLen(x.t), tMath}
		}
		switch u := x.typ.Underlying().(type) {
		case *types.Slice:
			return TV{Sel("s.len", x.t), tMath}
		case *types.Map:
			_, _, ln := mapHeaps(u)
			return TV{Select(e.st.get(ln), x.t), tMath}
		case *types.Basic:
			return TV{StrLen(x.t), tMath}
		}
		specFail("len of %s", tname2(x.typ))
	case "cap":
		return TV{Sel("s.cap", ar(0).t), tMath}
	case "heapof": // heapof("T.f.g"): the field's value in every object of type T
		parts := strings.Split(args[0].name, ".")
		o, ok := pkg.Scope().Lookup(parts[0]).(*types.TypeName)
		if args[0].op != "str" || !ok {
			specFail("heapof wants \"Type.field...\"")
		}
		var path []int
		t := o.Type()
		for _, f := range parts[1:] {
			obj, ix, _ := types.LookupFieldOrMethod(t, true, pkg, f)
			if obj == nil {
				specFail("heapof: no field %s", f)
			}
			path = append(path, ix...)
			t = obj.Type()
		}
		if v.prog.cellField(o.Type(), path) {
			specFail("heapof: field kept in cells")
		}
		h, ft := fieldHeap(o.Type(), path)
		kt := types.NewPointer(o.Type())
		s := &specType{name: "fmap[" + tname2(kt) + "," + tname2(ft) + "]", sort: arr(SInt, sortOf(ft)), elem: kt}
		fmapVal[s.name] = ft
		return TV{e.st.get(h), s}
	case "content": // content(T, a): the elements of the array a
		t := ty(0)
		m := &specType{name: "fmap[int," + tname2(t) + "]", sort: arr(SInt, sortOf(t)), elem: tMath}
		fmapVal[m.name] = t
		return TV{Select(e.st.get(elemHeap(t)), ar(0).t), m}
	case "arr":
		return TV{Sel("s.arr", ar(0).t), tMath}
	case "off":
		return TV{Sel("s.off", ar(0).t), tMath}
	case "take":
		x := ar(0)
		return TV{SeqTake(x.t, ar(1).t), x.typ}
	case "snoc":
		x := ar(0)
		return TV{SeqSnoc(x.t, ar(1).t), x.typ}
	case "cat":
		x := ar(0)
		return TV{SeqCat(x.t, ar(1).t), x.typ}
	case "nodup":
		return TV{SeqNodup(ar(0).t), tBool}
	case "keys": // domain of a map as a set
		x := ar(0)
		m := x.typ.Underlying().(*types.Map)
		dom, _, _ := mapHeaps(m)
		return TV{Select(e.st.get(dom), x.t), setT(m.Key())}
	case "vals": // values of a map
		x := ar(0)
		m := x.typ.Underlying().(*types.Map)
		_, val, _ := mapHeaps(m)
		s := &specType{name: "fmap[" + tname2(m.Key()) + "," + tname2(m.Elem()) + "]", sort: arr(sortOf(m.Key()), sortOf(m.Elem())), elem: m.Key()}
		fmapVal[s.name] = m.Elem()
		return TV{Select(e.st.get(val), x.t), s}
	case "add":
		x := ar(0)
		return TV{Store(x.t, ar(1).t, True), x.typ}
	case "remove":
		x := ar(0)
		return TV{Store(x.t, ar(1).t, False), x.typ}
	case "put":
		x := ar(0)
		return TV{Store(x.t, ar(1).t, ar(2).t), x.typ}
	case "emptyset":
		t := ty(0)
		return TV{ConstArr(arr(sortOf(t), SBool), False), setT(t)}
	case "emptyseq":
		t := ty(0)
		s := seqT(t)
		return TV{SeqEmpty(s.sort), s}
	case "zero":
		t := ty(0)
		return TV{zero(t), t}
	case "fresh":
		x := ar(0)
		t := x.t
		if t.sort == SSlice {
			t = Sel("s.arr", t)
		}
		return TV{And(Le(e.old.next, t), Lt(t, e.st.next)), tBool}
	case "newer": // allocated since the loop was entered
		x := ar(0)
		t := x.t
		if t.sort == SSlice {
			t = Sel("s.arr", t)
		}
		if e.loopSt == nil {
			specFail("newer outside a loop clause")
		}
		return TV{And(Le(e.loopSt.next, t), Lt(t, e.st.next)), tBool}
	case "allocated":
		x := ar(0)
		t := x.t
		if t.sort == SSlice {
			t = Sel("s.arr", t)
		}
		return TV{And(Le(Num(0), t), raw("<", SBool, t, e.st.next)), tBool}
	case "wf":
		x := ar(0)
		return TV{wfValue(x.t, x.typ, e.st.next), tBool}
	case "res", "res1", "res2":
		i := 0
		if f.name == "res1" {
			i = 1
		} else if f.name == "res2" {
			i = 2
		}
		t := ty(0)
		return TV{ResTerm(i, sortOf(t), ar(0).t), t}
	case "prev":
		return TV{App("lprev", SLog, ar(0).t), tLog}
	case "last":
		return TV{App("llast", SEv, ar(0).t), tEv}
	case "held":
		return TV{v.evalHeld(args[0], e), tBool}
	case "typeis":
		x := ar(0)
		t := ty(0)
		if types.IsInterface(t) {
			return TV{And(Not(Eq(x.t, NilIface)), App("impl$"+sanitize(typeKey(t)), SBool, Sel("i.tag", x.t))), tBool}
		}
		return TV{And(Not(Eq(x.t, NilIface)), Eq(Sel("i.tag", x.t), typeTag(t))), tBool}
	case "unbox":
		t := ty(0)
		return TV{unbox(ar(0).t, t), t}
	case "iface":
		x := ar(0)
		return TV{mkIface(x.t, ty(0)), types.NewInterfaceType(nil, nil)}
	case "mk":
		t := ty(0)
		st := t.Underlying().(*types.Struct)
		var as []*Term
		if len(args) != st.NumFields() {
			specFail("mk(%s): %d fields", tname2(t), st.NumFields())
		}
		for i := range args {
			x := ar(i)
			ft := st.Field(i).Type()
			if x.t == nil {
				x.t = nilOf(ft)
			}
			if x.t.sort != sortOf(ft) && sortOf(ft) == SIface {
				x.t = mkIface(x.t, x.typ)
			}
			as = append(as, x.t)
		}
		return TV{Ctr("mk."+structSort(t), as...), t}
	case "update": // update(structValue, "Field", value)
		x := ar(0)
		st := x.typ.Underlying().(*types.Struct)
		fn := args[1].name
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == fn {
				return TV{updPath(x.t, x.typ, []int{i}, ar(2).t), x.typ}
			}
		}
		specFail("no field %s", fn)
	case "bytes":
		return TV{bytesOf(ar(0).t), seqT(types.Typ[types.Uint8])}
	case "str":
		return TV{App("str.of", SStr, ar(0).t), tString}
	case "word": // the 8 bytes of slice b from index i on, little endian
		b := ar(0)
		sl := b.t
		A := Select(e.st.get(elemHeap(b.typ.Underlying().(*types.Slice).Elem())), Sel("s.arr", sl))
		return TV{App("bytes.le64", SInt, A, ElIdx(Sel("s.off", sl), ar(1).t)), tMath}
	case "closed":
		regHeap("CH:closed", &heapInfo{kind: "chan", typ: tBool, sort: arr(SInt, SBool)})
		return TV{Select(e.st.get("CH:closed"), ar(0).t), tBool}
	case "trigger":
		return TV{True, tBool}
	case "itval": // boolean as 0/1
		return TV{Ite(v.evalBool(args[0], e), Num(1), Num(0)), tMath}
	case "pure", "pure1": // pure("pkg.Func", T, args...): (second) result of a pure external function
		name := args[0].name
		t := ty(0)
		var as []*Term
		for _, a := range args[1:] {
			as = append(as, v.asEvArg(v.eval(a, e), e))
		}
		k := 0
		if f.name == "pure1" {
			k = 1
		}
		return TV{PureTerm(name, k, sortOf(t), as...), t}
	}
	if g := specBuiltins[f.name]; g != nil {
		var as []TV
		for i := range args {
			as = append(as, ar(i))
		}
		return g(v, e, as)
	}
	if d := v.prog.specs.defs[f.name]; d != nil {
		if len(d.params) != len(args) {
			specFail("%s: wrong number of arguments", f.name)
		}
		ne := &env{v: v, st: e.st, old: e.old, loopSt: e.loopSt, vars: map[string]TV{}, con: e.con, pkg: d.pkg, depth: e.depth}
		for i, q := range d.params {
			x := ar(i)
			pt := v.resolveType(q.typ, d.pkg)
			if x.t == nil {
				x.t = nilOf(pt)
			}
			if x.t.sort != sortOf(pt) {
				if sortOf(pt) == SIface {
					x.t = mkIface(x.t, x.typ)
				} else {
					specFail("%s: argument %s is %s, want %s", f.name, q.name, tname2(x.typ), tname2(pt))
				}
			}
			ne.vars[q.name] = TV{x.t, pt}
		}
		return v.eval(d.body, ne)
	}
	if fs := v.prog.specs.funs[f.name]; fs != nil {
		if len(fs.args) != len(args) {
			specFail("%s: wrong number of arguments", f.name)
		}
		var as []*Term
		for i := range args {
			x := ar(i)
			pt := v.resolveType(fs.args[i], fs.pkg)
			t := x.t
			if t == nil {
				t = nilOf(pt)
			}
			if st, ok := pt.(*specType); ok && strings.HasPrefix(st.sort, "Seq_") && t.sort == SSlice {
				t = v.asEvArg(x, e)
			}
			if t.sort != sortOf(pt) {
				if sortOf(pt) == SIface {
					t = mkIface(t, x.typ)
				} else {
					specFail("%s: argument %d is %s, want %s", f.name, i, tname2(x.typ), tname2(pt))
				}
			}
			as = append(as, t)
		}
		rt := v.resolveType(fs.ret, fs.pkg)
		return TV{App("sf$"+f.name, sortOf(rt), as...), rt}
	}
	specFail("unknown function %s", f.name)
	return TV{}
}

// evalHeld: held(x.mu) — the (write) lock is held.
func (v *Ver) evalHeld(n *node, e *env) *Term {
	if n.op == "id" {
		return Select(e.st.get(lockHeapG(e.thePkg().Name()+"."+n.name, "")), Num(0))
	}
	x := v.eval(n.args[0], e)
	pt := x.typ.Underlying().(*types.Pointer)
	_, path, _ := types.LookupFieldOrMethod(pt.Elem(), true, e.thePkg(), n.name)
	return Select(e.st.get(lockHeap(pt.Elem(), path, "")), x.t)
}

var specBuiltins = map[string]func(*Ver, *env, []TV) TV{}
