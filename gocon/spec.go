package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- contract files

type Param struct{ name, sort string }

type SpecFunc struct {
	name      string
	params    []Param
	sort      string
	body      ast.Expr
	src       string
	recursive bool
	keep      bool // stays an application although it is not recursive
	deep      int
}

type Lemma struct {
	name    string
	params  []Param
	indVar  string
	indLo   ast.Expr
	down    bool // induction on indVar towards hi instead of from lo
	body    ast.Expr
	trigger []*ast.CallExpr
	src     string
	active  bool
	manual  bool
	axiom   bool // assumed, listed as such
	uses    []ast.Expr
	fuel    int
	file    string
}

type Cand struct {
	vars []Param // name, kind ("int", "suffix" ...)
	body ast.Expr
	src  string
	main bool
}

type Contract struct {
	ghosts   []string
	assumes  []ast.Expr            // assumed on entry, not checked at calls
	insts    map[string][]ast.Expr // by ghost
	name     string                // pattern
	params   []string
	results  []string
	requires []ast.Expr
	ensures  []ast.Expr
	reqSrc   []string
	ensSrc   []string
	ensProps [][]string
	cands    []*Cand
	jcands   []*Cand
	uses     []ast.Expr
	fuel     int
	props    []string
	trusted  bool
	split    []ast.Expr
	opts     map[string]bool
	file     string
	machine  *machineSpec
	defs     []macro
	opaque   map[string]bool // functions that are not unfolded
	field    string          // the contract of every function value stored in this field (Struct.field)
}

type macro struct {
	re  *regexp.Regexp
	txt string
}

var (
	specFuncs = map[string]*SpecFunc{}
	lemmas    []*Lemma
	lemmaTrig = map[string][]*Lemma{}
	contracts []*Contract
	specConst = map[string]*Term{} // package constants
)

var sortNames = map[string]string{
	"int": SInt, "bool": SBool, "arr": SArrI, "seq": SSeqI, "val": SVal, "seqv": SSeqV,
	"map": "MapT", "arrv": "(Array Int Val)", "arrb": "(Array Int Bool)",
	"trace": "Trace", "arrs": "(Array Int (Seq Int))",
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gocon: "+f+"\n", a...)
	os.Exit(2)
}

func mustExpr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		fatal("contract expression %q: %v", s, err)
	}
	return e
}

var keywords = map[string]bool{"fn": true, "lemma": true, "func": true, "requires": true, "ensures": true,
	"ghost": true, "inst": true, "assume": true, "table": true, "def": true, "opaque": true, "cand": true, "inv": true, "jcand": true, "deepen": true, "keep": true, "use": true, "fuel": true, "props": true, "trusted": true, "end": true, "split": true, "opt": true, "import": true, "field": true,
	"let": true, "on": true, "alias": true, "fact": true, "hold": true, "for": true, "axiom": true}

func loadContracts(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.con"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		var stmts []string
		for _, ln := range strings.Split(string(b), "\n") {
			if i := strings.Index(ln, "//"); i >= 0 {
				ln = ln[:i]
			}
			t := strings.TrimSpace(ln)
			if t == "" {
				continue
			}
			w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '(' || r == '[' || r == '\t' })[0]
			if keywords[w] {
				stmts = append(stmts, t)
			} else {
				if len(stmts) == 0 {
					fatal("%s: unexpected %q", f, t)
				}
				stmts[len(stmts)-1] += " " + t
			}
		}
		var cur *Contract
		for _, s := range stmts {
			for _, t := range expandFor(s) {
				parseStmt(f, t, &cur)
			}
		}
	}
	for _, sf := range specFuncs {
		sf.recursive = sf.keep
		ast.Inspect(sf.body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == sf.name {
					sf.recursive = true
				}
			}
			return true
		})
	}
}

// splitHead splits "name(params) rest".
func splitHead(s string) (name, params, rest string) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return strings.TrimSpace(s), "", ""
	}
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return strings.TrimSpace(s[:i]), s[i+1 : j], strings.TrimSpace(s[j+1:])
			}
		}
	}
	fatal("unbalanced: %s", s)
	return
}

func parseParams(s string) (ps []Param) {
	for _, p := range strings.Split(s, ",") {
		f := strings.Fields(p)
		if len(f) == 0 {
			continue
		}
		q := Param{name: f[0]}
		if len(f) > 1 {
			q.sort = strings.Join(f[1:], " ")
		}
		ps = append(ps, q)
	}
	return
}

func toSort(s string) string {
	r, ok := sortNames[s]
	if !ok {
		fatal("unknown sort %q", s)
	}
	return r
}

func parseStmt(file, s string, cur **Contract) {
	kw := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '(' || r == '[' })[0]
	rest := strings.TrimSpace(s[len(kw):])
	c := *cur
	if c != nil && kw != "def" {
		for i := len(c.defs) - 1; i >= 0; i-- {
			rest = c.defs[i].re.ReplaceAllLiteralString(rest, c.defs[i].txt)
		}
	}
	switch kw {
	case "def": // def NAME = text, within the current contract
		i := strings.Index(rest, "=")
		c.defs = append(c.defs, macro{regexp.MustCompile(`\b` + strings.TrimSpace(rest[:i]) + `\b`), strings.TrimSpace(rest[i+1:])})
	case "fn":
		name, ps, r := splitHead(rest)
		eq := strings.IndexByte(r, '=')
		sf := &SpecFunc{name: name, params: parseParams(ps), sort: toSort(strings.TrimSpace(r[:eq])), src: s}
		for i := range sf.params {
			sf.params[i].sort = toSort(sf.params[i].sort)
		}
		sf.body = mustExpr(r[eq+1:])
		specFuncs[name] = sf
	case "table":
		// table NAME X=V ...: an array of 256 entries, zero unless given
		f := strings.Fields(rest)
		vs := make([]*big.Int, 256)
		for i := range vs {
			vs[i] = new(big.Int)
		}
		for _, e := range f[1:] {
			v, err := strconv.Atoi(e[2:])
			if err != nil || e[1] != '=' {
				fatal("table entry %q", e)
			}
			vs[e[0]] = big.NewInt(int64(v))
		}
		specConst[f[0]] = Table(vs)
	case "field":
		c.field = c.name
	case "keep":
		for _, n := range strings.Fields(rest) {
			specFuncs[n].keep = true
		}
	case "deepen":
		f := strings.Fields(rest)
		specFuncs[f[0]].deep, _ = strconv.Atoi(f[1])
	case "let", "on", "alias", "fact", "hold":
		if c.machine == nil {
			c.machine = newMachine()
		}
		c.machine.stmt(kw, rest)
	case "lemma", "axiom":
		// lemma NAME(params) [induct v from E | inductup v to E] [trigger f(..)] [fuel n] : body
		name, ps, r := splitHead(rest)
		i := strings.Index(r, ":")
		opts, body := r[:i], r[i+1:]
		l := &Lemma{file: filepath.Base(file), name: name, params: parseParams(ps), src: s, body: mustExpr(body)}
		for i := range l.params {
			l.params[i].sort = toSort(l.params[i].sort)
		}
		for _, o := range strings.Split(opts, ";") {
			o = strings.TrimSpace(o)
			switch {
			case strings.HasPrefix(o, "inductup "):
				f := strings.SplitN(o[9:], " to ", 2)
				l.indVar, l.indLo, l.down = strings.TrimSpace(f[0]), mustExpr(f[1]), true
			case strings.HasPrefix(o, "induct "):
				f := strings.SplitN(o[7:], " from ", 2)
				l.indVar, l.indLo = strings.TrimSpace(f[0]), mustExpr(f[1])
			case strings.HasPrefix(o, "trigger "):
				l.trigger = append(l.trigger, mustExpr(o[8:]).(*ast.CallExpr))
			case strings.HasPrefix(o, "use "):
				l.uses = append(l.uses, mustExpr(o[4:]))
			case strings.HasPrefix(o, "fuel "):
				l.fuel, _ = strconv.Atoi(strings.TrimSpace(o[5:]))
			case o == "":
			default:
				fatal("lemma option %q", o)
			}
		}
		if l.axiom = kw == "axiom"; l.axiom {
			assumptionNotes["axiom "+l.name+": "+strings.TrimSpace(body)] = true
		}
		lemmas = append(lemmas, l)
		if len(l.trigger) > 0 {
			fn := l.trigger[0].Fun.(*ast.Ident).Name
			lemmaTrig[fn] = append(lemmaTrig[fn], l)
		}
	case "func":
		name, ps, r := splitHead(rest)
		// method contracts are written as (*Decoder).name(...)
		if name == "" {
			recv := "(" + ps + ")"
			n2, p2, r2 := splitHead(r)
			name, ps, r = recv+n2, p2, r2
		}
		c = &Contract{name: name, file: filepath.Base(file), opts: map[string]bool{}}
		for _, p := range parseParams(ps) {
			c.params = append(c.params, p.name)
		}
		if strings.HasPrefix(r, "(") {
			_, rs, _ := splitHead(r)
			for _, p := range parseParams(rs) {
				c.results = append(c.results, p.name)
			}
		}
		contracts = append(contracts, c)
		*cur = c
	case "assume":
		c.assumes = append(c.assumes, mustExpr(rest))
	case "requires":
		c.requires = append(c.requires, mustExpr(rest))
		c.reqSrc = append(c.reqSrc, rest)
	case "ensures":
		var props []string
		if strings.HasPrefix(rest, "[") {
			j := strings.IndexByte(rest, ']')
			props = strings.Fields(rest[1:j])
			rest = rest[j+1:]
		}
		c.ensures = append(c.ensures, mustExpr(rest))
		c.ensSrc = append(c.ensSrc, strings.TrimSpace(rest))
		c.ensProps = append(c.ensProps, props)
	case "cand", "inv":
		_, ps, r := splitHead(rest)
		c.cands = append(c.cands, &Cand{vars: parseParams(ps), body: mustExpr(r), src: rest, main: kw == "inv"})
	case "jcand":
		_, ps, r := splitHead(rest)
		c.jcands = append(c.jcands, &Cand{vars: parseParams(ps), body: mustExpr(r), src: rest})
	case "ghost": // a constant the postconditions hold for, whatever its value
		c.ghosts = append(c.ghosts, strings.Fields(rest)...)
	case "inst": // terms for which postconditions of callees with ghosts are used
		g, e, _ := strings.Cut(rest, ":")
		if c.insts == nil {
			c.insts = map[string][]ast.Expr{}
		}
		for _, n := range strings.Fields(g) {
			c.insts[n] = append(c.insts[n], mustExpr(e))
		}
	case "use":
		c.uses = append(c.uses, mustExpr(rest))
	case "fuel":
		c.fuel, _ = strconv.Atoi(rest)
	case "opaque":
		c.opaque = map[string]bool{}
		for _, f := range strings.Fields(rest) {
			c.opaque[f] = true
		}
	case "props":
		c.props = strings.Fields(rest)
	case "trusted":
		c.trusted = true
	case "opt":
		for _, o := range strings.Fields(rest) {
			c.opts[o] = true
		}
	case "end":
		*cur = nil
	default:
		fatal("statement %q", s)
	}
}

// ---- evaluation

type Env struct {
	vars map[string]Value
	st   *State // contents of objects
	old  *State
	lets map[string]ast.Expr // names evaluated on use
	ext  func(*Env, string, *ast.CallExpr) (Value, bool)
	x    *Exec
	end  *specEnd
}

func (e *Env) with(vars map[string]Value) *Env {
	n := map[string]Value{}
	for k, v := range e.vars {
		n[k] = v
	}
	for k, v := range vars {
		n[k] = v
	}
	r := *e
	r.vars = n
	return &r
}

type specError struct{ msg string }

func specFail(f string, a ...any) { panic(specError{fmt.Sprintf(f, a...)}) }

func (sf *SpecFunc) bind(args []*Term) *Env {
	if len(args) != len(sf.params) {
		specFail("%s: %d arguments for %d parameters", sf.name, len(args), len(sf.params))
	}
	m := map[string]Value{}
	for i, p := range sf.params {
		if args[i].sort != p.sort {
			specFail("%s: argument %s has sort %s, want %s", sf.name, p.name, args[i].sort, p.sort)
		}
		m[p.name] = args[i]
	}
	return &Env{vars: m}
}

func (sf *SpecFunc) expand(args []*Term) *Term { return sf.bind(args).term(sf.body) }

func (sf *SpecFunc) apply(args []*Term) *Term {
	env := sf.bind(args)
	if !sf.recursive {
		return env.term(sf.body)
	}
	if c, ok := sf.body.(*ast.CallExpr); ok && len(c.Args) == 3 {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "ite" {
			switch env.term(c.Args[0]) {
			case True:
				return env.term(c.Args[1])
			case False:
				return env.term(c.Args[2])
			}
		}
	}
	return App(sf.name, sf.sort, args...)
}

func (e *Env) term(x ast.Expr) *Term {
	v := e.eval(x)
	return toTerm(v)
}

func toTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Iface:
		return v.term()
	case *RawPtr:
		return v.addr
	}
	specFail("not a term: %T", v)
	return nil
}

func (e *Env) eval(x ast.Expr) Value {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
			if !ok {
				specFail("number %s", x.Value)
			}
			return IntB(n)
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			if err != nil {
				specFail("%v", err)
			}
			return Int(int64(r))
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				specFail("%v", err)
			}
			return StrSeq(s)
		}
	case *ast.Ident:
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return True
		case "false":
			return False
		case "eps":
			return SeqEmpty(SSeqI)
		case "epsv":
			return SeqEmpty(SSeqV)
		case "nilv":
			return nilV
		case "emptymap":
			return App("emptymap", "MapT")
		}
		if l, ok := e.lets[x.Name]; ok {
			return e.eval(l)
		}
		if t, ok := specConst[x.Name]; ok {
			return t
		}
		if v := globByName(e.st, x.Name); v != nil {
			return v
		}
		specFail("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return Not(e.term(x.X))
		case token.SUB:
			return Neg(e.term(x.X))
		}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.IndexExpr:
		b := e.eval(x.X)
		i := e.term(x.Index)
		switch b := b.(type) {
		case *Term:
			return Select(b, i)
		case *Slice:
			return e.state().loadElem(b, Add(b.off, i))
		}
		specFail("index of %T", b)
	case *ast.SliceExpr:
		b := e.eval(x.X).(*Slice)
		lo, hi := Int(0), b.len
		if x.Low != nil {
			lo = e.term(x.Low)
		}
		if x.High != nil {
			hi = e.term(x.High)
		}
		return &Slice{h: b.h, off: Add(b.off, lo), len: Sub(hi, lo), cap: Sub(b.cap, lo), elem: b.elem, str: b.str}
	case *ast.SelectorExpr:
		if ix, ok := x.X.(*ast.IndexExpr); ok { // only the field of the element
			if b, ok := e.eval(ix.X).(*Slice); ok {
				if u, ok := b.elem.Underlying().(*types.Struct); ok {
					for i := 0; i < u.NumFields(); i++ {
						if u.Field(i).Name() == x.Sel.Name {
							return e.state().loadAt(b.h, e.state().simp(Add(b.off, e.term(ix.Index))), b.elem, "."+x.Sel.Name, u.Field(i).Type())
						}
					}
				}
			}
		}
		b := e.eval(x.X)
		if p, ok := b.(*PtrV); ok {
			b = getPath(e.st.cells[p.cell], p.path)
		}
		if st, ok := b.(*StructV); ok {
			for i := 0; i < st.typ.NumFields(); i++ {
				if st.typ.Field(i).Name() == x.Sel.Name {
					return st.f[i]
				}
			}
		}
		if p, ok := b.(*RawPtr); ok {
			t := p.typ.Underlying()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem().Underlying()
			}
			if u, ok := t.(*types.Struct); ok {
				var fs []*types.Var
				for i := 0; i < u.NumFields(); i++ {
					fs = append(fs, u.Field(i))
				}
				for i, f := range fs {
					if f.Name() != x.Sel.Name {
						continue
					}
					if p.addr == Int(0) { // a field of nil is nothing in particular
						return buildVal(f.Type(), "", func(p, so string, lt types.Type) *Term {
							return Var("nil."+x.Sel.Name+p, so)
						})
					}
					return (&Exec{}).rawLoad(e.state(), Add(p.addr, Int(sizes.Offsetsof(fs)[i])), f.Type())
				}
			}
		}
		specFail("selector %s of %T", x.Sel.Name, b)
	case *ast.CallExpr:
		return e.call(x)
	}
	specFail("unsupported expression %T", x)
	return nil
}

func (e *Env) binary(x *ast.BinaryExpr) Value {
	switch x.Op {
	case token.LAND:
		a := e.term(x.X)
		if a == False {
			return False
		}
		return And(a, e.term(x.Y))
	case token.LOR:
		a := e.term(x.X)
		if a == True {
			return True
		}
		return Or(a, e.term(x.Y))
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		a, b := e.eval(x.X), e.eval(x.Y)
		t := e.equal(a, b)
		if x.Op == token.NEQ {
			t = Not(t)
		}
		return t
	}
	a, b := e.term(x.X), e.term(x.Y)
	switch x.Op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		return EDiv(a, b.n)
	case token.REM:
		return EMod(a, b.n)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	}
	specFail("operator %s", x.Op)
	return nil
}

// equal compares by content for strings and slices of scalars.
func (e *Env) equal(a, b Value) *Term {
	if s, ok := a.(*Slice); ok {
		a = e.state().seqOf(s)
	}
	if s, ok := b.(*Slice); ok {
		b = e.state().seqOf(s)
	}
	return Eq(toTerm(a), toTerm(b))
}

func (e *Env) call(x *ast.CallExpr) Value {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		specFail("call of %T", x.Fun)
	}
	arg := func(i int) Value { return e.eval(x.Args[i]) }
	targ := func(i int) *Term { return e.term(x.Args[i]) }
	slc := func(i int) *Slice {
		s, ok := arg(i).(*Slice)
		if !ok {
			specFail("%s: argument is %T, not a slice or string", id.Name, arg(i))
		}
		return s
	}
	if e.ext != nil {
		if v, ok := e.ext(e, id.Name, x); ok {
			return v
		}
	}
	switch id.Name {
	case "ite":
		c := targ(0)
		if c == True {
			return targ(1)
		}
		if c == False {
			return targ(2)
		}
		return Ite(c, targ(1), targ(2))
	case "imp":
		c := targ(0)
		if c == False {
			return True
		}
		return Implies(c, targ(1))
	case "iff":
		return Eq(targ(0), targ(1))
	case "len":
		return slc(0).len
	case "cap":
		return slc(0).cap
	case "off":
		return slc(0).off
	case "handle":
		return slc(0).h
	case "endof":
		s := slc(0)
		return Add(s.off, s.len)
	case "arr":
		s := slc(0)
		return e.st.arrOf(s, ".")
	case "farr": // farr(x, "Field")
		s := slc(0)
		f := x.Args[1].(*ast.BasicLit).Value
		f, _ = strconv.Unquote(f)
		return e.st.arrOf(s, f)
	case "memT": // memT(p): the memory of the destination type at p
		for i := len(e.st.raw) - 1; i >= 0; i-- {
			if w := e.st.raw[i]; w.kind == "[3]int" && e.state().simp(Sub(w.addr, targ(0))) == Int(0) {
				return w.v
			}
		}
		return App("rd:[3]int", SVal, targ(0))
	case "init": // init(x, "Field"): what the array held when it came into view
		f, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		return newState().arrOf(slc(0), f)
	case "seq":
		return e.state().seqOf(slc(0))
	case "sub":
		return SubSeq(targ(0), targ(1), targ(2))
	case "unit":
		return SeqUnit(targ(0))
	case "cat":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, targ(i))
		}
		return SeqConcat(ts[0].sort, ts...)
	case "heapseq": // heapseq(handle, off, len): text of an unmodified string
		h := targ(0)
		o := targ(1)
		a := App("H:uint8", SArrI, h)
		a.elo, a.ehi = typeRange(types.Typ[types.Uint8])
		return SubSeq(a, o, Add(o, targ(2)))
	case "sseq": // sseq(A, i, j): the sequence A[i], ..., A[j-1]
		return SubSeq(targ(0), targ(1), targ(2))
	case "store":
		return Store(targ(0), targ(1), targ(2))
	case "old":
		o := *e
		o.st = e.old
		return o.eval(x.Args[0])
	case "mapof":
		m := arg(0)
		switch m := m.(type) {
		case *MapV:
			return e.st.mapContent(m)
		}
		specFail("mapof %T", m)
	case "fresh":
		return BoolT(isFresh(slc(0).h))
	case "app": // app("name", "sort", args...): uninterpreted function
		n, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		s, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		var ts []*Term
		for _, a := range x.Args[2:] {
			v := e.eval(a)
			if sl, ok := v.(*Slice); ok {
				v = e.state().seqOf(sl)
			}
			ts = append(ts, toTerm(v))
		}
		if s == "string" {
			return pureVal(nil, e.state(), types.Typ[types.String], n, ts)
		}
		return App(n, toSort(s), ts...)
	}
	if sf := specFuncs[id.Name]; sf != nil {
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, targ(i))
		}
		return sf.apply(ts)
	}
	specFail("unknown function %s", id.Name)
	return nil
}

func (e *Env) state() *State {
	if e.st == nil {
		return newState()
	}
	return e.st
}

// ---- lemmas

func (l *Lemma) inst(args map[string]Value) *Term {
	return (&Env{vars: args}).term(l.body)
}

// instances matches the first trigger against the application t and the
// further ones against all applications met so far.
func (l *Lemma) instances(t *Term, apps map[string][]*Term) (out []*Term) {
	m := map[string]Value{}
	if !l.match(l.trigger[0], t, m) {
		return nil
	}
	var rec func(k int, m map[string]Value)
	rec = func(k int, m map[string]Value) {
		if k == len(l.trigger) {
			for _, p := range l.params {
				if m[p.name] == nil {
					return
				}
			}
			out = append(out, l.inst(m))
			return
		}
		for _, u := range apps[l.trigger[k].Fun.(*ast.Ident).Name] {
			m2 := map[string]Value{}
			for a, b := range m {
				m2[a] = b
			}
			if l.match(l.trigger[k], u, m2) {
				rec(k+1, m2)
			}
		}
	}
	rec(1, m)
	return
}

func (l *Lemma) match(p ast.Expr, t *Term, m map[string]Value) bool {
	switch p := p.(type) {
	case *ast.BasicLit:
		return (&Env{}).term(p) == t
	case *ast.Ident:
		for _, q := range l.params {
			if q.name == p.Name {
				if q.sort != t.sort {
					return false
				}
				if o, ok := m[p.Name]; ok {
					return o == Value(t)
				}
				m[p.Name] = t
				return true
			}
		}
		return false
	case *ast.CallExpr:
		id := p.Fun.(*ast.Ident)
		if t.op != "app" || t.name != id.Name || len(t.args) != len(p.Args) {
			return false
		}
		for i, a := range p.Args {
			if !l.match(a, t.args[i], m) {
				return false
			}
		}
		return true
	}
	return false
}

// obligation returns the proof obligation of the lemma (by induction).
func (l *Lemma) obligation() *Query {
	m := map[string]Value{}
	for _, p := range l.params {
		v := Var("l!"+p.name, p.sort)
		m[p.name] = v
	}
	env := &Env{vars: m}
	q := &Query{goal: env.term(l.body), fuel: l.fuel}
	if q.fuel == 0 {
		q.fuel = 2
	}
	if l.indVar != "" {
		lo := env.term(l.indLo)
		v := m[l.indVar].(*Term)
		step := -1
		c := Gt(v, lo)
		if l.down {
			step = 1
			c = Lt(v, lo)
		}
		m2 := map[string]Value{}
		for k, x := range m {
			m2[k] = x
		}
		m2[l.indVar] = Add(v, Int(int64(step)))
		q.hyps = append(q.hyps, Implies(c, (&Env{vars: m2}).term(l.body)))
	}
	for _, u := range l.uses {
		q.hyps = append(q.hyps, useInst(env, u))
	}
	return q
}

// useInst evaluates "NAME(args)" to the instance of the lemma NAME.
func useInst(env *Env, u ast.Expr) *Term {
	c := u.(*ast.CallExpr)
	n := c.Fun.(*ast.Ident).Name
	for _, l := range lemmas {
		if l.name == n {
			m := map[string]Value{}
			for i, p := range l.params {
				m[p.name] = env.term(c.Args[i])
			}
			return l.inst(m)
		}
	}
	fatal("unknown lemma %s", n)
	return nil
}

// loadConsts makes the integer constants of a package available by name.
func loadConsts(p *types.Package) {
	for _, n := range p.Scope().Names() {
		if c, ok := p.Scope().Lookup(n).(*types.Const); ok {
			if v := constant.ToInt(c.Val()); v.Kind() == constant.Int {
				b, ok := constant.Val(v).(*big.Int)
				if !ok {
					i, _ := constant.Int64Val(v)
					b = big.NewInt(i)
				}
				specConst[n] = IntB(b)
			}
		}
	}
}
