package main

// Machines: the body of a big loop with labels is verified label by label. Every path of
// the code from one label to the next must have exactly the effect of the first row of the
// contract whose guard holds (memory written, calls made, frames changed, error reported,
// next label, token and frame).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type mact struct {
	lhs string // "" or the name bound to the value
	e   ast.Expr
	src string
}

type mrow struct {
	state string
	guard ast.Expr
	props []string
	acts  []mact
	src   string
	hits  int
}

type mfact struct {
	kind string // slice the fact is about, or "join"
	e    ast.Expr
	src  string
}

type minv struct {
	state string
	e     ast.Expr
	src   string
}

type machineSpec struct {
	rows   []*mrow
	lets   map[string]ast.Expr
	facts  []*mfact
	invs   []*minv
	alias  map[string]string // label -> state
	states map[string]bool
}

func newMachine() *machineSpec {
	return &machineSpec{lets: map[string]ast.Expr{}, alias: map[string]string{}, states: map[string]bool{}}
}

var forRe = regexp.MustCompile(`\$\{(\w+)\}`)

// expandFor expands "for X,Y in a,b c,d : text" templates.
func expandFor(s string) []string {
	if !strings.HasPrefix(s, "for ") {
		return []string{s}
	}
	i := strings.Index(s, " in ")
	j := strings.Index(s, " : ")
	names := strings.Split(strings.TrimSpace(s[4:i]), ",")
	var out []string
	for _, tup := range strings.Fields(s[i+4 : j]) {
		vs := strings.Split(tup, ",")
		if len(vs) != len(names) {
			fatal("for: %q has not %d values", tup, len(names))
		}
		t := forRe.ReplaceAllStringFunc(s[j+3:], func(m string) string {
			for k, n := range names {
				if m == "${"+n+"}" {
					return vs[k]
				}
			}
			return m
		})
		out = append(out, expandFor(t)...)
	}
	return out
}

// splitTop splits at sep outside of brackets and quotes.
func splitTop(s string, sep string) (out []string) {
	d, q, last := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			q = !q
		case q:
		case c == '(' || c == '[' || c == '{':
			d++
		case c == ')' || c == ']' || c == '}':
			d--
		case d == 0 && strings.HasPrefix(s[i:], sep):
			out = append(out, strings.TrimSpace(s[last:i]))
			last = i + len(sep)
			i = last - 1
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

func (m *machineSpec) stmt(kw, rest string) {
	switch kw {
	case "let":
		i := strings.Index(rest, "=")
		m.lets[strings.TrimSpace(rest[:i])] = mustExpr(rest[i+1:])
	case "on": // STATE guard [props] -> acts
		i := strings.IndexByte(rest, ' ')
		r := &mrow{state: rest[:i], src: rest}
		m.states[r.state] = true
		parts := splitTop(rest[i+1:], "->")
		g := parts[0]
		if j := strings.LastIndex(g, "["); j >= 0 && strings.HasSuffix(g, "]") && strings.HasPrefix(g[j:], "[C") {
			r.props = strings.Fields(g[j+1 : len(g)-1])
			g = g[:j]
		}
		r.guard = mustExpr(g)
		for _, a := range splitTop(strings.Join(parts[1:], "->"), ";") {
			if a == "" {
				continue
			}
			w := mact{src: a}
			if k := strings.Index(a, ":="); k >= 0 {
				w.lhs, a = strings.TrimSpace(a[:k]), a[k+2:]
			}
			w.e = mustExpr(a)
			r.acts = append(r.acts, w)
		}
		m.rows = append(m.rows, r)
	case "alias":
		f := strings.Fields(rest)
		m.alias[f[0]] = f[1]
	case "fact": // fact KIND: expr over IDX
		i := strings.Index(rest, ":")
		m.facts = append(m.facts, &mfact{strings.TrimSpace(rest[:i]), mustExpr(rest[i+1:]), rest})
		assumptionNotes["decode step fact ("+strings.TrimSpace(rest[:i])+"): "+strings.TrimSpace(rest[i+1:])] = true
	case "hold": // hold STATE: expr, an invariant at a label
		i := strings.Index(rest, ":")
		m.states[strings.TrimSpace(rest[:i])] = true
		m.invs = append(m.invs, &minv{strings.TrimSpace(rest[:i]), mustExpr(rest[i+1:]), strings.TrimSpace(rest[i+1:])})
	}
}

// ---- execution

var big0, big1 = new(big.Int), big.NewInt(1)

type machineRun struct {
	x        *Exec
	ct       *Contract
	m        *machineSpec
	fn       *ssa.Function
	header   *ssa.BasicBlock
	ti       *ssa.Phi
	cuts     map[*ssa.BasicBlock]string
	cells    map[string]*Cell
	entry    *State // state at the label the paths start from
	start    string
	errCells [2]*Cell
	inFact   bool
	seenFact map[string]bool
	prop     string
}

func blockPhi(b *ssa.BasicBlock, comment string) *ssa.Phi {
	for _, p := range headerPhis(b) {
		if p.Comment == comment {
			return p
		}
	}
	return nil
}

// verifyMachine checks a labelled loop against its rows.
func verifyMachine(fn *ssa.Function, ct *Contract, prop string) *Result {
	t0 := time.Now()
	inst := instName(fn)
	x := &Exec{root: ct, rootFn: fn, rootVars: map[string]Value{}, fuel: ct.fuel, name: inst, props: ct.props,
		inlined: map[string]bool{}, trusted: map[string]bool{}}
	res := &Result{Func: inst, Rows: map[string]int{}}
	r := &machineRun{x: x, ct: ct, m: ct.machine, fn: fn, cuts: map[*ssa.BasicBlock]string{}, cells: map[string]*Cell{}, prop: prop}
	x.mach = r
	var finals []*finalState
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case specError:
					res.Failed = append(res.Failed, Failed{Name: inst + ": contract does not apply: " + e.msg, Props: ct.props})
				case unsupportedErr:
					res.Failed = append(res.Failed, Failed{Name: inst + ": outside the verifier's reach: " + e.msg, Props: ct.props})
				default:
					panic(e)
				}
			}
		}()
		r.run(res, &finals)
	}()
	tExec := time.Since(t0).Seconds()
	if prop != "" {
		for _, f := range finals {
			var os []*Obl
			for _, o := range f.st.obs {
				if hasProp(o.props, prop) || hasProp(ct.props, prop) {
					os = append(os, o)
				}
			}
			f.st.obs = os
		}
	}
	x.discharge(finals, res, ct.props)
	res.Paths = x.paths
	res.Invariants = x.houdini
	for n := range x.inlined {
		res.Inlined = append(res.Inlined, n)
	}
	for n := range x.trusted {
		res.Trusted = append(res.Trusted, n)
	}
	sort.Strings(res.Inlined)
	sort.Strings(res.Trusted)
	for _, row := range r.m.rows {
		if row.hits == 0 {
			res.Unhit = append(res.Unhit, row.src)
		}
	}
	res.Seconds = time.Since(t0).Seconds()
	if debugLoops {
		fmt.Fprintf(os.Stderr, "%s: exploration %.1fs, %d paths\n", inst, tExec, x.paths)
		for _, u := range res.Unhit {
			fmt.Fprintf(os.Stderr, "  row never met: %s\n", u)
		}
	}
	return res
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == "*" {
			return true
		}
		if p == q {
			return true
		}
	}
	return false
}

func (r *machineRun) run(res *Result, finals *[]*finalState) {
	x, fn := r.x, r.fn
	// the outermost loop with the largest body
	for h, li := range loopsOf(fn) {
		if r.header == nil || len(li.body) > len(loopsOf(fn)[r.header].body) {
			r.header = h
		}
	}
	if r.header == nil {
		unsupported("no main loop")
	}
	ps := headerPhis(r.header)
	for _, p := range ps {
		if _, _, ok := intInfo(p.Type()); ok && r.ti == nil {
			r.ti = p
		} else {
			unsupported("main loop variable %s", p.Comment)
		}
	}
	if r.ti == nil {
		unsupported("no token index in the main loop")
	}
	r.cuts[r.header] = "MAIN"
	for _, b := range fn.Blocks {
		if !loopsOf(fn)[r.header].body[b] {
			continue
		}
		if s, ok := r.m.alias[b.Comment]; ok {
			t := b
			for len(t.Instrs) == 1 && len(t.Succs) == 1 { // a label in front of a loop
				t = t.Succs[0]
			}
			r.cuts[t] = s
		} else if r.m.states[b.Comment] && b.Comment != "MAIN" {
			t := b
			for len(t.Instrs) == 1 && len(t.Succs) == 1 && len(headerPhis(t.Succs[0])) > 0 && loopsOf(fn)[t.Succs[0]] != nil {
				t = t.Succs[0]
			}
			r.cuts[t] = b.Comment
		}
	}
	// a label on a loop has no block of its own: the loop's header is the label
	if syn := fn.Syntax(); syn != nil {
		ast.Inspect(syn, func(n ast.Node) bool {
			ls, ok := n.(*ast.LabeledStmt)
			if !ok || !r.m.states[ls.Label.Name] || ls.Label.Name == "MAIN" {
				return true
			}
			for _, s := range r.cuts {
				if s == ls.Label.Name {
					return true
				}
			}
			var best *ssa.BasicBlock
			for h, li := range loopsOf(fn) {
				in := false
				for _, i := range h.Instrs {
					if _, phi := i.(*ssa.Phi); !phi && i.Pos().IsValid() {
						in = ls.Pos() <= i.Pos() && i.Pos() < ls.End()
						break
					}
				}
				if in && (best == nil || len(li.body) > len(loopsOf(fn)[best].body)) {
					best = h
				}
			}
			if best != nil && best != r.header {
				r.cuts[best] = ls.Label.Name
			}
			return true
		})
	}
	base := newState()
	fr := &Frame{fn: fn, locals: map[ssa.Value]Value{}, blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		v := symParam(base, p.Type(), "p!"+p.Name())
		fr.locals[p] = v
		if i < len(r.ct.params) {
			x.rootVars[r.ct.params[i]] = v
		}
	}
	role := captured(fn)
	for _, fv := range fn.FreeVars {
		et := fv.Type().(*types.Pointer).Elem()
		c, name := newCell(et, role[fv]), role[fv]
		base.cells[c] = symParam(base, et, "fv!"+name)
		if name == "si" {
			base.cells[c] = RangeVar("si", big0, p2(31))
		}
		fr.locals[fv] = &PtrV{cell: c}
		r.cells[name] = c
		if name != "si" {
			x.rootVars[name] = base.cells[c]
		}
	}
	base.frames = []*Frame{fr}
	for _, n := range []string{"si", "errIndex", "err", "d", "s"} {
		if r.cells[n] == nil {
			unsupported("captured variable %s is missing", n)
		}
	}
	dp, ok := base.cells[r.cells["d"]].(*PtrV)
	if !ok {
		unsupported("decoder of unexpected type")
	}
	for i, f := 0, dp.cell.typ.Underlying().(*types.Struct); i < f.NumFields(); i++ {
		if f.Field(i).Name() == "stackExp" {
			x.rootVars["F"] = base.cells[dp.cell].(*StructV).f[i]
		}
	}
	if x.rootVars["F"] == nil {
		unsupported("decoder without stackExp")
	}
	// function entry to the main loop
	e0 := base.clone()
	r.begin(e0, "ENTRY", Int(0))
	r.explore(e0, finals)
	// label to label
	var order []*ssa.BasicBlock
	for b := range r.cuts {
		order = append(order, b)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Index < order[j].Index })
	for _, b := range order {
		st := base.clone()
		f := st.top()
		tiHead := RangeVar("ti", big0, maxLen)
		f.locals[r.ti] = tiHead
		f.blk, f.prev, f.idx = b, b, len(headerPhis(b))
		ti := tiHead
		for _, p := range headerPhis(b) {
			v := leafVar("phi!"+p.Name()+"!"+p.Comment, SInt, p.Type())
			if p.Comment == r.ti.Comment {
				v = tiHead
				f.locals[r.ti] = leafVar("stale!ti", SInt, p.Type())
			} else if b != r.header {
				unsupported("label variable %s at %s", p.Comment, r.cuts[b])
			}
			f.locals[p] = v
		}
		r.begin(st, r.cuts[b], ti)
		if r.cuts[b] == "MAIN" && b != r.header {
			for _, iv := range r.m.invs {
				if iv.state == b.Comment || r.m.alias[iv.state] == "MAIN" {
					st.assume(r.env(st).term(iv.e))
				}
			}
		}
		r.explore(st, finals)
	}
}

func (r *machineRun) begin(st *State, state string, ti *Term) {
	r.start = state
	r.x.rootVars["ti"] = ti
	r.x.rootVars["si"] = st.cells[r.cells["si"]]
	r.x.entry = st.clone()
	r.entry = r.x.entry
	r.seenFact = nil
	for _, iv := range r.m.invs {
		if iv.state == state {
			st.assume(r.env(st).term(iv.e))
		}
	}
	r.facts(st, "step", nil)
}

func (r *machineRun) env(st *State) *Env {
	e := &Env{vars: map[string]Value{}, st: st, old: r.entry, lets: r.m.lets, ext: r.call, x: r.x}
	for k, v := range r.x.rootVars {
		e.vars[k] = v
	}
	e.vars["START"] = StrSeq(r.start)
	return e
}

// facts assumes the well-formedness facts of kind at index idx.
func (r *machineRun) facts(st *State, kind string, idx *Term) {
	if r.inFact {
		return
	}
	r.inFact = true
	defer func() { r.inFact = false }()
	env := r.env(st)
	if idx != nil {
		env.vars["IDX"] = idx
	}
	env.st = r.entry // facts speak about the immutable parts and the state at the label
	for _, f := range r.m.facts {
		if f.kind == kind {
			t := st.simp(env.term(f.e))
			if t != True {
				st.assume(t)
			}
		}
	}
}

// onIndex is called for every element access of the code under verification.
func (r *machineRun) onIndex(st *State, s *Slice, i *Term) {
	if t, ok := r.x.rootVars[r.ct.params[0]].(*Slice); ok && s.h == t.h {
		r.facts(st, "token", st.simp(Add(s.off, i)))
		return
	}
	if f := r.x.rootVars["F"].(*Slice); s.h == f.h {
		r.facts(st, "frame", st.simp(Add(s.off, i)))
		return
	}
	switch n := elemKey(s.elem); {
	case strings.HasSuffix(n, "fieldStackFrame"):
		r.inFact = true
		v := st.loadAt(s.h, Add(s.off, i), s.elem, "", s.elem)
		r.inFact = false
		r.x.rootVars["ELEM"] = v
		r.facts(st, "field", i)
	case strings.Contains(n, "recursionStackFrame"):
		v := st.loadAt(s.h, Add(s.off, i), s.elem, "", s.elem)
		r.x.rootVars["ELEM"] = v
		r.facts(st, "recursion", i)
	}
}

// relevant tells whether some row of the property under check may apply to the path.
func (r *machineRun) relevant(st *State) bool {
	if r.prop == "" || hasProp(r.ct.props, r.prop) {
		return true
	}
	at := r.entry
	env := r.env(at)
	for _, row := range r.m.rows {
		if row.state != r.start {
			continue
		}
		g := st.simp(env.term(row.guard))
		if g == False {
			continue
		}
		if hasProp(row.props, r.prop) {
			return true
		}
		if g == True {
			return false
		}
	}
	return true
}

type specEnd struct {
	state   string // label reached, "err" or "done"
	ti, si  *Term
	eIndex  *Term
	eVal    *Term
	props   []string
	src     string
	fresh   map[*Term]*Term // placeholder -> handle of the code
	content []contCheck
}

type contCheck struct {
	h    *Term
	leaf string
	want *Term
}

func (r *machineRun) explore(st *State, finals *[]*finalState) {
	x := r.x
	first := true
	_ = first
	x.cut = func(s *State, b *ssa.BasicBlock) bool {
		_, ok := r.cuts[b]
		return ok
	}
	start, entry := r.start, r.entry
	x.run(st, func(s *State, k string, ret Value) {
		x.paths++
		switch k {
		case "cut":
			if !s.dead {
				b := s.top().blk
				r.compare(start, entry, s, r.cuts[b], b, nil, finals)
				return
			}
		case "return":
			if !s.dead {
				r.compare(start, entry, s, "return", nil, ret, finals)
				return
			}
		}
		*finals = append(*finals, &finalState{s, k})
	})
}

// compare runs the specification from the start label under the condition of the code
// path and compares the two ends.
func (r *machineRun) compare(start string, entry, code *State, stop string, b *ssa.BasicBlock, ret Value, finals *[]*finalState) {
	x := r.x
	spec := code.clone()
	spec.cells, spec.cont, spec.raw, spec.trace = cp(entry.cells), cp(entry.cont), nil, entry.trace
	spec.rawEra = entry.rawEra
	spec.acts = nil
	x.quiet++
	var ends []struct {
		st *State
		e  *specEnd
	}
	fail := func(s *State, msg string, props []string) {
		if debugLoops {
			fmt.Fprintf(os.Stderr, "  SPEC %s -> %s: %s\n", start, stop, msg)
			for _, h := range s.pc {
				fmt.Fprintf(os.Stderr, "     pc %.200s\n", h)
			}
		}
		o := &Obl{name: x.name + ": step from " + start + ": " + msg, hyps: s.pc, goal: False, fuel: x.fuel, props: props}
		c := code.clone()
		c.pc = s.pc
		c.obs = append(append([]*Obl{}, code.obs...), o)
		*finals = append(*finals, &finalState{c, "spec"})
	}
	var step func(s *State, state string, ti, si *Term, n int, end *specEnd)
	step = func(s *State, state string, ti, si *Term, n int, end *specEnd) {
		if n > 6 {
			fail(s, "the contract does not reach "+stop+" ("+end.src+")", end.props)
			return
		}
		for ri, row := range r.m.rows {
			_ = ri
			if row.state != state {
				continue
			}
			env := r.env(s)
			env.vars["ti"], env.vars["si"] = ti, si
			g := s.simp(env.term(row.guard))
			if g == False {
				continue
			}
			s2 := s
			var rest *State
			if g != True {
				rest = s.clone()
				rest.assume(Not(g))
				s2 = s.clone()
				s2.assume(g)
			}
			if !s2.dead {
				e2 := *end
				e2.fresh = cp(end.fresh)
				e2.content = append([]contCheck{}, end.content...)
				e2.props = append(append([]string{}, end.props...), row.props...)
				e2.src = strings.TrimPrefix(e2.src+" ; "+row.src, " ; ")
				row.hits++
				try := e2
				try.fresh = cp(e2.fresh)
				try.content = append([]contCheck{}, e2.content...)
				if g := r.exec(s2.clone(), row, ti, si, &try); g != nil {
					// the row's outcome depends on g: both ways
					for _, c := range []*Term{g, Not(g)} {
						s3 := s.clone()
						s3.assume(c)
						if !s3.dead {
							row.hits--
							step(s3, state, ti, si, n, end)
						}
					}
					return
				}
				r.exec(s2, row, ti, si, &e2)
				if e2.state == stop || e2.state == "err" || e2.state == "done" || r.isCut(e2.state) {
					ends = append(ends, struct {
						st *State
						e  *specEnd
					}{s2, &e2})
				} else {
					step(s2, e2.state, e2.ti, e2.si, n+1, &e2)
				}
			}
			if rest == nil {
				return
			}
			if rest.dead {
				return
			}
			s = rest
		}
		fail(s, "no row of the contract applies at "+state, end.props)
	}
	func() {
		defer func() { x.quiet-- }()
		si, _ := entry.cells[r.cells["si"]].(*Term)
		step(spec, start, x.rootVars["ti"].(*Term), si, 0, &specEnd{fresh: map[*Term]*Term{}})
	}()
	for i, e := range ends {
		c := code.clone()
		c.pc, c.truth, c.eqc, c.lo, c.hi, c.ne = e.st.pc, e.st.truth, e.st.eqc, e.st.lo, e.st.hi, e.st.ne
		if i > 0 {
			c.obs = nil
		}
		r.oblige(start, entry, c, stop, b, ret, e.st, e.e)
		*finals = append(*finals, &finalState{c, "spec"})
	}
}

func (r *machineRun) isCut(state string) bool {
	for _, n := range r.cuts {
		if n == state {
			return true
		}
	}
	return false
}

func shortSrc(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

func (r *machineRun) oblige(start string, entry, code *State, stop string, b *ssa.BasicBlock, ret Value, spec *State, e *specEnd) {
	x := r.x
	hyps := code.pc
	add := func(what string, g *Term) {
		g = code.simp(g)
		x.nobs++
		code.obs = append(code.obs, &Obl{name: x.name + ": step from " + start + ": " + what + " [row " + shortSrc(e.src) + "]",
			hyps: hyps, goal: g, props: e.props, fuel: x.fuel, ok: g == True})
	}
	if len(e.props) == 0 {
		e.props = x.props
	}
	switch {
	case e.state == "err":
		if stop != "return" {
			add("an error is reported, not "+stop, False)
			return
		}
		add("decoding stops with an error", asBool(ret))
		add("index of the error", Eq(toTerm(code.cells[r.cells["errIndex"]]), e.eIndex))
		add("error value", Eq(toTerm(code.cells[r.cells["err"]]), e.eVal))
		return
	case e.state == "done":
		if stop != "return" {
			add("decoding ends, not "+stop, False)
			return
		}
		add("decoding ends without an error", Not(asBool(ret)))
	case e.state != stop:
		add("continues at "+e.state+", not at "+stop, False)
		return
	default:
		var ti *Term
		fr := code.top()
		if p := blockPhi(b, r.ti.Comment); p != nil {
			ti = toTerm(fr.locals[p])
		} else {
			ti = toTerm(fr.locals[r.ti])
		}
		add("next token", Eq(ti, e.ti))
		add("next frame", Eq(toTerm(code.cells[r.cells["si"]]), e.si))
		if start == "MAIN" || start == "VAL_END" {
			// measure of termination, see DESIGN.md
		}
		env := r.env(code)
		env.vars["ti"], env.vars["si"] = ti, code.cells[r.cells["si"]]
		for _, iv := range r.m.invs {
			if iv.state == stop || b != r.header && stop == "MAIN" && r.m.alias[iv.state] == "MAIN" {
				g := code.simp(env.term(iv.e))
				x.nobs++
				code.obs = append(code.obs, &Obl{name: x.name + ": step from " + start + ": invariant at " + iv.state + ": " + iv.src + " [row " + shortSrc(e.src) + "]",
					hyps: hyps, goal: g, props: []string{"C11"}, fuel: x.fuel, ok: g == True})
			}
		}
	}
	// memory
	bind := func(want, got *Term) *Term {
		if w, ok := e.fresh[want]; ok {
			if w == nil {
				e.fresh[want] = got
				return BoolT(isFresh(got))
			}
			return Eq(w, got)
		}
		return Eq(got, want)
	}
	valEq := func(got, want Value) *Term {
		switch g := got.(type) {
		case *Slice:
			gs := code.seqOf(g)
			if ws, ok := want.(*Slice); ok {
				return Eq(gs, spec.seqOf(ws))
			}
			return Eq(gs, toTerm(want))
		}
		w := toTerm(want)
		gt := toTerm(got)
		if gt.sort != w.sort {
			return False
		}
		return bind(w, gt)
	}
	used := map[int]bool{}
	for _, w := range spec.raw {
		found := false
		for i, c := range code.raw {
			if used[i] || code.simp(Sub(c.addr, w.addr)) != Int(0) {
				continue
			}
			used[i], found = true, true
			if c.kind != w.kind {
				add(fmt.Sprintf("type of the memory written (%s, not %s)", w.kind, c.kind), False)
				break
			}
			add("value written", valEq(c.v, w.v))
			break
		}
		if !found {
			// not written by the code: the memory must have held the value already
			old := rdInit(w.addr, w.kind, w.v)
			if old == nil {
				add("memory of kind "+w.kind+" written", False)
			} else if p, isP := e.fresh[toTermOrNil(w.v)]; isP && p == nil {
				add("newly allocated memory stored", False)
			} else {
				add("value written", Eq(old, toTerm(w.v)))
			}
		}
	}
	for i, c := range code.raw {
		if used[i] {
			continue
		}
		old := rdInit(c.addr, c.kind, c.v)
		if old == nil {
			add("nothing else is written (memory of kind "+c.kind+")", False)
		} else {
			add("nothing else is written (memory of kind "+c.kind+")", Eq(old, toTerm(c.v)))
		}
	}
	add("calls made", Eq(code.trace, spec.trace))
	// frames and contents of objects
	sub := map[*Term]*Term{}
	for p, g := range e.fresh {
		if g != nil {
			sub[p] = g
		}
	}
	handled := map[contKey]bool{}
	check := func(k contKey) {
		if handled[k] {
			return
		}
		handled[k] = true
		base := entry.cont[k]
		c, s := code.cont[k], spec.cont[k]
		if c == nil && s == nil {
			return
		}
		srt := ""
		if c != nil {
			srt = c.sort
		} else {
			srt = s.sort
		}
		if base == nil {
			base = App("H:"+k.leaf, srt, k.h)
			if strings.HasPrefix(k.leaf, "#map") {
				base = App("M0", "MapT", k.h)
			}
		}
		if c == nil {
			c = base
		}
		if s == nil {
			s = base
		}
		if c == s {
			return
		}
		if c.sort != s.sort {
			add("content of kind "+k.leaf, False)
			return
		}
		add("content "+k.leaf, Eq(c, subst(s, sub, map[*Term]*Term{})))
	}
	var ks []contKey
	for k := range code.cont {
		ks = append(ks, k)
	}
	for k := range spec.cont {
		if _, ok := code.cont[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].h.id < ks[j].h.id || ks[i].h.id == ks[j].h.id && ks[i].leaf < ks[j].leaf
	})
	for _, k := range ks {
		if isFresh(k.h) || strings.HasPrefix(k.h.name, "str:") || strings.HasPrefix(k.h.name, "glob:") || k.leaf == "#seqlen" {
			continue
		}
		if strings.HasPrefix(k.h.name, "fresh?") {
			continue
		}
		if k.leaf == "#seq" && strings.HasPrefix(k.h.name, "r") {
			continue // result of a call
		}
		check(k)
	}
	for _, cc := range e.content {
		h := cc.h
		if g, ok := e.fresh[h]; ok {
			if g == nil {
				add("new object stored", False)
				continue
			}
			h = g
		}
		got := code.cont[contKey{h, cc.leaf}]
		if got == nil {
			if cc.leaf == "#map" {
				got = App("M0", "MapT", h)
			} else {
				got = App("H:"+cc.leaf, cc.want.sort, h)
			}
		}
		if got.sort != cc.want.sort {
			add("content "+cc.leaf, False)
			continue
		}
		add("content "+cc.leaf, Eq(got, subst(cc.want, sub, map[*Term]*Term{})))
	}
	// variables
	for n, c := range r.cells {
		switch n {
		case "si", "errIndex", "err":
			continue
		}
		a, ok1 := comps(entry.cells[c])
		bb, ok2 := comps(code.cells[c])
		if !ok1 || !ok2 || len(a) != len(bb) {
			add("variable "+n+" is unchanged", False)
			continue
		}
		for p := range a {
			if a[p] != bb[p] {
				add("variable "+n+p+" is unchanged", Eq(a[p], bb[p]))
			}
		}
	}
	dc := entry.cells[r.cells["d"]].(*PtrV).cell
	a, _ := comps(entry.cells[dc])
	bb, _ := comps(code.cells[dc])
	for p := range a {
		if a[p] != bb[p] {
			add("decoder field "+p+" is unchanged", Eq(a[p], bb[p]))
		}
	}
}

func toTermOrNil(v Value) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return nil
}

func asBool(v Value) *Term {
	if t, ok := v.(*Term); ok && t.sort == SBool {
		return t
	}
	return False
}

func rdInit(addr *Term, kind string, v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		return nil
	}
	r := App("rd:"+kind, t.sort, addr)
	return r
}

// exec performs the actions of a row on the specification state.
type undecided struct{ g *Term }

// exec carries out the actions of a row. It returns the condition it cannot decide, if any.
func (r *machineRun) exec(st *State, row *mrow, ti, si *Term, e *specEnd) (fork *Term) {
	env := r.env(st)
	env.vars["ti"], env.vars["si"] = ti, si
	env.end = e
	e.state = ""
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(undecided); ok {
				fork = u.g
				return
			}
			if se, ok := p.(specError); ok {
				panic(specError{se.msg + " in row " + row.src})
			}
			if se, ok := p.(unsupportedErr); ok {
				panic(specError{se.msg + " in row " + row.src})
			}
			panic(p)
		}
	}()
	for _, a := range row.acts {
		v := env.eval(a.e)
		if a.lhs != "" {
			env.vars[a.lhs] = v
		}
		if e.state == "err" {
			break
		}
	}
	if e.state == "" {
		specFail("row without outcome: %s", row.src)
	}
	return nil
}

var kindTypes = map[string]types.Type{
	"ptr": types.Typ[types.UnsafePointer], "uintptr": types.Typ[types.Uintptr], "bool": types.Typ[types.Bool],
	"string": types.Typ[types.String], "int": types.Typ[types.Int], "int8": types.Typ[types.Int8], "int16": types.Typ[types.Int16],
	"int32": types.Typ[types.Int32], "int64": types.Typ[types.Int64], "uint": types.Typ[types.Uint], "uint8": types.Typ[types.Uint8],
	"uint16": types.Typ[types.Uint16], "uint32": types.Typ[types.Uint32], "uint64": types.Typ[types.Uint64],
	"float32": types.Typ[types.Float32], "float64": types.Typ[types.Float64], "iface": types.NewInterfaceType(nil, nil),
}

func (r *machineRun) frameLeaf(st *State, name string) (contKey, *Term) {
	f := r.x.rootVars["F"].(*Slice)
	u := f.elem.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			var out *Term
			var k contKey
			buildVal(u.Field(i).Type(), "."+name, func(p, so string, lt types.Type) *Term {
				if out == nil {
					out = st.arr(f.h, f.elem, p, so, lt)
					k = contKey{f.h, elemKey(f.elem) + p}
				}
				return Var("x!"+so, so)
			})
			return k, out
		}
	}
	specFail("frame field %s", name)
	return contKey{}, nil
}

var frameDyn = []string{".Dest", ".Offset", ".Len", ".RecursionStack#h", ".RecursionStack#off", ".RecursionStack#len", ".RecursionStack#cap"}

// frameOp applies an operation on the dynamic frame fields that is under its own contract.
func (r *machineRun) frameOp(st *State, op string, arg *Term) *Term {
	f := r.x.rootVars["F"].(*Slice)
	args := []*Term{arg}
	var keys []contKey
	u := f.elem.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		buildVal(u.Field(i).Type(), "."+u.Field(i).Name(), func(p, so string, lt types.Type) *Term {
			for _, d := range frameDyn {
				if d == p {
					a := st.arr(f.h, f.elem, p, so, lt)
					args = append(args, a)
					keys = append(keys, contKey{f.h, elemKey(f.elem) + p})
				}
			}
			return Var("x!"+so, so)
		})
	}
	res := App(op+":result", SInt, args...)
	res.lo, res.hi = big0, p2(31)
	if op == "pop" {
		st.assume(Lt(res, f.len))
	}
	for i, k := range keys {
		old := args[i+1]
		n := App(op+":"+k.leaf, old.sort, args...)
		n.elo, n.ehi = old.elo, old.ehi
		st.cont[k] = n
	}
	return res
}

func (r *machineRun) call(env *Env, name string, x *ast.CallExpr) (Value, bool) {
	st := env.st
	targ := func(i int) *Term { return env.term(x.Args[i]) }
	str := func(i int) string {
		b, ok := x.Args[i].(*ast.BasicLit)
		if !ok || b.Kind != token.STRING {
			specFail("%s: argument %d is not a string literal", name, i)
		}
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	val := func(v Value) Value {
		if s, ok := v.(*Slice); ok && s.str {
			return st.seqOf(s)
		}
		return v
	}
	switch name {
	case "ite":
		// also for indices and slices
		if c := st.simp(targ(0)); c == True {
			return env.eval(x.Args[1]), true
		} else if c == False {
			return env.eval(x.Args[2]), true
		}
	case "imp": // the conclusion is not looked at when the premise is false
		if c := st.simp(targ(0)); c == False {
			return True, true
		} else if c == True {
			return targ(1), true
		}
	case "mem": // mem(addr, kind)
		return r.x.rawLoad(st, targ(0), kindTypes[str(1)]), true
	case "put": // put(addr, kind, value)
		addr := st.simp(targ(0))
		v := val(env.eval(x.Args[2]))
		for i := range st.raw {
			if st.simp(Sub(st.raw[i].addr, addr)) == Int(0) {
				st.raw[i].v, st.raw[i].kind = v, str(1)
				return True, true
			}
		}
		st.raw = append(st.raw, rawW{addr, str(1), v})
		return True, true
	case "check": // check(condition, index, error): an error unless the condition holds
		switch g := st.simp(targ(0)); g {
		case True:
		case False:
			env.end.state, env.end.eIndex, env.end.eVal = "err", targ(1), targ(2)
		default:
			panic(undecided{g})
		}
		return True, true
	case "streq":
		a, ok := env.eval(x.Args[0]).(*Slice)
		if !ok {
			specFail("streq of a non-string")
		}
		return r.x.strEq(st, a, strConst(st, str(1))), true
	case "tup":
		var as []*Term
		for i := range x.Args {
			as = append(as, targ(i))
		}
		return App("v!tup", SVal, as...), true
	case "trace":
		return st.trace, true
	case "settrace":
		st.trace = targ(0)
		return True, true
	case "putslice": // putslice(addr, data, len, cap)
		a := st.simp(targ(0))
		for i, k := range []string{"ptr", "uintptr", "uintptr"} {
			st.raw = append(st.raw, rawW{st.simp(Add(a, Int(int64(8*i)))), k, targ(i + 1)})
		}
		return True, true
	case "fresh":
		n := App(fmt.Sprintf("fresh?%d", len(env.end.fresh)+1), SInt)
		n.lo = big1
		env.end.fresh[n] = nil
		return n, true
	case "holds": // holds(handle, leaf, content)
		env.end.content = append(env.end.content, contCheck{targ(0), str(1), targ(2)})
		return True, true
	case "setcont": // setcont(handle, leaf, content)
		st.cont[contKey{st.simp(targ(0)), str(1)}] = targ(2)
		return True, true
	case "cont": // cont(handle, leaf, sort)
		h := st.simp(targ(0))
		k := contKey{h, str(1)}
		if t, ok := st.cont[k]; ok {
			return t, true
		}
		if str(1) == "#map" {
			return App("M0", "MapT", h), true
		}
		return App("H:"+k.leaf, toSort(str(2)), h), true
	case "ev": // ev(name, sort, args...)
		var as []*Term
		for i := 2; i < len(x.Args); i++ {
			as = append(as, toTerm(val(env.eval(x.Args[i]))))
		}
		before := r.x.event(st, str(0), as...)
		if str(1) == "" {
			return True, true
		}
		return App("res:"+str(0), toSort(str(1)), append([]*Term{before}, as...)...), true
	case "pure": // pure(name, sort, args...)
		var as []*Term
		for i := 2; i < len(x.Args); i++ {
			as = append(as, toTerm(val(env.eval(x.Args[i]))))
		}
		return App(str(0), toSort(str(1)), as...), true
	case "set": // set(field, index, value)
		k, a := r.frameLeaf(st, str(0))
		st.cont[k] = Store(a, st.simp(targ(1)), targ(2))
		return True, true
	case "setarr":
		k, _ := r.frameLeaf(st, str(0))
		st.cont[k] = targ(1)
		return True, true
	case "farrF": // farrF(field): array of a frame field
		_, a := r.frameLeaf(st, str(0))
		return a, true
	case "push":
		r.frameOp(st, "push", targ(0))
		return True, true
	case "pop":
		return r.frameOp(st, "pop", targ(0)), true
	case "u32":
		return r.x.wrap(st, st.simp(targ(0)), types.Typ[types.Uint32]), true
	case "to": // to(STATE, ti, si)
		env.end.state = x.Args[0].(*ast.Ident).Name
		env.end.ti, env.end.si = targ(1), targ(2)
		return True, true
	case "fail": // fail(index, error)
		env.end.state, env.end.eIndex, env.end.eVal = "err", targ(0), targ(1)
		return True, true
	case "done":
		env.end.state = "done"
		return True, true
	case "glob": // glob(name): value of a package variable
		if v := globByName(st, str(0)); v != nil {
			return v, true
		}
		specFail("no package variable %s", str(0))
	case "zeros": // zeros(sort)
		switch str(0) {
		case "int":
			return ConstArr(Int(0)), true
		case "bool":
			return ConstArr(False), true
		case "float":
			return ConstArr(App("v!f0", SVal)), true
		case "seq":
			return ConstArr(SeqEmpty(SSeqI)), true
		}
	case "f0":
		return App("v!f0", SVal), true
	case "boxed": // boxed(type, value)
		return App("v!"+str(0), SVal, toTerm(val(env.eval(x.Args[1])))), true
	}
	return nil, false
}

// globByName is the value of a package variable of the module.
func globByName(st *State, name string) Value {
	for _, fn := range allFuncs {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePrefix) {
			continue
		}
		if g, ok := fn.Pkg.Members[name].(*ssa.Global); ok {
			c := globalCell(g)
			if _, ok := st.cells[c]; !ok {
				st.cells[c] = globalInit(st, g)
			}
			return st.cells[c]
		}
	}
	return nil
}

// captured gives every captured variable the name it has in the contracts: its own one,
// or, where the contracts' name is not in use, the one of the only variable of its type.
func captured(fn *ssa.Function) map[*ssa.FreeVar]string {
	out, used, byType := map[*ssa.FreeVar]string{}, map[string]bool{}, map[string][]*ssa.FreeVar{}
	for _, fv := range fn.FreeVars {
		out[fv], used[fv.Name()] = fv.Name(), true
		k := "s"
		switch t := fv.Type().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Basic:
			switch t.Kind() {
			case types.Uint32:
				k = "si"
			case types.Int:
				k = "errIndex"
			case types.String:
			default:
				k = "?"
			}
		case *types.Interface:
			k = "err"
		case *types.Pointer:
			if _, ok := derefNamed(t); ok && strings.Contains(t.String(), ".Decoder[") {
				k = "d"
			} else {
				k = "options"
			}
		case *types.Slice:
		default:
			k = "?"
		}
		byType[k] = append(byType[k], fv)
	}
	for k, v := range byType {
		if k != "?" && !used[k] && len(v) == 1 {
			out[v[0]] = k
		}
	}
	return out
}
