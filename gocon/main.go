package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	allFuncs []*ssa.Function
	funcsBy  = map[string][]*ssa.Function{}
)

const instSrc = `package jscandec

type gcT struct{ gcOpaque [3]int }

func gcInst() {
	var a Decoder[[]byte, gcT]
	a.Decode(nil, nil, nil)
	var b Decoder[string, gcT]
	b.Decode("", nil, nil)
	_, _ = NewDecoder[[]byte, gcT](nil, nil)
	_, _ = NewDecoder[string, gcT](nil, nil)
	_ = Unmarshal[[]byte, gcT](nil, nil)
	_ = Unmarshal[string, gcT]("", nil)
}
`

func load(repo string) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Overlay: map[string][]byte{
			filepath.Join(repo, "zz_gocon_inst.go"): []byte(instSrc),
		},
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal("load: %v", err)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fatal("load: %v", e)
		}
		loadConsts(p.Types)
		for path, im := range p.Imports {
			if strings.Contains(path, "jscan") {
				loadConsts(im.Types)
			}
			if path == "reflect" {
				for _, n := range []string{"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Float32", "Float64", "Array", "Interface", "Map", "Pointer", "Slice", "String", "Struct", "Func", "Chan", "Complex64", "Complex128", "Uintptr", "UnsafePointer", "Invalid"} {
					if c, ok := im.Types.Scope().Lookup(n).(*types.Const); ok {
						var v int64
						fmt.Sscan(c.Val().ExactString(), &v)
						specConst["Kind"+n] = Int(v)
					}
				}
			}
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	all := ssautil.AllFunctions(prog)
	for f := range all {
		allFuncs = append(allFuncs, f)
	}
	sort.Slice(allFuncs, func(i, j int) bool { return allFuncs[i].String() < allFuncs[j].String() })
	for _, f := range allFuncs {
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue // generic body
		}
		if f.Blocks == nil {
			continue
		}
		if !inModule(f) {
			continue
		}
		p := f
		generic := isGenericInst(f)
		for q := p; q != nil; q = q.Parent() {
			if q.TypeParams().Len() > 0 && len(q.TypeArgs()) == 0 {
				generic = true
			}
			if r := q.Signature.Recv(); r != nil && q.Origin() == nil {
				if n, ok := derefNamed(r.Type()); ok && n.TypeParams().Len() > 0 && len(q.TypeArgs()) == 0 {
					generic = true
				}
			}
		}
		if generic {
			continue
		}
		funcsBy[canon(f)] = append(funcsBy[canon(f)], f)
	}
}

func isGenericInst(f *ssa.Function) bool {
	for q := f; q != nil; q = q.Parent() {
		for _, a := range q.TypeArgs() {
			if _, ok := a.(*types.TypeParam); ok {
				return true
			}
		}
	}
	return false
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

// Result of verifying one function.
type Result struct {
	Func        string         `json:"func"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Invariants  int            `json:"invariants"`
	Paths       int            `json:"paths"`
	Failed      []Failed       `json:"failed"`
	Inlined     []string       `json:"inlined,omitempty"`
	Trusted     []string       `json:"trusted,omitempty"`
	Rows        map[string]int `json:"rows,omitempty"`
	Unhit       []string       `json:"unhit,omitempty"`
	Seconds     float64        `json:"seconds"`
}

type Failed struct {
	Name   string   `json:"name"`
	Detail string   `json:"detail"`
	Props  []string `json:"props"`
}

// symParam makes the symbolic value of a parameter.
func symParam(st *State, t types.Type, name string) Value {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			if _, isS := n.Underlying().(*types.Struct); isS && (n.Obj().Name() == "Decoder" || strings.HasSuffix(n.Obj().Name(), "Options")) {
				c := newCell(p.Elem(), name)
				st.cells[c] = symStruct(st, n, name)
				return &PtrV{cell: c}
			}
		}
	}
	v := buildVal(t, "", func(p, so string, lt types.Type) *Term {
		if strings.HasSuffix(p, "#off") && strings.Count(p, ".") == 0 {
			return Int(0)
		}
		return leafVar(name+p, so, lt)
	})
	if s, ok := v.(*Slice); ok && !s.str {
		st.assume(Le(s.len, s.cap))
	}
	return v
}

func symStruct(st *State, n *types.Named, name string) Value {
	u := n.Underlying().(*types.Struct)
	s := &StructV{typ: u}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Signature); ok {
			s.f = append(s.f, &SymFunc{name: n.Obj().Name() + "." + u.Field(i).Name()})
			continue
		}
		s.f = append(s.f, symParam(st, ft, name+"."+u.Field(i).Name()))
	}
	return s
}

// verify checks a function instance against its contract.
func verify(fn *ssa.Function, ct *Contract) *Result {
	if len(ct.jcands) > 0 {
		r := verify1(fn, ct, true)
		if len(r.Failed) == 0 {
			return r
		}
		// the merged exploration loses too much on this body: explore path by path
		if r2 := verify1(fn, ct, false); len(r2.Failed) == 0 {
			return r2
		}
		return r
	}
	r := verify1(fn, ct, false)
	if len(r.Failed) > 0 && quickMS > 0 {
		// on a busy machine candidates may have run out of time
		ct2 := *ct
		ct2.opts = map[string]bool{}
		for o := range ct.opts {
			if !strings.HasPrefix(o, "quick-") {
				ct2.opts[o] = true
			}
		}
		if r2 := verify1(fn, &ct2, false); len(r2.Failed) == 0 {
			return r2
		}
	}
	return r
}

func verify1(fn *ssa.Function, ct *Contract, useJoins bool) *Result {
	t0 := time.Now()
	inst := instName(fn)
	x := &Exec{root: ct, rootFn: fn, rootVars: map[string]Value{}, fuel: ct.fuel, name: inst, props: ct.props,
		inlined: map[string]bool{}, trusted: map[string]bool{}}
	x.exact = strings.Contains(inst, "atoi.") || ct.opts["exact"]
	res := &Result{Func: inst, Rows: map[string]int{}}
	quickMS, ownFields = 0, map[string]bool{}
	for o := range ct.opts {
		if n, ok := strings.CutPrefix(o, "own-"); ok {
			ownFields[n] = true
			assumptionNotes["the backing array of "+n+" is referenced by that field only (made in appendTypeToStack)"] = true
		}
		if n, ok := strings.CutPrefix(o, "quick-"); ok {
			quickMS, _ = strconv.Atoi(n)
		}
	}
	st := newState()
	fr := &Frame{fn: fn, locals: map[ssa.Value]Value{}, blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		v := symParam(st, p.Type(), "p!"+p.Name())
		fr.locals[p] = v
		if i < len(ct.params) {
			x.rootVars[ct.params[i]] = v
		}
	}
	for _, g := range ct.ghosts {
		x.rootVars[g] = Var("ghost!"+g, SInt)
	}
	for _, fv := range fn.FreeVars {
		et := fv.Type().(*types.Pointer).Elem()
		c := newCell(et, fv.Name())
		st.cells[c] = symParam(st, et, "fv!"+fv.Name())
		fr.locals[fv] = &PtrV{cell: c}
	}
	st.frames = []*Frame{fr}
	var finals []*finalState
	env := &Env{vars: x.rootVars, st: st, old: st}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case specError:
					res.Failed = append(res.Failed, Failed{Name: inst + ": contract does not apply: " + r.msg, Props: ct.props})
				case unsupportedErr:
					res.Failed = append(res.Failed, Failed{Name: inst + ": outside the verifier's reach: " + r.msg, Props: ct.props})
				default:
					panic(r)
				}
			}
		}()
		for _, r := range ct.requires {
			st.assume(env.term(r))
		}
		for _, r := range ct.assumes {
			if !mentionsRes(r, ct) {
				st.assume(env.term(r))
			}
		}
		for _, u := range ct.uses {
			if !mentions(u, "IDX") && !mentionsResult(u, ct) {
				st.assume(useInst(env, u))
			}
		}
		x.entry = st.clone()
		preOK := &Query{hyps: st.pc, goal: False, fuel: x.fuel}
		solveAll([]*Query{preOK})
		if preOK.verdict == "unsat" {
			res.Failed = append(res.Failed, Failed{Name: inst + ": precondition is satisfiable (vacuity guard)", Props: ct.props})
		}
		held := map[*ssa.BasicBlock][]*State{}
		if useJoins {
			x.joins = joinBlocks(fn)
		}
		sink := func(s *State, k string, ret Value) {
			if k == "join" {
				if !s.dead {
					held[s.top().blk] = append(held[s.top().blk], s)
				}
				finals = append(finals, &finalState{s, k})
				return
			}
			x.paths++
			if k == "return" && !s.dead {
				x.post(s, ct, ret)
			}
			finals = append(finals, &finalState{s, k})
		}
		x.run(st, sink)
		order := rpo(fn)
		for len(held) > 0 {
			var next *ssa.BasicBlock
			for b := range held {
				if next == nil || order[b] < order[next] {
					next = b
				}
			}
			ss := held[next]
			delete(held, next)
			m := x.merge(ss, next)
			if li := loopsOf(fn)[next]; li != nil {
				unsupported("join at a loop header")
			}
			x.run(m, sink)
		}
	}()
	x.discharge(finals, res, ct.props)
	res.Paths = x.paths
	res.Invariants = x.houdini
	for n := range x.inlined {
		res.Inlined = append(res.Inlined, n)
	}
	for n := range x.trusted {
		res.Trusted = append(res.Trusted, n)
	}
	sort.Strings(res.Inlined)
	sort.Strings(res.Trusted)
	res.Seconds = time.Since(t0).Seconds()
	return res
}

// funcsOf finds the functions a contract is about. A function literal is identified by the
// number of its parameters where that is enough, not by its position.
func funcsOf(ct *Contract) []*ssa.Function {
	base, _, ok := strings.Cut(ct.name, "$")
	if !ok {
		return funcsBy[ct.name]
	}
	name := ""
	for n, fs := range funcsBy {
		if b, _, ok := strings.Cut(n, "$"); !ok || b != base || strings.Count(n, "$") != strings.Count(ct.name, "$") || len(fs) == 0 {
			continue
		}
		if len(fs[0].Params) == len(ct.params) {
			if name != "" {
				return funcsBy[ct.name]
			}
			name = n
		}
	}
	if name == "" {
		return funcsBy[ct.name]
	}
	return funcsBy[name]
}

type finalState struct {
	st   *State
	kind string
}

func mentionsRes(e ast.Expr, ct *Contract) bool {
	for _, r := range ct.results {
		if mentions(e, r) {
			return true
		}
	}
	return false
}

func mentionsResult(u interface{}, ct *Contract) bool { return false }

func (x *Exec) post(s *State, ct *Contract, ret Value) {
	env := &Env{vars: map[string]Value{}, st: s, old: x.entry}
	for k, v := range x.rootVars {
		env.vars[k] = v
	}
	var rs []Value
	if t, ok := ret.(*TupleV); ok {
		rs = t.vs
	} else if ret != nil {
		rs = []Value{ret}
	}
	for i, n := range ct.results {
		if i < len(rs) {
			env.vars[n] = rs[i]
		}
	}
	if ct.opts["noalias"] {
		for _, r := range rs {
			if sl, ok := r.(*Slice); ok {
				x.noAlias(s, sl, "result")
			}
		}
	}
	if ct.opts["suffix2"] {
		for _, r := range rs {
			if sl, ok := r.(*Slice); ok {
				if a, ok := x.rootVars[ct.params[1]].(*Slice); ok {
					x.oblige(s, x.name+": the returned slice is a suffix of "+ct.params[1], Or(Eq(sl.len, Int(0)), And(Eq(sl.h, a.h), Eq(Add(sl.off, sl.len), Add(a.off, a.len)))), ct.props)
				}
			}
		}
	}
	base := s.pc
	for i, e := range ct.ensures {
		g := s.simp(env.term(e))
		x.nobs++
		p := ct.props
		if len(ct.ensProps[i]) > 0 {
			p = ct.ensProps[i]
		}
		s.obs = append(s.obs, &Obl{name: x.name + ": ensures " + ct.ensSrc[i], hyps: base, goal: g, props: p, fuel: x.fuel, ok: g == True, tag: s.tag})
	}
}

// discharge decides all obligations of the paths, batching per path.
func (x *Exec) discharge(finals []*finalState, res *Result, defProps []string) {
	seen := map[*Obl]bool{}
	var all []*Obl
	type batch struct {
		q  *Query
		os []*Obl
	}
	var bs []*batch
	byHyp := map[*Term]bool{}
	for _, f := range finals {
		var todo []*Obl
		for _, o := range f.st.obs {
			if seen[o] {
				continue
			}
			seen[o] = true
			all = append(all, o)
			if !o.ok {
				k := Implies(And(o.hyps...), o.goal)
				if k == True {
					o.ok = true
					continue
				}
				if byHyp[k] {
					// identical implication already scheduled; decide again cheaply through the cache
				}
				byHyp[k] = true
				todo = append(todo, o)
			}
		}
		if len(todo) == 0 {
			continue
		}
		// later obligations have longer hypotheses: common part is the shortest
		base := todo[0].hyps
		for _, o := range todo {
			if len(o.hyps) < len(base) {
				base = o.hyps
			}
		}
		var gs []*Term
		for _, o := range todo {
			gs = append(gs, Implies(And(o.hyps[len(base):]...), o.goal))
		}
		bs = append(bs, &batch{&Query{hyps: base, goal: And(gs...), fuel: x.fuel}, todo})
	}
	var qs []*Query
	for _, b := range bs {
		qs = append(qs, b.q)
	}
	solveAll(qs)
	var single []*Query
	var singleO []*Obl
	for _, b := range bs {
		if b.q.verdict == "unsat" {
			for _, o := range b.os {
				o.ok = true
			}
			continue
		}
		for _, o := range b.os {
			single = append(single, &Query{hyps: o.hyps, goal: o.goal, fuel: o.fuel})
			singleO = append(singleO, o)
		}
	}
	solveAll(single)
	for i, q := range single {
		singleO[i].ok = q.verdict == "unsat"
		if !singleO[i].ok {
			singleO[i].bad = q.verdict
			if os.Getenv("GOCON_SHOW") != "" {
				if i < 3 {
					os.WriteFile(fmt.Sprintf("/tmp/f%d.smt2", i), []byte(q.text), 0o644)
					os.WriteFile(fmt.Sprintf("/tmp/f%de.smt2", i), []byte(q.textE), 0o644)
				}
				fmt.Fprintf(os.Stderr, "FAILED %s (%s)\n  tag %s\n  goal %s\n", singleO[i].name, q.verdict, singleO[i].tag, singleO[i].goal)
				for _, h := range singleO[i].hyps {
					fmt.Fprintf(os.Stderr, "    hyp %s\n", h)
				}
			}
		}
	}
	failedNames := map[string]bool{}
	for _, o := range all {
		res.Obligations++
		if o.ok {
			res.Discharged++
			continue
		}
		n := o.name
		if o.tag != "" {
			n += " [" + o.tag + "]"
		}
		if failedNames[n] {
			continue
		}
		failedNames[n] = true
		p := o.props
		if len(p) == 0 {
			p = defProps
		}
		var d []string
		for _, h := range o.hyps {
			s := h.String()
			if len(s) > 200 {
				s = s[:200] + "…"
			}
			d = append(d, s)
		}
		g := o.goal.String()
		if len(g) > 600 {
			g = g[:600] + "…"
		}
		res.Failed = append(res.Failed, Failed{Name: n, Props: p, Detail: "solver verdict: " + o.bad + "; goal: " + g + "; path: " + strings.Join(d, " ; ")})
	}
}

func instName(fn *ssa.Function) string {
	n := canon(fn)
	var ts []string
	for q := fn; q != nil; q = q.Parent() {
		if ta := q.TypeArgs(); len(ta) > 0 {
			for _, t := range ta {
				ts = append(ts, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
			}
			break
		}
	}
	if len(ts) > 0 {
		n += "[" + strings.Join(ts, ",") + "]"
	}
	return n
}

type Report struct {
	Results     []*Result      `json:"results"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Failed      []Failed       `json:"failed"`
	Functions   []string       `json:"functions"`
	Trusted     []string       `json:"trusted"`
	Missing     []string       `json:"missing"`
	Assumptions []string       `json:"assumptions"`
	BackEnds    map[string]int `json:"back_ends"`
	SolverS     float64        `json:"solver_s"`
	SolverCalls int64          `json:"solver_calls"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	con := flag.String("contracts", "/verif/contracts", "contract directory")
	only := flag.String("func", "", "verify only functions whose instance name contains this")
	out := flag.String("out", "", "report file")
	prop := flag.String("prop", "", "verify only the functions under contract for this property")
	limit := flag.Int("limit", 0, "time limit in seconds")
	list := flag.Bool("list", false, "list functions")
	shard := flag.String("shard", "0/1", "k/n: only every n-th function under contract, starting with the k-th")
	flag.Parse()
	load(*repo)
	loadContracts(*con)
	if *list {
		for n, fs := range funcsBy {
			for _, f := range fs {
				fmt.Println(n, "|", instName(f), len(f.Blocks))
			}
		}
		return
	}
	if *limit > 0 {
		deadline = time.Now().Add(time.Duration(*limit) * time.Second)
	}
	rep := &Report{}
	selected := func(ct *Contract) bool {
		if *prop == "" {
			return true
		}
		for _, p := range ct.props {
			if p == *prop {
				return true
			}
		}
		for _, ps := range ct.ensProps {
			for _, p := range ps {
				if p == *prop {
					return true
				}
			}
		}
		if ct.machine != nil {
			for _, r := range ct.machine.rows {
				if hasProp(r.props, *prop) {
					return true
				}
			}
		}
		return false
	}
	type job struct {
		fn *ssa.Function
		ct *Contract
	}
	var jobs []job
	for _, ct := range contracts {
		if ct.trusted || !selected(ct) {
			continue
		}
		n := 0
		fns := funcsOf(ct)
		if ct.field != "" {
			var why []string
			fns, why = fieldFuncs(ct.field)
			for _, w := range why {
				rep.Results = append(rep.Results, &Result{Func: ct.name, Obligations: 1,
					Failed: []Failed{{Name: ct.name + ": every function value assigned to the field meets its contract: " + w, Props: ct.props}}})
			}
		}
		for _, fn := range fns {
			if *only != "" && !strings.Contains(instName(fn), *only) {
				continue
			}
			n++
			jobs = append(jobs, job{fn, ct})
		}
		if n == 0 && *only == "" {
			// a function under contract that is gone has to be judged again by hand;
			// its callers are verified against what they call now
			rep.Missing = append(rep.Missing, ct.name)
		}
	}
	shardK, shardN := 0, 1
	fmt.Sscanf(*shard, "%d/%d", &shardK, &shardN)
	if shardK > 0 {
		rep.Results, rep.Missing = nil, nil
	}
	for _, l := range lemmas {
		if *only != "" && *only != "lemma" || shardK > 0 {
			l.active = true
			continue
		}
		if l.axiom {
			l.active = true
			continue
		}
		q := l.obligation()
		solveAll([]*Query{q})
		r := &Result{Func: "lemma " + l.name, Obligations: 1}
		if q.verdict == "unsat" {
			r.Discharged = 1
		} else {
			r.Failed = []Failed{{Name: "lemma " + l.name, Detail: q.verdict}}
		}
		l.active = true
		rep.Results = append(rep.Results, r)
	}
	for i, j := range jobs {
		if i%shardN != shardK {
			continue
		}
		var r *Result
		opaqueFns = j.ct.opaque
		if j.ct.machine != nil {
			r = verifyMachine(j.fn, j.ct, *prop)
		} else {
			r = verify(j.fn, j.ct)
		}
		rep.Results = append(rep.Results, r)
		fmt.Fprintf(os.Stderr, "%-50s %4d/%4d obligations, %d paths, %d invariant checks, %.1fs\n", r.Func, r.Discharged, r.Obligations, r.Paths, r.Invariants, r.Seconds)
		for _, f := range r.Failed {
			fmt.Fprintf(os.Stderr, "   FAILED %s\n", f.Name)
			if *prop == "" || len(f.Props) == 0 || hasProp(f.Props, *prop) {
				// the run reports a violation whatever the rest yields: do not take long over it
				if t := time.Now().Add(90 * time.Second); *limit > 0 && t.Before(deadline) {
					deadline = t
				}
			}
		}
	}
	rep.Assumptions = []string{}
	for a := range assumptionNotes {
		rep.Assumptions = append(rep.Assumptions, a)
	}
	sort.Strings(rep.Assumptions)
	rep.Functions, rep.Trusted, rep.Failed = []string{}, []string{}, []Failed{}
	tr := map[string]bool{}
	for _, r := range rep.Results {
		rep.Obligations += r.Obligations
		rep.Discharged += r.Discharged
		rep.Functions = append(rep.Functions, fmt.Sprintf("%s (%d obligations, %d paths, %.1f s)", r.Func, r.Obligations, r.Paths, r.Seconds))
		for _, t := range r.Trusted {
			tr[t] = true
		}
		for _, f := range r.Failed {
			if *prop != "" && len(f.Props) > 0 {
				has := false
				for _, p := range f.Props {
					has = has || p == *prop
				}
				if !has {
					continue
				}
			}
			rep.Failed = append(rep.Failed, f)
		}
	}
	for t := range tr {
		rep.Trusted = append(rep.Trusted, t)
	}
	sort.Strings(rep.Trusted)
	rep.BackEnds = backEnds
	rep.SolverS = float64(solverNS) / 1e9
	rep.SolverCalls = solverCalls
	b, _ := json.MarshalIndent(rep, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	}
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}
