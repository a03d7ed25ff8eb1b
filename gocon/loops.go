package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type LoopAct struct {
	id     int
	header *ssa.BasicBlock
	depth  int
	body   map[*ssa.BasicBlock]bool
	trial  bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*LoopInfo {
	if m, ok := loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*LoopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := m[h]
			if li == nil {
				li = &LoopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = li
			}
			var walk func(c *ssa.BasicBlock)
			walk = func(c *ssa.BasicBlock) {
				if li.body[c] {
					return
				}
				li.body[c] = true
				for _, p := range c.Preds {
					walk(p)
				}
			}
			walk(b)
		}
	}
	loopCache[fn] = m
	return m
}

// loc names a component of the state that a loop may change.
type loc struct {
	kind string // "phi", "cell", "cont", "trace"
	phi  *ssa.Phi
	cell *Cell
	path string // component path within the value
	key  contKey
	cont string // content leaf of the slice held by phi/cell
	own  string // the owned slice field of the elements cont belongs to
}

func (l loc) String() string {
	switch l.kind {
	case "phi":
		return fmt.Sprintf("phi %s(%s)%s%s", l.phi.Name(), l.phi.Comment, l.path, l.own+l.cont)
	case "cell":
		return fmt.Sprintf("cell %s%s%s", l.cell.name, l.path, l.own+l.cont)
	case "cont":
		return fmt.Sprintf("cont %s %s", l.key.h, l.key.leaf)
	}
	return l.kind
}

// components of a value: path -> term
func comps(v Value) (m map[string]*Term, ok bool) {
	m = map[string]*Term{}
	ok = true
	var walk func(p string, v Value)
	walk = func(p string, v Value) {
		switch v := v.(type) {
		case *Slice:
			m[p+"#h"], m[p+"#off"], m[p+"#len"], m[p+"#cap"] = v.h, v.off, v.len, v.cap
		case *StructV:
			for i := range v.f {
				walk(p+"."+v.typ.Field(i).Name(), v.f[i])
			}
		case *MapV:
			m[p+"#m"] = v.h
		case *RawPtr:
			m[p+"#addr"] = v.addr
		case *Iface:
			m[p] = v.t
		case *Term:
			m[p] = v
		case *ElemPtr:
			m[p+"#eh"], m[p+"#ei"] = v.h, v.idx
		case *TupleV:
			for i := range v.vs {
				walk(fmt.Sprintf("%s/%d", p, i), v.vs[i])
			}
		case *PtrV, *Closure, *SymFunc, nil:
		default:
			ok = false
		}
	}
	walk("", v)
	return
}

func setComp(v Value, p string, t *Term) Value {
	switch v := v.(type) {
	case *Slice:
		n := *v
		switch p {
		case "#h":
			n.h = t
		case "#off":
			n.off = t
		case "#len":
			n.len = t
		case "#cap":
			n.cap = t
		}
		if v.str {
			n.cap = n.len
		}
		return &n
	case *StructV:
		n := &StructV{typ: v.typ, f: append([]Value{}, v.f...)}
		for i := range v.f {
			pre := "." + v.typ.Field(i).Name()
			if p == pre || strings.HasPrefix(p, pre+".") || strings.HasPrefix(p, pre+"#") {
				n.f[i] = setComp(v.f[i], p[len(pre):], t)
			}
		}
		return n
	case *MapV:
		return &MapV{h: t, typ: v.typ}
	case *RawPtr:
		return &RawPtr{addr: t, typ: v.typ}
	case *Iface:
		return t
	case *ElemPtr:
		n := *v
		if p == "#eh" {
			n.h = t
		} else {
			n.idx = t
		}
		return &n
	case *Term:
		return t
	}
	unsupported("loop variable of kind %T", v)
	return nil
}

func (x *Exec) varOf(st *State, l loc, depth int) Value {
	switch l.kind {
	case "phi":
		return st.frames[depth-1].locals[l.phi]
	case "cell":
		return st.cells[l.cell]
	}
	return nil
}

func (x *Exec) get(st *State, l loc, depth int) *Term {
	switch l.kind {
	case "cont":
		if t, ok := st.cont[l.key]; ok {
			return t
		}
		return nil
	case "trace":
		return st.trace
	}
	v := x.varOf(st, l, depth)
	if l.cont != "" {
		s, ok := subVal(v, l.path).(*Slice)
		if !ok {
			if m, isM := subVal(v, l.path).(*MapV); isM {
				return st.mapContent(m)
			}
			return nil
		}
		if l.own != "" {
			return st.contLeaf(ownSlice(s, l.own), l.cont)
		}
		if l.cont == "#seq" {
			return st.seqOf(s)
		}
		if l.cont == "#seqlen" {
			return s.len
		}
		return st.contLeaf(s, l.cont)
	}
	m, _ := comps(v)
	return m[l.path]
}

func (s *State) contLeaf(x *Slice, leaf string) *Term {
	if t, ok := s.cont[contKey{x.h, leaf}]; ok {
		return t
	}
	var res *Term
	buildVal(x.elem, "", func(p, so string, lt types.Type) *Term {
		if elemKey(x.elem)+p == leaf {
			res = s.arr(x.h, x.elem, p, so, lt)
		}
		return Var("x!"+so, so)
	})
	return res
}

func subVal(v Value, p string) Value {
	if p == "" {
		return v
	}
	if s, ok := v.(*StructV); ok {
		for i := range s.f {
			pre := "." + s.typ.Field(i).Name()
			if p == pre || strings.HasPrefix(p, pre+".") {
				return subVal(s.f[i], p[len(pre):])
			}
		}
	}
	return nil
}

func (x *Exec) set(st *State, l loc, depth int, t *Term) {
	switch l.kind {
	case "cont":
		st.cont[l.key] = t
		return
	case "trace":
		st.trace = t
		return
	}
	if l.cont != "" {
		v := subVal(x.varOf(st, l, depth), l.path)
		switch v := v.(type) {
		case *Slice:
			if l.own != "" {
				v = ownSlice(v, l.own)
			}
			st.cont[contKey{v.h, l.cont}] = t
			if l.cont == "#seq" {
				st.cont[contKey{v.h, "#seqlen"}] = v.len
			}
		case *MapV:
			st.cont[contKey{v.h, "#map"}] = t
		}
		return
	}
	nv := setComp(x.varOf(st, l, depth), l.path, t)
	if l.kind == "phi" {
		st.frames[depth-1].locals[l.phi] = nv
	} else {
		st.cells[l.cell] = nv
	}
}

type mod struct {
	l    loc
	v    *Term // the variable standing for the component at the loop head
	init *Term
}

var loopN int

func headerPhis(h *ssa.BasicBlock) (ps []*ssa.Phi) {
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return
}

// diff lists the components that differ between the head state and a back state.
func (x *Exec) diff(hs, bs *State, header *ssa.BasicBlock, depth int) (out []loc) {
	cmp := func(base loc, a, b Value) {
		ma, ok1 := comps(a)
		mb, ok2 := comps(b)
		if !ok1 || !ok2 {
			unsupported("loop-modified value %T / %T", a, b)
		}
		if len(ma) != len(mb) {
			unsupported("loop changes the shape of %s: %T / %T", base, a, b)
		}
		pa, okA := a.(*PtrV)
		pb, okB := b.(*PtrV)
		if okA != okB || okA && (pa.cell != pb.cell || fmt.Sprint(pa.path) != fmt.Sprint(pb.path)) {
			unsupported("loop changes pointer %s", base)
		}
		var ks []string
		for k := range ma {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if mb[k] == nil {
				unsupported("loop changes the shape of %s", base)
			}
			if ma[k] == mb[k] || bs.simp(Sub2(ma[k], mb[k])) == True {
				continue
			}
			l := base
			l.path = k
			out = append(out, l)
			if strings.HasSuffix(k, "#h") {
				// the backing object changes: its content is loop-modified too
				c := base
				c.path = strings.TrimSuffix(k, "#h")
				sv := subVal(b, c.path).(*Slice)
				if _, ok := bs.cont[contKey{sv.h, "#seq"}]; ok {
					c.cont = "#seq"
					out = append(out, c)
				} else if isString(sv.elem) {
					c.cont = elemKey(sv.elem) + "#str"
					out = append(out, c)
				} else {
					buildVal(sv.elem, "", func(p, so string, lt types.Type) *Term {
						c2 := c
						c2.cont = elemKey(sv.elem) + p
						out = append(out, c2)
						return Var("x!"+so, so)
					})
					for _, f := range ownFieldsOf(sv.elem) {
						et := ownSlice(sv, f).elem
						buildVal(et, "", func(p, so string, lt types.Type) *Term {
							c2 := c
							c2.cont, c2.own = elemKey(et)+p, f
							out = append(out, c2)
							return Var("x!"+so, so)
						})
					}
				}
			}
			if strings.HasSuffix(k, "#m") {
				c := base
				c.path, c.cont = strings.TrimSuffix(k, "#m"), "#map"
				out = append(out, c)
			}
		}
	}
	for _, p := range headerPhis(header) {
		cmp(loc{kind: "phi", phi: p}, hs.frames[depth-1].locals[p], bs.frames[depth-1].locals[p])
	}
	var cells []*Cell
	for c := range hs.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		if bv, ok := bs.cells[c]; ok && hs.cells[c] != bv {
			cmp(loc{kind: "cell", cell: c}, hs.cells[c], bv)
		}
	}
	var ks []contKey
	for k := range bs.cont {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].h.id != ks[j].h.id {
			return ks[i].h.id < ks[j].h.id
		}
		return ks[i].leaf < ks[j].leaf
	})
	for _, k := range ks {
		a := hs.cont[k]
		if a == bs.cont[k] {
			continue
		}
		if a == nil {
			if isFresh(k.h) || strings.HasPrefix(k.h.name, "str:") || strings.HasPrefix(k.h.name, "glob:") {
				continue // allocated in this iteration
			}
			if innerVar(k.h, hs.acts[len(hs.acts)-1].id) {
				continue // an object that only exists inside an inner loop of this iteration
			}
			// content of a pre-existing object that was not yet materialised
			base := App("H:"+k.leaf, bs.cont[k].sort, k.h)
			if k.leaf == "#map" {
				base = App("M0", "MapT", k.h)
			}
			base.elo, base.ehi = bs.cont[k].elo, bs.cont[k].ehi
			if bs.cont[k] == base {
				continue
			}
			hs.cont[k] = base
		}
		out = append(out, loc{kind: "cont", key: k})
	}
	if hs.trace != bs.trace {
		out = append(out, loc{kind: "trace"})
	}
	if len(hs.raw) != len(bs.raw) {
		unsupported("raw memory is written inside a loop")
	}
	for i := range hs.raw {
		if hs.raw[i] != bs.raw[i] {
			unsupported("raw memory is written inside a loop")
		}
	}
	return
}

// Sub2 is the equality of two terms of the same sort.
func Sub2(a, b *Term) *Term {
	if a.sort != b.sort {
		return False
	}
	return Eq(a, b)
}

type invCand struct {
	t    *Term // over the loop-head variables
	src  string
	main bool // stated in the contract as the invariant of a loop: decided with full effort
}

var dumpN int

var debugLoops = os.Getenv("GOCON_DEBUG") != ""

func (x *Exec) loop(st *State, header *ssa.BasicBlock, li *LoopInfo, sink Sink) {
	depth := len(st.frames)
	if x.mach != nil && x.quiet == 0 && depth == 1 && len(st.acts) == 0 && !x.mach.relevant(st) {
		sink(st, "skip", nil)
		return
	}
	loopN++
	id := loopN
	fn := st.top().fn
	lname := fmt.Sprintf("%s loop at %s", canon(fn), x.position(st, firstPos(header)))
	entry := st.clone()
	var mods []*mod
	have := map[string]bool{}
	mkHead := func(trial bool) *State {
		hs := entry.clone()
		for _, m := range mods {
			x.set(hs, m.l, depth, m.v)
		}
		hs.acts = append(hs.acts, &LoopAct{id: id, header: header, depth: depth, body: li.body, trial: trial})
		hs.obs = nil
		return hs
	}
	runBody := func(hs *State) (backs []*State) {
		x.quiet++
		defer func() { x.quiet-- }()
		x.run(hs, func(s *State, k string, _ Value) {
			if k == "back" && !s.dead {
				backs = append(backs, s)
			}
			if k == "unsupported" {
				unsupported("loop body of %s", lname)
			}
		})
		return
	}
	var backs []*State
	for round := 0; ; round++ {
		if round > 12 {
			unsupported("modified set of %s does not stabilise", lname)
		}
		hs := mkHead(true)
		ref := hs.clone()
		x.discover++
		func() {
			defer func() { x.discover-- }()
			backs = runBody(hs)
		}()
		grew := false
		for _, b := range backs {
			for _, l := range x.diff(ref, b, header, depth) {
				k := l.String()
				if have[k] {
					continue
				}
				have[k] = true
				grew = true
				init := x.get(entry, l, depth)
				bt := x.get(b, l, depth)
				if init == nil && l.kind == "cont" {
					init = ref.cont[l.key]
					entry.cont[l.key] = init
				}
				if init == nil || bt == nil {
					unsupported("component %s of %s", k, lname)
				}
				if init.sort != bt.sort {
					// array content replaced by a sequence or vice versa
					unsupported("content kind of %s changes in %s", k, lname)
				}
				v := x.headVar(id, len(mods), l, init, bt)
				mods = append(mods, &mod{l: l, v: v, init: init})
			}
		}
		sort.SliceStable(mods, func(i, j int) bool { return mods[i].l.cont == "" && mods[j].l.cont != "" })
		if !grew {
			break
		}
	}
	// order: handles before contents
	sort.SliceStable(mods, func(i, j int) bool { return mods[i].l.cont == "" && mods[j].l.cont != "" })
	// candidates
	hs0 := mkHead(true)
	var cands []*invCand
	if x.discover == 0 {
		cands = x.candidates(entry, hs0, mods, depth, backs)
	}
	toInit := map[*Term]*Term{}
	for _, m := range mods {
		toInit[m.v] = m.init
	}
	cands = x.filterAll([]*State{entry}, cands, []map[*Term]*Term{toInit})
	pass := 0
	for x.discover == 0 {
		pass++
		if pass > 30 {
			unsupported("invariant inference of %s does not converge", lname)
		}
		hs := mkHead(true)
		for _, c := range cands {
			hs.assume(c.t)
		}
		backs = runBody(hs)
		n := len(cands)
		var ms []map[*Term]*Term
		for _, b := range backs {
			m := map[*Term]*Term{}
			for _, md := range mods {
				if md.l.kind == "phi" || md.l.kind == "cell" || md.l.kind == "trace" || md.l.kind == "cont" {
					m[md.v] = x.get(b, md.l, depth)
				}
			}
			ms = append(ms, m)
		}
		cands = x.filterAll(backs, cands, ms)
		if debugLoops {
			fmt.Fprintf(os.Stderr, "%s: pass %d, %d -> %d candidates, %d back edges\n", lname, pass, n, len(cands), len(backs))
		}
		if len(cands) == n {
			break
		}
	}
	if debugLoops {
		for _, m := range mods {
			fmt.Fprintf(os.Stderr, "  mod %s  %s (init %s)\n", m.l, m.v, m.init)
		}
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "  inv %s   [%s]\n", c.src, c.t)
		}
	}
	if x.quiet == 0 {
		x.houdini += len(cands) * (1 + len(backs))
		// recorded as discharged: the inductive invariants of this loop
		o := &Obl{name: x.name + ": invariants of " + lname + " are inductive", goal: True, ok: true, tag: st.tag}
		st.obs = append(st.obs, o)
	}
	hs := mkHead(false)
	hs.obs = st.obs
	for _, c := range cands {
		hs.assume(c.t)
	}
	x.run(hs, func(s *State, k string, ret Value) {
		if k == "back" {
			if len(s.acts) > 0 && s.acts[len(s.acts)-1].header == header && s.acts[len(s.acts)-1].depth == depth {
				// obligations met inside the loop body must still be discharged
				sink(s, "loopback", nil)
				return
			}
		}
		sink(s, k, ret)
	})
}

func firstPos(b *ssa.BasicBlock) (p tokenPos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return
}

func (x *Exec) headVar(id, n int, l loc, init, back *Term) *Term {
	name := fmt.Sprintf("L%d!%d!%s", id, n, strings.ReplaceAll(l.String(), "|", "!"))
	if init.sort == SInt && strings.HasSuffix(l.path, "#h") && isFresh(init) && isFresh(back) {
		name = "fresh!" + name
	}
	v := Var(name, init.sort)
	if init.sort == SInt {
		switch {
		case strings.HasSuffix(l.path, "#len"), strings.HasSuffix(l.path, "#cap"), strings.HasSuffix(l.path, "#off"):
			v.lo, v.hi = new(big.Int), maxLen
		case l.kind == "phi" && l.path == "":
			v.lo, v.hi = typeRange(l.phi.Type())
		case l.kind == "cell" && l.path == "":
			v.lo, v.hi = typeRange(l.cell.typ)
		}
	}
	if strings.HasPrefix(init.sort, "(Array Int Int") {
		v.elo, v.ehi = init.elo, init.ehi
	}
	return v
}

// filterAll keeps the candidates that hold in every state under its substitution.
func (x *Exec) filterAll(ss []*State, cands []*invCand, ms []map[*Term]*Term) []*invCand {
	type goal struct {
		s  *State
		c  *invCand
		g  *Term
		ok bool
	}
	var batches [][]*goal
	bad := map[*invCand]bool{}
	for i, s := range ss {
		memo := map[*Term]*Term{}
		var gs []*goal
		for _, c := range cands {
			g := s.simp(subst(c.t, ms[i], memo))
			if g == True {
				continue
			}
			gs = append(gs, &goal{s: s, c: c, g: g})
		}
		if len(gs) > 0 {
			batches = append(batches, gs)
		}
	}
	round := func(quick bool, split bool) {
		var qs []*Query
		var of [][]*goal
		for _, gs := range batches {
			var rest []*goal
			for _, g := range gs {
				if !g.ok && !bad[g.c] && (quick || g.c.main) {
					rest = append(rest, g)
				}
			}
			step := len(rest)
			if split {
				step = 1
			}
			for k := 0; k < len(rest); k += step {
				part := rest[k : k+step]
				var ts []*Term
				for _, g := range part {
					ts = append(ts, g.g)
				}
				qs = append(qs, &Query{hyps: part[0].s.pc, goal: And(ts...), fuel: x.fuel, quick: quick})
				of = append(of, part)
			}
		}
		solveAll(qs)
		for i, q := range qs {
			if q.verdict == "unsat" {
				for _, g := range of[i] {
					g.ok = true
				}
			} else if split && (!quick || !of[i][0].c.main) {
				bad[of[i][0].c] = true
				if g := of[i][0]; debugLoops {
					fmt.Fprintf(os.Stderr, "  drop %s  goal %.300s\n", g.c.src, g.g)
					if os.Getenv("GOCON_DEBUG") == g.c.src {
						q := &Query{hyps: g.s.pc, goal: g.g, fuel: x.fuel}
						q.text = q.build()
						dumpN++
						os.WriteFile(fmt.Sprintf("/tmp/q%d.smt2", dumpN), []byte(q.text), 0o644)
						os.WriteFile(fmt.Sprintf("/tmp/q%de.smt2", dumpN), []byte(q.textE), 0o644)
						fmt.Fprintf(os.Stderr, "  dumped q%d\n", dumpN)
					}
				}
			}
		}
	}
	round(true, false)
	round(true, true)
	round(false, true)
	var out []*invCand
	for _, c := range cands {
		if !bad[c] {
			out = append(out, c)
		}
	}
	return out
}

type roleVar struct {
	name string
	v    Value
	v0   Value
	mod  bool
}

// candidates builds the candidate invariants of a loop.
func (x *Exec) candidates(entry, hs *State, mods []*mod, depth int, backs []*State) (out []*invCand) {
	seen := map[*Term]bool{}
	modVars := map[*Term]bool{}
	for _, m := range mods {
		modVars[m.v] = true
	}
	var mentionsMod func(t *Term) bool
	memo := map[*Term]bool{}
	mentionsMod = func(t *Term) bool {
		if modVars[t] {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = false
		for _, a := range t.args {
			if mentionsMod(a) {
				memo[t] = true
				return true
			}
		}
		return false
	}
	mainCand := false
	add := func(t *Term, src string) {
		if t == True || t == False || seen[t] || !mentionsMod(t) {
			return
		}
		seen[t] = true
		out = append(out, &invCand{t: t, src: src, main: mainCand})
	}
	for _, m := range mods {
		if m.v.sort == SInt && !strings.HasSuffix(m.l.path, "#h") && !x.root.opts["nomono"] {
			add(Ge(m.v, m.init), "not below its initial value")
			add(Le(m.v, m.init), "not above its initial value")
		}
		if strings.HasSuffix(m.l.path, "#len") {
			base := strings.TrimSuffix(m.l.path, "#len")
			v := subVal(x.varOf(hs, m.l, depth), base)
			v0 := subVal(x.varOf(entry, m.l, depth), base)
			if s, ok := v.(*Slice); ok {
				s0 := v0.(*Slice)
				add(Eq(Add(s.off, s.len), Add(s0.off, s0.len)), "suffix of the initial slice")
				if !s.str {
					add(Le(s.len, s.cap), "len <= cap")
					add(Eq(Add(s.off, s.cap), Add(s0.off, s0.cap)), "capacity of the initial slice")
				}
			}
		}
	}
	// weakened guards
	hpc := map[*Term]bool{}
	for _, t := range hs.pc {
		hpc[t] = true
	}
	for _, b := range backs {
		for _, t := range b.pc {
			if hpc[t] || !mentionsMod(t) {
				continue
			}
			if t.op == "<=0" && !hasOp(t, "select") {
				add(le0(Sub(t.args[0], Int(1))), "weakened guard")
			}
		}
	}
	// contract templates
	if x.root == nil {
		return
	}
	var ints, slices []roleVar
	x.contRoles, x.boolRoles = nil, nil
	for _, m := range mods {
		if m.l.cont != "" || m.l.kind == "cont" || m.l.kind == "trace" {
			x.contRoles = append(x.contRoles, roleVar{v: m.v, v0: m.init, mod: true})
		}
	}
	done := map[string]bool{}
	for _, m := range mods {
		if m.l.cont != "" || m.l.kind == "cont" || m.l.kind == "trace" {
			continue
		}
		base := m.l.path
		if i := strings.LastIndexByte(base, '#'); i >= 0 {
			base = base[:i]
		}
		k := fmt.Sprint(m.l.kind, m.l.phi, m.l.cell, base)
		if done[k] {
			continue
		}
		done[k] = true
		v, v0 := subVal(x.varOf(hs, m.l, depth), base), subVal(x.varOf(entry, m.l, depth), base)
		switch v := v.(type) {
		case *Term:
			if v.sort == SInt {
				ints = append(ints, roleVar{v: v, v0: v0, mod: true})
			} else if v.sort == SBool {
				x.boolRoles = append(x.boolRoles, roleVar{v: v, v0: v0, mod: true})
			}
		case *Slice:
			slices = append(slices, roleVar{v: v, v0: v0, mod: true})
		case *MapV:
			slices = append(slices, roleVar{v: v, v0: v0, mod: true})
		}
	}
	// unmodified slices visible in the frame (distinct ones)
	seenS := map[string]bool{}
	addS := func(v Value) {
		switch s := v.(type) {
		case *Slice:
			k := fmt.Sprint(s.h.id, "/", s.off.id, "/", s.len.id, "/", s.str)
			if !seenS[k] {
				seenS[k] = true
				slices = append(slices, roleVar{v: s, v0: s})
			}
		case *MapV:
			k := fmt.Sprint("m", s.h.id)
			if !seenS[k] {
				seenS[k] = true
				slices = append(slices, roleVar{v: s, v0: s})
			}
		}
	}
	for _, sv := range slices {
		if s, ok := sv.v.(*Slice); ok {
			seenS[fmt.Sprint(s.h.id, "/", s.off.id, "/", s.len.id, "/", s.str)] = true
		}
	}
	fr := hs.frames[depth-1]
	var names []ssa.Value
	for n := range fr.locals {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, n := range names {
		addS(fr.locals[n])
	}
	var cells []*Cell
	for c := range hs.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		addS(hs.cells[c])
	}
	x.localRoles = nil
	seenL := map[*Term]bool{}
	var addL func(v Value)
	addL = func(v Value) {
		switch v := v.(type) {
		case *Term:
			if v.sort == SInt && !v.isInt() && !seenL[v] && !modVars[v] {
				seenL[v] = true
				x.localRoles = append(x.localRoles, roleVar{v: v, v0: v})
			}
		case *StructV:
			for _, f := range v.f {
				addL(f)
			}
		}
	}
	for _, n := range names {
		addL(fr.locals[n])
	}
	for _, c := range cells {
		if _, ok := c.typ.Underlying().(*types.Struct); ok {
			addL(hs.cells[c])
		}
	}
	for _, c := range x.root.cands {
		mainCand = c.main
		x.bindCand(c, 0, map[string]Value{}, hs, entry, ints, slices, add)
	}
	return
}

func (x *Exec) bindCand(c *Cand, i int, b map[string]Value, hs, entry *State, ints, slices []roleVar, add func(*Term, string)) {
	if i == len(c.vars) {
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case specError, unsupportedErr:
					default:
						panic(r)
					}
				}
			}()
			env := &Env{vars: x.rootVars, st: hs, old: entry}
			if x.mach != nil {
				env = x.mach.env(hs)
				env.old = entry
			}
			t := env.with(b).term(c.body)
			if x.mach != nil {
				t = hs.simp(t)
			}
			add(t, c.src)
		}()
		return
	}
	p := c.vars[i]
	try := func(r roleVar) {
		m := map[string]Value{}
		for k, v := range b {
			if v == r.v && !strings.HasSuffix(k, "0") {
				return
			}
			m[k] = v
		}
		m[p.name], m[p.name+"0"] = r.v, r.v0
		x.bindCand(c, i+1, m, hs, entry, ints, slices, add)
	}
	kind := p.sort
	onlyMod := strings.HasSuffix(kind, "!")
	kind = strings.TrimSuffix(kind, "!")
	if kind == "int" {
		for _, r := range ints {
			if onlyMod && !r.mod {
				continue
			}
			try(r)
		}
		return
	}
	if kind == "bool" {
		for _, r := range x.boolRoles {
			try(r)
		}
		return
	}
	if kind == "local" {
		for _, r := range x.localRoles {
			try(r)
		}
		return
	}
	if kind == "content" || kind == "trace" {
		for _, r := range x.contRoles {
			if (r.v.(*Term).sort == "Trace") == (kind == "trace") {
				try(r)
			}
		}
		return
	}
	for _, r := range slices {
		if onlyMod && !r.mod {
			continue
		}
		switch s := r.v.(type) {
		case *Slice:
			ek := elemKey(s.elem)
			if i := strings.LastIndexByte(ek, '.'); i >= 0 {
				ek = ek[i+1:]
			}
			_, isBuf := hs.cont[contKey{s.h, "#seq"}]
			if kind == "buf" && isBuf || kind == "inp" && !isBuf && (ek == "uint8" || ek == "byte") {
				try(r)
			}
			if kind == "bytes" && (ek == "uint8" || ek == "byte") || kind == "any" && types.IsInterface(s.elem) || kind == ek {
				try(r)
			}
		case *MapV:
			if kind == "map" {
				try(r)
			}
		}
	}
}

func hasOp(t *Term, op string) bool {
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if hasOp(a, op) {
			return true
		}
	}
	return false
}

// innerVar tells whether a handle is made from variables of loops entered after loop id.
func innerVar(t *Term, id int) bool {
	if t.op == "var" {
		n := strings.TrimPrefix(t.name, "fresh!")
		var k int
		if strings.HasPrefix(n, "L") {
			if _, err := fmt.Sscanf(n, "L%d!", &k); err == nil {
				return k > id
			}
		}
	}
	for _, a := range t.args {
		if innerVar(a, id) {
			return true
		}
	}
	return false
}
