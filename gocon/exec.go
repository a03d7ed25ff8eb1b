package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Sink func(st *State, kind string, ret Value)

type Exec struct {
	localRoles []roleVar // unmodified integers visible at a loop
	contRoles  []roleVar
	boolRoles  []roleVar
	joins      map[*ssa.BasicBlock]bool
	root       *Contract
	rootFn     *ssa.Function
	rootVars   map[string]Value
	entry      *State
	quiet      int
	discover   int // > 0 while only the modified components of a loop are collected
	fuel       int
	name       string
	props      []string
	tag        string
	nobs       int
	steps      int
	paths      int
	inlined    map[string]bool
	trusted    map[string]bool
	cut        func(st *State, b *ssa.BasicBlock) bool
	mach       *machineRun
	onObl      func(o *Obl)
	houdini    int
	exact      bool
}

func (x *Exec) position(st *State, p token.Pos) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		fn := st.frames[i].fn
		if p.IsValid() {
			ps := fn.Prog.Fset.Position(p)
			f := ps.Filename
			if j := strings.LastIndexByte(f, '/'); j >= 0 {
				f = f[j+1:]
			}
			return fmt.Sprintf("%s:%d", f, ps.Line)
		}
	}
	return "?"
}

// oblige records a proof obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, name string, goal *Term, props []string) {
	g := st.simp(goal)
	if x.quiet == 0 {
		x.nobs++
		o := &Obl{name: name, hyps: st.pc, goal: g, props: props, tag: st.tag, fuel: x.fuel}
		if g == True || st.dead {
			o.ok = true
		}
		st.obs = append(st.obs, o)
	}
	st.assume(g)
}

var modulePrefix = "github.com/romshark/jscan-experimental-decoder"

// canonical name of a function: package.Func, (*Type).Method, closures with $n.
func canon(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			return canon(fn.Parent()) + n[i:]
		}
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pk := ""
	if o.Pkg != nil {
		pk = o.Pkg.Pkg.Name() + "."
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pk = o.Object().Pkg().Name() + "."
	}
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t, star = p.Elem(), "*"
		}
		n := t.String()
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
			pk = ""
			if nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() != modulePrefix {
				pk = nt.Obj().Pkg().Name() + "."
			}
		}
		return "(" + star + pk + n + ")." + o.Name()
	}
	return pk + o.Name()
}

func findContract(fn *ssa.Function) *Contract {
	n := canon(fn)
	for _, c := range contracts {
		if c.name == n {
			return c
		}
	}
	return nil
}

// ---- running

func (x *Exec) run(st *State, sink Sink) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok {
				if se, ok2 := r.(specError); ok2 {
					u = unsupportedErr{se.msg}
				} else {
					panic(r)
				}
			}
			x.fail(st, u.msg)
			sink(st, "unsupported", nil)
		}
	}()
	x.run1(st, sink)
}

func (x *Exec) fail(st *State, msg string) {
	if x.quiet == 0 {
		where := "?"
		if len(st.frames) > 0 {
			f := st.top()
			if f.idx < len(f.blk.Instrs) {
				where = x.position(st, f.blk.Instrs[f.idx].Pos()) + " in " + canon(f.fn)
			}
		}
		x.nobs++
		o := &Obl{name: x.name + ": outside the verifier's reach: " + msg + " at " + where, hyps: st.pc, goal: False, fuel: x.fuel, tag: st.tag, props: []string{"*"}}
		st.obs = append(st.obs, o)
	}
}

func (x *Exec) run1(st *State, sink Sink) {
	for {
		if st.dead {
			sink(st, "dead", nil)
			return
		}
		x.steps++
		if x.steps > 4000000 {
			unsupported("step limit")
		}
		if x.steps%64 == 0 && overtime() {
			unsupported("time limit")
		}
		fr := st.top()
		in := fr.blk.Instrs[fr.idx]
		switch in := in.(type) {
		case *ssa.If:
			c := st.simp(x.val(st, fr, in.Cond).(*Term))
			switch c {
			case True:
				if !x.jump(st, fr.blk.Succs[0], sink) {
					return
				}
			case False:
				if !x.jump(st, fr.blk.Succs[1], sink) {
					return
				}
			default:
				s2 := st.clone()
				st.assume(c)
				s2.assume(Not(c))
				if !st.dead {
					x.runJump(st, st.top().blk.Succs[0], sink)
				}
				if !s2.dead {
					x.runJump(s2, s2.top().blk.Succs[1], sink)
				}
				return
			}
		case *ssa.Jump:
			if !x.jump(st, fr.blk.Succs[0], sink) {
				return
			}
		case *ssa.Return:
			var ret Value
			switch len(in.Results) {
			case 0:
			case 1:
				ret = x.val(st, fr, in.Results[0])
			default:
				t := &TupleV{}
				for _, r := range in.Results {
					t.vs = append(t.vs, x.val(st, fr, r))
				}
				ret = t
			}
			d := len(st.frames)
			if len(st.acts) > 0 && st.acts[len(st.acts)-1].depth == d {
				if st.acts[len(st.acts)-1].trial {
					sink(st, "leave", nil)
					return
				}
				for len(st.acts) > 0 && st.acts[len(st.acts)-1].depth == d {
					st.acts = st.acts[:len(st.acts)-1]
				}
			}
			if d == 1 {
				sink(st, "return", ret)
				return
			}
			st.frames = st.frames[:d-1]
			caller := st.top()
			if fr.inDef {
				// deferred call finished: stay at RunDefers
				continue
			}
			if fr.call != nil {
				caller.locals[fr.call] = ret
			}
			caller.idx++
		case *ssa.Panic:
			if x.quiet == 0 {
				x.oblige(st, x.name+": panic unreachable at "+x.position(st, in.Pos()), False, nil)
			}
			sink(st, "panic", nil)
			return
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				cl := x.val(st, fr, d.Call.Value).(*Closure)
				nf := &Frame{fn: cl.fn, locals: map[ssa.Value]Value{}, blk: cl.fn.Blocks[0], inDef: true}
				for i, fv := range cl.fn.FreeVars {
					nf.locals[fv] = cl.binds[i]
				}
				st.frames = append(st.frames, nf)
				continue
			}
			fr.idx++
		case *ssa.Defer:
			fr.defers = append(fr.defers, in)
			fr.idx++
		case *ssa.Call:
			if x.call(st, fr, in, sink) {
				return
			}
		default:
			x.instr(st, fr, in)
			fr.idx++
		}
	}
}

func (x *Exec) runJump(st *State, b *ssa.BasicBlock, sink Sink) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				x.fail(st, u.msg)
				sink(st, "unsupported", nil)
				return
			}
			if u, ok := r.(specError); ok {
				x.fail(st, u.msg)
				sink(st, "unsupported", nil)
				return
			}
			panic(r)
		}
	}()
	if x.jump(st, b, sink) {
		x.run1(st, sink)
	}
}

// jump moves the top frame to block b. It returns false if the path was handed
// to the sink (or a loop summary).
func (x *Exec) jump(st *State, b *ssa.BasicBlock, sink Sink) bool {
	fr := st.top()
	prev := fr.blk
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(st, fr, p.Edges[pi]))
	}
	for i, p := range phis {
		fr.locals[p] = vals[i]
	}
	fr.prev, fr.blk, fr.idx = prev, b, len(phis)
	d := len(st.frames)
	// leaving loops
	for len(st.acts) > 0 {
		a := st.acts[len(st.acts)-1]
		if a.depth != d || a.body[b] {
			break
		}
		if a.trial {
			sink(st, "leave", nil)
			return false
		}
		st.acts = st.acts[:len(st.acts)-1]
	}
	if d == 1 && x.cut != nil && x.cut(st, b) {
		sink(st, "cut", nil)
		return false
	}
	if d == 1 && x.joins[b] && x.quiet == 0 && len(st.acts) == 0 {
		sink(st, "join", nil)
		return false
	}
	if li := loopsOf(fr.fn)[b]; li != nil {
		if len(st.acts) > 0 {
			a := st.acts[len(st.acts)-1]
			if a.depth == d && a.header == b {
				sink(st, "back", nil)
				return false
			}
		}
		x.loop(st, b, li, sink)
		return false
	}
	return true
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(st, v)
	case *ssa.Global:
		return x.global(st, v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &BuiltinV{v.Name()}
	}
	r, ok := fr.locals[v]
	if !ok {
		unsupported("undefined value %s in %s", v.Name(), fr.fn.Name())
	}
	return r
}

func strConst(st *State, s string) *Slice {
	h := App("str:"+fmt.Sprintf("%x", s), SInt)
	k := contKey{h, "uint8"}
	if _, ok := st.cont[k]; !ok {
		if len(s) > 0 {
			var vs []*big.Int
			for i := 0; i < len(s); i++ {
				vs = append(vs, big.NewInt(int64(s[i])))
			}
			st.cont[k] = Table(vs)
		}
	}
	n := Int(int64(len(s)))
	return &Slice{h: h, off: Int(0), len: n, cap: n, elem: types.Typ[types.Uint8], str: true}
}

func constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return strConst(st, constant.StringVal(c.Value))
	}
	if isFloat(t) {
		if constant.Sign(c.Value) == 0 {
			return App("v!f0", SVal)
		}
		return App("v!f:"+c.Value.ExactString(), SVal)
	}
	iv := constant.ToInt(c.Value)
	n, ok := new(big.Int).SetString(iv.ExactString(), 10)
	if !ok {
		unsupported("constant %s", c)
	}
	return IntB(n)
}

var globalCells = map[*ssa.Global]*Cell{}

func (x *Exec) global(st *State, g *ssa.Global) Value {
	elem := g.Type().(*types.Pointer).Elem()
	if _, ok := elem.Underlying().(*types.Array); ok {
		return &PtrV{cell: globalCell(g)}
	}
	c := globalCell(g)
	if _, ok := st.cells[c]; !ok {
		st.cells[c] = globalInit(st, g)
	}
	return &PtrV{cell: c}
}

func globalCell(g *ssa.Global) *Cell {
	c := globalCells[g]
	if c == nil {
		c = newCell(g.Type().(*types.Pointer).Elem(), g.String())
		globalCells[g] = c
	}
	return c
}

func globalInit(st *State, g *ssa.Global) Value {
	elem := g.Type().(*types.Pointer).Elem()
	if globalStores(g) == 0 {
		return zeroVal(elem)
	}
	if s, ok := scalarSort(elem); ok {
		n := "glob:" + g.Name()
		if s == SVal {
			distinctNames["v@"+n] = true
			return App("v@"+n, SVal)
		}
		if _, isPtr := elem.Underlying().(*types.Pointer); isPtr {
			return &RawPtr{addr: App(n, SInt), typ: elem.Underlying().(*types.Pointer).Elem()}
		}
		t := App(n, s)
		if s == SInt {
			t.lo = big.NewInt(1)
		}
		return t
	}
	unsupported("global %s", g.Name())
	return nil
}

// globalStores counts the instructions outside package initialisers that use g
// other than loading it (1 if only initialised, 0 if never written).
func globalStores(g *ssa.Global) int {
	n := 0
	for _, fn := range allFuncs {
		if fn.Package() == nil && fn.Origin() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if in.Addr == g && fn.Synthetic == "package initializer" {
							if n == 0 {
								n = 1
							}
							continue
						}
						n += 100
					case *ssa.IndexAddr:
						if fn.Synthetic == "package initializer" && n == 0 {
							n = 1
						}
						continue
					default:
						_ = in
						n += 100
					}
				}
			}
		}
	}
	if n >= 100 {
		unsupported("package variable %s is written outside of its initialiser", g.Name())
	}
	return n
}

// globalTable reads a constant integer array from its package initialiser.
func globalTable(g *ssa.Global) *Term {
	at := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	vals := make([]*big.Int, at.Len())
	for i := range vals {
		vals[i] = new(big.Int)
	}
	globalStores(g)
	init := g.Pkg.Func("init")
	var arrAlloc ssa.Value = g
	var addrs = map[ssa.Value]int64{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == g {
					if u, ok := in.Val.(*ssa.UnOp); ok {
						arrAlloc = u.X
					}
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				if in.X == arrAlloc {
					i, ok := constant.Int64Val(in.Index.(*ssa.Const).Value)
					if ok {
						addrs[in] = i
					}
				}
			case *ssa.Store:
				if i, ok := addrs[in.Addr]; ok {
					n, ok := new(big.Int).SetString(constant.ToInt(in.Val.(*ssa.Const).Value).ExactString(), 10)
					if !ok {
						unsupported("table %s", g.Name())
					}
					vals[i] = n
				}
			}
		}
	}
	return Table(vals)
}

// ---- arithmetic

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	bits, signed, ok := intInfo(typ)
	if !ok {
		return t
	}
	lo, hi := typeRange(typ)
	l, h := st.bounds(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if bits == 64 && !x.exact {
		x.assumeNote(st, "64-bit index and address arithmetic is treated as mathematical")
		return t
	}
	if !signed {
		return EMod(t, p2(bits))
	}
	return Sub(EMod(Add(t, IntB(p2(bits-1))), p2(bits)), IntB(p2(bits-1)))
}

var assumptionNotes = map[string]bool{}

func (x *Exec) assumeNote(st *State, s string) { assumptionNotes[s] = true }

func pow2of(t *Term) (uint, bool) {
	if !t.isInt() || t.n.Sign() <= 0 {
		return 0, false
	}
	b := t.n.BitLen() - 1
	if p2(uint(b)).Cmp(t.n) == 0 {
		return uint(b), true
	}
	return 0, false
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, t types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL, token.NEQ:
		r := x.equal(st, a, b)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	if sa, ok := a.(*Slice); ok {
		sb := b.(*Slice)
		if op == token.ADD { // string concatenation
			h := st.freshH()
			st.cont[contKey{h, "#seq"}] = SeqConcat(SSeqI, st.seqOf(sa), st.seqOf(sb))
			l := Add(sa.len, sb.len)
			st.cont[contKey{h, "#seqlen"}] = l
			return &Slice{h: h, off: Int(0), len: l, cap: l, elem: sa.elem, str: true}
		}
		unsupported("string operator %s", op)
	}
	if ra, ok := a.(*RawPtr); ok {
		a = ra.addr
	}
	if rb, ok := b.(*RawPtr); ok {
		b = rb.addr
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("%s on %T and %T", op, a, b)
	}
	if p.sort == SVal {
		unsupported("floating-point operator %s", op)
	}
	switch op {
	case token.ADD:
		st.noteSum(Add(p, q), p, q, 1)
		return x.wrap(st, Add(p, q), t)
	case token.SUB:
		st.noteSum(Sub(p, q), p, q, -1)
		return x.wrap(st, Sub(p, q), t)
	case token.MUL:
		if q.isInt() {
			st.noteScaled(Mul(p, q), p, q.n)
		} else if p.isInt() {
			st.noteScaled(Mul(p, q), q, p.n)
		}
		return x.wrap(st, Mul(p, q), t)
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Gt(p, q)
	case token.GEQ:
		return Ge(p, q)
	case token.SHL:
		if q = st.simp(q); q.isInt() && q.n.IsInt64() && q.n.Int64() < 64 {
			c := p2(uint(q.n.Int64()))
			st.noteScaled(Mul(p, IntB(c)), p, c)
			return x.wrap(st, Mul(p, IntB(c)), t)
		}
	case token.SHR:
		if q = st.simp(q); q.isInt() && q.n.IsInt64() && q.n.Int64() < 64 {
			return EDiv(p, p2(uint(q.n.Int64())))
		}
	case token.AND:
		if p.sort == SBool {
			return And(p, q)
		}
		if p.isInt() {
			p, q = q, p
		}
		if q.isInt() {
			if n, ok := pow2of(Add(q, Int(1))); ok {
				return EMod(p, p2(n))
			}
		}
	case token.OR:
		if p.sort == SBool {
			return Or(p, q)
		}
		if p.isInt() {
			p, q = q, p
		}
		// x | c with x below the lowest bit of c is x + c
		if q.isInt() && q.n.Sign() > 0 {
			low := q.n.TrailingZeroBits()
			lo, hi := st.bounds(p)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(p2(uint(low))) < 0 {
				return Add(p, q)
			}
			// or establish the bound as an obligation-free case split by the solver
			in := And(Ge(p, Int(0)), Lt(p, IntB(p2(uint(low)))))
			return Ite(in, Add(p, q), App("bor", SInt, p, q))
		}
	case token.QUO:
		if q.isInt() && q.n.Sign() > 0 {
			lo, _ := st.bounds(p)
			if lo != nil && lo.Sign() >= 0 {
				return EDiv(p, q.n)
			}
		}
	case token.REM:
		if q.isInt() && q.n.Sign() > 0 {
			lo, _ := st.bounds(p)
			if lo != nil && lo.Sign() >= 0 {
				return EMod(p, q.n)
			}
		}
	}
	return App("op"+op.String(), SInt, p, q)
}

func (x *Exec) equal(st *State, a, b Value) *Term {
	sa, ok1 := a.(*Slice)
	sb, ok2 := b.(*Slice)
	if ok1 && ok2 && (sa.str || sb.str) {
		return x.strEq(st, sa, sb)
	}
	if ok1 && !ok2 || ok2 && !ok1 {
		unsupported("comparison of %T and %T", a, b)
	}
	isNilConst := func(v Value) bool {
		switch v := v.(type) {
		case *Slice:
			return v.h == Int(0)
		case *MapV:
			return v.h == Int(0)
		case *RawPtr:
			return v.addr == Int(0)
		case *Term:
			return v == nilV
		}
		return false
	}
	if isNilConst(b) {
		return nilTest(a)
	}
	if isNilConst(a) {
		return nilTest(b)
	}
	switch p := a.(type) {
	case *RawPtr:
		if q, ok := b.(*RawPtr); ok {
			return Eq(p.addr, q.addr)
		}
		if q, ok := b.(*Term); ok {
			return Eq(p.addr, q)
		}
	case *Term:
		switch q := b.(type) {
		case *Term:
			return Eq(p, q)
		case *RawPtr:
			return Eq(p, q.addr)
		case *Iface:
			return Eq(p, q.t)
		}
	case *Iface:
		return Eq(p.t, toTerm(b))
	case *StructV:
		if q, ok := b.(*StructV); ok {
			var cs []*Term
			for i := range p.f {
				cs = append(cs, x.equal(st, p.f[i], q.f[i]))
			}
			return And(cs...)
		}
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) strEq(st *State, a, b *Slice) *Term {
	la, lb := st.simp(a.len), st.simp(b.len)
	d := Sub(la, lb)
	if d.isInt() && d.n.Sign() != 0 {
		return False
	}
	n := la
	if !n.isInt() {
		n = lb
	}
	_, seqA := st.cont[contKey{a.h, "#seq"}]
	_, seqB := st.cont[contKey{b.h, "#seq"}]
	if n.isInt() && n.n.IsInt64() && n.n.Int64() <= 40 && !seqA && !seqB {
		cs := []*Term{Eq(a.len, b.len)}
		for i := int64(0); i < n.n.Int64(); i++ {
			cs = append(cs, Eq(Select(st.arrOf(a, "."), Add(a.off, Int(i))), Select(st.arrOf(b, "."), Add(b.off, Int(i)))))
		}
		return And(cs...)
	}
	p, q := st.seqOf(a), st.seqOf(b)
	return Eq(p, q)
}

// ---- instructions

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok {
			h := st.freshH()
			x.zeroContent(st, h, at.Elem())
			fr.locals[in] = &ElemPtr{h: h, idx: Int(0), elem: at.Elem(), path: "#array", typ: et}
			return
		}
		c := newCell(et, in.Comment)
		st.cells[c] = zeroVal(et)
		fr.locals[in] = &PtrV{cell: c}
	case *ssa.Store:
		x.store(st, x.val(st, fr, in.Addr), x.val(st, fr, in.Val), in.Val.Type(), in.Pos())
	case *ssa.UnOp:
		v := x.val(st, fr, in.X)
		switch in.Op {
		case token.MUL:
			fr.locals[in] = x.load(st, v, in.Type(), in.Pos())
		case token.NOT:
			fr.locals[in] = Not(v.(*Term))
		case token.SUB:
			t := v.(*Term)
			if t.sort == SVal {
				fr.locals[in] = App("fneg", SVal, t)
			} else {
				fr.locals[in] = x.wrap(st, Neg(t), in.Type())
			}
		default:
			unsupported("unary %s", in.Op)
		}
	case *ssa.BinOp:
		fr.locals[in] = x.binop(st, in.Op, x.val(st, fr, in.X), x.val(st, fr, in.Y), in.Type(), in.Pos())
	case *ssa.ChangeType:
		fr.locals[in] = retype(x.val(st, fr, in.X), in.Type())
	case *ssa.ChangeInterface:
		fr.locals[in] = x.val(st, fr, in.X)
	case *ssa.Convert:
		fr.locals[in] = x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.locals[in] = x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		v := x.val(st, fr, in.X)
		if isString(in.X.Type()) {
			x.noteValue(st, "string in an interface", v)
		}
		fr.locals[in] = &Iface{typ: in.X.Type(), v: v, t: ifaceTerm(st, in.X.Type(), v)}
	case *ssa.TypeAssert:
		fr.locals[in] = x.typeAssert(st, in, x.val(st, fr, in.X))
	case *ssa.Extract:
		fr.locals[in] = x.val(st, fr, in.Tuple).(*TupleV).vs[in.Index]
	case *ssa.FieldAddr:
		fr.locals[in] = fieldAddr(x.val(st, fr, in.X), in.X.Type(), in.Field)
	case *ssa.Field:
		fr.locals[in] = x.val(st, fr, in.X).(*StructV).f[in.Field]
	case *ssa.IndexAddr:
		fr.locals[in] = x.indexAddr(st, fr, in)
	case *ssa.Index:
		b := x.val(st, fr, in.X)
		i := x.val(st, fr, in.Index).(*Term)
		if s, ok := b.(*Slice); ok {
			x.bounds(st, i, s.len, in.Pos())
			v := st.loadElem(s, Add(s.off, i))
			x.onRead(st, s, Add(s.off, i))
			fr.locals[in] = v
			return
		}
		unsupported("index of %T", b)
	case *ssa.Lookup:
		b := x.val(st, fr, in.X)
		if s, ok := b.(*Slice); ok {
			i := x.val(st, fr, in.Index).(*Term)
			x.bounds(st, i, s.len, in.Pos())
			fr.locals[in] = st.loadElem(s, Add(s.off, i))
			x.onRead(st, s, Add(s.off, i))
			return
		}
		unsupported("lookup in %T", b)
	case *ssa.MapUpdate:
		m := x.val(st, fr, in.Map).(*MapV)
		k := keyTerm(st, x.val(st, fr, in.Key))
		v := keyTerm(st, x.val(st, fr, in.Value))
		put := "put"
		if v.sort == SVal {
			put = "putv"
		}
		st.cont[contKey{m.h, "#map"}] = App(put, "MapT", st.mapContent(m), k, v)
		x.noteValue(st, "map key", x.val(st, fr, in.Key))
		x.noteValue(st, "map value", x.val(st, fr, in.Value))
		x.oblige(st, x.name+": assignment to non-nil map at "+x.position(st, in.Pos()), Not(Eq(m.h, Int(0))), []string{"C11"})
	case *ssa.MakeSlice:
		x.makeSlice(st, fr, in)
	case *ssa.MakeMap:
		h := st.freshH()
		st.cont[contKey{h, "#map"}] = App("emptymap", "MapT")
		fr.locals[in] = &MapV{h: h, typ: in.Type()}
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(st, fr, b))
		}
		fr.locals[in] = c
	case *ssa.Slice:
		x.slice(st, fr, in)
	default:
		unsupported("instruction %T", in)
	}
}

func keyTerm(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Slice:
		return st.seqOf(v)
	case *Iface:
		return v.t
	case *Term:
		return v
	}
	unsupported("map key or value %T", v)
	return nil
}

func (x *Exec) noteValue(st *State, what string, v Value) {
	if x.quiet > 0 {
		return
	}
	if s, ok := v.(*Slice); ok && s.str && x.root != nil && x.root.opts["noalias"] {
		x.noAlias(st, s, what)
	}
}

// noAlias obliges that a string stored in the result is not backed by the input.
func (x *Exec) noAlias(st *State, s *Slice, what string) {
	if !s.str && (x.root.opts["noalias-str"] || elemKey(s.elem) != "uint8") {
		return
	}
	if strings.Contains(x.name, "[string") {
		return // strings are immutable and may be shared
	}
	ok := isFresh(s.h) || strings.HasPrefix(s.h.name, "str:") || st.simp(s.len) == Int(0)
	x.oblige(st, x.name+": "+what+" does not alias the byte-slice input", BoolT(ok), []string{"C13"})
}

func retype(v Value, t types.Type) Value {
	switch v := v.(type) {
	case *Slice:
		n := *v
		n.str = isString(t)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			n.elem = sl.Elem()
		}
		return &n
	case *RawPtr:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return &RawPtr{addr: v.addr, typ: p.Elem()}
		}
	case *MapV:
		return &MapV{h: v.h, typ: t}
	}
	return v
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	if s, ok := v.(*Slice); ok {
		toStr := isString(to)
		if tb, ok := to.Underlying().(*types.Slice); toStr || ok {
			if s.str == toStr {
				return retype(v, to)
			}
			_ = tb
			// copy
			h := st.freshH()
			for k, c := range st.cont {
				if k.h == s.h {
					st.cont[contKey{h, k.leaf}] = c
				}
			}
			if _, ok := st.cont[contKey{h, "#seq"}]; !ok {
				k := contKey{h, elemKey(s.elem)}
				if _, ok := st.cont[k]; !ok {
					st.cont[k] = st.arrOf(s, ".")
				}
			}
			n := &Slice{h: h, off: s.off, len: s.len, cap: s.len, elem: types.Typ[types.Uint8], str: toStr}
			return n
		}
	}
	// pointers
	if tb, ok := to.Underlying().(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		switch p := v.(type) {
		case *RawPtr:
			return p.addr
		}
		return v
	}
	if tp, ok := to.Underlying().(*types.Pointer); ok {
		switch p := v.(type) {
		case *Term:
			return &RawPtr{addr: p, typ: tp.Elem()}
		case *RawPtr:
			return &RawPtr{addr: p.addr, typ: tp.Elem()}
		}
		return v
	}
	t, ok := v.(*Term)
	if !ok {
		unsupported("conversion of %T to %s", v, to)
	}
	if isFloat(to) {
		if t.sort == SInt {
			return App("i2f"+fbits(to), SVal, t)
		}
		if fbits(from) == fbits(to) {
			return t
		}
		return App("f"+fbits(from)+"to"+fbits(to), SVal, t)
	}
	if t.sort == SInt {
		// integer to integer
		if fb, fs, ok := intInfo(from); ok {
			if tb, ts, ok := intInfo(to); ok && fb == tb && fs == ts {
				return t
			}
		}
		lo, hi := typeRange(to)
		if bl, bh := st.bounds(t); lo != nil && bl != nil && bh != nil && bl.Cmp(lo) >= 0 && bh.Cmp(hi) <= 0 {
			return t
		}
		if bits, signed, ok := intInfo(to); ok {
			if !x.exact && bits == 64 {
				return t
			}
			if !signed {
				return EMod(t, p2(bits))
			}
			return Sub(EMod(Add(t, IntB(p2(bits-1))), p2(bits)), IntB(p2(bits-1)))
		}
		return t
	}
	unsupported("conversion to %s", to)
	return nil
}

func fbits(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return "32"
	}
	return "64"
}

// ifaceTerm is the term of an interface value holding v of concrete type t.
func ifaceTerm(st *State, t types.Type, v Value) *Term {
	n := "v!" + types.TypeString(t, func(p *types.Package) string { return p.Name() })
	switch v := v.(type) {
	case *Slice:
		if v.str {
			return App("v!string", SVal, st.seqOf(v))
		}
		if e, ok := scalarSort(v.elem); ok && e == SVal {
			return App("v!list", SVal, st.seqOf(v))
		}
		return App("v@slice:"+n, SVal, v.h, v.off, v.len)
	case *MapV:
		return App("v!map", SVal, st.mapContent(v))
	case *Term:
		return App(n, SVal, v)
	case *RawPtr:
		return App(n, SVal, v.addr)
	case *StructV:
		if len(v.f) == 0 {
			return App(n, SVal)
		}
		var as []*Term
		for _, f := range v.f {
			switch f.(type) {
			case *Term, *Slice, *Iface:
				as = append(as, evArg(st, f))
			}
		}
		if len(as) == len(v.f) {
			n, _, _ = strings.Cut(n, "[")
			return App(n, SVal, as...)
		}
	case *Iface:
		return v.t
	}
	st.nfresh++
	return App(fmt.Sprintf("v@iface%d", st.nfresh), SVal)
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, v Value) Value {
	i, ok := v.(*Iface)
	if !ok {
		if t, isT := v.(*Term); isT {
			if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				// interface to interface on an opaque value
				okT := App("implements:"+in.AssertedType.String(), SBool, t)
				if in.CommaOk {
					return &TupleV{[]Value{t, okT}}
				}
				return t
			}
		}
		unsupported("type assertion on %T", v)
	}
	var match bool
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		match = types.Implements(i.typ, in.AssertedType.Underlying().(*types.Interface))
	} else {
		match = types.Identical(i.typ, in.AssertedType)
	}
	if in.CommaOk {
		if match {
			return &TupleV{[]Value{i.v, True}}
		}
		return &TupleV{[]Value{zeroVal(in.AssertedType), False}}
	}
	if !match {
		x.oblige(st, x.name+": type assertion succeeds at "+x.position(st, in.Pos()), False, []string{"C11"})
		return zeroVal(in.AssertedType)
	}
	return i.v
}

func fieldAddr(p Value, t types.Type, field int) Value {
	stt := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	ft := stt.Field(field).Type()
	switch p := p.(type) {
	case *PtrV:
		return &PtrV{cell: p.cell, path: append(append([]int{}, p.path...), field)}
	case *ElemPtr:
		return &ElemPtr{h: p.h, idx: p.idx, elem: p.elem, path: p.path + "." + stt.Field(field).Name(), typ: ft}
	case *RawPtr:
		var fs []*types.Var
		for i := 0; i < stt.NumFields(); i++ {
			fs = append(fs, stt.Field(i))
		}
		off := sizes.Offsetsof(fs)[field]
		return &RawPtr{addr: Add(p.addr, Int(off)), typ: ft}
	}
	unsupported("field address of %T", p)
	return nil
}

var sizes = types.SizesFor("gc", "amd64")

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.oblige(st, x.name+": index in bounds at "+x.position(st, pos), And(Ge(i, Int(0)), Lt(i, n)), []string{"C11"})
}

// onRead assumes the lemma instances that the contract attaches to element reads.
func (x *Exec) onRead(st *State, s *Slice, idx *Term) {
	if x.root == nil {
		return
	}
	for _, u := range x.root.uses {
		c := u
		env := &Env{vars: map[string]Value{}, st: st, old: x.entry}
		for k, v := range x.rootVars {
			env.vars[k] = v
		}
		// uses mentioning IDX apply to reads of the first parameter's object
		if !mentions(c, "IDX") {
			continue
		}
		p, ok := x.rootVars[x.root.params[0]].(*Slice)
		if !ok || p.h != s.h {
			continue
		}
		env.vars["IDX"] = idx
		st.assume(useInst(env, u))
	}
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Value {
	b := x.val(st, fr, in.X)
	i := x.val(st, fr, in.Index).(*Term)
	switch b := b.(type) {
	case *Slice:
		x.bounds(st, i, b.len, in.Pos())
		if x.mach != nil {
			x.mach.onIndex(st, b, i)
		}
		return &ElemPtr{h: b.h, idx: Add(b.off, i), elem: b.elem, typ: b.elem}
	case *PtrV:
		if g, ok := in.X.(*ssa.Global); ok {
			at := b.cell.typ.Underlying().(*types.Array)
			x.bounds(st, i, Int(at.Len()), in.Pos())
			h := App("glob:"+g.String(), SInt)
			k := contKey{h, elemKey(at.Elem())}
			if _, ok := st.cont[k]; !ok {
				st.cont[k] = globalTable(g)
			}
			return &ElemPtr{h: h, idx: i, elem: at.Elem(), typ: at.Elem()}
		}
	case *ElemPtr:
		if b.path == "#array" {
			at := b.typ.Underlying().(*types.Array)
			x.bounds(st, i, Int(at.Len()), in.Pos())
			return &ElemPtr{h: b.h, idx: i, elem: b.elem, typ: b.elem}
		}
	}
	unsupported("index address of %T", b)
	return nil
}

func (x *Exec) zeroContent(st *State, h *Term, elem types.Type) {
	if isString(elem) {
		st.cont[contKey{h, elemKey(elem) + "#str"}] = ConstArr(SeqEmpty(SSeqI))
		return
	}
	buildVal(elem, "", func(p, so string, lt types.Type) *Term {
		var z *Term
		switch so {
		case SInt:
			z = Int(0)
		case SBool:
			z = False
		default:
			z = nilV
			if lt != nil && isFloat(lt) {
				z = App("v!f0", SVal)
			}
		}
		a := ConstArr(z)
		if so == SInt && lt != nil && lt != lenType {
			a.elo, a.ehi = typeRange(lt)
		}
		st.cont[contKey{h, elemKey(elem) + p}] = a
		return z
	})
}

func (x *Exec) makeSlice(st *State, fr *Frame, in *ssa.MakeSlice) {
	n, c := x.val(st, fr, in.Len).(*Term), x.val(st, fr, in.Cap).(*Term)
	h := st.freshH()
	el := in.Type().Underlying().(*types.Slice).Elem()
	x.oblige(st, x.name+": make length in range at "+x.position(st, in.Pos()), And(Ge(n, Int(0)), Le(n, c)), []string{"C11"})
	if _, sc := scalarSort(el); sc && st.simp(n) == Int(0) {
		st.cont[contKey{h, "#seq"}] = SeqEmpty(seqSort(el))
		st.cont[contKey{h, "#seqlen"}] = Int(0)
	} else {
		x.zeroContent(st, h, el)
	}
	fr.locals[in] = &Slice{h: h, off: Int(0), len: n, cap: c, elem: el}
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) {
	b := x.val(st, fr, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = x.val(st, fr, in.Low).(*Term)
	}
	switch b := b.(type) {
	case *Slice:
		hi := b.len
		lim := b.cap
		if b.str {
			lim = b.len
		}
		if in.High != nil {
			hi = x.val(st, fr, in.High).(*Term)
		}
		if in.Max != nil {
			unsupported("full slice expression")
		}
		x.oblige(st, x.name+": slice bounds at "+x.position(st, in.Pos()), And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, lim)), []string{"C11"})
		c := Sub(b.cap, lo)
		if b.str {
			c = Sub(hi, lo)
		}
		fr.locals[in] = &Slice{h: b.h, off: Add(b.off, lo), len: Sub(hi, lo), cap: c, elem: b.elem, str: b.str}
		return
	case *ElemPtr:
		if b.path == "#array" {
			at := b.typ.Underlying().(*types.Array)
			hi := Int(at.Len())
			if in.High != nil {
				hi = x.val(st, fr, in.High).(*Term)
			}
			x.oblige(st, x.name+": slice bounds at "+x.position(st, in.Pos()), And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, Int(at.Len()))), []string{"C11"})
			fr.locals[in] = &Slice{h: b.h, off: lo, len: Sub(hi, lo), cap: Sub(Int(at.Len()), lo), elem: b.elem}
			return
		}
	}
	unsupported("slice of %T", b)
}

// ---- loads and stores

func getPath(v Value, path []int) Value {
	for _, i := range path {
		s, ok := v.(*StructV)
		if !ok {
			unsupported("field of %T", v)
		}
		v = s.f[i]
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(*StructV)
	if !ok {
		unsupported("field of %T", v)
	}
	n := &StructV{typ: s.typ, f: append([]Value{}, s.f...)}
	n.f[path[0]] = setPath(s.f[path[0]], path[1:], nv)
	return n
}

func (x *Exec) load(st *State, p Value, t types.Type, pos token.Pos) Value {
	switch p := p.(type) {
	case *PtrV:
		v, ok := st.cells[p.cell]
		if !ok {
			unsupported("load of unknown cell %s", p.cell.name)
		}
		v = getPath(v, p.path)
		if sl, ok := v.(*Slice); ok {
			if _, isS := t.Underlying().(*types.Slice); isS && sl.str {
				unsupported("a string header read as a slice header")
			}
			if isString(t) && !sl.str {
				v = retype(v, t)
			}
		}
		return v
	case *ElemPtr:
		if p.path == "#array" {
			unsupported("load of a whole array")
		}
		v := st.loadAt(p.h, p.idx, p.elem, p.path, p.typ)
		if p.path == "" {
			x.onRead(st, &Slice{h: p.h, elem: p.elem}, p.idx)
		}
		return v
	case *RawPtr:
		return x.rawLoad(st, p.addr, t)
	}
	unsupported("load through %T", p)
	return nil
}

func (x *Exec) store(st *State, p, v Value, t types.Type, pos token.Pos) {
	switch p := p.(type) {
	case *PtrV:
		if strings.HasPrefix(p.cell.name, "github.com/") {
			unsupported("write to package variable %s", p.cell.name)
		}
		st.cells[p.cell] = setPath(st.cells[p.cell], p.path, v)
		return
	case *ElemPtr:
		if x.root != nil && x.root.opts["readonly-input"] {
			x.checkInputWrite(st, p)
		}
		if isString(p.elem) {
			x.noteValue(st, "stored element", v)
		}
		st.storeAt(p.h, p.idx, p.elem, p.path, p.typ, v)
		return
	case *RawPtr:
		x.rawStore(st, p.addr, t, v)
		return
	}
	unsupported("store through %T", p)
}

func (x *Exec) checkInputWrite(st *State, p *ElemPtr) {
	for _, v := range x.rootVars {
		if s, ok := v.(*Slice); ok && s.h == p.h {
			x.oblige(st, x.name+": the input is not written", False, []string{"C13"})
		}
	}
}

// rawKind normalises the access type of raw memory.
func rawKind(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return "ptr"
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "ptr"
		}
		return u.Name()
	case *types.Interface:
		return "iface"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (x *Exec) rawFind(st *State, addr *Term, kind string) (Value, bool) {
	for i := len(st.raw) - 1; i >= 0; i-- {
		w := st.raw[i]
		if st.simp(Sub(w.addr, addr)) == Int(0) {
			if w.kind != kind {
				unsupported("raw access of kind %s to %s", kind, w.kind)
			}
			return w.v, true
		}
	}
	return nil, false
}

func (x *Exec) rawLoad(st *State, addr *Term, t types.Type) Value {
	// the base address is canonical under the path's equalities
	addr = st.simp(addr)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		h := x.rawLoad(st, addr, types.Typ[types.UnsafePointer])
		n := x.rawLoad(st, Add(addr, Int(8)), types.Typ[types.Uintptr]).(*Term)
		c := x.rawLoad(st, Add(addr, Int(16)), types.Typ[types.Uintptr]).(*Term)
		n.hi, c.hi = maxLen, maxLen
		return &Slice{h: ptrTerm(h), off: Int(0), len: n, cap: c, elem: u.Elem()}
	case *types.Struct:
		s := &StructV{typ: u}
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := sizes.Offsetsof(fs)
		for i := range fs {
			s.f = append(s.f, x.rawLoad(st, Add(addr, Int(offs[i])), fs[i].Type()))
		}
		return s
	case *types.Map:
		return &MapV{h: ptrTerm(x.rawLoad(st, addr, types.Typ[types.UnsafePointer])), typ: t}
	case *types.Pointer:
		return &RawPtr{addr: ptrTerm(x.rawLoad(st, addr, types.Typ[types.UnsafePointer])), typ: u.Elem()}
	}
	kind := rawKind(t)
	if v, ok := x.rawFind(st, addr, kind); ok {
		return v
	}
	if isString(t) {
		l := App("rd:strlen", SInt, addr)
		l.lo, l.hi = new(big.Int), maxLen
		return &Slice{h: App("rd:str", SInt, addr), off: Int(0), len: l, cap: l, elem: types.Typ[types.Uint8], str: true}
	}
	s, ok := scalarSort(t)
	if _, isA := t.Underlying().(*types.Array); isA {
		s, ok = SVal, true
	}
	if !ok {
		unsupported("raw load of %s", t)
	}
	r := App("rd:"+kind, s, addr)
	if s == SInt && kind != "ptr" {
		r.lo, r.hi = typeRange(t)
	}
	if kind == "ptr" {
		r.lo = new(big.Int)
	}
	return r
}

func ptrTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *RawPtr:
		return v.addr
	case *MapV:
		return v.h
	}
	unsupported("pointer %T", v)
	return nil
}

func (x *Exec) rawStore(st *State, addr *Term, t types.Type, v Value) {
	addr = st.simp(addr)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(*Slice)
		if st.simp(s.off) != Int(0) {
			unsupported("storing a slice with an offset")
		}
		x.rawStore(st, addr, types.Typ[types.UnsafePointer], s.h)
		x.rawStore(st, Add(addr, Int(8)), types.Typ[types.Uintptr], s.len)
		x.rawStore(st, Add(addr, Int(16)), types.Typ[types.Uintptr], s.cap)
		return
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := sizes.Offsetsof(fs)
		for i := range fs {
			x.rawStore(st, Add(addr, Int(offs[i])), fs[i].Type(), v.(*StructV).f[i])
		}
		return
	}
	switch p := v.(type) {
	case *RawPtr:
		v = p.addr
	case *MapV:
		v = p.h
	case *Iface:
		v = p.t
	}
	kind := rawKind(t)
	if s, ok := v.(*Slice); ok && isString(t) {
		if !s.str {
			// a slice header reinterpreted as a string header
			n := *s
			n.str = true
			s = &n
			v = s
		}
		x.noteValue(st, "stored string", s)
	}
	for i := range st.raw {
		if st.simp(Sub(st.raw[i].addr, addr)) == Int(0) {
			if st.raw[i].kind != kind {
				unsupported("raw store of kind %s over %s", kind, st.raw[i].kind)
			}
			st.raw[i].v = v
			return
		}
	}
	st.raw = append(st.raw, rawW{addr, kind, v})
}
