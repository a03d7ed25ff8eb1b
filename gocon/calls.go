package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

func mentions(e ast.Expr, name string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return true
	})
	return found
}

// call executes a call instruction. It returns true if the path was consumed.
func (x *Exec) call(st *State, fr *Frame, in *ssa.Call, sink Sink) bool {
	c := in.Call
	var args []Value
	if c.IsInvoke() {
		recv := x.val(st, fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(st, fr, a))
		}
		return x.invoke(st, fr, in, recv, c.Method, args, sink)
	}
	fv := x.val(st, fr, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	switch f := fv.(type) {
	case *BuiltinV:
		fr.locals[in] = x.builtin(st, fr, in, f.name, args)
		fr.idx++
		return false
	case *SymFunc:
		ct := contractByName(f.name)
		if ct == nil {
			unsupported("call of unknown function value %s", f.name)
		}
		x.applyContract(st, fr, in, ct, args, in.Type(), f.name)
		fr.idx++
		return false
	case *Closure:
		return x.callFn(st, fr, in, f, args, sink)
	}
	unsupported("call of %T", fv)
	return false
}

func contractByName(n string) *Contract {
	for _, c := range contracts {
		if c.name == n {
			return c
		}
	}
	return nil
}

func (x *Exec) callFn(st *State, fr *Frame, in *ssa.Call, f *Closure, args []Value, sink Sink) bool {
	fn := f.fn
	name := canon(fn)
	if x.mach != nil && len(args) == 2 && (name == "(*Decoder).pushRecursion" || name == "(*Decoder).popRecursion") {
		op := name[len("(*Decoder)."):][:4]
		op = strings.TrimSuffix(op, "R")
		r := x.mach.frameOp(st, op, args[1].(*Term))
		if op == "pop" {
			fr.locals[in] = r
		}
		fr.idx++
		return false
	}
	if ct := findContract(fn); ct != nil && !ct.opts["inline"] {
		x.applyContract(st, fr, in, ct, args, in.Type(), name)
		fr.idx++
		return false
	}
	if ext := externs[name]; ext != nil {
		x.trusted[name] = true
		fr.locals[in] = ext(x, st, fr, in, args)
		fr.idx++
		return false
	}
	if fn.Blocks == nil || !inModule(fn) {
		unsupported("call of external function %s without contract", name)
	}
	if len(st.frames) > 14 {
		unsupported("inlining depth at %s", name)
	}
	for _, p := range st.frames {
		if p.fn == fn {
			unsupported("recursive call of %s without contract", name)
		}
	}
	x.inlined[name] = true
	nf := &Frame{fn: fn, locals: map[ssa.Value]Value{}, blk: fn.Blocks[0], call: in}
	for i, p := range fn.Params {
		nf.locals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.locals[p] = f.binds[i]
	}
	st.frames = append(st.frames, nf)
	return false
}

func inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), modulePrefix)
}

// symResult makes a fresh value of a result type.
func (x *Exec) symResult(st *State, t types.Type, name string) Value {
	st.nfresh++
	n := fmt.Sprintf("r%d!%s", st.nfresh, name)
	return buildVal(t, "", func(p, so string, lt types.Type) *Term {
		if strings.HasSuffix(p, "#off") {
			return Int(0)
		}
		return leafVar(n+p, so, lt)
	})
}

func (x *Exec) applyContract(st *State, fr *Frame, in *ssa.Call, ct *Contract, args []Value, rt types.Type, name string) {
	env := &Env{vars: map[string]Value{}, st: st, old: st}
	for i, p := range ct.params {
		if i < len(args) {
			env.vars[p] = args[i]
		}
	}
	for i, r := range ct.requires {
		x.oblige(st, x.name+": precondition of "+name+" ("+ct.reqSrc[i]+") at "+x.position(st, in.Pos()), env.term(r), ct.props)
	}
	if ct.trusted {
		x.trusted[name] = true
	}
	pre := st.clone()
	env.old = pre
	var rs []Value
	mkRes := func(t types.Type, i int) Value {
		rn := fmt.Sprintf("%s.%d", name, i)
		v := x.symResult(st, t, rn)
		fresh := ct.opts["fresh"]
		if a, ok := args[0].(*Slice); ok && !a.str && ct.opts["noalias"] {
			s, ok := v.(*Slice)
			fresh = ok && s.str
		}
		if s, ok := v.(*Slice); ok && fresh {
			// the result is backed by freshly allocated memory
			s.h = st.freshH()
			if so, ok := scalarSort(s.elem); ok {
				q := Var("c!"+s.h.name+rn, "(Seq "+so+")")
				st.cont[contKey{s.h, "#seq"}] = q
				st.cont[contKey{s.h, "#seqlen"}] = s.len
			}
			s.off = Int(0)
		} else if ok && ct.opts["suffix"] {
			// the result is a suffix of the first argument
			a := args[0].(*Slice)
			l := s.len
			s.h, s.off = a.h, Sub(Add(a.off, a.len), l)
			if a.str {
				s.cap = l
			} else {
				s.cap = Sub(a.cap, Sub(a.len, l))
			}
			st.assume(Le(l, a.len))
		} else if ok && ct.opts["suffix2"] {
			a := args[1].(*Slice)
			l := s.len
			s.h, s.off = a.h, Sub(Add(a.off, a.len), l)
			s.cap = Sub(a.cap, Sub(a.len, l))
			st.assume(Le(l, a.len))
		}
		return v
	}
	switch t := rt.(type) {
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			rs = append(rs, mkRes(t.At(i).Type(), i))
		}
	default:
		rs = append(rs, mkRes(rt, 0))
	}
	// the input itself is returned or a fresh copy (strings of string inputs)
	for i, r := range ct.results {
		if i < len(rs) {
			env.vars[r] = rs[i]
		}
	}
	for _, r := range ct.assumes {
		if mentionsRes(r, ct) {
			st.assume(env.term(r))
		}
	}
	for _, e := range ct.ensures {
		// a defining equation of a scalar result replaces the result
		if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.EQL {
			if id, ok := b.X.(*ast.Ident); ok && !mentions(b.Y, id.Name) {
				for i, r := range ct.results {
					if r != id.Name || i >= len(rs) {
						continue
					}
					if v, ok := rs[i].(*Term); ok && v.op == "var" {
						d := env.term(b.Y)
						if d.sort == v.sort {
							d = st.simp(d)
							if v.lo != nil {
								st.assume(Ge(d, IntB(v.lo)))
							}
							if v.hi != nil {
								st.assume(Le(d, IntB(v.hi)))
							}
							rs[i] = d
							env.vars[r] = d
						}
					}
				}
			}
		}
		var gs []string
		more := false
		for _, g := range ct.ghosts {
			if mentions(e, g) {
				gs = append(gs, g)
				more = more || len(x.root.insts[g]) == 0
			}
		}
		if len(gs) == 0 {
			st.assume(env.term(e))
			continue
		}
		if more {
			continue // only for the function itself
		}
		// a postcondition that holds for every value of the ghosts
		me := (&Env{vars: x.rootVars, st: st, old: x.entry}).with(nil)
		for i, p := range ct.params {
			me.vars["c_"+p] = args[i]
		}
		me.st = pre
		var inst func(i int)
		inst = func(i int) {
			if i == len(gs) {
				st.assume(env.term(e))
				return
			}
			seen := map[*Term]bool{}
			for _, it := range x.root.insts[gs[i]] {
				if g := me.term(it); !seen[g] {
					seen[g] = true
					env.vars[gs[i]] = g
					inst(i + 1)
				}
			}
		}
		inst(0)
	}
	if len(rs) == 1 {
		fr.locals[in] = rs[0]
	} else {
		fr.locals[in] = &TupleV{rs}
	}
}

func (x *Exec) builtin(st *State, fr *Frame, in *ssa.Call, name string, args []Value) Value {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *Slice:
			return a.len
		}
	case "cap":
		if a, ok := args[0].(*Slice); ok {
			return a.cap
		}
	case "append":
		return x.appendTo(st, in, args[0].(*Slice), args[1].(*Slice))
	case "SliceData", "StringData":
		s := args[0].(*Slice)
		return &ElemPtr{h: s.h, idx: s.off, elem: s.elem, typ: s.elem}
	case "String", "Slice":
		if p, ok := args[0].(*ElemPtr); ok && p.path == "" {
			n := args[1].(*Term)
			return &Slice{h: p.h, off: p.idx, len: n, cap: n, elem: p.elem, str: name == "String"}
		}
	case "Sizeof":
		return Int(sizes.Sizeof(in.Call.Args[0].Type()))
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0].(*Term), args[1].(*Term)
			if name == "min" {
				return Ite(Le(a, b), a, b)
			}
			return Ite(Le(a, b), b, a)
		}
	case "Add":
		if p, ok := args[0].(*Term); ok {
			return Add(p, args[1].(*Term))
		}
	}
	unsupported("builtin %s on %T", name, args[0])
	return nil
}

// appendTo models append as producing a fresh backing object.
func (x *Exec) appendTo(st *State, in *ssa.Call, a, b *Slice) Value {
	assumptionNotes["append is modelled as copying: the old slice value is assumed not to be observed through another alias"] = true
	h := st.freshH()
	n := Add(a.len, b.len)
	st.nfresh++
	cp := RangeVar(fmt.Sprintf("cap!%d", st.nfresh), new(big.Int), maxLen)
	st.assume(Ge(cp, n))
	r := &Slice{h: h, off: Int(0), len: n, cap: cp, elem: a.elem}
	_, scalar := scalarSort(a.elem)
	_, aseq := st.cont[contKey{a.h, "#seq"}]
	bl := st.simp(b.len)
	if aseq || scalar {
		st.cont[contKey{h, "#seq"}] = SeqConcat(seqSort(a.elem), st.seqOf(a), st.seqOf(b))
		st.cont[contKey{h, "#seqlen"}] = n
		return r
	}
	if !bl.isInt() || !bl.n.IsInt64() || bl.n.Int64() > 8 {
		unsupported("append of a slice of unknown length")
	}
	if isOwn(a.h) {
		// the only reference to the backing array: growing is not observable
		for i := int64(0); i < bl.n.Int64(); i++ {
			v := st.loadAt(b.h, Add(b.off, Int(i)), b.elem, "", b.elem)
			st.storeAt(a.h, Add(Add(a.off, a.len), Int(i)), a.elem, "", a.elem, v)
		}
		return &Slice{h: a.h, off: a.off, len: n, cap: cp, elem: a.elem}
	}
	// copy the content arrays and store the new elements
	buildVal(a.elem, "", func(p, so string, lt types.Type) *Term {
		st.cont[contKey{h, elemKey(a.elem) + p}] = st.arr(a.h, a.elem, p, so, lt)
		return Var("x!"+so, so)
	})
	if u, ok := a.elem.Underlying().(*types.Struct); ok && h != a.h {
		for i := 0; i < u.NumFields(); i++ {
			f := ownField(a.elem, "."+u.Field(i).Name())
			if f == "" {
				continue
			}
			et := u.Field(i).Type().Underlying().(*types.Slice).Elem()
			buildVal(et, "", func(p, so string, lt types.Type) *Term {
				st.cont[contKey{ownHandle(f, h), elemKey(et) + p}] = st.arr(ownHandle(f, a.h), et, p, so, lt)
				return Var("x!"+so, so)
			})
		}
	}
	r.off = a.off
	for i := int64(0); i < bl.n.Int64(); i++ {
		ownMove = true
		v := st.loadAt(b.h, Add(b.off, Int(i)), b.elem, "", b.elem)
		ownMove = false
		st.storeAt(h, Add(Add(a.off, a.len), Int(i)), a.elem, "", a.elem, v)
	}
	return r
}

// event appends an externally visible action to the trace and returns the
// deterministic name of its k-th result.
func (x *Exec) event(st *State, name string, args ...*Term) *Term {
	before := st.trace
	st.trace = App("ev:"+name, "Trace", append([]*Term{st.trace}, args...)...)
	return before
}

func evArg(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *RawPtr:
		return v.addr
	case *Slice:
		if v.str || elemKey(v.elem) == "uint8" {
			return st.seqOf(v)
		}
		return v.h
	case *Iface:
		return v.t
	case *MapV:
		return v.h
	case *PtrV:
		// pointer to a local: pass its value
		return evArg(st, getPath(st.cells[v.cell], v.path))
	case *StructV:
		if len(v.f) == 0 {
			return Int(0)
		}
		var ts []*Term
		for _, f := range v.f {
			ts = append(ts, evArg(st, f))
		}
		return App("v!tup", SVal, ts...)
	case *SymFunc:
		return App("fn:"+v.name, SVal)
	}
	unsupported("argument %T of an external call", v)
	return nil
}

func (x *Exec) invoke(st *State, fr *Frame, in *ssa.Call, recv Value, m *types.Func, args []Value, sink Sink) bool {
	rt := toTerm(recv)
	tn := types.TypeString(in.Call.Value.Type(), func(p *types.Package) string { return p.Name() })
	name := tn + "." + m.Name()
	x.trusted[name] = true
	var as []*Term
	as = append(as, rt)
	for _, a := range args {
		as = append(as, evArg(st, a))
	}
	if tn == "reflect.Type" {
		// methods of reflect.Type are pure functions
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			r := App(name, SInt, as...)
			r.lo, r.hi = new(big.Int), maxLen
			fr.locals[in] = r
			fr.idx++
			return false
		}
		r := pureVal(x, st, in.Type(), name, as)
		if t, ok := r.(*Term); ok && t.sort == SVal && (m.Name() == "Elem" || m.Name() == "Key") {
			st.assume(Not(Eq(t, nilV)))
		}
		fr.locals[in] = r
		fr.idx++
		return false
	}
	// other interface methods (unmarshalers) are visible events
	before := x.event(st, name, as...)
	fr.locals[in] = pureVal(x, st, in.Type(), "res:"+name, append([]*Term{before}, as...))
	fr.idx++
	return false
}

// pureVal is the value of an uninterpreted function of the arguments.
func pureVal(x *Exec, st *State, t types.Type, name string, as []*Term) Value {
	mkv := func(t types.Type, suffix string) Value {
		return buildVal(t, "", func(p, so string, lt types.Type) *Term {
			r := App(name+suffix+p, so, as...)
			if so == SInt {
				if lt == lenType {
					r.lo, r.hi = new(big.Int), maxLen
				} else if lt != nil {
					r.lo, r.hi = typeRange(lt)
				}
			}
			return r
		})
	}
	switch t := t.(type) {
	case *types.Tuple:
		if t.Len() == 0 {
			return nil
		}
		tv := &TupleV{}
		for i := 0; i < t.Len(); i++ {
			tv.vs = append(tv.vs, mkv(t.At(i).Type(), fmt.Sprintf("/%d", i)))
		}
		return tv
	}
	return mkv(t, "")
}

type extern func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value

var externs map[string]extern

func init() {
	pure := func(name string) extern {
		return func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			var as []*Term
			for _, a := range args {
				as = append(as, evArg(st, a))
			}
			return pureVal(x, st, in.Type(), name, as)
		}
	}
	ev := func(name string) extern {
		return func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			var as []*Term
			for _, a := range args {
				as = append(as, evArg(st, a))
			}
			before := x.event(st, name, as...)
			return pureVal(x, st, in.Type(), "res:"+name, append([]*Term{before}, as...))
		}
	}
	indexByte := func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
		s, b := args[0].(*Slice), args[1].(*Term)
		st.nfresh++
		r := RangeVar(fmt.Sprintf("ib!%d", st.nfresh), big.NewInt(-1), maxLen)
		a := st.arrOf(s, ".")
		no := func(i, j *Term) *Term {
			if sf := specFuncs["noByte"]; sf != nil {
				return sf.apply([]*Term{a, b, i, j})
			}
			return True
		}
		e := Add(s.off, s.len)
		if no(s.off, e) != True {
			st.assume(Implies(Ge(r, Int(0)), Not(no(s.off, e))))
		}
		st.assume(Or(Eq(r, Int(-1)), And(Ge(r, Int(0)), Lt(r, s.len), Eq(Select(a, Add(s.off, r)), b), no(s.off, Add(s.off, r)))))
		st.assume(Implies(Eq(r, Int(-1)), no(s.off, e)))
		return r
	}
	parseFloat := func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
		q := st.seqOf(args[0].(*Slice))
		bits := args[1].(*Term)
		return &TupleV{[]Value{App("pf", SVal, q, bits), App("pferr", SVal, q, bits)}}
	}
	externs = map[string]extern{
		"strings.IndexByte":       indexByte,
		"bytes.IndexByte":         indexByte,
		"strings.Cut":             pure("strings.Cut"),
		"(reflect.StructTag).Get": pure("StructTag.Get"),
		"(reflect.StructField).IsExported": func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			if f, ok := args[0].(*StructV); ok {
				for i, v := range f.f {
					if s, ok := v.(*Slice); ok && f.typ.Field(i).Name() == "PkgPath" {
						return Eq(s.len, Int(0))
					}
				}
			}
			unsupported("IsExported of an unknown field")
			return nil
		},
		"jscandec.getTyp": pure("getTyp"),
		"fmt.Errorf": func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			st.nfresh++
			e := App(fmt.Sprintf("errorf!%d", st.nfresh), SVal)
			st.assume(Not(Eq(e, nilV)))
			return e
		},
		"jscan.NewTokenizer": func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			st.nfresh++
			a := App(fmt.Sprintf("tokenizer!%d", st.nfresh), SInt)
			st.assume(Gt(a, Int(0)))
			return &RawPtr{addr: a, typ: in.Type().Underlying().(*types.Pointer).Elem()}
		},
		"strings.EqualFold": func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			return App("eqfold", SBool, st.seqOf(args[0].(*Slice)), st.seqOf(args[1].(*Slice)))
		},
		"strconv.ParseFloat": parseFloat,
		"(jscan.Token).Float64": func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			q := tokText(st, args)
			e := App("pferr", SVal, q, Int(64))
			return &TupleV{[]Value{Ite(Eq(e, nilV), App("pf", SVal, q, Int(64)), App("v!f0", SVal)), e}}
		},
		"(jscan.Token).Int32": tokInt(32),
		"(jscan.Token).Int64": tokInt(64),
		"jscandec.noescape": func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
			return args[0]
		},
		"jscandec.newarray":             ev("newarray"),
		"jscandec.mallocgc":             ev("mallocgc"),
		"jscandec.typedslicecopy":       ev("typedslicecopy"),
		"jscandec.typedmemclr":          ev("typedmemclr"),
		"jscandec.typedmemmove":         ev("typedmemmove"),
		"jscandec.makemap":              ev("makemap"),
		"jscandec.mapassign":            ev("mapassign"),
		"jscandec.mapassign_faststr":    ev("mapassign_faststr"),
		"reflect.NewAt":                 pure("reflect.NewAt"),
		"reflect.New":                   ev("reflect.New"),
		"reflect.PointerTo":             pure("reflect.PointerTo"),
		"reflect.TypeOf":                pure("reflect.TypeOf"),
		"(reflect.Value).Elem":          pure("Value.Elem"),
		"(reflect.Value).IsNil":         pure("Value.IsNil"),
		"(reflect.Value).Set":           ev("Value.Set"),
		"(reflect.Value).SetZero":       ev("Value.SetZero"),
		"(reflect.Value).Interface":     pure("Value.Interface"),
		"(reflect.Value).UnsafePointer": pure("Value.UnsafePointer"),
	}
}

// tokText is the text of the literal of a token: args are the token and the source.
func tokText(st *State, args []Value) *Term {
	tk := args[0].(*StructV)
	s := args[1].(*Slice)
	f := func(n string) *Term {
		for i := 0; i < tk.typ.NumFields(); i++ {
			if tk.typ.Field(i).Name() == n {
				return tk.f[i].(*Term)
			}
		}
		unsupported("token without field %s", n)
		return nil
	}
	return SubSeq(st.arrOf(s, "."), Add(s.off, f("Index")), Add(s.off, f("End")))
}

func tokInt(bits uint) extern {
	return func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
		tk := args[0].(*StructV)
		s := args[1].(*Slice)
		var a, b *Term
		for i := 0; i < tk.typ.NumFields(); i++ {
			switch tk.typ.Field(i).Name() {
			case "Index":
				a = Add(s.off, tk.f[i].(*Term))
			case "End":
				b = Add(s.off, tk.f[i].(*Term))
			}
		}
		iv := specFuncs["ival"].apply([]*Term{st.arrOf(s, "."), a, b})
		in2 := And(Ge(iv, IntB(new(big.Int).Neg(p2(bits-1)))), Lt(iv, IntB(p2(bits-1))))
		e := App("v@strconvRange", SVal)
		distinctNames["v@strconvRange"] = true
		return &TupleV{[]Value{Ite(in2, iv, Int(0)), Ite(in2, nilV, e)}}
	}
}
