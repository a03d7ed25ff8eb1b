package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Value interface{}

// Slice is a string or a slice: the elements [off,off+len) of the backing
// object h. Element i of the slice lives at index off+i of the object.
type Slice struct {
	h, off, len, cap *Term
	elem             types.Type
	str              bool
}

// PtrV points to (a part of) a cell.
type PtrV struct {
	cell *Cell
	path []int
}

// ElemPtr points to (a part of) an element of a backing object.
type ElemPtr struct {
	h, idx *Term
	elem   types.Type
	path   string
	typ    types.Type
}

// RawPtr is a typed pointer made from an address.
type RawPtr struct {
	addr *Term
	typ  types.Type
}

type StructV struct {
	typ *types.Struct
	f   []Value
}

type Iface struct {
	typ types.Type // concrete type
	v   Value
	t   *Term
}

func (i *Iface) term() *Term { return i.t }

type Closure struct {
	fn    *ssa.Function
	binds []Value
}

type SymFunc struct{ name string }

type TupleV struct{ vs []Value }

type MapV struct {
	h   *Term
	typ types.Type
}

type BuiltinV struct{ name string }

type Cell struct {
	id   int
	typ  types.Type
	name string
}

var (
	nilV  = App("v!nil", SVal)
	cellN int
)

func newCell(t types.Type, name string) *Cell {
	cellN++
	return &Cell{id: cellN, typ: t, name: name}
}

func isFresh(h *Term) bool {
	return (h.op == "var" || h.op == "app") && strings.HasPrefix(h.name, "fresh!")
}

// ---- types

var p2 = func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// intInfo returns width and signedness of integer types.
func intInfo(t types.Type) (bits uint, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	if bits, signed, ok := intInfo(t); ok {
		if signed {
			return new(big.Int).Neg(p2(bits - 1)), new(big.Int).Sub(p2(bits-1), big.NewInt(1))
		}
		return new(big.Int), new(big.Int).Sub(p2(bits), big.NewInt(1))
	}
	return nil, nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// opaque types are treated as single values.
func opaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func scalarSort(t types.Type) (string, bool) {
	if opaque(t) {
		return SVal, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SVal, true
		}
	case *types.Pointer:
		return SInt, true
	case *types.Interface, *types.Signature, *types.Chan:
		return SVal, true
	}
	return "", false
}

type leafGet func(path, sort string, t types.Type) *Term

// buildVal assembles a value of type t from leaf terms.
func buildVal(t types.Type, path string, get leafGet) Value {
	if opaque(t) {
		return get(path, SVal, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &Slice{h: get(path+"#h", SInt, nil), off: get(path+"#off", SInt, lenType), len: get(path+"#len", SInt, lenType), cap: get(path+"#cap", SInt, lenType), elem: u.Elem()}
	case *types.Struct:
		s := &StructV{typ: u}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, buildVal(u.Field(i).Type(), path+"."+u.Field(i).Name(), get))
		}
		return s
	case *types.Map:
		return &MapV{h: get(path+"#m", SInt, nil), typ: t}
	}
	if isString(t) {
		l := get(path+"#len", SInt, lenType)
		return &Slice{h: get(path+"#h", SInt, nil), off: get(path+"#off", SInt, lenType), len: l, cap: l, elem: types.Typ[types.Uint8], str: true}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return &RawPtr{addr: get(path, SInt, nil), typ: p.Elem()}
	}
	s, ok := scalarSort(t)
	if !ok {
		unsupported("value of type %s", t)
	}
	return get(path, s, t)
}

// flatten enumerates the leaf terms of v.
func flatten(t types.Type, path string, v Value, set func(path string, t *Term)) {
	switch v := v.(type) {
	case *Slice:
		set(path+"#h", v.h)
		set(path+"#off", v.off)
		set(path+"#len", v.len)
		if !v.str {
			set(path+"#cap", v.cap)
		}
	case *StructV:
		for i := range v.f {
			flatten(v.typ.Field(i).Type(), path+"."+v.typ.Field(i).Name(), v.f[i], set)
		}
	case *MapV:
		set(path+"#m", v.h)
	case *RawPtr:
		set(path, v.addr)
	case *Iface:
		set(path, v.t)
	case *Term:
		set(path, v)
	default:
		unsupported("storing %T", v)
	}
}

var lenType = types.Typ[types.UntypedNil] // marker: non-negative length or offset

var maxLen = p2(48)

func leafVar(name, sort string, t types.Type) *Term {
	if sort == SInt {
		if t == lenType {
			return RangeVar(name, new(big.Int), maxLen)
		}
		if t != nil {
			lo, hi := typeRange(t)
			return RangeVar(name, lo, hi)
		}
	}
	return Var(name, sort)
}

func zeroVal(t types.Type) Value {
	return buildVal(t, "", func(path, s string, lt types.Type) *Term {
		switch s {
		case SInt:
			return Int(0)
		case SBool:
			return False
		}
		if lt != nil && isFloat(lt) {
			return App("v!f0", SVal)
		}
		return nilV
	})
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) { panic(unsupportedErr{fmt.Sprintf(f, a...)}) }

// ---- state

type contKey struct {
	h    *Term
	leaf string
}

type rawW struct {
	addr *Term
	kind string
	v    Value
}

type Frame struct {
	fn     *ssa.Function
	locals map[ssa.Value]Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	call   ssa.Value
	defers []*ssa.Defer
	inDef  bool
}

type Obl struct {
	name  string
	hyps  []*Term
	goal  *Term
	props []string
	tag   string
	fuel  int
	ok    bool
	bad   string
}

type State struct {
	frames []*Frame
	cells  map[*Cell]Value
	cont   map[contKey]*Term
	raw    []rawW
	rawEra *Term
	trace  *Term
	pc     []*Term
	truth  map[*Term]bool
	eqc    map[*Term]*big.Int
	lo, hi map[*Term]*big.Int
	ne     map[*Term][]*big.Int
	acts   []*LoopAct
	nfresh int
	obs    []*Obl
	tag    string
	dead   bool
	notes  map[string]bool
}

func newState() *State {
	return &State{cells: map[*Cell]Value{}, cont: map[contKey]*Term{}, truth: map[*Term]bool{},
		eqc: map[*Term]*big.Int{}, lo: map[*Term]*big.Int{}, hi: map[*Term]*big.Int{}, ne: map[*Term][]*big.Int{},
		trace: App("tr0", "Trace"), rawEra: Int(0)}
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		c := *f
		c.locals = make(map[ssa.Value]Value, len(f.locals)+8)
		for k, v := range f.locals {
			c.locals[k] = v
		}
		c.defers = append([]*ssa.Defer{}, f.defers...)
		n.frames[i] = &c
	}
	n.cells = make(map[*Cell]Value, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.cont = make(map[contKey]*Term, len(s.cont))
	for k, v := range s.cont {
		n.cont[k] = v
	}
	n.raw = append([]rawW{}, s.raw...)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.truth = cp(s.truth)
	n.eqc = cp(s.eqc)
	n.lo = cp(s.lo)
	n.hi = cp(s.hi)
	n.ne = cp(s.ne)
	n.acts = append([]*LoopAct{}, s.acts...)
	n.obs = s.obs[:len(s.obs):len(s.obs)]
	return &n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---- facts

func (s *State) assume(t *Term) {
	t = s.simp(t)
	if t == True {
		return
	}
	if t == False {
		s.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
	s.learn(t)
}

func (s *State) setLo(t *Term, n *big.Int) {
	if o := s.lo[t]; o == nil || o.Cmp(n) < 0 {
		s.lo[t] = n
	}
	s.tight(t)
}

func (s *State) setHi(t *Term, n *big.Int) {
	if o := s.hi[t]; o == nil || o.Cmp(n) > 0 {
		s.hi[t] = n
	}
	s.tight(t)
}

func (s *State) tight(t *Term) {
	lo, hi := s.leafBounds(t)
	for ch := true; ch; {
		ch = false
		for _, x := range s.ne[t] {
			if lo != nil && lo.Cmp(x) == 0 {
				lo = new(big.Int).Add(lo, big.NewInt(1))
				s.lo[t] = lo
				ch = true
			}
			if hi != nil && hi.Cmp(x) == 0 {
				hi = new(big.Int).Sub(hi, big.NewInt(1))
				s.hi[t] = hi
				ch = true
			}
		}
	}
	if lo != nil && hi != nil {
		if lo.Cmp(hi) > 0 {
			s.dead = true
		}
		if lo.Cmp(hi) == 0 {
			s.eqc[t] = lo
		}
	}
}

func (s *State) leafBounds(t *Term) (lo, hi *big.Int) {
	lo, hi = bounds(t)
	if t.op == "div" || t.op == "mod" {
		m := t.args[1].n
		l, h := s.bounds(t.args[0])
		if t.op == "div" {
			if l != nil {
				q, _ := new(big.Int).DivMod(l, m, new(big.Int))
				if lo == nil || q.Cmp(lo) > 0 {
					lo = q
				}
			}
			if h != nil {
				q, _ := new(big.Int).DivMod(h, m, new(big.Int))
				if hi == nil || q.Cmp(hi) < 0 {
					hi = q
				}
			}
		} else if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(m) < 0 {
			lo, hi = l, h
		}
	}
	if l := s.lo[t]; l != nil && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h := s.hi[t]; h != nil && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	return
}

func (s *State) bounds(t *Term) (lo, hi *big.Int) {
	if t.op == "+" {
		lo, hi = t.n, t.n
		for i, a := range t.args {
			l, h := s.leafBounds(a)
			c := t.coef[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(l, c))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(h, c))
				}
			}
		}
		// also facts known about the same linear combination
		base := fromLin(lin{new(big.Int), toLin(t).m})
		if l := s.lo[base]; l != nil {
			x := new(big.Int).Add(l, t.n)
			if lo == nil || x.Cmp(lo) > 0 {
				lo = x
			}
		}
		if h := s.hi[base]; h != nil {
			x := new(big.Int).Add(h, t.n)
			if hi == nil || x.Cmp(hi) < 0 {
				hi = x
			}
		}
		nb := Neg(base)
		if h := s.hi[nb]; h != nil {
			x := new(big.Int).Sub(t.n, h)
			if lo == nil || x.Cmp(lo) > 0 {
				lo = x
			}
		}
		if l := s.lo[nb]; l != nil {
			x := new(big.Int).Sub(t.n, l)
			if hi == nil || x.Cmp(hi) < 0 {
				hi = x
			}
		}
		return
	}
	return s.leafBounds(t)
}

func (s *State) learn(t *Term) {
	s.truth[t] = true
	s.truth[Not(t)] = false
	switch t.op {
	case "<=0":
		l := t.args[0]
		if l.op == "+" {
			if len(l.args) == 1 {
				c := l.coef[0]
				// c*x + n <= 0
				if c.Sign() > 0 {
					q := new(big.Int).Div(new(big.Int).Neg(l.n), c) // floor
					s.setHi(l.args[0], q)
				} else {
					// x >= n/(-c), ceil
					d := new(big.Int).Neg(c)
					q := new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(l.n), d))
					s.setLo(l.args[0], q)
				}
			} else {
				base := fromLin(lin{new(big.Int), toLin(l).m})
				x := new(big.Int).Neg(l.n)
				if o := s.hi[base]; o == nil || o.Cmp(x) > 0 {
					s.hi[base] = x
				}
			}
		} else {
			s.setHi(l, new(big.Int))
		}
	case "=":
		a, b := t.args[0], t.args[1]
		if a.sort == SInt && b.isInt() {
			s.eqc[a] = b.n
			s.lo[a], s.hi[a] = b.n, b.n
		}
	case "not":
		e := t.args[0]
		if e.op == "=" && e.args[0].sort == SInt && e.args[1].isInt() {
			a := e.args[0]
			s.ne[a] = append(s.ne[a][:len(s.ne[a]):len(s.ne[a])], e.args[1].n)
			s.tight(a)
		}
	}
}

// simp simplifies t using the facts of the path.
func (s *State) simp(t *Term) *Term {
	return s.simpM(t, map[*Term]*Term{}, 0)
}

func (s *State) simpM(t *Term, memo map[*Term]*Term, d int) *Term {
	if len(t.args) == 0 && t.sort != SInt && t.sort != SBool {
		return t
	}
	if t.op == "int" || t == True || t == False {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := s.simp1(t, memo, d)
	memo[t] = r
	return r
}

func (s *State) simp1(t *Term, memo map[*Term]*Term, d int) *Term {
	if t.sort == SBool {
		if b, ok := s.truth[t]; ok {
			return BoolT(b)
		}
	}
	if n, ok := s.eqc[t]; ok {
		return IntB(n)
	}
	if d > 60 {
		return t
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			if t.op == "and" || t.op == "or" || t.op == "ite" || t.op != "store" {
				args[i] = s.simpM(a, memo, d+1)
			} else {
				args[i] = a
			}
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			r = rebuild(t, args)
			if b, ok := s.truth[r]; ok && r.sort == SBool {
				return BoolT(b)
			}
			if n, ok := s.eqc[r]; ok {
				return IntB(n)
			}
		}
	}
	switch r.op {
	case "<=0":
		lo, hi := s.bounds(r.args[0])
		if hi != nil && hi.Sign() <= 0 {
			return True
		}
		if lo != nil && lo.Sign() > 0 {
			return False
		}
	case "=":
		a, b := r.args[0], r.args[1]
		if a.sort == SInt {
			lo, hi := s.bounds(Sub(a, b))
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return False
			}
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return True
			}
			if b.isInt() {
				for _, x := range s.ne[a] {
					if x.Cmp(b.n) == 0 {
						return False
					}
				}
			}
		}
	}
	return r
}

// ---- memory objects

func elemKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return types.Typ[u.Kind()].Name()
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if i := strings.Index(s, "["); i > 0 && strings.HasSuffix(s, "]") {
		s = s[:i]
	}
	return s
}

func (s *State) arr(h *Term, elem types.Type, leaf, sort string, lt types.Type) *Term {
	k := contKey{h, elemKey(elem) + leaf}
	if t, ok := s.cont[k]; ok {
		return t
	}
	t := App("H:"+k.leaf, "(Array Int "+sort+")", h)
	if sort == SInt {
		if lt == lenType {
			t.elo, t.ehi = new(big.Int), maxLen
		} else if lt != nil {
			t.elo, t.ehi = typeRange(lt)
		}
	}
	return t
}

func (s *State) loadAt(h, idx *Term, elem types.Type, path string, t types.Type) Value {
	if isString(elem) && path == "" {
		q := Select(s.arr(h, elem, "#str", SSeqI, nil), idx)
		n := App("strof", SInt, q)
		l := App("strlen", SInt, q)
		l.lo, l.hi = new(big.Int), maxLen
		s.cont[contKey{n, "#seq"}], s.cont[contKey{n, "#seqlen"}] = q, l
		return &Slice{h: n, off: Int(0), len: l, cap: l, elem: types.Typ[types.Uint8], str: true}
	}
	v := buildVal(t, path, func(p, so string, lt types.Type) *Term {
		return Select(s.arr(h, elem, p, so, lt), idx)
	})
	if len(ownFields) > 0 {
		if path == "" && hasOwnField(elem) && ownMove {
			sv, u := v.(*StructV), elem.Underlying().(*types.Struct)
			for i := range sv.f {
				if f := ownField(elem, "."+u.Field(i).Name()); f != "" {
					sl := sv.f[i].(*Slice)
					sv.f[i] = &Slice{h: ownHandle(f, h), off: ownBase(idx), len: sl.len, cap: sl.cap, elem: sl.elem}
				}
			}
			return v
		}
		if f := ownField(elem, path); f != "" {
			sl := v.(*Slice)
			return &Slice{h: ownHandle(f, h), off: ownBase(idx), len: sl.len, cap: sl.cap, elem: sl.elem}
		}
		if path == "" && hasOwnField(elem) {
			unsupported("copy of a structure with an owned slice")
		}
	}
	return v
}

// ownFields names the slice fields ("stackFrame.RecursionStack") whose backing array is
// referenced by that field only. Their contents live in one array per field, the element
// j of the slice of structure i at i*ownStride+j, and append works in place.
var ownFields = map[string]bool{}

// ownMove is set while append copies a structure out of the array of its arguments.
var ownMove bool

func ownField(elem types.Type, path string) string {
	k := elemKey(elem)
	if i := strings.LastIndex(k, "."); i >= 0 {
		k = k[i+1:]
	}
	if path != "" && ownFields[k+path] {
		return k + path
	}
	return ""
}

func hasOwnField(elem types.Type) bool {
	if u, ok := elem.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if ownField(elem, "."+u.Field(i).Name()) != "" {
				return true
			}
		}
	}
	return false
}

// ownFieldsOf lists the owned slice fields of a structure type.
func ownFieldsOf(elem types.Type) (fs []string) {
	if u, ok := elem.Underlying().(*types.Struct); ok && len(ownFields) > 0 {
		for i := 0; i < u.NumFields(); i++ {
			if f := ownField(elem, "."+u.Field(i).Name()); f != "" {
				fs = append(fs, f)
			}
		}
	}
	return fs
}

// ownSlice is the object with the contents of the owned slices of the elements of s.
func ownSlice(s *Slice, f string) *Slice {
	u := s.elem.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if ownField(s.elem, "."+u.Field(i).Name()) == f {
			return &Slice{h: ownHandle(f, s.h), off: Int(0), len: Int(0), cap: Int(0), elem: u.Field(i).Type().Underlying().(*types.Slice).Elem()}
		}
	}
	unsupported("no owned slice %s", f)
	return nil
}

func ownHandle(f string, h *Term) *Term { return App("own:"+f, SInt, h) }
func ownBase(idx *Term) *Term           { return Mul(IntB(p2(48)), idx) }
func isOwn(h *Term) bool                { return h.op == "app" && strings.HasPrefix(h.name, "own:") }

func (s *State) loadElem(x *Slice, idx *Term) Value {
	if _, ok := s.cont[contKey{x.h, "#seq"}]; ok {
		unsupported("reading an element of a sequence-valued buffer")
	}
	return s.loadAt(x.h, idx, x.elem, "", x.elem)
}

func (s *State) storeAt(h, idx *Term, elem types.Type, path string, t types.Type, v Value) {
	if _, ok := s.cont[contKey{h, "#seq"}]; ok {
		unsupported("writing an element of a sequence-valued buffer")
	}
	if v, ok := v.(*Slice); ok && isString(elem) && path == "" {
		a := s.arr(h, elem, "#str", SSeqI, nil)
		s.cont[contKey{h, elemKey(elem) + "#str"}] = Store(a, idx, s.seqOf(v))
		return
	}
	// determine declared sorts by building the type once
	srt := map[string]struct {
		s string
		t types.Type
	}{}
	buildVal(t, path, func(p, so string, lt types.Type) *Term {
		srt[p] = struct {
			s string
			t types.Type
		}{so, lt}
		return Var("x!"+so, so)
	})
	own, skip := false, map[string]bool{}
	if len(ownFields) > 0 {
		if f := ownField(elem, path); f != "" {
			sl := v.(*Slice)
			if (sl.h != ownHandle(f, h) || s.simp(sl.off) != s.simp(ownBase(idx))) && s.simp(sl.len) != Int(0) {
				unsupported("assignment to the owned slice %s", f)
			}
			own = true
		} else if path == "" && hasOwnField(elem) {
			sv, ok := v.(*StructV)
			if !ok {
				unsupported("overwriting a structure with an owned slice")
			}
			u := elem.Underlying().(*types.Struct)
			for i := range sv.f {
				if f := ownField(elem, "."+u.Field(i).Name()); f != "" {
					// an empty slice of its own
					if s.simp(sv.f[i].(*Slice).len) != Int(0) {
						unsupported("overwriting a structure with an owned slice")
					}
					skip["."+u.Field(i).Name()+"#h"], skip["."+u.Field(i).Name()+"#off"] = true, true
				}
			}
		}
	}
	flatten(t, path, v, func(p string, x *Term) {
		if skip[p] {
			return
		}
		if own && (strings.HasSuffix(p, "#h") || strings.HasSuffix(p, "#off")) {
			return
		}
		d, ok := srt[p]
		if !ok {
			unsupported("storing leaf %s of %s", p, t)
		}
		a := s.arr(h, elem, p, d.s, d.t)
		s.cont[contKey{h, elemKey(elem) + p}] = Store(a, idx, x)
	})
}

// arrOf returns the content array of x for a leaf ("." for scalar elements).
func (s *State) arrOf(x *Slice, leaf string) *Term {
	var res *Term
	want := leaf
	if leaf == "." {
		want = ""
	} else {
		want = "." + leaf
	}
	buildVal(x.elem, "", func(p, so string, lt types.Type) *Term {
		if p == want {
			res = s.arr(x.h, x.elem, p, so, lt)
		}
		return Var("x!"+so, so)
	})
	if res == nil {
		specFail("no leaf %q in %s", leaf, x.elem)
	}
	return res
}

func seqSort(elem types.Type) string {
	so, ok := scalarSort(elem)
	if !ok {
		specFail("sequence of %s", elem)
	}
	return "(Seq " + so + ")"
}

// seqOf returns the content of x as a sequence term.
func (s *State) seqOf(x *Slice) *Term {
	if q, ok := s.cont[contKey{x.h, "#seq"}]; ok {
		if x.off == Int(0) && s.simp(Sub(x.len, s.cont[contKey{x.h, "#seqlen"}])) == Int(0) {
			return q
		}
		return App("subseq", q.sort, q, x.off, x.len)
	}
	if isEmptyLen(s, x.len) {
		return SeqEmpty(seqSort(x.elem))
	}
	return SubSeq(s.arrOf(x, "."), x.off, Add(x.off, x.len))
}

func isEmptyLen(s *State, l *Term) bool { return s.simp(l) == Int(0) }

func (s *State) mapContent(m *MapV) *Term {
	if t, ok := s.cont[contKey{m.h, "#map"}]; ok {
		return t
	}
	return App("M0", "MapT", m.h)
}

func (s *State) freshH() *Term {
	s.nfresh++
	t := App(fmt.Sprintf("fresh!%d", s.nfresh), SInt)
	distinctNames[t.name] = true
	t.lo = big.NewInt(1)
	return t
}

// isNil is the nil test of slices, maps and raw pointers.
func nilTest(v Value) *Term {
	switch v := v.(type) {
	case *Slice:
		return Eq(v.h, Int(0))
	case *MapV:
		return Eq(v.h, Int(0))
	case *RawPtr:
		return Eq(v.addr, Int(0))
	case *PtrV, *ElemPtr, *Closure, *SymFunc:
		return False
	case *Iface:
		return Eq(v.t, nilV)
	case *Term:
		if v.sort == SVal {
			return Eq(v, nilV)
		}
		return Eq(v, Int(0))
	}
	unsupported("nil test of %T", v)
	return nil
}

// noteRange records an interval of t that follows from the known facts.
func (s *State) noteRange(t *Term, lo, hi *big.Int) {
	if t.op != "+" || len(t.args) < 2 {
		return
	}
	base := fromLin(lin{new(big.Int), toLin(t).m})
	if lo != nil {
		l := new(big.Int).Sub(lo, t.n)
		if o := s.lo[base]; o == nil || o.Cmp(l) < 0 {
			s.lo[base] = l
		}
	}
	if hi != nil {
		h := new(big.Int).Sub(hi, t.n)
		if o := s.hi[base]; o == nil || o.Cmp(h) > 0 {
			s.hi[base] = h
		}
	}
}

func (s *State) noteSum(t, p, q *Term, sign int64) {
	pl, ph := s.bounds(p)
	ql, qh := s.bounds(q)
	if sign < 0 {
		neg := func(x *big.Int) *big.Int {
			if x == nil {
				return nil
			}
			return new(big.Int).Neg(x)
		}
		ql, qh = neg(qh), neg(ql)
	}
	var lo, hi *big.Int
	if pl != nil && ql != nil {
		lo = new(big.Int).Add(pl, ql)
	}
	if ph != nil && qh != nil {
		hi = new(big.Int).Add(ph, qh)
	}
	s.noteRange(t, lo, hi)
}

func (s *State) noteScaled(t, p *Term, c *big.Int) {
	l, h := s.bounds(p)
	if c.Sign() < 0 {
		l, h = h, l
	}
	var lo, hi *big.Int
	if l != nil {
		lo = new(big.Int).Mul(l, c)
	}
	if h != nil {
		hi = new(big.Int).Mul(h, c)
	}
	s.noteRange(t, lo, hi)
}
