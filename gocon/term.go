package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term. Integer terms are kept in linear normal form.
type Term struct {
	id   int
	op   string // "int","true","false","var","+","*","<=0","=","not","and","or","ite","select","store","mod","div","app",...
	name string // var/app name
	args []*Term
	sort string
	n    *big.Int // constants, coefficients are kept in coef
	coef []*big.Int
	lo   *big.Int // known bounds of variables and selects (assumed by declaration)
	hi   *big.Int
	elo  *big.Int // element bounds for arrays
	ehi  *big.Int
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SVal  = "Val"
	SArrI = "(Array Int Int)"
	SSeqI = "(Seq Int)"
	SSeqV = "(Seq Val)"
)

var (
	termTab = map[string]*Term{}
	termN   = 0
)

func key(op, name, sort string, args []*Term, n *big.Int, coef []*big.Int) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	if n != nil {
		b.WriteByte('#')
		b.WriteString(n.String())
	}
	for _, c := range coef {
		b.WriteByte('@')
		b.WriteString(c.String())
	}
	return b.String()
}

func mk(op, name, sort string, args []*Term, n *big.Int, coef []*big.Int) *Term {
	k := key(op, name, sort, args, n, coef)
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{id: termN, op: op, name: name, sort: sort, args: args, n: n, coef: coef}
	termTab[k] = t
	return t
}

var (
	True  = mk("true", "", SBool, nil, nil, nil)
	False = mk("false", "", SBool, nil, nil, nil)
)

func Int(n int64) *Term        { return IntB(big.NewInt(n)) }
func IntB(n *big.Int) *Term    { return mk("int", "", SInt, nil, n, nil) }
func Var(name, s string) *Term { return mk("var", name, s, nil, nil, nil) }
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func RangeVar(name string, lo, hi *big.Int) *Term {
	t := Var(name, SInt)
	t.lo, t.hi = lo, hi
	return t
}

func (t *Term) isInt() bool { return t.op == "int" }

// ---- linear arithmetic

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{new(big.Int).Set(t.n), map[*Term]*big.Int{}}
	case "+":
		l := lin{new(big.Int).Set(t.n), map[*Term]*big.Int{}}
		for i, a := range t.args {
			l.m[a] = t.coef[i]
		}
		return l
	}
	return lin{new(big.Int), map[*Term]*big.Int{t: big.NewInt(1)}}
}

func fromLin(l lin) *Term {
	var ts []*Term
	for t, c := range l.m {
		if c.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return IntB(l.c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	cs := make([]*big.Int, len(ts))
	for i, t := range ts {
		cs[i] = l.m[t]
	}
	if len(ts) == 1 && cs[0].Cmp(big.NewInt(1)) == 0 && l.c.Sign() == 0 {
		return ts[0]
	}
	return mk("+", "", SInt, ts, l.c, cs)
}

func addScaled(a, b *Term, k *big.Int) *Term {
	la, lb := toLin(a), toLin(b)
	r := lin{new(big.Int).Add(la.c, new(big.Int).Mul(lb.c, k)), map[*Term]*big.Int{}}
	for t, c := range la.m {
		r.m[t] = c
	}
	for t, c := range lb.m {
		x := new(big.Int).Mul(c, k)
		if o, ok := r.m[t]; ok {
			x.Add(x, o)
		}
		r.m[t] = x
	}
	return fromLin(r)
}

func Add(a, b *Term) *Term { return addScaled(a, b, big.NewInt(1)) }
func Sub(a, b *Term) *Term { return addScaled(a, b, big.NewInt(-1)) }
func Neg(a *Term) *Term    { return Sub(Int(0), a) }
func Mul(a, b *Term) *Term {
	if a.isInt() {
		return addScaled(Int(0), b, a.n)
	}
	if b.isInt() {
		return addScaled(Int(0), a, b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, []*Term{a, b}, nil, nil)
}

// bounds returns the declared interval of t (nil means unbounded).
func bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.n, t.n
	case "+":
		lo, hi = t.n, t.n
		for i, a := range t.args {
			l, h := bounds(a)
			c := t.coef[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(l, c))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(h, c))
				}
			}
		}
		return
	case "mod":
		return big.NewInt(0), new(big.Int).Sub(t.args[1].n, big.NewInt(1))
	case "div":
		l, h := bounds(t.args[0])
		d := t.args[1].n
		if l != nil {
			lo = new(big.Int).Div(l, d)
		}
		if h != nil {
			hi = new(big.Int).Div(h, d)
		}
		return
	case "ite":
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return
	}
	return t.lo, t.hi
}

// EMod is Euclidean modulo by a positive constant.
func EMod(a *Term, m *big.Int) *Term {
	lo, hi := bounds(a)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return a
	}
	if a.isInt() {
		return IntB(new(big.Int).Mod(a.n, m))
	}
	if a.op == "mod" && new(big.Int).Mod(a.args[1].n, m).Sign() == 0 {
		return EMod(a.args[0], m)
	}
	return mk("mod", "", SInt, []*Term{a, IntB(m)}, nil, nil)
}

// EDiv is Euclidean (= floor, for positive constants) division.
func EDiv(a *Term, m *big.Int) *Term {
	if a.isInt() {
		q, _ := new(big.Int).DivMod(a.n, m, new(big.Int))
		return IntB(q)
	}
	if m.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.op == "div" {
		return EDiv(a.args[0], new(big.Int).Mul(a.args[1].n, m))
	}
	return mk("div", "", SInt, []*Term{a, IntB(m)}, nil, nil)
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "<=0": // l <= 0  ->  -l + 1 <= 0
		return le0(Sub(Int(1), a.args[0]))
	}
	return mk("not", "", SBool, []*Term{a}, nil, nil)
}

func nary(op string, unit, zero *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, "", SBool, out, nil, nil)
}

func And(ts ...*Term) *Term    { return nary("and", True, False, ts) }
func Or(ts ...*Term) *Term     { return nary("or", False, True, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func le0(l *Term) *Term {
	if l.isInt() {
		return BoolT(l.n.Sign() <= 0)
	}
	if lo, hi := bounds(l); true {
		if hi != nil && hi.Sign() <= 0 {
			return True
		}
		if lo != nil && lo.Sign() > 0 {
			return False
		}
	}
	return mk("<=0", "", SBool, []*Term{l}, nil, nil)
}

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(Add(Sub(a, b), Int(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// distinctNames lists nullary constants known to be pairwise distinct (per sort).
var distinctNames = map[string]bool{"v!nil": true}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq of sorts %s and %s: %s = %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SInt:
		d := Sub(a, b)
		if d.isInt() {
			return BoolT(d.n.Sign() == 0)
		}
		if lo, hi := bounds(d); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return False
		}
		// push equalities with constants into ite's with constant branches
		if b.isInt() && a.op == "ite" && (a.args[1].isInt() || a.args[2].isInt()) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if a.isInt() && b.op == "ite" && (b.args[1].isInt() || b.args[2].isInt()) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
		if d.op == "+" && d.coef[0].Sign() < 0 {
			d = Neg(d)
		}
		if d.op == "+" && d.n.Sign() == 0 && len(d.args) == 2 && d.coef[0].Cmp(big.NewInt(1)) == 0 && d.coef[1].Cmp(big.NewInt(-1)) == 0 {
			return mk("=", "", SBool, []*Term{d.args[0], d.args[1]}, nil, nil)
		}
		if d.op == "+" && len(d.args) == 1 {
			c := new(big.Int).Neg(d.n)
			q, r := new(big.Int).QuoRem(c, d.coef[0], new(big.Int))
			if r.Sign() != 0 {
				return False
			}
			return mk("=", "", SBool, []*Term{d.args[0], IntB(q)}, nil, nil)
		}
		return mk("=", "", SBool, []*Term{d, Int(0)}, nil, nil)
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case SVal:
		if a.op == "app" && b.op == "app" && strings.HasPrefix(a.name, "v!") && strings.HasPrefix(b.name, "v!") {
			if a.name != b.name {
				return False
			}
			cs := []*Term{}
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if distinctNames[a.name] && distinctNames[b.name] && a.op == "app" && b.op == "app" && len(a.args) == 0 && len(b.args) == 0 {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, []*Term{a, b}, nil, nil)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		switch {
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	return mk("ite", "", a.sort, []*Term{c, a, b}, nil, nil)
}

// ---- arrays

func elemSort(arr string) string {
	if strings.HasPrefix(arr, "(Array Int ") {
		return arr[len("(Array Int ") : len(arr)-1]
	}
	panic("not an array sort: " + arr)
}

func Select(a, i *Term) *Term {
	for a.op == "store" {
		d := Sub(a.args[1], i)
		if d.isInt() {
			if d.n.Sign() == 0 {
				return a.args[2]
			}
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "app" && a.name == "constarr" {
		return a.args[0]
	}
	if a.op == "app" && a.name == "table" && i.isInt() {
		if i.n.IsInt64() && i.n.Int64() >= 0 && int(i.n.Int64()) < len(tables[a.n.Int64()]) {
			return IntB(tables[a.n.Int64()][i.n.Int64()])
		}
	}
	if a.op == "ite" {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	t := mk("select", "", elemSort(a.sort), []*Term{a, i}, nil, nil)
	if a.elo != nil {
		t.lo, t.hi = a.elo, a.ehi
	}
	return t
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	t := mk("store", "", a.sort, []*Term{a, i, v}, nil, nil)
	t.elo, t.ehi = a.elo, a.ehi
	return t
}

// tables are constant arrays read from package initialisers.
var tables [][]*big.Int

func Table(vals []*big.Int) *Term {
	for i, tb := range tables {
		if len(tb) == len(vals) {
			same := true
			for j := range tb {
				if tb[j].Cmp(vals[j]) != 0 {
					same = false
					break
				}
			}
			if same {
				return mk("app", "table", SArrI, nil, big.NewInt(int64(i)), nil)
			}
		}
	}
	tables = append(tables, vals)
	t := mk("app", "table", SArrI, nil, big.NewInt(int64(len(tables)-1)), nil)
	mn, mx := vals[0], vals[0]
	for _, v := range vals {
		if v.Cmp(mn) < 0 {
			mn = v
		}
		if v.Cmp(mx) > 0 {
			mx = v
		}
	}
	t.elo, t.ehi = mn, mx
	return t
}

func ConstArr(v *Term) *Term {
	return mk("app", "constarr", "(Array Int "+v.sort+")", []*Term{v}, nil, nil)
}

// ---- applications and sequences

func App(name, s string, args ...*Term) *Term {
	return mk("app", name, s, args, nil, nil)
}

func SeqEmpty(s string) *Term { return mk("app", "seq.empty", s, nil, nil, nil) }
func SeqUnit(v *Term) *Term   { return App("seq.unit", "(Seq "+v.sort+")", v) }
func SeqConcat(s string, ts ...*Term) *Term {
	for i, t := range ts {
		if t.op == "ite" && len(ts) > 1 {
			a := append([]*Term{}, ts...)
			b := append([]*Term{}, ts...)
			a[i], b[i] = t.args[1], t.args[2]
			return Ite(t.args[0], SeqConcat(s, a...), SeqConcat(s, b...))
		}
	}
	var out []*Term
	for _, t := range ts {
		if t.op == "app" && t.name == "seq.empty" {
			continue
		}
		if t.op == "app" && t.name == "seq.++" {
			out = append(out, t.args...)
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return SeqEmpty(s)
	case 1:
		return out[0]
	}
	return App("seq.++", s, out...)
}

// SubSeq is the sequence of the elements [i,j) of array a.
func SubSeq(a, i, j *Term) *Term {
	es := "(Seq " + elemSort(a.sort) + ")"
	d := Sub(j, i)
	if d.isInt() && d.n.IsInt64() {
		n := d.n.Int64()
		if n <= 0 {
			return SeqEmpty(es)
		}
		if n <= 12 {
			var ts []*Term
			for k := int64(0); k < n; k++ {
				ts = append(ts, SeqUnit(Select(a, Add(i, Int(k)))))
			}
			return SeqConcat(es, ts...)
		}
	}
	return App("sub", es, a, i, j)
}

func StrSeq(s string) *Term {
	var ts []*Term
	for i := 0; i < len(s); i++ {
		ts = append(ts, SeqUnit(Int(int64(s[i]))))
	}
	return SeqConcat(SSeqI, ts...)
}

// ---- substitution

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "+":
		r := IntB(t.n)
		for i, a := range args {
			r = addScaled(r, a, t.coef[i])
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "mod":
		return EMod(args[0], args[1].n)
	case "div":
		return EDiv(args[0], args[1].n)
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "<=0":
		return le0(args[0])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "app":
		if t.name == "sub" {
			return SubSeq(args[0], args[1], args[2])
		}
		if t.name == "seq.++" {
			return SeqConcat(t.sort, args...)
		}
		if sf := specFuncs[t.name]; sf != nil {
			return sf.apply(args)
		}
		r := mk("app", t.name, t.sort, args, t.n, nil)
		r.lo, r.hi, r.elo, r.ehi = t.lo, t.hi, t.elo, t.ehi
		return r
	}
	panic("rebuild " + t.op)
}

// ---- printing (debugging)

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "int":
		return t.n.String()
	case "true", "false":
		return t.op
	case "var":
		return t.name
	case "+":
		var p []string
		for i, a := range t.args {
			if t.coef[i].Cmp(big.NewInt(1)) == 0 {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, t.coef[i].String()+"*"+a.str(d+1))
			}
		}
		if t.n.Sign() != 0 {
			p = append(p, t.n.String())
		}
		return "(" + strings.Join(p, "+") + ")"
	}
	nm := t.op
	if t.op == "app" {
		nm = t.name
		if t.n != nil {
			nm += t.n.String()
		}
	}
	if len(t.args) == 0 {
		return nm
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d+1))
	}
	return "(" + nm + " " + strings.Join(p, " ") + ")"
}
