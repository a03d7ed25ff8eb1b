package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Query asks whether goal follows from hyps.
type Query struct {
	hyps []*Term
	goal *Term
	fuel int
	// result
	verdict string // "unsat" (proved), "sat", "unknown"
	model   string
	by      string
	text    string
	textE   string
	hasSeq  bool
	quick   bool
}

var timeQueries = os.Getenv("GOCON_TIMEQ") != ""

// quickMS is the time a candidate invariant gets per back end, 0 for as much as an obligation.
var quickMS = 0

func (q *Query) ms() int {
	if q.quick && quickMS > 0 {
		return quickMS
	}
	return min(timeoutMS, 2500)
}

var (
	solverNS    int64
	solverCalls int64
	backEnds    = map[string]int{}
	backMu      sync.Mutex
	queryCache  = map[[32]byte]string{}
	slots       = make(chan struct{}, envInt("GOCON_JOBS", 8))
	timeoutMS   = envInt("GOCON_TIMEOUT_MS", 30000)
	defaultFuel = 3
)

func envInt(k string, d int) int {
	if v := os.Getenv(k); v != "" {
		n := 0
		fmt.Sscan(v, &n)
		if n > 0 {
			return n
		}
	}
	return d
}

// propagate substitutes variables that the hypotheses equate with constants.
func propagate(hyps []*Term, goal *Term) ([]*Term, *Term) {
	for round := 0; round < 4; round++ {
		m := map[*Term]*Term{}
		for _, h := range hyps {
			if h.op == "=" && h.args[0].sort == SInt {
				a, b := h.args[0], h.args[1]
				if b.isInt() && a.op != "+" && a.op != "*" && a.op != "mod" && a.op != "div" {
					m[a] = b
				}
			}
		}
		if len(m) == 0 {
			break
		}
		memo := map[*Term]*Term{}
		ch := false
		out := make([]*Term, 0, len(hyps)+len(m))
		for _, h := range hyps {
			if h.op == "=" && h.args[0].sort == SInt && m[h.args[0]] != nil && h.args[1].isInt() {
				// keep the defining equation, but simplify its inside
				if len(h.args[0].args) > 0 {
					na := make([]*Term, len(h.args[0].args))
					for i, x := range h.args[0].args {
						na[i] = subst(x, m, memo)
					}
					l := rebuild(h.args[0], na)
					nh := Eq(l, h.args[1])
					if nh != h {
						ch = true
					}
					out = append(out, nh)
				} else {
					out = append(out, h)
				}
				continue
			}
			nh := subst(h, m, memo)
			if nh != h {
				ch = true
			}
			if nh == True {
				continue
			}
			out = append(out, nh)
		}
		g := subst(goal, m, memo)
		if g != goal {
			ch = true
		}
		hyps, goal = out, g
		if !ch {
			break
		}
	}
	return hyps, goal
}

// build renders the query as an SMT-LIB script (satisfiable = counterexample).
func (q *Query) build() string {
	hyps, goal := propagate(q.hyps, q.goal)
	if goal == True {
		q.verdict, q.by = "unsat", "simplifier"
		return ""
	}
	for _, h := range hyps {
		if h == False {
			q.verdict, q.by = "unsat", "simplifier"
			return ""
		}
	}
	as := append(append([]*Term{}, hyps...), Not(goal))
	as = instantiate(as, q.fuel)
	q.hasSeq = usesSeq(as)
	if q.hasSeq {
		q.textE = script(as, true)
	}
	return script(as, false)
}

// instantiate adds ground definitional instances of spec functions and lemmas.
func instantiate(as []*Term, fuel int) []*Term {
	if fuel == 0 {
		fuel = defaultFuel
	}
	seen := map[*Term]bool{}
	type item struct {
		t   *Term
		lvl int
	}
	var work []item
	var visit func(t *Term, lvl int)
	visit = func(t *Term, lvl int) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a, lvl)
		}
		if t.op == "app" && (specFuncs[t.name] != nil || lemmaTrig[t.name] != nil || axiomTrig[t.name] != nil) {
			work = append(work, item{t, lvl})
		}
	}
	for _, a := range as {
		visit(a, 0)
	}
	out := as
	added := map[*Term]bool{}
	add := func(t *Term, lvl int) {
		if t == True || added[t] {
			return
		}
		added[t] = true
		out = append(out, t)
		visit(t, lvl)
	}
	apps := map[string][]*Term{}
	type pend struct {
		t   *Term
		lvl int
		l   *Lemma
	}
	var pends []pend
	n := 0
	for (len(work) > 0 || len(pends) > 0) && n < 600 {
		if len(work) == 0 {
			// lemmas, once all applications of this round are known
			ps := pends
			pends = nil
			for _, p := range ps {
				for _, inst := range p.l.instances(p.t, apps) {
					add(inst, p.lvl+1)
				}
			}
			continue
		}
		it := work[0]
		work = work[1:]
		n++
		if it.lvl <= 1 {
			apps[it.t.name] = append(apps[it.t.name], it.t)
		}
		if sf := specFuncs[it.t.name]; sf != nil && !opaqueFns[it.t.name] && it.lvl < fuel+sf.deep && sf.fits(it.t.args) {
			add(Eq(it.t, sf.expand(it.t.args)), it.lvl+1)
		}
		if it.lvl <= 1 && !opaqueFns[it.t.name] {
			for _, l := range lemmaTrig[it.t.name] {
				if l.active {
					pends = append(pends, pend{it.t, it.lvl, l})
				}
			}
		}
		for _, ax := range axiomTrig[it.t.name] {
			add(ax(it.t), it.lvl)
		}
	}
	return out
}

// opaqueFns are not unfolded while the current function is verified.
var opaqueFns map[string]bool

var axiomTrig = map[string][]func(t *Term) *Term{}

// script renders assertions. With euf set, the theory of sequences is
// abstracted: sequences become an uninterpreted sort with a right-nested
// concatenation and ground instances of its unit, associativity and length
// laws (every sequence model is a model of the abstraction, so unsat is sound).
func script(as []*Term, euf bool) string {
	var b strings.Builder
	refs := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range as {
		walk(a)
	}
	b.WriteString("(set-logic ALL)\n(declare-sort Val 0)\n(declare-sort MapT 0)\n(declare-sort Trace 0)\n")
	termStr := termStr
	var concats []string
	catOf := map[string][2]string{}
	if euf {
		b.WriteString("(declare-sort SeqI 0)\n(declare-sort SeqV 0)\n")
		for _, x := range [][2]string{{"I", "Int"}, {"V", "Val"}} {
			fmt.Fprintf(&b, "(declare-const eps%s Seq%s)(declare-fun unit%s (%s) Seq%s)(declare-fun sc%s (Seq%s Seq%s) Seq%s)(declare-fun sl%s (Seq%s) Int)(assert (= (sl%s eps%s) 0))\n",
				x[0], x[0], x[0], x[1], x[0], x[0], x[0], x[0], x[0], x[0], x[0], x[0], x[0])
		}
		old := termStr
		termStr = func(t *Term, pr func(*Term) string) string {
			k := ""
			switch t.sort {
			case SSeqI:
				k = "I"
			case SSeqV:
				k = "V"
			}
			if t.op == "app" {
				switch t.name {
				case "seq.empty":
					return "eps" + k
				case "seq.unit":
					return "(unit" + k + " " + pr(t.args[0]) + ")"
				case "seq.len":
					k = "I"
					if t.args[0].sort == SSeqV {
						k = "V"
					}
					return "(sl" + k + " " + pr(t.args[0]) + ")"
				case "seq.++":
					s := pr(t.args[len(t.args)-1])
					for i := len(t.args) - 2; i >= 0; i-- {
						h := pr(t.args[i])
						r := "(sc" + k + " " + h + " " + s + ")"
						if _, ok := catOf[r]; !ok {
							catOf[r] = [2]string{h, s}
							concats = append(concats, k+r)
						}
						s = r
					}
					return s
				}
			}
			return old(t, pr)
		}
	}
	decl := map[string]bool{}
	var dist = map[string][]string{}
	var rng []string
	names := map[*Term]string{}
	boundStr := func(s string, lo, hi *big.Int) {
		if lo != nil {
			rng = append(rng, fmt.Sprintf("(assert (<= %s %s))", intLit(lo), s))
		}
		if hi != nil {
			rng = append(rng, fmt.Sprintf("(assert (<= %s %s))", s, intLit(hi)))
		}
	}
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if s, ok := names[t]; ok {
			return s
		}
		return termStr(t, pr)
	}
	for _, t := range order {
		switch t.op {
		case "var":
			b.WriteString(fmt.Sprintf("(declare-const %s %s)\n", sym(t.name), t.sort))
			names[t] = sym(t.name)
			boundStr(sym(t.name), t.lo, t.hi)
			continue
		case "app":
			if t.name == "table" {
				nm := fmt.Sprintf("table%d", t.n.Int64())
				b.WriteString(fmt.Sprintf("(declare-const %s (Array Int Int))\n", nm))
				names[t] = nm
				continue
			}
			if !builtinApp(t.name) {
				var as []string
				for _, a := range t.args {
					as = append(as, a.sort)
				}
				d := t.name + "(" + strings.Join(as, " ") + ")" + t.sort
				if !decl[d] {
					decl[d] = true
					b.WriteString(fmt.Sprintf("(declare-fun %s (%s) %s)\n", appSym(t), strings.Join(as, " "), t.sort))
				}
				if len(t.args) == 0 {
					names[t] = appSym(t)
					if distinctNames[t.name] {
						dist[t.sort] = append(dist[t.sort], appSym(t))
					}
					boundStr(names[t], t.lo, t.hi)
					continue
				}
			}
		}
		if len(t.args) > 0 && (refs[t] > 1 || t.op == "select" && isTable(t.args[0]) || t.lo != nil || t.hi != nil) {
			nm := fmt.Sprintf("t!%d", t.id)
			b.WriteString(fmt.Sprintf("(define-fun %s () %s %s)\n", nm, t.sort, termStr(t, pr)))
			names[t] = nm
			if t.op == "select" && isTable(t.args[0]) {
				b.WriteString(fmt.Sprintf("(assert (= %s %s))\n", nm, tableIte(t.args[0], pr(t.args[1]))))
			}
			if t.op == "select" || t.op == "app" {
				boundStr(nm, t.lo, t.hi)
			}
		}
	}
	for _, ns := range dist {
		if len(ns) > 1 {
			sort.Strings(ns)
			b.WriteString("(assert (distinct " + strings.Join(ns, " ") + "))\n")
		}
	}
	b.WriteString(strings.Join(rng, "\n"))
	b.WriteByte('\n')
	for _, a := range as {
		b.WriteString("(assert " + pr(a) + ")\n")
	}
	if euf {
		for i, c := range concats {
			if i > 60 {
				break
			}
			k, c := c[:1], c[1:]
			p := catOf[c]
			fmt.Fprintf(&b, "(assert (=> (= %s eps%s) (= %s %s)))\n", p[0], k, c, p[1])
			fmt.Fprintf(&b, "(assert (= (sl%s %s) (+ (sl%s %s) (sl%s %s))))\n", k, c, k, p[0], k, p[1])
			if strings.HasPrefix(p[0], "(unit") {
				fmt.Fprintf(&b, "(assert (= (sl%s %s) 1))\n", k, p[0])
				continue
			}
			for j, d := range concats {
				if j > 30 {
					break
				}
				q := catOf[d[1:]]
				if d[:1] != k || d[1:] == c {
					continue
				}
				fmt.Fprintf(&b, "(assert (=> (= %s %s) (= %s (sc%s %s (sc%s %s %s)))))\n", p[0], d[1:], c, k, q[0], k, q[1], p[1])
			}
		}
	}
	b.WriteString("(check-sat)\n")
	if euf {
		return strings.NewReplacer("(Seq Int)", "SeqI", "(Seq Val)", "SeqV").Replace(b.String())
	}
	return b.String()
}

func usesSeq(as []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.sort == SSeqI || t.sort == SSeqV {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, a := range as {
		if walk(a) {
			return true
		}
	}
	return false
}

func builtinApp(n string) bool {
	switch n {
	case "seq.empty", "seq.unit", "seq.++", "seq.len", "constarr":
		return true
	}
	return false
}

func sym(n string) string { return "|" + n + "|" }

func appSym(t *Term) string {
	n := t.name
	if t.n != nil {
		n += t.n.String()
	}
	// overloads by argument sorts get different symbols
	var as []string
	for _, a := range t.args {
		s := a.sort
		if s != SInt {
			as = append(as, strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s))
		}
	}
	if len(as) > 0 {
		n += ":" + strings.Join(as, ",")
	}
	return "|" + n + "|"
}

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func termStr(t *Term, pr func(*Term) string) string {
	list := func(op string) string {
		var p []string
		for _, a := range t.args {
			p = append(p, pr(a))
		}
		return "(" + op + " " + strings.Join(p, " ") + ")"
	}
	switch t.op {
	case "int":
		return intLit(t.n)
	case "true", "false":
		return t.op
	case "var":
		return sym(t.name)
	case "+":
		var p []string
		for i, a := range t.args {
			if t.coef[i].Cmp(big.NewInt(1)) == 0 {
				p = append(p, pr(a))
			} else {
				p = append(p, "(* "+intLit(t.coef[i])+" "+pr(a)+")")
			}
		}
		if t.n.Sign() != 0 {
			p = append(p, intLit(t.n))
		}
		if len(p) == 1 {
			return p[0]
		}
		return "(+ " + strings.Join(p, " ") + ")"
	case "<=0":
		return "(<= " + pr(t.args[0]) + " 0)"
	case "app":
		switch t.name {
		case "seq.empty":
			return "(as seq.empty " + t.sort + ")"
		case "constarr":
			return "((as const " + t.sort + ") " + pr(t.args[0]) + ")"
		}
		if len(t.args) == 0 {
			return appSym(t)
		}
		if builtinApp(t.name) {
			return list(t.name)
		}
		return list(appSym(t))
	}
	return list(t.op)
}

type backend struct {
	name string
	args []string
}

var backends = []backend{
	{"z3-new", []string{"-in", "-smt2"}},
	{"cvc5", []string{"--lang=smt2", "--strings-exp", "-"}},
	{"z3", []string{"-in", "-smt2"}},
}

func runBackend(ctx context.Context, be backend, text string, ms int) (string, string) {
	select {
	case slots <- struct{}{}:
	case <-ctx.Done():
		return "unknown", ""
	}
	defer func() { <-slots }()
	if !deadline.IsZero() {
		left := int(time.Until(deadline).Milliseconds())
		if left <= 0 {
			return "unknown", "time limit"
		}
		ms = min(ms, left+100)
	}
	args := append([]string{}, be.args...)
	switch be.name {
	case "cvc5":
		args = append([]string{fmt.Sprintf("--tlimit=%d", ms)}, args...)
	default:
		args = append(args, fmt.Sprintf("-t:%d", ms))
	}
	ctx, cancel := context.WithTimeout(ctx, time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, be.name, args...)
	cmd.Stdin = strings.NewReader(text)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&solverNS, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	s := strings.TrimSpace(ob.String())
	first := strings.SplitN(s, "\n", 2)[0]
	switch first {
	case "unsat", "sat":
		return first, s
	}
	return "unknown", s + eb.String()
}

func solveText(text string, ms int) (verdict, by, out string) {
	if overtime() {
		return "unknown", "", "time limit"
	}
	h := sha256.Sum256([]byte(text))
	backMu.Lock()
	if v, ok := queryCache[h]; ok {
		backMu.Unlock()
		return v, "cache", ""
	}
	backMu.Unlock()
	bes := backends[:2]
	if ms == quickMS {
		bes = bes[:1]
	}
	for _, be := range bes {
		var v string
		v, out = runBackend(context.Background(), be, text, ms)
		if v != "unknown" {
			remember(h, v, be.name)
			return v, be.name, out
		}
	}
	remember(h, "unknown", "")
	return "unknown", "", out
}

func remember(h [32]byte, v, by string) {
	backMu.Lock()
	if by != "" {
		backEnds[by]++
	}
	queryCache[h] = v
	backMu.Unlock()
}

// race decides the query with all encodings and back ends side by side.
func race(texts []string) (verdict, by, out string) {
	h := sha256.Sum256([]byte("race" + strings.Join(texts, "\x00")))
	backMu.Lock()
	v, ok := queryCache[h]
	backMu.Unlock()
	if ok {
		return v, "cache", ""
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ v, by, out string }
	n := 0
	ch := make(chan ans, 8)
	for i, t := range texts {
		if t == "" {
			continue
		}
		for _, be := range backends {
			n++
			go func(abstract bool, t string, be backend) {
				v, out := runBackend(ctx, be, t, timeoutMS)
				if abstract && v == "sat" {
					v = "unknown" // the abstraction may be too weak
				}
				ch <- ans{v, be.name, out}
			}(i == 0, t, be)
		}
	}
	for ; n > 0; n-- {
		a := <-ch
		if a.v != "unknown" {
			remember(h, a.v, a.by)
			return a.v, a.by, a.out
		}
		out = a.out
	}
	remember(h, "unknown", "")
	return "unknown", "", out
}

// overtime reports whether the time limit of the run is used up.
func overtime() bool { return !deadline.IsZero() && time.Now().After(deadline) }

var deadline time.Time

// solveAll decides all queries in parallel.
func solveAll(qs []*Query) {
	var wg sync.WaitGroup
	for _, q := range qs {
		if q.verdict != "" {
			continue
		}
		if q.text == "" {
			leanMu.Lock()
			q.text = q.build()
			leanMu.Unlock()
		}
		if q.verdict != "" {
			backMu.Lock()
			backEnds["simplifier"]++
			backMu.Unlock()
			continue
		}
		wg.Add(1)
		go func(q *Query) {
			defer wg.Done()
			if timeQueries {
				defer func(t time.Time) {
					fmt.Fprintf(os.Stderr, "TQ %v %s %.2f %s\n", q.quick, q.verdict, time.Since(t).Seconds(), q.by)
				}(time.Now())
			}
			if q.textE != "" {
				if q.verdict, q.by, q.model = solveText(q.textE, q.ms()); q.verdict == "unsat" {
					return
				}
				if q.quick {
					return
				}
			}
			if q.verdict, q.by, q.model = solveText(q.text, q.ms()); q.verdict == "unknown" && !q.quick && !overtime() {
				// fewer hypotheses first: those about plain integers and memory alone
				if l := q.lean(); l != "" {
					if v, by, _ := solveText(l, q.ms()); v == "unsat" {
						q.verdict, q.by = v, by
						return
					}
				}
				q.verdict, q.by, q.model = race([]string{q.textE, q.text})
			}
		}(q)
	}
	wg.Wait()
}

// lean is the query with only the hypotheses free of sequences and specification functions.
func (q *Query) lean() string {
	memo := map[*Term]bool{}
	var plain func(t *Term) bool
	plain = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t.sort != SSeqI && t.sort != SSeqV && !(t.op == "app" && (specFuncs[t.name] != nil || axiomTrig[t.name] != nil))
		for _, a := range t.args {
			r = r && plain(a)
		}
		memo[t] = r
		return r
	}
	if !plain(q.goal) {
		return ""
	}
	l := &Query{goal: q.goal, hyps: nil}
	for _, h := range q.hyps {
		if plain(h) {
			l.hyps = append(l.hyps, h)
		}
	}
	leanMu.Lock()
	defer leanMu.Unlock()
	return l.build()
}

var leanMu sync.Mutex

// prove decides whether the goals follow from the hypotheses and returns, per
// goal, whether it was proved. All goals are first tried together.
func prove(hyps []*Term, goals []*Term, fuel int, quick bool) []bool {
	res := make([]bool, len(goals))
	q := &Query{hyps: hyps, goal: And(goals...), fuel: fuel, quick: quick}
	solveAll([]*Query{q})
	if q.verdict == "unsat" {
		for i := range res {
			res[i] = true
		}
		return res
	}
	if len(goals) == 1 {
		return res
	}
	var qs []*Query
	for _, g := range goals {
		qs = append(qs, &Query{hyps: hyps, goal: g, fuel: fuel, quick: quick})
	}
	solveAll(qs)
	for i, q := range qs {
		res[i] = q.verdict == "unsat"
	}
	return res
}

func (sf *SpecFunc) fits(args []*Term) bool {
	if len(args) != len(sf.params) {
		return false
	}
	for i, p := range sf.params {
		if args[i].sort != p.sort {
			return false
		}
	}
	return true
}

func isTable(t *Term) bool { return t.op == "app" && t.name == "table" }

// tableIte is the content of a constant table as a piecewise linear function
// of the index (only in-bounds indices occur: bounds are separate obligations).
func tableIte(t *Term, idx string) string {
	vs := tables[t.n.Int64()]
	type seg struct {
		hi  int // last index
		a   int64
		off *big.Int
	}
	var segs []seg
	for i := 0; i < len(vs); {
		a := int64(0)
		if i+1 < len(vs) {
			d := new(big.Int).Sub(vs[i+1], vs[i])
			if d.IsInt64() && d.Int64() == 1 {
				a = 1
			}
		}
		j := i
		for j+1 < len(vs) && new(big.Int).Sub(vs[j+1], vs[j]).Cmp(big.NewInt(a)) == 0 {
			j++
		}
		segs = append(segs, seg{j, a, new(big.Int).Sub(vs[i], big.NewInt(a*int64(i)))})
		i = j + 1
	}
	var b strings.Builder
	for i, g := range segs {
		e := intLit(g.off)
		if g.a == 1 {
			e = fmt.Sprintf("(+ %s %s)", idx, e)
		}
		if i == len(segs)-1 {
			b.WriteString(e)
		} else {
			fmt.Fprintf(&b, "(ite (<= %s %d) %s ", idx, g.hi, e)
		}
	}
	b.WriteString(strings.Repeat(")", len(segs)-1))
	return b.String()
}
