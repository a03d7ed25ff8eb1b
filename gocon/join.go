package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Join cuts: when many paths of the root function reach the same block, they
// are merged into one state: components on which they differ become fresh
// variables, constrained by the facts common to all of them and by the
// contract's jcand templates that every incoming path proves.

// joinBlocks lists the blocks of fn (outside loops) where paths are merged.
func joinBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	loops := loopsOf(fn)
	in := map[*ssa.BasicBlock]bool{}
	for _, l := range loops {
		for b := range l.body {
			in[b] = true
		}
	}
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if in[b] || len(b.Preds) < 3 || len(b.Succs) == 0 {
			continue
		}
		out[b] = true
	}
	return out
}

func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
		post = append(post, b)
	}
	walk(fn.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - i
	}
	return m
}

// merge joins the states that reached block b.
func (x *Exec) merge(ss []*State, b *ssa.BasicBlock) *State {
	if len(ss) == 1 {
		s := ss[0].clone()
		s.obs = nil
		return s
	}
	loopN++
	id := loopN
	m := newState()
	m.trace, m.rawEra = ss[0].trace, ss[0].rawEra
	for _, s := range ss {
		if s.trace != ss[0].trace || len(s.raw) != len(ss[0].raw) || len(s.acts) != 0 || len(s.frames) != 1 {
			unsupported("paths joining at %s differ in effects", b)
		}
		for i := range s.raw {
			if s.raw[i] != ss[0].raw[i] {
				unsupported("paths joining at %s differ in memory writes", b)
			}
		}
		if s.nfresh > m.nfresh {
			m.nfresh = s.nfresh
		}
	}
	m.raw = ss[0].raw
	f0 := ss[0].frames[0]
	nf := &Frame{fn: f0.fn, locals: map[ssa.Value]Value{}, blk: f0.blk, prev: f0.prev, idx: f0.idx, call: f0.call, defers: f0.defers}
	m.frames = []*Frame{nf}
	fresh := map[*Term][]*Term{} // variable -> its value in each state
	var order []*Term
	n := 0
	mergeVal := func(what string, vs []Value) (res Value, ok bool) {
		same := true
		for _, v := range vs[1:] {
			if v != vs[0] {
				same = false
			}
		}
		if same {
			return vs[0], true
		}
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); is {
					res, ok = nil, false
					return
				}
				panic(r)
			}
		}()
		ms := make([]map[string]*Term, len(vs))
		for i, v := range vs {
			c, okc := comps(v)
			if !okc || len(c) == 0 || fmt.Sprintf("%T", v) != fmt.Sprintf("%T", vs[0]) {
				return nil, false
			}
			ms[i] = c
			if i > 0 && len(c) != len(ms[0]) {
				return nil, false
			}
		}
		res = vs[0]
		var ks []string
		for k := range ms[0] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			diff := false
			for i := range ms {
				t := ms[i][k]
				if t == nil || t.sort != ms[0][k].sort {
					return nil, false
				}
				if t != ms[0][k] {
					diff = true
				}
			}
			if !diff {
				continue
			}
			if strings.HasSuffix(k, "#h") || strings.HasSuffix(k, "#eh") || strings.HasSuffix(k, "#m") {
				return nil, false
			}
			n++
			v := Var(fmt.Sprintf("J%d!%d!%s%s", id, n, what, k), ms[0][k].sort)
			if v.sort == SInt {
				switch {
				case strings.HasSuffix(k, "#len"), strings.HasSuffix(k, "#cap"), strings.HasSuffix(k, "#off"):
					v.lo, v.hi = new(big.Int), maxLen
				}
			}
			var ts []*Term
			for i := range ms {
				ts = append(ts, ms[i][k])
			}
			fresh[v] = ts
			order = append(order, v)
			res = setComp(res, k, v)
		}
		return res, true
	}
	var names []ssa.Value
	for v := range f0.locals {
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, v := range names {
		var vs []Value
		for _, s := range ss {
			if w, ok := s.frames[0].locals[v]; ok {
				vs = append(vs, w)
			}
		}
		if len(vs) != len(ss) {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok && !in.Block().Dominates(b) {
			continue // dead here
		}
		if r, ok := mergeVal(v.Name(), vs); ok {
			if t, isT := r.(*Term); isT && fresh[t] != nil && t.sort == SInt {
				t.lo, t.hi = typeRange(v.Type())
			}
			nf.locals[v] = r
		}
	}
	var cells []*Cell
	for c := range ss[0].cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		var vs []Value
		for _, s := range ss {
			if w, ok := s.cells[c]; ok {
				vs = append(vs, w)
			}
		}
		if len(vs) != len(ss) {
			continue
		}
		r, ok := mergeVal(c.name, vs)
		if !ok {
			unsupported("paths joining at %s disagree on %s", b, c.name)
		}
		if t, isT := r.(*Term); isT && fresh[t] != nil && t.sort == SInt {
			t.lo, t.hi = typeRange(c.typ)
		}
		m.cells[c] = r
	}
	for k, t := range ss[0].cont {
		for _, s := range ss[1:] {
			if o, ok := s.cont[k]; ok && o != t {
				unsupported("paths joining at %s differ in memory content", b)
			}
		}
		m.cont[k] = t
	}
	for _, s := range ss[1:] {
		for k, t := range s.cont {
			m.cont[k] = t
			if s0, ok := ss[0].cont[k]; !ok || s0 != t {
				for _, s2 := range ss {
					if o, ok := s2.cont[k]; ok && o != t {
						unsupported("paths joining at %s differ in memory content", b)
					}
				}
			}
		}
	}
	for _, t := range ss[0].pc {
		all := true
		for _, s := range ss[1:] {
			found := false
			for _, u := range s.pc {
				if u == t {
					found = true
					break
				}
			}
			if !found {
				all = false
				break
			}
		}
		if all {
			m.assume(t)
		}
	}
	// candidates
	var cands []*invCand
	seen := map[*Term]bool{}
	add := func(t *Term, src string) {
		if t != True && t != False && !seen[t] {
			seen[t] = true
			cands = append(cands, &invCand{t: t, src: src})
		}
	}
	var ints, slices []roleVar
	var collect func(v Value)
	collect = func(v Value) {
		switch v := v.(type) {
		case *Term:
			if fresh[v] != nil && v.sort == SInt {
				ints = append(ints, roleVar{v: v, v0: v, mod: true})
			}
		case *Slice:
			if fresh[v.off] != nil || fresh[v.len] != nil {
				slices = append(slices, roleVar{v: v, v0: v, mod: true})
				if !v.str {
					add(Le(v.len, v.cap), "len <= cap")
				}
			}
		}
	}
	for _, v := range names {
		if w, ok := nf.locals[v]; ok {
			collect(w)
		}
	}
	for _, c := range cells {
		collect(m.cells[c])
	}
	for _, c := range x.root.jcands {
		x.bindCand(c, 0, map[string]Value{}, m, x.entry, ints, slices, add)
	}
	for i, s := range ss {
		sub := map[*Term]*Term{}
		for _, v := range order {
			sub[v] = fresh[v][i]
		}
		cands = x.filterAll([]*State{s}, cands, []map[*Term]*Term{sub})
	}
	for _, c := range cands {
		m.assume(c.t)
	}
	x.houdini += len(cands) * len(ss)
	return m
}
