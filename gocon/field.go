package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldFuncs finds every function that is ever stored in the field "Struct.field",
// looking through conversions, branches and functions that return a function. Stores in
// code that is unreachable on this platform (a branch on a constant) do not count.
func fieldFuncs(field string) (out []*ssa.Function, why []string) {
	sn, fn := field[:strings.IndexByte(field, '.')], field[strings.IndexByte(field, '.')+1:]
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	var resolve func(v ssa.Value, depth int)
	resolve = func(v ssa.Value, depth int) {
		if depth > 8 {
			why = append(why, "the value stored is not resolved")
			return
		}
		switch v := v.(type) {
		case *ssa.Function:
			add(v)
			return
		case *ssa.MakeClosure:
			add(v.Fn.(*ssa.Function))
			return
		case *ssa.ChangeType:
			resolve(v.X, depth+1)
			return
		case *ssa.Phi:
			for _, e := range v.Edges {
				resolve(e, depth+1)
			}
			return
		case *ssa.UnOp: // a local variable
			if al, ok := v.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				n := 0
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						resolve(s.Val, depth+1)
						n++
					}
				}
				if n > 0 {
					return
				}
			}
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && f.Blocks != nil && f.Signature.Results().Len() == 1 {
				live := liveBlocks(f)
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && live[b] {
						resolve(r.Results[0], depth+1)
					}
				}
				return
			}
		case *ssa.Const: // nil
			return
		}
		why = append(why, "the value stored is not resolved: "+v.String())
	}
	var all []*ssa.Function
	for _, fs := range funcsBy {
		all = append(all, fs...)
	}
	for _, f := range all {
		live := liveBlocks(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if !ok || st.Field(fa.Field).Name() != fn {
					continue
				}
				if n, ok := derefNamed(fa.X.Type()); !ok || n.Obj().Name() != sn {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							if live[r.Block()] {
								resolve(r.Val, 0)
							}
							continue
						}
						why = append(why, "the address of the field is stored")
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						why = append(why, "the address of the field is used")
					}
				}
			}
		}
	}
	if len(out) == 0 {
		why = append(why, "no function is assigned")
	}
	return
}

// liveBlocks are the blocks reachable when branches on constants are decided.
func liveBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	if len(f.Blocks) == 0 {
		return live
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if live[b] {
			continue
		}
		live[b] = true
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := i.Cond.(*ssa.Const); ok && c.Value != nil {
				k := 1
				if constant.BoolVal(c.Value) {
					k = 0
				}
				work = append(work, b.Succs[k])
				continue
			}
		}
		work = append(work, b.Succs...)
	}
	return live
}
