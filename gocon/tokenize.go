package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Decode calls Tokenizer.Tokenize with its callback. The callback's own contract is
// proved separately; here the call gives everything the callback may write - the contents
// of the frames, the captured variables and the memory of the destination - arbitrary
// values, and returns an arbitrary error.
func init() {
	externs["(*jscan.Tokenizer).Tokenize"] = func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
		cb, ok := args[len(args)-1].(*Closure)
		if !ok {
			unsupported("Tokenize with an unknown callback")
		}
		for i, fv := range cb.fn.FreeVars {
			p, ok := cb.binds[i].(*PtrV)
			if !ok || len(p.path) > 0 {
				unsupported("captured variable %s of unknown place", fv.Name())
			}
			et := fv.Type().(*types.Pointer).Elem()
			role := captured(cb.fn)[fv]
			switch v := st.cells[p.cell].(type) {
			case *PtrV:
				sv, ok := st.cells[v.cell].(*StructV)
				if role == "options" {
					break
				}
				if !ok || role != "d" {
					unsupported("captured pointer %s", fv.Name())
				}
				sv = &StructV{typ: sv.typ, f: append([]Value{}, sv.f...)}
				for i, f := range sv.f {
					if sl, ok := f.(*Slice); ok {
						sv.f[i] = &Slice{h: App("tokenize.contents", SInt, sl.h), off: sl.off, len: sl.len, cap: sl.cap, elem: sl.elem}
					}
				}
				st.cells[v.cell] = sv
			case *Slice:
				if role != "s" {
					unsupported("captured slice %s", fv.Name())
				}
			default:
				st.cells[p.cell] = tokSym(et, "callback."+role)
			}
		}
		if len(st.raw) > 0 {
			unsupported("stores before Tokenize")
		}
		x.event(st, "Tokenize")
		r := tokSym(in.Type(), "Tokenize").(*StructV)
		for i := range r.f {
			if r.typ.Field(i).Name() == "Src" {
				r.f[i] = args[1] // the error refers to the source
			}
		}
		return r
	}
	externs["(jscan.Error).IsErr"] = func(x *Exec, st *State, fr *Frame, in *ssa.Call, args []Value) Value {
		e := args[0].(*StructV)
		for i := 0; i < e.typ.NumFields(); i++ {
			if e.typ.Field(i).Name() == "Code" {
				return Not(Eq(toTerm(e.f[i]), Int(0)))
			}
		}
		unsupported("jscan.Error without Code")
		return nil
	}
}

func tokSym(t types.Type, name string) Value {
	return buildVal(t, "", func(p, so string, lt types.Type) *Term {
		return App(name+p, so)
	})
}
