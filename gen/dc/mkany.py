import os,sys
HERE=os.path.dirname(os.path.abspath(__file__)); OUT=sys.argv[1] if len(sys.argv)>1 else os.path.join(HERE,'..','..','contracts')
P='TY arr, IX arr, EN arr, EL arr, A arr, SO int, L int'
Q='TY, IX, EN, EL, A, SO, L'
P5='TY arr, IX arr, EN arr, A arr, SO int'; Q5='TY, IX, EN, A, SO'
t=f'''// Decoding into interface values.
fn nx(TY arr, EN arr, t int) int = ite((TY[t] == TokenTypeObject || TY[t] == TokenTypeArray) && EN[t] > t, EN[t]+1, t+1)
fn wfs({P}, t int) bool = 0 <= IX[t] && IX[t]+2 <= EN[t] && EN[t] <= L && okesc(A, SO+IX[t]+1, SO+EN[t]-1)
fn wfn({P}, t int) bool = 0 <= IX[t] && IX[t] < EN[t] && EN[t] <= L
fn wfv({P}, t int, n int) bool = 0 <= t && t < n && ite(TY[t] == TokenTypeArray, t < EN[t] && EN[t] < n && wfa({Q}, t+1, EN[t], n) && 0 <= EL[t],
  ite(TY[t] == TokenTypeObject, t < EN[t] && EN[t] < n && wfo({Q}, t+1, EN[t], n) && 0 <= EL[t] && iff(EL[t] == 0, EN[t] == t+1),
  ite(TY[t] == TokenTypeString, wfs({Q}, t), ite(TY[t] == TokenTypeInteger || TY[t] == TokenTypeNumber, wfn({Q}, t), TY[t] == TokenTypeTrue || TY[t] == TokenTypeFalse || TY[t] == TokenTypeNull))))
fn wfa({P}, t int, e int, n int) bool = ite(t >= e, t == e && TY[e] == TokenTypeArrayEnd, TY[t] != TokenTypeArrayEnd && wfv({Q}, t, n) && wfa({Q}, nx(TY, EN, t), e, n))
fn wfo({P}, t int, e int, n int) bool = ite(t >= e, t == e && TY[e] == TokenTypeObjectEnd, TY[t] == TokenTypeKey && wfs({Q}, t) && t+1 < e && wfv({Q}, t+1, n) && wfo({Q}, nx(TY, EN, t+1), e, n))
fn numerr(A arr, i int, e int) val = app("pferr", "val", sseq(A, i, e), 64)
fn anyok({P5}, t int) bool = ite(TY[t] == TokenTypeInteger || TY[t] == TokenTypeNumber, numerr(A, SO+IX[t], SO+EN[t]) == nilv,
  ite(TY[t] == TokenTypeArray, listok({Q5}, t+1, EN[t]), ite(TY[t] == TokenTypeObject, mapok({Q5}, t+1, EN[t]), true)))
fn listok({P5}, t int, e int) bool = ite(t >= e, true, anyok({Q5}, t) && listok({Q5}, nx(TY, EN, t), e))
fn mapok({P5}, t int, e int) bool = ite(t >= e, true, anyok({Q5}, t+1) && mapok({Q5}, nx(TY, EN, t+1), e))
fn anyv({P5}, t int) val = ite(TY[t] == TokenTypeInteger || TY[t] == TokenTypeNumber, app("v!float64", "val", app("pf", "val", sseq(A, SO+IX[t], SO+EN[t]), 64)),
  ite(TY[t] == TokenTypeTrue, app("v!bool", "val", true), ite(TY[t] == TokenTypeFalse, app("v!bool", "val", false), ite(TY[t] == TokenTypeString, app("v!string", "val", un(A, SO+IX[t]+1, SO+EN[t]-1)),
  ite(TY[t] == TokenTypeArray, app("v!list", "val", listv({Q5}, t+1, EN[t])), ite(TY[t] == TokenTypeObject, app("v!map", "val", mapv(emptymap, {Q5}, t+1, EN[t])), nilv))))))
fn listv({P5}, t int, e int) seqv = ite(t >= e, epsv, cat(unit(anyv({Q5}, t)), listv({Q5}, nx(TY, EN, t), e)))
fn mapv(M map, {P5}, t int, e int) map = ite(t >= e, M, mapv(app("putv", "map", M, un(A, SO+IX[t]+1, SO+EN[t]-1), anyv({Q5}, t+1)), {Q5}, nx(TY, EN, t+1), e))

func jscandec.decodeAny(str, tokens) (v, tail, err)
props C06 C02 C13
def T5 = farr(tokens, "Type"), farr(tokens, "Index"), farr(tokens, "End"), arr(str), off(str)
def T7 = farr(tokens, "Type"), farr(tokens, "Index"), farr(tokens, "End"), farr(tokens, "Elements"), arr(str), off(str), len(str)
def TY0 = farr(tokens, "Type")[off(tokens)]
def E0 = farr(tokens, "End")[off(tokens)]
def NN = endof(tokens)
requires wfv(T7, off(tokens), NN)
inv(k Token!) imp(TY0 == TokenTypeArray, off(k) > off(tokens) && wfa(T7, off(k), E0, NN))
inv(k Token!) imp(TY0 == TokenTypeObject, off(k) > off(tokens) && wfo(T7, off(k), E0, NN))
inv(k Token!) imp(TY0 == TokenTypeArray, listok(T5, off(k), E0) == listok(T5, off(tokens)+1, E0))
inv(k Token!) imp(TY0 == TokenTypeObject, mapok(T5, off(k), E0) == mapok(T5, off(tokens)+1, E0))
inv(b any!, k Token!) imp(TY0 == TokenTypeArray, cat(seq(b), listv(T5, off(k), E0)) == listv(T5, off(tokens)+1, E0))
inv(m map, k Token!) imp(TY0 == TokenTypeObject, mapv(mapof(m), T5, off(k), E0) == mapv(emptymap, T5, off(tokens)+1, E0))
opaque okesc un noByte isInt alldig dv ival
opt suffix2 noalias
ensures iff(err == nilv, anyok(T5, off(tokens)))
ensures v == ite(err == nilv, anyv(T5, off(tokens)), nilv)
ensures imp(err == nilv, off(tail) == nx(farr(tokens, "Type"), farr(tokens, "End"), off(tokens)) && endof(tail) == NN)
end
'''
open(os.path.join(OUT,'anyv.con'),'w').write(t)
