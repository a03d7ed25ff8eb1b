# slices of scalars: one loop each
w('''fn ns(TY arr, i int, e int) int = ite(i >= e, e, ite(TY[i] == TokenTypeObject || TY[i] == TokenTypeArray, i, ns(TY, i+1, e)))
lemma NSGE(TY arr, i int, e int) inductup i to e; trigger ns(TY, i, e) : imp(i <= e, i <= ns(TY, i, e) && ns(TY, i, e) <= e)''')
PRE=[]
def slc(ft,leaf,asort,zero,ok,val,err,acc):
    """ok/val/err: expressions over TY IX EN A SO k for a non-null element"""
    n=ft
    sig='TY arr, IX arr, EN arr, A arr, SO int'
    ar='TY, IX, EN, A, SO'
    PRE.append(f'fn ok{n}({sig}, k int) bool = TY[k] == TokenTypeNull || ({ok})')
    PRE.append(f'fn bad{n}({sig}, k int, e int) int = ite(k >= e, e, ite(ok{n}({ar}, k), bad{n}({ar}, k+1, e), k))')
    PRE.append(f'fn fill{n}(D {asort}, {sig}, t int, k int) {asort} = ite(k <= 0, D, store(fill{n}(D, {ar}, t, k-1), k-1, ite(TY[t+k-1] == TokenTypeNull, {zero[1]}, {val.replace("[k]","[t+k-1]")})))')
    T4='farr(tokens,"Type"), farr(tokens,"Index"), farr(tokens,"End"), A, SO'
    g=f'T == TokenTypeArray && FT == ExpectTypeSlice{n}'
    w(f'let bad{n}v = bad{n}({T4}, ti+1, EN)')
    w(f'cand(D content, k int) imp({g}, D == fill{n}(D0, {T4}, ti+1, k+1))')
    w(f'cand(D content, k int) imp({g}, D == fill{n}(D0, {T4}, ti+1, k))')
    w(f'cand(k int) imp({g}, bad{n}({T4}, ti+2+k, EN) == bad{n}v)')
    w(f'cand(k int) imp({g}, bad{n}({T4}, ti+1+k, EN) == bad{n}v)')
    GATE.append(g)
    pr='C05 C10 '+acc
    a('Slice'+n,'EL < 1','C05','q := fresh(); putslice(p, q, 0, 0); to(ON_VAL_END, ti+2, si)')
    ev=f'fail(tokens[bad{n}v].Index, {err.replace("[k]",f"[bad{n}v]")})'
    ev=ev.replace('TY[','farr(tokens,"Type")[').replace('IX[','farr(tokens,"Index")[').replace('EN[','farr(tokens,"End")[')
    a('Slice'+n,f'bad{n}v < EN',pr+' C03',ev)
    fin='to(ON_VAL_END, EN+1, si)'
    a('Slice'+n,'hc < EL',pr,f'q := fresh(); holds(q, "{leaf}", fill{n}(zeros("{zero[0]}"), {T4}, ti+1, EN-ti-1)); putslice(p, q, EL, EL); {fin}')
    a('Slice'+n,'',pr,f'put(p+8, "uintptr", EL); setcont(hp, "{leaf}", fill{n}(cont(hp, "{leaf}", "{asort}"), {T4}, ti+1, EN-ti-1)); {fin}')
GATE=[]
Iv='ival(A, SO+IX[k], SO+EN[k])'
I_='TY[k] == TokenTypeInteger'
for nn,wd in (('',64),('8',8),('16',16),('32',32),('64',64)):
    mx,sm=W[wd]
    slc('Int'+nn,'int'+nn,'arr',('int','0'),f'{I_} && {Iv} <= {sm} && {Iv} >= -{sm+1}',Iv,f'ite({I_}, OVF, BAD)','C01')
    slc('Uint'+nn,'uint'+nn,'arr',('int','0'),f'{I_} && A[SO+IX[k]] != 45 && {Iv} <= {mx}',Iv,f'ite({I_} && A[SO+IX[k]] != 45, OVF, BAD)','C01')
slc('Bool','bool','arrb',('bool','false'),'TY[k] == TokenTypeTrue || TY[k] == TokenTypeFalse','TY[k] == TokenTypeTrue','BAD','C06')
slc('String','string#str','arrs',('seq','eps'),'TY[k] == TokenTypeString','un(A, SO+IX[k]+1, SO+EN[k]-1)','BAD','C02 C13')
for b in ('32','64'):
    q='sub(A, SO+IX[k], SO+EN[k])'
    q='sseq(A, SO+IX[k], SO+EN[k])'
    fe=f'app("pferr", "val", {q}, {b})'
    fv=f'app("pf", "val", {q}, {b})'
    if b=='32': fv=f'app("f64to32", "val", {fv})'
    slc('Float'+b,'float'+b,'arrv',('float','app("v!f0","val")'),f'(TY[k] == TokenTypeInteger || TY[k] == TokenTypeNumber) && {fe} == nilv',fv,f'ite(TY[k] == TokenTypeInteger || TY[k] == TokenTypeNumber, {fe}, BAD)','C09')
w('let SCALARS = FT == ExpectTypeSliceBool || FT == ExpectTypeSliceString || FT == ExpectTypeSliceFloat32 || FT == ExpectTypeSliceFloat64 || '+' || '.join(f'FT == ExpectTypeSlice{x}{n}' for x in ('Int','Uint') for n in ('','8','16','32','64')))
w('cand(k int) imp(T == TokenTypeArray && SCALARS, ns(farr(tokens,"Type"), ti+1+k, EN) == ns(farr(tokens,"Type"), ti+1, EN))')
w('cand(k int) imp(T == TokenTypeArray && SCALARS, ns(farr(tokens,"Type"), ti+2+k, EN) == ns(farr(tokens,"Type"), ti+1, EN))')
w('fact step: imp(START == "MAIN" && ti < NTOK && T == TokenTypeArray, nsok(ns(farr(tokens,"Type"), ti+1, EN), ti, EN, EL))')
PRE.append('fn nsok(n int, ti int, e int, l int) bool = n-ti-1 <= l && imp(n < e, n-ti-1 < l) && imp(n == e, n-ti-1 == l)')
i=o.index(next(x for x in o if x.startswith('func (*Decoder).Decode$2')or 'func (*Decoder).Decode$2' in x))
j=o[i].index('func Decoder.parseInt')
o[i]=o[i][:j]+'\n'.join(PRE)+'\n'+o[i][j:]
w('cand(k int) imp(T == TokenTypeArray && SCALARS, ti+2+k <= EN)')
w('cand(k int) imp(T == TokenTypeArray && SCALARS, ti+1+k <= EN)')
# []struct{}
w(f'cand(k int) imp(T == TokenTypeArray && FT == ExpectTypeSliceEmptyStruct, {SES.replace("ti+1, EN","k, EN")} == sbad)')
