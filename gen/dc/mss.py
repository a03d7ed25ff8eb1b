PRE2=[]
PRE2.append('''fn mbad(TY arr, k int, e int) int = ite(k >= e, e, ite(TY[k+1] == TokenTypeString || TY[k+1] == TokenTypeNull, mbad(TY, k+2, e), k))
fn mss(M map, TY arr, IX arr, EN arr, A arr, SO int, k int, e int) map = ite(k >= e, M, mss(app("put", "map", M, un(A, SO+IX[k]+1, SO+EN[k]-1), ite(TY[k+1] == TokenTypeString, un(A, SO+IX[k+1]+1, SO+EN[k+1]-1), eps)), TY, IX, EN, A, SO, k+2, e))''')
T4='farr(tokens,"Type"), farr(tokens,"Index"), farr(tokens,"End"), A, SO'
T7='farr(tokens,"Type"), farr(tokens,"Index"), farr(tokens,"End"), farr(tokens,"Elements"), A, SO, len(s)'
G='T == TokenTypeObject && FT == ExpectTypeMapStringString'
w('let mbadv = mbad(farr(tokens,"Type"), ti+1, EN)')
w(f'cand(M content, k int) imp({G}, mss(M, {T4}, k, EN) == mss(M0, {T4}, ti+1, EN))')
w(f'cand(k int) imp({G}, mbad(farr(tokens,"Type"), k, EN) == mbadv)')
w(f'cand(k int) imp({G}, k <= EN && wfo({T7}, k, EN, NTOK))')
pr='C07 C02 C10 C13'
ob('MapStringString','EL == 0 && hp == 0','C07','q := fresh(); holds(q, "#map", emptymap); put(p, "ptr", q); to(ON_VAL_END, ti+2, si)')
ob('MapStringString','EL == 0','C07','to(ON_VAL_END, ti+2, si)')
ob('MapStringString','mbadv < EN',pr,'fail(tokens[mbadv+1].Index, BAD)')
ob('MapStringString','hp == 0',pr,f'q := fresh(); holds(q, "#map", mss(emptymap, {T4}, ti+1, EN)); put(p, "ptr", q); to(ON_VAL_END, EN+1, si)')
ob('MapStringString','',pr,f'setcont(hp, "#map", mss(cont(hp, "#map", "map"), {T4}, ti+1, EN)); to(ON_VAL_END, EN+1, si)')
i=next(i for i,x in enumerate(o) if 'func (*Decoder).Decode$2' in x)
j=o[i].index('func Decoder.parseInt')
o[i]=o[i][:j]+'\n'.join(PRE2)+'\n'+o[i][j:]
