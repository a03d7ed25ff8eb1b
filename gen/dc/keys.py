w('''let KEYQ = ite(options.DisableFieldNameUnescaping, seq(s[IX+1:EN-1]), STR)
let FLD = F[si].Fields
let FO = off(FLD)
let FE = endof(FLD)
let FIA = farr(FLD, "FrameIndex")
let XI = fx(farr(FLD,"Name#h"), farr(FLD,"Name#off"), farr(FLD,"Name#len"), FO, FE, KEYQ)
let YI = ff(farr(FLD,"Name#h"), farr(FLD,"Name#off"), farr(FLD,"Name#len"), FO, FE, KEYQ)
let NX = nx(farr(tokens,"Type"), farr(tokens,"End"), ti+1)
let pm = mem(p, "ptr")
let KT = F[si+1].Type
hold SCAN_KEYVALS: 0 <= ti && ti < NTOK && T == TokenTypeKey && 0 <= si && si < len(F) && (FT == ExpectTypeStruct || FT == ExpectTypeStructRecur)
fact token: imp(tokens[IDX].Type == TokenTypeKey, IDX + 1 < NTOK && nx(farr(tokens,"Type"), farr(tokens,"End"), IDX+1) < NTOK)
fact step: imp(START == "SCAN_KEYVALS", imp(XI < FE, FIA[XI] < len(F)) && imp(YI < FE, FIA[YI] < len(F)))
cand(f fieldStackFrame!) imp(T == TokenTypeKey, fx(farr(f,"Name#h"), farr(f,"Name#off"), farr(f,"Name#len"), off(f), FE, KEYQ) == XI)
cand(f fieldStackFrame, k int) imp(T == TokenTypeKey, fx(farr(f,"Name#h"), farr(f,"Name#off"), farr(f,"Name#len"), off(f)+k, FE, KEYQ) == XI)
cand(f fieldStackFrame, k int) imp(T == TokenTypeKey, fx(farr(f,"Name#h"), farr(f,"Name#off"), farr(f,"Name#len"), off(f)+k+1, FE, KEYQ) == XI)
cand(f fieldStackFrame, k int) imp(T == TokenTypeKey, k+1 <= len(f))
''')
for x in ('Struct','StructRecur'):
    on('MAIN',f'T == TokenTypeKey && FT == ExpectType{x}','C04','to(SCAN_KEYVALS, ti, si)')
K='SCAN_KEYVALS'
on(K,'XI < FE','C04','to(MAIN, ti+1, FIA[XI])')
on(K,'!options.DisableCaseInsensitiveMatching && YI < FE','C04','to(MAIN, ti+1, FIA[YI])')
on(K,'options.DisallowUnknownFields','C04','fail(IX, UNK)')
on(K,'tokens[NX].Type == TokenTypeKey','C04','to(SCAN_KEYVALS, NX, si)')
on(K,'true','C04','to(MAIN, NX, si)')
for ft in ('Map','MapRecur'):
    pr='C07'+(' C16' if ft=='MapRecur' else '')
    fin='ev("typedmemclr", "", F[si].MapValueType, q); '
    if ft=='Map': fin+='set("Dest", si+2, q); to(MAIN, ti+1, si+2)'
    else: fin+='r := RF; set("Offset", r, 0); set("Dest", r, q); to(MAIN, ti+1, r)'
    g=f'T == TokenTypeKey && FT == ExpectType{ft} && '
    on('MAIN',g+'KT == ExpectTypeTextUnmarshaler',pr+' C18 C02',f'v := ev("reflect.New", "val", F[si+1].RType); e := ev("{TU}", "val", pure("Value.Interface", "val", v), STR); check(e == nilv, IX, e); q := ev("mapassign", "int", F[si].Typ, pm, pure("Value.UnsafePointer", "int", v)); {fin}')
    on('MAIN',g+'(KT == ExpectTypeStr || KT == ExpectTypeNumber) && F[si].MapCanUseAssignFaststr',pr+' C02 C13',f'q := ev("mapassign_faststr", "int", F[si].Typ, pm, STR); {fin}')
    on('MAIN',g+'(KT == ExpectTypeStr || KT == ExpectTypeNumber)',pr+' C02 C13',f'q := ev("mapassign", "int", F[si].Typ, pm, STR); {fin}')
    for n,wd in (('',64),('8',8),('16',16),('32',32),('64',64)):
        for sg in ('Int','Uint'):
            gg=g+f'KT == ExpectType{sg}{n}'
            q=pr+' C01 C03'
            on('MAIN',gg+' && numEnd(A, tva, tvb) != 2*tvb',q,'fail(IX, BAD)')
            if sg=='Uint':
                on('MAIN',gg+f' && (A[tva] == 45 || tval > {W[wd][0]})',q,'fail(IX, BAD)')
            else:
                on('MAIN',gg+f' && (tval > {W[wd][1]} || tval < -{W[wd][1]+1})',q,'fail(IX, BAD)')
            on('MAIN',gg,q,f'q := ev("mapassign", "int", F[si].Typ, pm, tval); {fin}')
w('fact step: imp(START == "MAIN" && ti < NTOK && T == TokenTypeKey && (FT == ExpectTypeMap || FT == ExpectTypeMapRecur), KT == ExpectTypeTextUnmarshaler || KT == ExpectTypeStr || KT == ExpectTypeNumber || '+' || '.join(f'KT == ExpectType{a}{n}' for a in ('Int','Uint') for n in ('','8','16','32','64'))+')')
for ft in ('Struct','StructRecur'):
    w(f'cand(D content, k int) imp(T == TokenTypeObject && FT == ExpectType{ft}, setd(D, farr(FLD, "FrameIndex"), off(FLD), k+1, len(FLD), old(p)) == setd(D0, farr(FLD, "FrameIndex"), off(FLD), 0, len(FLD), old(p)))')
    w(f'cand(D content, k int) imp(T == TokenTypeObject && FT == ExpectType{ft}, setd(D, farr(FLD, "FrameIndex"), off(FLD), k, len(FLD), old(p)) == setd(D0, farr(FLD, "FrameIndex"), off(FLD), 0, len(FLD), old(p)))')
w('let RFLD = F[RF].Fields')
for k in ('k+1','k'):
    w(f'cand(D content, k int) imp(T == TokenTypeObject && FT == ExpectTypePtrRecur, setd(D, farr(RFLD, "FrameIndex"), off(RFLD), {k}, len(RFLD), old(F[RF].Dest)) == setd(D0, farr(RFLD, "FrameIndex"), off(RFLD), 0, len(RFLD), old(F[RF].Dest)))')
w('cand(k int) imp(T == TokenTypeObject && FT == ExpectTypePtrRecur, k+1 <= len(RFLD))')
w('cand(k int) imp(T == TokenTypeObject, k+1 <= len(FLD))')
