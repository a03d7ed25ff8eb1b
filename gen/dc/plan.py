# generates contracts/plan.con: the contract of the decode plan builder
import sys, re
SC='Bool 1 Int 2 Int8 3 Int16 4 Int32 5 Int64 6 Uint 7 Uint8 8 Uint16 9 Uint32 10 Uint64 11 Float32 13 Float64 14'.split()
SC=[(SC[i],SC[i+1]) for i in range(0,len(SC),2)]
def chain(pre,l):
    r='0'
    for n,k in reversed(l): r=f'ite(k=={k},{pre}{n},{r})'
    return r
out=[]
w=out.append
w('// Written by gen/dc/plan.py: what appendTypeToStack puts into the plan for a type.')
w('fn KD(x val) int = app("reflect.Type.Kind","int",x)')
w('fn EL(x val) val = app("reflect.Type.Elem","val",x)')
w('fn SZ(x val) int = app("reflect.Type.Size","int",x)')
w('fn LN(x val) int = app("reflect.Type.Len","int",x)')
w('fn NF(x val) int = app("reflect.Type.NumField","int",x)')
TG='app("StructTag.Get","string",app("reflect.Type.Field.Tag","string",x,i),"json")'
w('fn TAG(x val, i int) seq = seq(app("StructTag.Get","string",app("reflect.Type.Field.Tag","string",x,i),"json"))')
w('fn KEPT(x val, i int) bool = (len(app("reflect.Type.Field.PkgPath","string",x,i)) == 0 || app("reflect.Type.Field.Anonymous","bool",x,i)) && !(len(app("StructTag.Get","string",app("reflect.Type.Field.Tag","string",x,i),"json")) == 1 && app("StructTag.Get","string",app("reflect.Type.Field.Tag","string",x,i),"json")[0] == 45)')
w('fn NK(x val, i int) int = ite(i <= 0, 0, NK(x, i-1) + ite(KEPT(x, i-1), 1, 0))')
w('fn TNAME(x val, i int) seq = seq(app("strings.Cut/0","string",TAG(x,i),","))')
w('fn FNAME(x val, i int) seq = ite(len(app("StructTag.Get","string",app("reflect.Type.Field.Tag","string",x,i),"json")) == 0 || len(app("strings.Cut/0","string",TAG(x,i),",")) == 0, seq(app("reflect.Type.Field.Name","string",x,i)), TNAME(x,i))')
def eqc(x,c): return '('+f'len({x}) == {len(c)}'+''.join(f' && {x}[{i}] == {ord(ch)}' for i,ch in enumerate(c))+')'
C0='app("strings.Cut/0","string",q,",")'
C1='app("strings.Cut/1","string",q,",")'
w('fn OPT(q seq, n int) bool = ite(n == 0, false, '+eqc(C0,'string')+f' || OPT(seq({C1}), len({C1})))')
w(f'fn OPTJ(x val, i int) bool = len({TG}) != 0 && OPT(seq(app("strings.Cut/1","string",TAG(x,i),",")), len(app("strings.Cut/1","string",TAG(x,i),",")))')
STR=chain('ExpectType',[(n+'String',k) for n,k in SC])
w('fn stringT(k int) int = '+STR)
w('fn IMP(x val, y val) bool = app("reflect.Type.AssignableTo","bool",x,y) || KD(x) != 22 && app("reflect.Type.AssignableTo","bool",app("reflect.PointerTo","val",x),y)')
w('fn scalarT(k int) int = '+chain('ExpectType',SC))
w('fn sliceT(k int) int = '+chain('ExpectTypeSlice',SC+[('String','24')]))
w('fn keyT(y int) bool = y == ExpectTypeStr || y == ExpectTypeNumber || y >= ExpectTypeInt && y <= ExpectTypeUint64')
FTx='app("reflect.Type.Field.Type","val",x,i)'
IM=lambda t:f'(IMP({t}, J) || IMP({t}, T))'
w('fn KEYK(y int) bool = y == 24 || y >= 2 && y <= 11')
w('fn KEYOK(x val, J val, T val) bool = x != nilv && KD(x) != 20 && KD(x) != 22 && (IMP(x, T) || !IMP(x, J) && KEYK(KD(x)))')
# SUP(x, d, J, T, U): supported type (any solution of the equation, in particular the greatest); d != 0: no field asks in vain for the string option
w(f'fn SUP(x val, d int, J val, T val, U val) bool = x == nilv || ite(KD(x) == 20, app("reflect.Type.NumMethod","int",x) == 0, {IM("x")} || scalarT(KD(x)) != 0 || KD(x) == 24 || KD(x) == 17 && (LN(x) == 0 || SUP(EL(x), d, J, T, U)) || (KD(x) == 22 || KD(x) == 23) && SUP(EL(x), d, J, T, U) || KD(x) == 21 && KEYOK(app("reflect.Type.Key","val",x), J, T) && SUP(EL(x), d, J, T, U) || KD(x) == 25 && SUPS(x, 0, d, J, T, U))')
w(f'fn SUPS(x val, i int, d int, J val, T val, U val) bool = i >= NF(x) || (!KEPT(x, i) || SUP({FTx}, d, J, T, U) && (d == 0 || !OPTJ(x, i) || {FTx} != nilv && !{IM(FTx)} && (scalarT(KD({FTx})) != 0 || KD({FTx}) == 24 && {FTx} != U))) && SUPS(x, i+1, d, J, T, U)')
JS=lambda t:f'IMP({t}, tpJSONUnmarshaler)'
TS=lambda t:f'IMP({t}, tpTextUnmarshaler)'
for n,g in (('JSON','tpJSONUnmarshaler'),('Text','tpTextUnmarshaler')):
    w(f'''
func jscandec.determine{n}UnmarshalerSupport(t) (r)
props C15 C18
ensures r == ite(app("reflect.Type.AssignableTo","bool",t,{g}), interfaceSupportCopy, ite(IMP(t,{g}), interfaceSupportPtr, interfaceSupportNone))
end''')
w(f'''
func jscandec.implementsUnmarshaler(t) (r)
props C15 C18
ensures r == ({JS("t")} || {TS("t")})
end

func jscandec.canUseAssignFaststr(t) (r)
props C15 C16
ensures r == (SZ(EL(t)) <= 128 && KD(app("reflect.Type.Key","val",t)) == 24)
end
''')
KEYX='app("reflect.Type.Key","val",t)'
P=f'(t == nilv || {JS("t")} || {TS("t")})'
PE=f'({JS("EL(t)")} || {TS("EL(t)")})'
A=lambda f,i='N',k='res':f'farr({k},"{f}")[{i}]'
w('''func jscandec.appendTypeToStack(stack, t, options) (res, err)
props C15
opt fresh own-stackFrame.Fields
ghost g a s e j f
inst f: f
inst g: g
inst g: s
inst g: len(stack)
inst g: len(stack)+1
inst g: c_stack[len(stack)].Fields[NK(t,j)].FrameIndex
inst a: a
inst a: s
inst a: s+1
inst a: s+2
inst a: len(stack)
inst a: len(stack)+1
inst a: c_stack[len(stack)].Fields[NK(t,j)].FrameIndex
inst a: farr(c_stack,"RecurFrame")[s]
inst a: farr(c_stack,"ParentFrameIndex")[s]
inst a: farr(c_stack,"RecurFrame")[len(stack)]
inst s: s
inst e: e
inst e: len(stack)*281474976710656+NK(t,j)
inst e: s*281474976710656+f
def N = len(stack)
def K = KD(t)
requires off(stack) == 0
assume len(stack) < 2147483648
assume len(res) < 2147483648''')
STATIC=['Typ','Size','ParentFrameIndex','RType','RecurFrame','Cap','Offset','MapValueType','MapCanUseAssignFaststr','Fields#len','Fields#off','Fields#h','Fields#cap']
def both(e,c=True):
    """e: function of the slice name"""
    if c: w('cand(k stackFrame) '+e('k'))
    w('ensures err != nilv || '+e('res'))
both(lambda k:f'off({k}) == 0')
both(lambda k:f'len({k}) > N')
for f in STATIC:
    q='a' if f in ('ParentFrameIndex','RType') else 'g'
    both(lambda k:f'{q} >= N || {q} < 0 || {A(f,q,k)} == {A(f,q,"stack")}')
both(lambda k:f'a >= N || a < 0 || {A("Type","a",k)} == {A("Type","a","stack")} || {A("Type","a",k)} == ExpectTypeStructRecur && {A("RType","a",k)} != nilv && KD({A("RType","a",k)}) == 25 && !{JS(A("RType","a",k))} && !{TS(A("RType","a",k))}')
both(lambda k:f'{A("ParentFrameIndex","N",k)} == noParentFrame')
both(lambda k:f's <= N || s >= len({k}) || {A("ParentFrameIndex","s",k)} >= N && {A("ParentFrameIndex","s",k)} < s')
w(f'cand(k stackFrame) {A("Type","N","k")} == ExpectTypeStruct || {A("Type","N","k")} == ExpectTypeStructRecur')
w(f'cand(k stackFrame) {A("Size","N","k")} == SZ(t)')
w(f'cand(k stackFrame) {A("RType","N","k")} == t')
def ens(e): w('ensures err != nilv || '+e)
T=A('Type')
w('assume NF(t) < 2147483648')
w('cand(k stackFrame) len(k) <= 2147483648')
w('cand(k stackFrame, i int) len(k[N].Fields) <= i')
ens(f'{T} == ExpectTypeStruct || {T} == ExpectTypeStructRecur || len(res[N].Fields) == 0')

ens(f't != nilv || {T} == ExpectTypeAny')
ens(f't == nilv || !{JS("t")} || {T} == ExpectTypeJSONUnmarshaler && {A("RType")} == t')
ens(f't == nilv || {JS("t")} || !{TS("t")} || {T} == ExpectTypeTextUnmarshaler && {A("RType")} == t')
ens(f'{P} || K != 20 || {T} == ExpectTypeAny')
ens(f'{P} || scalarT(K) == 0 || {T} == scalarT(K)')
ens(f'{P} || K != 24 || {T} == ite(t == tpNumber, ExpectTypeNumber, ExpectTypeStr)')
ens(f'{P} || K != 17 || {T} == ite(LN(t) == 0, ExpectTypeArrayLen0, ExpectTypeArray)')
ens(f'{P} || K != 25 || ite(NF(t) == 0, {T} == ExpectTypeEmptyStruct, {T} == ExpectTypeStruct || {T} == ExpectTypeStructRecur)')
ens(f'{P} || scalarT(K) != 0 || K == 20 || K == 24 || K == 17 || K == 25 || K == 21 || K == 22 || K == 23')
ens(f't == nilv || K == 20 || {P} && ({JS("t")} || {TS("t")}) || K == 17 && LN(t) == 0 || {A("Size")} == SZ(t)')
RF=A('RecurFrame')
ens(f'{P} || K != 22 || {T} == ExpectTypePtr || {T} == ExpectTypePtrRecur && {RF} >= 0 && {RF} < N')
ens(f'{P} || K != 23 || ({PE} || sliceT(KD(EL(t))) == 0 || KD(EL(t)) == 24 && EL(t) == tpNumber || {T} == sliceT(KD(EL(t))))')
ens(f'{P} || K != 23 || !({PE} || sliceT(KD(EL(t))) == 0 || KD(EL(t)) == 24 && EL(t) == tpNumber) || {T} == ExpectTypeSlice || {T} == ExpectTypeSliceRecur || {T} == ExpectTypeSliceEmptyStruct')
ens(f'{P} || K != 21 || {T} == ExpectTypeMap || {T} == ExpectTypeMapStringString || {T} == ExpectTypeMapRecur')
for f in ('FrameIndex','Name#h','Name#off','Name#len'):
    both(lambda k:f'e < 0 || e >= N*281474976710656 || farr({k}[0].Fields,"{f}")[e] == farr(stack[0].Fields,"{f}")[e]')
# recursion
for y in ('Ptr','Slice','Map'):
    both(lambda k:f's < N || s >= len({k}) || {A("Type","s",k)} != ExpectType{y}Recur || {A("RecurFrame","s",k)} >= 0 && {A("RecurFrame","s",k)} < s && {A("Type",A("RecurFrame","s",k),k)} == ExpectTypeStructRecur')
    ens(f'{P} || {T} != ExpectType{y}Recur || {A("RType",RF)} == EL(t)')
ens(f'!keyT({T}) && {T} != ExpectTypeTextUnmarshaler || len(res) == N+1')
ens(f'!(keyT({T}) || {T} >= ExpectTypeBool && {T} <= ExpectTypeUint64) || {A("RType")} == nilv')
w('cand(b bool, q bytes!) (b || OPT(seq(q), len(q))) == (b0 || OPT(seq(q0), len(q0)))')
w(f'cand(k stackFrame) {A("Typ","N","k")} == app("getTyp","int",t)')
ens(f'{A("Typ")} == app("getTyp","int",t)')
both(lambda k:f's < N || s >= len({k}) || {A("Type","s",k)} != ExpectTypeMap || len({k}) > s+2 && {A("ParentFrameIndex","s+2",k)} == s && (keyT({A("Type","s+1",k)}) && {A("RType","s+1",k)} == nilv || {A("Type","s+1",k)} == ExpectTypeTextUnmarshaler && {TS(A("RType","s+1",k))})')
both(lambda k:f's < N || s >= len({k}) || {A("Type","s",k)} != ExpectTypeMapRecur || len({k}) > s+1 && {A("ParentFrameIndex","s+1",k)} == s && (keyT({A("Type","s+1",k)}) && {A("RType","s+1",k)} == nilv || {A("Type","s+1",k)} == ExpectTypeTextUnmarshaler && {TS(A("RType","s+1",k))})')
# what a decoding step takes for granted about every frame of the plan (facts of decode.con)
both(lambda k:f's <= N || s >= len({k}) || {A("Type",A("ParentFrameIndex","s",k),k)} != ExpectTypePtr || {A("ParentFrameIndex","s",k)} == s-1')
both(lambda k:f's < N || s >= len({k}) || {A("RecurFrame","s",k)} >= 0 && {A("RecurFrame","s",k)} <= s')
both(lambda k:f's < N || s >= len({k}) || len({k}[s].Fields) <= cap({k}[s].Fields)')
for q in ('s <= N','s != N'):
    both(lambda k:f'{q} || s >= len({k}) || f < 0 || f >= 281474976710656 || f >= len({k}[s].Fields) || {k}[s].Fields[f].FrameIndex > s && {k}[s].Fields[f].FrameIndex < len({k})')
# element frames
for y in ('Ptr','Slice','Array','Map'):
    both(lambda k:f's < N || s >= len({k}) || {A("Type","s",k)} != ExpectType{y} || len({k}) > s+1 && {A("ParentFrameIndex","s+1",k)} == s')
ens(f'{P} || K != 17 || LN(t) == 0 || {A("Cap","N+1")} == LN(t)')
w(f'cand(k stackFrame, i int) len(k[N].Fields) == NK(t, i)')
FI=lambda k:f'{k}[N].Fields[NK(t,j)].FrameIndex'
ff=lambda k:[f'NK(t,j) >= 0 && NK(t,j) < len({k}[N].Fields)',f'{FI(k)} > N && {FI(k)} < len({k})',f'{A("ParentFrameIndex",FI(k),k)} == N',f'{A("Offset",FI(k),k)} == app("reflect.Type.Field.Offset","int",t,j)',f'{A("Typ",FI(k),k)} == app("getTyp","int",app("reflect.Type.Field.Type","val",t,j))',f'seq({k}[N].Fields[NK(t,j)].Name) == FNAME(t,j)']
FT='app("reflect.Type.Field.Type","val",t,j)'
PF=f'({FT} == nilv || {JS(FT)} || {TS(FT)})'
ff0=ff
ff=lambda k:ff0(k)+[f'{PF} || scalarT(KD({FT})) == 0 || {A("RType",FI(k),k)} == nilv && {A("Type",FI(k),k)} == ite(OPTJ(t,j), stringT(KD({FT})), scalarT(KD({FT})))',
 f'{PF} || KD({FT}) != 24 || {A("RType",FI(k),k)} == nilv && {A("Type",FI(k),k)} == ite({FT} == tpNumber, ExpectTypeNumber, ite(OPTJ(t,j), ExpectTypeStrString, ExpectTypeStr))',
 f'!options.DisallowStringTagOptOnUnsupportedTypes || !OPTJ(t,j) || {A("Type",FI(k),k)} >= ExpectTypeBoolString && {A("Type",FI(k),k)} <= ExpectTypeUint64String && {A("RType",FI(k),k)} == nilv']
for n in range(9):
    w(f'cand(k stackFrame, i int) j < 0 || j >= i || !KEPT(t,j) || ('+ff('k')[n]+')')
    ens(f'{P} || K != 25 || j < 0 || j >= NF(t) || !KEPT(t,j) || ('+ff('res')[n]+')')
for d in ('0','ite(options.DisallowStringTagOptOnUnsupportedTypes,1,0)'):
    w(f'cand(i int) !SUPS(t, 0, {d}, tpJSONUnmarshaler, tpTextUnmarshaler, tpNumber) || i >= 0 && SUPS(t, i, {d}, tpJSONUnmarshaler, tpTextUnmarshaler, tpNumber)')
w(f'ensures !SUP(t, 0, tpJSONUnmarshaler, tpTextUnmarshaler, tpNumber) || err == nilv || options.DisallowStringTagOptOnUnsupportedTypes && err == ErrStringTagOptionOnUnsupportedType')
w(f'ensures !SUP(t, ite(options.DisallowStringTagOptOnUnsupportedTypes,1,0), tpJSONUnmarshaler, tpTextUnmarshaler, tpNumber) || err == nilv')
w(f'ensures err != nilv || t == nilv || K != 20 || app("reflect.Type.NumMethod","int",t) == 0')
w(f'ensures err != nilv || {P} || K != 21 || {TS(KEYX)} || {JS(KEYX)} || KEYK(KD({KEYX}))')
w(f'cand(k stackFrame, i int) i >= 0 && i <= NF(t)')
ens(f'{P} || K != 25 || NF(t) == 0 || len(res[N].Fields) == NK(t, NF(t))')
for y in ('Ptr','Slice','Array'):
    ens(f'{P} || {T} != ExpectType{y} || {A("Typ","N+1")} == app("getTyp","int",EL(t))')
ens(f'{P} || {T} != ExpectTypeMap || {A("Typ","N+2")} == app("getTyp","int",EL(t))')
for y in ('','Recur'):
    ens(f'{P} || {T} != ExpectTypeMap{y} || {A("MapValueType")} == app("getTyp","int",EL(t)) && ({A("MapCanUseAssignFaststr")} == (SZ(EL(t)) <= 128 && KD(app("reflect.Type.Key","val",t)) == 24))')
    ens(f'{P} || {T} != ExpectTypeMap{y} || !{TS('app("reflect.Type.Key","val",t)')} || {A("Type","N+1")} == ExpectTypeTextUnmarshaler && {A("Typ","N+1")} == app("getTyp","int",app("reflect.Type.Key","val",t))')
    ens(f'{P} || {T} != ExpectTypeMap{y} || {TS('app("reflect.Type.Key","val",t)')} || {JS('app("reflect.Type.Key","val",t)')} || {A("Typ","N+1")} == app("getTyp","int",app("reflect.Type.Key","val",t))')
w(f'ensures err == nilv || {P} || scalarT(K) == 0 && K != 24')
G3='tpJSONUnmarshaler, tpTextUnmarshaler, tpNumber'
FACTS=[]
ens0=ens
def ens(e):
    if e.startswith('N != 0'): FACTS.append(e)
    ens0(e)
# the facts of decode.con about frames, word for word, for a complete plan (empty before the call)
for l in open(sys.argv[1].replace('plan.con','decode.con')):
    if 'START == "ENTRY"' in l and l.startswith('fact step'): ens('N != 0 || '+re.search(r'1 <= len\(F\)',l).group(0).replace('F','res'))
    m=re.search(r'(FT == ExpectTypeMap \|\| FT == ExpectTypeMapRecur)\), (KT == .*)\)$',l) if l.startswith('fact step') else None
    if m: # the kinds of map keys
        f=lambda x:re.sub(r'\bKT\b','res[s+1].Type',re.sub(r'\bFT\b','res[s].Type',x))
        ens('N != 0 || s < 0 || s >= len(res) || imp('+f(m.group(1))+', '+f(m.group(2))+')')
    m=re.match('fact (frame|field): (.*)',l)
    if not m: continue
    x=m.group(2).replace('ELEM.FrameIndex','F[s].Fields[f].FrameIndex').replace('IDX','s').replace('F[','res[').replace('len(F)','len(res)')
    ens(f'N != 0 || s < 0 || s >= len(res)'+(' || f < 0 || f >= 281474976710656 || f >= len(res[s].Fields)' if m.group(1)=='field' else '')+' || '+x)
w('end')
w('''
func jscandec.appendMapKeyToStack(stack, t, options) (res, err)
props C15
opt fresh own-stackFrame.Fields
ghost g a s e
inst g: g
inst g: len(stack)
inst a: a
inst a: len(stack)
inst s: len(stack)
inst e: e
def N = len(stack)
requires off(stack) == 0
assume len(stack) < 2147483648''')
ens('off(res) == 0 && len(res) == N+1')
for f in STATIC+['Type']:
    q='a' if f in ('ParentFrameIndex','RType','Type') else 'g'
    x=f'{A(f,q)} == {A(f,q,"stack")}'
    if f=='Type': x+=f' || {A("Type",q)} == ExpectTypeStructRecur && {A("RType",q)} != nilv && KD({A("RType",q)}) == 25 && !{JS(A("RType",q))} && !{TS(A("RType",q))}'
    ens(f'{q} >= N || {q} < 0 || {x}')
for f in ('FrameIndex','Name#h','Name#off','Name#len'):
    ens(f'e < 0 || e >= N*281474976710656 || farr(res[0].Fields,"{f}")[e] == farr(stack[0].Fields,"{f}")[e]')
ens(f'{A("ParentFrameIndex")} == noParentFrame')
ens(f'{A("RecurFrame")} >= 0 && {A("RecurFrame")} <= N')
ens(f'len(res[N].Fields) == 0 && cap(res[N].Fields) >= 0')
ens(f'keyT({T}) && {A("RType")} == nilv || {T} == ExpectTypeTextUnmarshaler')
ens(f'({T} == ExpectTypeTextUnmarshaler) == {TS("t")}')
ens(f'{TS("t")} || {JS("t")} || {A("Typ")} == app("getTyp","int",t)')
ens(f'!{TS("t")} || {A("Typ")} == app("getTyp","int",t) && {A("RType")} == t')
ens(f'KD(t) != 20 && KD(t) != 22')
w('ensures !KEYOK(t, tpJSONUnmarshaler, tpTextUnmarshaler) || err == nilv')
ens(f'{TS("t")} || {JS("t")} || KEYK(KD(t))')
w('end')
# NewDecoder: the facts about frames hold of the plan of every decoder; Unmarshal: errors
TT='app("reflect.Type.Elem","val",app("reflect.TypeOf","val",app("v!*jscandec.gcT","val",0)))'
w("""
func jscandec.NewDecoder(tokenizer, options) (d, err)
props C15
opt own-stackFrame.Fields
ghost s f
inst s: s
inst f: f
inst g: 0
inst a: 0
inst a: s
inst a: s+1
def F = d.stackExp""")
ens('off(F) == 0 && len(F) > 0')
for l in FACTS:
    w('ensures err != nilv || '+l.replace('N != 0 || ','').replace('res','F'))
ens('farr(F,"Typ")[0] == app("getTyp","int",'+TT+')')
w(f'ensures !SUP({TT}, 0, {G3}) || err == nilv || options.DisallowStringTagOptOnUnsupportedTypes && err == ErrStringTagOptionOnUnsupportedType')
w(f'ensures !SUP({TT}, ite(options.DisallowStringTagOptOnUnsupportedTypes,1,0), {G3}) || err == nilv')
w('end')
OKP=f'SUP({TT}, ite(DefaultInitOptions.DisallowStringTagOptOnUnsupportedTypes,1,0), {G3})'
w(f"""
func jscandec.Unmarshal(s, t) (err)
props C15 C11
opt own-stackFrame.Fields
ensures t != 0 || err == ErrNilDest
ensures t == 0 || !{OKP} || app("Tokenize.Code","int") != 0 || err == nilv
ensures t == 0 || !{OKP} || app("Tokenize.Code","int") != ErrorCodeCallback || err == app("callback.err","val") || app("callback.err","val") == ErrStringTagOptionOnUnsupportedType
ensures t == 0 || !{OKP} || app("Tokenize.Code","int") == 0 || app("Tokenize.Code","int") == ErrorCodeCallback || err == app("v!jscan.Error","val",seq(s),app("Tokenize.Index","int"),app("Tokenize.Code","int")) || err == nilv
end""")
# candidates over the same variables and ghost are one conjunction: fewer, larger queries
import re
groups={}
res=[]
for l in '\n'.join(out).split('\n'):
    m=re.match(r'cand(\(k stackFrame(?:, i int)?\)) (.*)$',l)
    if not m or m.group(2).startswith(('i >=','len(k[N].Fields) <=','s != N')):
        res.append(l); continue
    gh=[v for v in ('g','a','s','e','j','f') if re.search(r'(?<![A-Za-z_"0-9])%s(?![A-Za-z_("])'%v,m.group(2))]
    key=(m.group(1),tuple(gh))
    if key not in groups:
        groups[key]=[]; res.append(key)
    groups[key].append('('+m.group(2)+')')
out=[l if isinstance(l,str) else 'cand'+l[0]+' '+' && '.join(groups[l]) for l in res]
open(sys.argv[1],'w').write('\n'.join(out)+'\n')
