import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from tags import retag
import os,sys
HERE=os.path.dirname(os.path.abspath(__file__)); OUT=sys.argv[1] if len(sys.argv)>1 else os.path.join(HERE,'..','..','contracts')
# writes decode.con (kept in /verif/gen as source of the contract)
o=[]
w=o.append
w('''// The decoder's main loop, label by label. Each row states the whole effect of one step:
// memory written, calls made, frame changes, the error reported, and where decoding continues.
fn skipx(TY arr, i int, l int, n int) int = ite(i >= n, n,
  ite(TY[i] == TokenTypeArray, skipx(TY, i+1, l+1, n),
  ite(TY[i] != TokenTypeArrayEnd, skipx(TY, i+1, l, n),
  ite(l <= 1, i, skipx(TY, i+1, l-1, n)))))
fn ses(TY arr, EL arr, EN arr, i int, e int, dis bool) int = ite(i >= e, e,
  ite(TY[i] == TokenTypeNull, ses(TY, EL, EN, i+1, e, dis),
  ite(TY[i] != TokenTypeObject || (dis && EL[i] > 0), i, ses(TY, EL, EN, EN[i]+1, e, dis))))
fn clr(TR trace, ty int, p int, sz int, i int, n int) trace = ite(i >= n, TR, clr(app("ev:typedmemclr", "trace", TR, ty, p + i*sz), ty, p, sz, i+1, n))
fn setd(D arr, FI arr, o int, i int, n int, p int) arr = ite(i >= n, D, setd(store(D, FI[o+i], p), FI, o, i+1, n, p))
fn comp(t int) bool = !(t == ExpectTypeArrayLen0 || t == ExpectTypeEmptyStruct || t == ExpectTypeBool || t == ExpectTypeStr || t == ExpectTypeFloat32 || t == ExpectTypeFloat64
  || t == ExpectTypeInt || t == ExpectTypeInt8 || t == ExpectTypeInt16 || t == ExpectTypeInt32 || t == ExpectTypeInt64
  || t == ExpectTypeUint || t == ExpectTypeUint8 || t == ExpectTypeUint16 || t == ExpectTypeUint32 || t == ExpectTypeUint64)
fn pow10(n int) int = ite(n <= 0, 1, pow10(n-1)*10)
lemma POWV(n int) induct n from 0; trigger pow10(n) : imp(0 <= n && n <= 15, pow10(n) == ite(n <= 0, 1, ite(n <= 1, 10, ite(n <= 2, 100, ite(n <= 3, 1000, ite(n <= 4, 10000, ite(n <= 5, 100000, ite(n <= 6, 1000000, ite(n <= 7, 10000000, ite(n <= 8, 100000000, ite(n <= 9, 1000000000, ite(n <= 10, 10000000000, ite(n <= 11, 100000000000, ite(n <= 12, 1000000000000, ite(n <= 13, 10000000000000, ite(n <= 14, 100000000000000, 1000000000000000))))))))))))))))
lemma DVB(A arr, a int, b int) induct b from a; trigger dv(A, a, b) : imp(alldig(A,a,b) && a <= b, dv(A,a,b) >= 0 && dv(A,a,b) < pow10(b-a))

func Decoder.parseInt(s) (v, err)
requires isInt(arr(s), off(s), endof(s))
field
props C01 C03 C07 C16 C20
ensures err == ite(ival(arr(s), off(s), endof(s)) > 9223372036854775807 || ival(arr(s), off(s), endof(s)) < -9223372036854775808, ErrIntegerOverflow, nilv)
ensures v == ite(err == nilv, ival(arr(s), off(s), endof(s)), 0)
end
func Decoder.parseUint(s) (v, err)
requires isUint(arr(s), off(s), endof(s))
field
props C01 C03 C07 C16 C20
ensures err == ite(dv(arr(s), off(s), endof(s)) > 18446744073709551615, ErrIntegerOverflow, nilv)
ensures v == ite(err == nilv, dv(arr(s), off(s), endof(s)), 0)
end
func Decoder.parseFloat32(s) (v, err)
field
props C09 C03 C07 C20
ensures err == app("pferr", "val", seq(s), 32)
ensures v == ite(err == nilv, app("f64to32", "val", app("pf", "val", seq(s), 32)), app("v!f0", "val"))
end
func Decoder.parseFloat64(s) (v, err)
field
props C09 C03 C07 C20
ensures err == app("pferr", "val", seq(s), 64)
ensures v == ite(err == nilv, app("pf", "val", seq(s), 64), app("v!f0", "val"))
end
func (*Decoder).Decode$2(tokens) (exit)
opt noalias
props C11 C14 C20
opaque okesc un anyok anyv listok listv mapok mapv u4 noByte numInt numTailI numTailF numFrac numExp numExpS dend
fuel 2
let T = tokens[ti].Type
let FT = F[si].Type
let p = F[si].Dest + F[si].Offset
let IX = tokens[ti].Index
let EN = tokens[ti].End
let EL = tokens[ti].Elements
let A = arr(s)
let SO = off(s)
let neg = A[SO+IX] == 45
let uval = dv(A, SO+IX, SO+EN)
let sval = ival(A, SO+IX, SO+EN)
let TXT = seq(s[IX:EN])
let STR = un(A, SO+IX+1, SO+EN-1)
let TV = s[IX+1:EN-1]
let TVQ = seq(TV)
let tva = SO+IX+1
let tvb = SO+EN-1
let tval = ival(A, tva, tvb)
let BAD = glob("ErrUnexpectedValue")
let OVF = glob("ErrIntegerOverflow")
let UNK = glob("ErrUnknownField")
let ESA = glob("emptyStructAddr")
let NTOK = len(tokens)
let PAR = F[si].ParentFrameIndex
let PT = F[PAR].Type
let RSL = len(F[si].RecursionStack)
let TOP = F[si].RecursionStack[RSL-1]
let RT = F[si].RType
let ISP = pure("reflect.Type.Kind", "int", RT) == 22
let NV = pure("reflect.NewAt", "val", RT, p)
let PV = pure("Value.Elem", "val", NV)
let COMP = T == TokenTypeObject || T == TokenTypeArray
let NEXT = ite(COMP, EN+1, ti+1)
let f64 = pure("pf", "val", TXT, 64)
let f64e = pure("pferr", "val", TXT, 64)
let f32 = pure("f64to32", "val", pure("pf", "val", TXT, 32))
let f32e = pure("pferr", "val", TXT, 32)
''')
# facts
w('''
fact token: imp(tokens[IDX].Type == TokenTypeInteger, isInt(A, SO+tokens[IDX].Index, SO+tokens[IDX].End))
fact token: 1 <= tokens[IDX].Type && tokens[IDX].Type <= TokenTypeString
fact token: 0 <= tokens[IDX].Index && tokens[IDX].Index < len(s)
fact token: imp(TokenTypeKey <= tokens[IDX].Type, tokens[IDX].Index < tokens[IDX].End && tokens[IDX].End <= len(s))
fact token: imp(tokens[IDX].Type == TokenTypeString || tokens[IDX].Type == TokenTypeKey, tokens[IDX].Index + 2 <= tokens[IDX].End && okesc(A, SO+tokens[IDX].Index+1, SO+tokens[IDX].End-1))
fact token: imp(tokens[IDX].Type == TokenTypeObject || tokens[IDX].Type == TokenTypeArray, IDX < tokens[IDX].End && tokens[IDX].End < NTOK && 0 <= tokens[IDX].Elements && iff(tokens[IDX].Elements == 0, tokens[IDX].End == IDX + 1))
fact token: imp(tokens[IDX].Type == TokenTypeObject, tokens[tokens[IDX].End].Type == TokenTypeObjectEnd && imp(tokens[IDX].End > IDX + 1, tokens[IDX+1].Type == TokenTypeKey))
fact token: imp(tokens[IDX].Type == TokenTypeArray, tokens[tokens[IDX].End].Type == TokenTypeArrayEnd)
fact token: imp(tokens[IDX].Type == TokenTypeInteger && tokens[IDX].End - tokens[IDX].Index <= 15, pure("pferr", "val", seq(s[tokens[IDX].Index:tokens[IDX].End]), 64) == nilv && pure("pf", "val", seq(s[tokens[IDX].Index:tokens[IDX].End]), 64) == pure("i2f64", "val", ival(A, SO+tokens[IDX].Index, SO+tokens[IDX].End)))
fact token: imp(tokens[IDX].Type == TokenTypeInteger && tokens[IDX].End - tokens[IDX].Index <= 7, pure("pferr", "val", seq(s[tokens[IDX].Index:tokens[IDX].End]), 32) == nilv && pure("f64to32", "val", pure("pf", "val", seq(s[tokens[IDX].Index:tokens[IDX].End]), 32)) == pure("i2f32", "val", ival(A, SO+tokens[IDX].Index, SO+tokens[IDX].End)))
fact frame: F[IDX].ParentFrameIndex == noParentFrame || F[IDX].ParentFrameIndex < len(F)
fact frame: imp(F[IDX].ParentFrameIndex != noParentFrame && F[F[IDX].ParentFrameIndex].Type == ExpectTypePtr, F[IDX].ParentFrameIndex == IDX - 1)
fact frame: imp(F[IDX].Type == ExpectTypePtr || F[IDX].Type == ExpectTypeArray || F[IDX].Type == ExpectTypeSlice, IDX + 1 < len(F))
fact frame: imp(F[IDX].Type == ExpectTypeMap, IDX + 2 < len(F))
fact frame: imp(F[IDX].Type == ExpectTypeMapRecur, IDX + 1 < len(F))
fact frame: imp(F[IDX].Type == ExpectTypePtrRecur || F[IDX].Type == ExpectTypeSliceRecur || F[IDX].Type == ExpectTypeMapRecur, 0 <= F[IDX].RecurFrame && F[IDX].RecurFrame < len(F))
fact frame: 0 <= F[IDX].RecurFrame && F[IDX].RecurFrame < noParentFrame
fact frame: len(F[IDX].Fields) <= cap(F[IDX].Fields)
fact token: imp(tokens[IDX].Type == TokenTypeObject || tokens[IDX].Type == TokenTypeArray, tokens[IDX].Index < tokens[tokens[IDX].End].Index && tokens[tokens[IDX].End].Index < len(s))
fact step: imp(START == "ENTRY", si == 0 && 1 <= len(F))
fact frame: len(F) < noParentFrame
fact field: ELEM.FrameIndex < len(F)
fact recursion: ELEM.FrameIndex < len(F)
fact step: imp(START == "ON_VAL_END" && PAR != noParentFrame && PT == ExpectTypeArray, skipx(farr(tokens, "Type"), ti, 1, NTOK) < NTOK)

fact step: imp(START == "MAIN" && ti < NTOK && T == TokenTypeArrayEnd, 1 <= si)
cand(k int, l int) imp(START == "ON_VAL_END", l >= 1 && skipx(farr(tokens,"Type"), k, l, NTOK) == skipx(farr(tokens,"Type"), ti, 1, NTOK))
cand(k int) imp(START == "ON_VAL_END", k >= ti)

hold MAIN: 0 <= ti && 0 <= si && si < len(F)
hold ON_VAL_END: 0 <= ti && 0 <= si && si < len(F)
hold ON_RECUR_OBJ_END: 0 <= ti && 0 <= si && si < len(F)
hold ON_PTR: 0 <= ti && ti < NTOK && 0 <= si && si < len(F) && FT == ExpectTypePtr
hold ON_JSON_UNMARSHALER: 0 <= ti && ti < NTOK && T != TokenTypeObjectEnd && T != TokenTypeArrayEnd && 0 <= si && si < len(F)

on ENTRY true [C11 C12] -> to(MAIN, 0, si)
on MAIN ti >= NTOK [C11] -> done()
for X in True False Integer Number String Array Object : on MAIN T == TokenType${X} && FT == ExpectTypePtr [C06 C10] -> to(ON_PTR, ti, si)
for X in True False Integer Number String Null Array Object : on MAIN T == TokenType${X} && FT == ExpectTypeJSONUnmarshaler [C18] -> to(ON_JSON_UNMARSHALER, ti, si)
''')
def on(st,g,props,acts): w(f'on {st} {g} [{props}] -> {acts}')
VE='to(ON_VAL_END, ti+1, si)'
# literals
for X,V in (('True','true'),('False','false')):
    g=f'T == TokenType{X}'
    on('MAIN',g+' && FT == ExpectTypeBool','C06',f'put(p, "bool", {V}); {VE}')
    on('MAIN',g+' && FT == ExpectTypeAny','C06',f'put(p, "iface", boxed("bool", {V})); {VE}')
    on('MAIN',g,'C06 C03','fail(IX, BAD)')
# integers
I='T == TokenTypeInteger'
W={8:(255,127),16:(65535,32767),32:(4294967295,2147483647),64:(18446744073709551615,9223372036854775807)}
for n,wd in (('',64),('8',8),('16',16),('32',32),('64',64)):
    g=f'{I} && FT == ExpectTypeUint{n}'
    P='C01 C03'
    on('MAIN',g+' && neg',P,'fail(IX, BAD)')
    on('MAIN',g+f' && uval > {W[wd][0]}',P,'fail(IX, OVF)')
    on('MAIN',g,P,f'put(p, "uint{n}", uval); {VE}')
for n,wd in (('',64),('8',8),('16',16),('32',32),('64',64)):
    g=f'{I} && FT == ExpectTypeInt{n}'
    on('MAIN',g+f' && (sval > {W[wd][1]} || sval < -{W[wd][1]+1})',P,'fail(IX, OVF)')
    on('MAIN',g,P,f'put(p, "int{n}", sval); {VE}')
N='T == TokenTypeNumber'
NI=f'(T == TokenTypeInteger || T == TokenTypeNumber)'
for nm in ('Integer','Number'):
    g0=f'T == TokenType{nm} && '
    on('MAIN',g0+'FT == ExpectTypeAny && f64e != nilv','C06 C09','fail(IX, f64e)')
    on('MAIN',g0+'FT == ExpectTypeAny','C06 C09',f'put(p, "iface", boxed("float64", f64)); {VE}')
    for b in ('32','64'):
        on('MAIN',g0+f'FT == ExpectTypeFloat{b} && f{b}e != nilv','C09',f'fail(IX, f{b}e)')
        on('MAIN',g0+f'FT == ExpectTypeFloat{b}','C09',f'put(p, "float{b}", f{b}); {VE}')
    on('MAIN',g0+'FT == ExpectTypeNumber','C06 C13',f'put(p, "string", TXT); {VE}')
    on('MAIN',g0+'true','C01 C03 C06 C09','fail(IX, BAD)')
# strings
S='T == TokenTypeString'
def s(ft,guard,props,acts): on('MAIN',f'{S} && FT == ExpectType{ft}'+(f' && {guard}' if guard else ''),props,acts)
TU='encoding.TextUnmarshaler.UnmarshalText'
JU='json.Unmarshaler.UnmarshalJSON'
s('TextUnmarshaler','ISP && pure("Value.IsNil", "bool", PV)','C18 C02',f'n := ev("reflect.New", "val", pure("reflect.Type.Elem", "val", RT)); ev("Value.Set", "", PV, n); e := ev("{TU}", "val", pure("Value.Interface", "val", PV), STR); check(e == nilv, IX, e); {VE}')
s('TextUnmarshaler','ISP','C18 C02',f'e := ev("{TU}", "val", pure("Value.Interface", "val", PV), STR); check(e == nilv, IX, e); {VE}')
s('TextUnmarshaler','','C18 C02',f'e := ev("{TU}", "val", pure("Value.Interface", "val", NV), STR); check(e == nilv, IX, e); {VE}')
s('Any','','C02 C06 C13',f'put(p, "iface", boxed("string", STR)); {VE}')
s('Str','','C02 C13',f'put(p, "string", STR); {VE}')
s('BoolString','streq(TV, "true")','C08',f'put(p, "bool", true); {VE}')
s('BoolString','streq(TV, "false")','C08',f'put(p, "bool", false); {VE}')
s('BoolString','','C08','fail(IX, BAD)')
s('StrString','len(TV) < 4','C08','fail(IX, BAD)')
s('StrString','!(A[tva] == 92 && A[tva+1] == 34)','C08','fail(IX, BAD)')
s('StrString','!(A[tvb-2] == 92 && A[tvb-1] == 34)','C08','fail(IX, BAD)')
s('StrString','!noByte(A, 92, tva+2, tvb-2)','C08','fail(IX, BAD)')
s('StrString','','C08 C13',f'put(p, "string", seq(TV[2:len(TV)-2])); {VE}')
s('Number','numEnd(A, tva, tvb) != 2*tvb && numEnd(A, tva, tvb) != 2*tvb+1','C08 C03','fail(IX, BAD)')
s('Number','','C08 C03 C13',f'put(p, "string", TVQ); {VE}')
for b in ('32','64'):
    s(f'Float{b}String','numEnd(A, tva, tvb) != 2*tvb && numEnd(A, tva, tvb) != 2*tvb+1','C08 C03 C09','fail(IX, BAD)')
    e=f'pure("pferr", "val", TVQ, {b})'
    v=f'pure("pf", "val", TVQ, {b})'
    if b=='32': v=f'pure("f64to32", "val", {v})'
    s(f'Float{b}String',f'{e} != nilv','C08 C09',f'fail(IX, {e})')
    s(f'Float{b}String','','C08 C09',f'put(p, "float{b}", {v}); {VE}')
for n,wd in (('',64),('8',8),('16',16),('32',32),('64',64)):
    for sg in ('Int','Uint'):
        ft=f'{sg}{n}String'
        s(ft,'numEnd(A, tva, tvb) != 2*tvb','C08 C01 C03','fail(IX, BAD)')
        if sg=='Uint':
            s(ft,'A[tva] == 45','C08 C01 C03','fail(IX, BAD)')
            s(ft,f'tval > {W[wd][0]}','C08 C01 C03','fail(IX, BAD)')
        else:
            s(ft,f'(tval > {W[wd][1]} || tval < -{W[wd][1]+1})','C08 C01 C03','fail(IX, BAD)')
        s(ft,'','C08 C01 C03',f'put(p, "{sg.lower()}{n}", tval); {VE}')
on('MAIN',S,'C03 C08','fail(IX, BAD)')
# null
Z='T == TokenTypeNull'
def z(ft,acts,props='C10'): on('MAIN',f'{Z} && FT == ExpectType{ft}',props,acts)
for ft in ('EmptyStruct','Struct'): z(ft,VE)
z('Any',f'put(p, "iface", nilv); {VE}')
for ft in ('MapStringString','Map','MapRecur','Ptr','PtrRecur'): z(ft,f'put(p, "ptr", 0); {VE}')
z('StructRecur','to(ON_RECUR_OBJ_END, ti+1, si)')
for ft,k,v in [('Bool','bool','false'),('Str','string','eps'),('Number','string','eps'),('Float32','float32','f0()'),('Float64','float64','f0()')]+[(f'{a}{n}',f'{a.lower()}{n}','0') for a in ('Int','Uint') for n in ('','8','16','32','64')]:
    z(ft,f'put(p, "{k}", {v}); {VE}')
for ft in ['Slice','SliceRecur']+['Slice'+x for x in ['EmptyStruct','Bool','String','Float32','Float64']+[f'{a}{n}' for a in ('Int','Uint') for n in ('','8','16','32','64')]]:
    z(ft,f'putslice(p, 0, 0, 0); {VE}','C10 C05')
on('MAIN',f'{Z} && FT == ExpectTypeTextUnmarshaler && ISP','C10 C18',f'put(p, "ptr", 0); {VE}')
on('MAIN',Z,'C10 C18',VE)
# arrays
AR='T == TokenTypeArray'
def a(ft,guard,props,acts): on('MAIN',f'{AR} && FT == ExpectType{ft}'+(f' && {guard}' if guard else ''),props,acts)
ANY='farr(tokens, "Type"), farr(tokens, "Index"), farr(tokens, "End"), A, SO, ti'
w('let aok = anyok(farr(tokens, "Type"), farr(tokens, "Index"), farr(tokens, "End"), A, SO, ti)')
w('let avl = anyv(farr(tokens, "Type"), farr(tokens, "Index"), farr(tokens, "End"), A, SO, ti)')
w('fact step: imp(START == "MAIN" && ti < NTOK && (COMP), wfv(farr(tokens, "Type"), farr(tokens, "Index"), farr(tokens, "End"), farr(tokens, "Elements"), A, SO, len(s), ti, NTOK))')
for t in ('Array','Object'):
    on('MAIN',f'T == TokenType{t} && FT == ExpectTypeAny && !aok','C06','fail(IX, BAD)')
    on('MAIN',f'T == TokenType{t} && FT == ExpectTypeAny','C06',f'put(p, "iface", avl); to(ON_VAL_END, EN+1, si)')
a('ArrayLen0','','C05',f'to(ON_VAL_END, EN+1, si)')
CLR='settrace(clr(trace(), F[si+1].Typ, p, F[si+1].Size, EL, F[si+1].Cap))'
w("cand(R trace, k int) imp(T == TokenTypeArray && FT == ExpectTypeArray, clr(R, F[si+1].Typ, p, F[si+1].Size, k, F[si+1].Cap) == clr(R0, F[si+1].Typ, p, F[si+1].Size, EL, F[si+1].Cap))")
a('Array','EL < 1','C05 C14',f'{CLR}; to(ON_VAL_END, ti+2, si)')
a('Array','','C05 C14',f'{CLR}; set("Dest", si+1, p); set("Len", si+1, 0); set("Offset", si+1, 0); to(MAIN, ti+1, si+1)')
w('let hp = mem(p, "ptr")'); w('let hl = mem(p+8, "uintptr")'); w('let hc = mem(p+16, "uintptr")')
for ft,E,adv in (('Slice','si+1',None),('SliceRecur','F[si].RecurFrame','R')):
    z0=f'F[{E}].Size'
    a(ft,f'EL == 0 && {z0} > 0','C05',f'q := ev("newarray", "int", F[{E}].Typ, 0); putslice(p, q, 0, 0); to(ON_VAL_END, ti+2, si)')
    a(ft,'EL == 0','C05',f'putslice(p, ESA, 0, 0); to(ON_VAL_END, ti+2, si)')
    fin=f'set("Dest", si+1, q); set("Offset", si+1, 0); to(MAIN, ti+1, si+1)'
    pr='C05 C07'
    if adv:
        fin='r := F[si].RecurFrame; push(si); set("Dest", r, q); set("Offset", r, 0); to(MAIN, ti+1, r)'
        pr='C05 C16 C07'
    else:
        a(ft,f'hc < EL && {z0} == 0',pr,f'q := ESA; putslice(p, q, EL, EL); {fin}')
    cond='hl != 0' if adv else f'hl != 0 && comp(F[{E}].Type)'
    a(ft,f'hc < EL && {cond}',pr,f'l := hl; b := hp; c := hc; q := ev("newarray", "int", F[{E}].Typ, EL); ev("typedslicecopy", "", F[{E}].Typ, tup(q, EL, EL), tup(b, l, c)); putslice(p, q, EL, EL); {fin}')
    a(ft,'hc < EL',pr,f'q := ev("newarray", "int", F[{E}].Typ, EL); putslice(p, q, EL, EL); {fin}')
    a(ft,'',pr,f'q := hp; put(p+8, "uintptr", EL); {fin}')
SES='ses(farr(tokens,"Type"), farr(tokens,"Elements"), farr(tokens,"End"), ti+1, EN, options.DisallowUnknownFields)'
w(f'let sbad = {SES}')
a('SliceEmptyStruct',f'sbad < EN && tokens[sbad].Type == TokenTypeObject','C05 C04',f'fail(tokens[sbad+1].Index, UNK)')
a('SliceEmptyStruct',f'sbad < EN','C05 C04',f'fail(tokens[sbad].Index, BAD)')
a('SliceEmptyStruct','','C05 C04','putslice(p, ESA, EL, EL); to(ON_VAL_END, EN+1, si)')
SLICES=True
if SLICES: exec(open(os.path.join(HERE,'slices.py')).read())
on('MAIN',AR,'C05 C03','fail(IX, BAD)')
# objects
O='T == TokenTypeObject'
def ob(ft,guard,props,acts): on('MAIN',f'{O} && FT == ExpectType{ft}'+(f' && {guard}' if guard else ''),props,acts)
ob('EmptyStruct','options.DisallowUnknownFields && EL > 0','C04','fail(tokens[ti+1].Index, UNK)')
ob('EmptyStruct','','C04','to(ON_VAL_END, EN+1, si)')
w('let RF = F[si].RecurFrame')
SETD='setarr("Dest", setd(farrF("Dest"), farr(F[{i}].Fields, "FrameIndex"), off(F[{i}].Fields), 0, len(F[{i}].Fields), {p}))'
for g,pre in (('mem(p, "ptr") != 0','q := mem(a, "ptr")'),('','q := ev("mallocgc", "int", F[r].Size, F[r].Typ, true); put(a, "ptr", q)')):
    ob('PtrRecur',(g+' && ' if g else '')+'EL == 0','C16',f'a := p; r := RF; push(si); {pre}; set("Dest", r, q); set("Offset", r, 0); to(ON_RECUR_OBJ_END, ti+2, r)')
    ob('PtrRecur',g,'C16',f'a := p; r := RF; push(si); {pre}; set("Dest", r, q); set("Offset", r, 0); '+SETD.format(i='r',p='q')+'; to(MAIN, ti+1, r)')
for ft,psh in (('MapRecur','push(si); '),('Map','')):
    pr='C07'+(' C16' if psh else '')
    mk='q := ev("makemap", "int", F[si].Typ, EL); put(p, "ptr", q); '
    ob(ft,'mem(p, "ptr") == 0 && EL == 0',pr,mk+'to(ON_VAL_END, ti+2, si)')
    ob(ft,'EL == 0',pr,'to(ON_VAL_END, ti+2, si)')
    ob(ft,'mem(p, "ptr") == 0',pr,mk+psh+'to(MAIN, ti+1, si)')
    ob(ft,'',pr,psh+'to(MAIN, ti+1, si)')
for ft,st in (('Struct','ON_VAL_END'),('StructRecur','ON_RECUR_OBJ_END')):
    pr='C04'+('' if ft=='Struct' else ' C16')
    ob(ft,'EL == 0',pr,f'to({st}, ti+2, si)')
    ob(ft,'',pr,SETD.format(i='si',p='p')+'; to(MAIN, ti+1, si)')
MSS=True
if MSS: exec(open(os.path.join(HERE,'mss.py')).read())
on('MAIN',O,'C04 C06','fail(IX, BAD)')
# keys
exec(open(os.path.join(HERE,'keys.py')).read())
on('MAIN','T == TokenTypeKey','C04','fail(IX, BAD)')
# ends
for ft in ('Struct','Map'): on('MAIN',f'T == TokenTypeObjectEnd && FT == ExpectType{ft}','C04 C07','to(ON_VAL_END, ti+1, si)')
on('MAIN','T == TokenTypeObjectEnd && FT == ExpectTypeMapRecur','C16 C07','n := pop(u32(F[si].RecurFrame)); to(ON_VAL_END, ti+1, n)')
on('MAIN','T == TokenTypeObjectEnd','C16','to(ON_RECUR_OBJ_END, ti+1, si)')
on('MAIN','T == TokenTypeArrayEnd && RSL > 0','C16','n := pop(si); to(ON_VAL_END, ti+1, n)')
on('MAIN','T == TokenTypeArrayEnd','C05 C16','set("Offset", si, 0); to(ON_VAL_END, ti+1, si-1)')
# labels
R='ON_RECUR_OBJ_END'
on(R,'RSL == 0','C16','to(ON_VAL_END, ti, si)')
on(R,'F[TOP.FrameIndex].Type == ExpectTypeSliceRecur','C16','set("Offset", si, F[si].Offset + F[si].Size); to(MAIN, ti, si)')
on(R,'F[TOP.FrameIndex].Type == ExpectTypePtrRecur','C16','n := pop(si); to(ON_VAL_END, ti, n)')
on(R,'F[TOP.FrameIndex].Type == ExpectTypeMapRecur','C16','n := TOP.FrameIndex; d := TOP.Dest; o := TOP.Offset; set("Dest", n, d); set("Offset", n, o); to(MAIN, ti, n)')
on(R,'true','C16','to(MAIN, ti, si)')
V='ON_VAL_END'
on(V,'PAR == noParentFrame','C06 C11','to(MAIN, ti, si)')
on(V,'PT == ExpectTypePtr','C06','to(ON_VAL_END, ti, si-1)')
on(V,'PT == ExpectTypeArray && F[si].Len + 1 < F[si].Cap','C05 C14','set("Len", si, F[si].Len + 1); set("Offset", si, F[si].Offset + F[si].Size); to(MAIN, ti, si)')
on(V,'PT == ExpectTypeArray','C05 C14','set("Len", si, F[si].Len + 1); to(MAIN, skipx(farr(tokens, "Type"), ti, 1, NTOK), si)')
on(V,'PT == ExpectTypeSlice','C05','set("Offset", si, F[si].Offset + F[si].Size); to(MAIN, ti, si)')
on(V,'(PT == ExpectTypeMap || PT == ExpectTypeStruct || PT == ExpectTypeStructRecur)','C04 C07 C16','to(MAIN, ti, PAR)')
on(V,'true','C16','to(MAIN, ti, si)')
Q='ON_PTR'
on(Q,'mem(p, "ptr") != 0','C06 C07','set("Dest", si+1, mem(p, "ptr")); to(MAIN, ti, si+1)')
on(Q,'F[si+1].Size == 0','C06 C07','put(p, "ptr", ESA); set("Dest", si+1, ESA); to(MAIN, ti, si+1)')
on(Q,'true','C06 C07','q := ev("mallocgc", "int", F[si+1].Size, F[si+1].Typ, true); put(p, "ptr", q); set("Dest", si+1, q); to(MAIN, ti, si+1)')
J='ON_JSON_UNMARSHALER'
w('let RAW = s[IX:ite(COMP, tokens[EN].Index+1, EN)]')
call=f'e := ev("{JU}", "val", pure("Value.Interface", "val", %s), seq(RAW)); check(e == nilv, IX, e); to(ON_VAL_END, NEXT, si)'
on(J,'ISP && streq(RAW, "null")','C18 C10','ev("Value.SetZero", "", PV); to(ON_VAL_END, NEXT, si)')
on(J,'ISP && pure("Value.IsNil", "bool", PV)','C18','n := ev("reflect.New", "val", pure("reflect.Type.Elem", "val", RT)); ev("Value.Set", "", PV, n); '+call%'PV')
on(J,'ISP','C18',call%'PV')
on(J,'true','C18',call%'NV')
w('end')
open(os.path.join(OUT,'decode.con'),'w').write('\n'.join(retag(l) for l in '\n'.join(o).split('\n'))+'\n')
