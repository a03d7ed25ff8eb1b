# Properties of properties.jsonl decided by each row (C11, C14 and C20 concern every row).
import re
INT=r'U?[Ii]nt(8|16|32|64)?'
def tags(row):
    m=re.match(r'on (\S+) (.*)$',row,re.S); st=m.group(1); rest=m.group(2)
    k=rest.rindex('] ->') if '] ->' in rest else -1
    g=rest[:rest.index(' [C')] if k>=0 else rest[:rest.index(' ->')]
    acts=rest[rest.index('->')+2:]
    f=re.search(r'FT == ExpectType(\w+)',g); f=f.group(1) if f else ''
    T=re.search(r'\bT == TokenType(\w+)',g); T=T.group(1) if T else ''
    kt=' '.join(re.findall(r'KT == ExpectType(\w+)',g)); pt=' '.join(re.findall(r'PT == ExpectType(\w+)',g)); tf=re.search(r'\]\.Type == ExpectType(\w+)',g)
    s=set()
    if st=='ENTRY': s|={'C11'}
    if 'BAD' in acts: s|={'C21'}
    if T and not f and T not in('ObjectEnd','ArrayEnd','Key','Null'): s|={'C21'}
    def elem(n):
        if re.fullmatch(INT,n): s.update({'C01'})
        elif re.fullmatch(INT+'String',n): s.update({'C01','C03'})
        elif n.startswith('Float'): s.update({'C09'}|({'C03'} if n.endswith('String') else set()))
        elif n=='BoolString' : s.add('C03')
        elif n=='StrString': s.update({'C03','C13'})
        elif n in('Str','String'): s.update({'C02','C13'})
        elif n=='Number': s.update({'C13','C03'})
        elif n=='Any':
            s.add('C06')
            if T in('Integer','Number'): s.add('C09')
            if T in('String','Array','Object'): s.update({'C02','C13'})
        elif n=='EmptyStruct': s.add('C05')
    if T=='Null':
        s.add('C10')
        if f in('Ptr','PtrRecur'): s.add('C19')
        if f.startswith('Slice'): s.add('C07')
        if f.startswith('Map'): s.add('C16')
        if f=='TextUnmarshaler': s.add('C18')
        if f=='Any': s.add('C06')
    else:
        if f.startswith('Slice'):
            s.add('C07')
            if f not in('Slice','SliceRecur'): elem(f[5:]); s.add('C10')
        elif f in('Array','ArrayLen0'): s.add('C08')
        elif f.startswith('Map'): s.add('C16')
        elif f in('Struct','StructRecur'): s|={'C04','C05'} if T=='Key' else {'C04'}
        elif f in('Ptr','PtrRecur'): s.add('C19')
        elif f.endswith('Unmarshaler'): s.add('C18')
        else: elem(f)
        if f=='TextUnmarshaler': s.add('C02')
        if f=='MapStringString': s|={'C02','C13','C10'}
    if f.endswith('Recur') : s.add('C17')
    if st=='MAIN' and T=='Key' and kt:
        s.add('C16')
        if re.search(INT,kt): s|={'C01','C03'}
        if 'Str' in kt: s|={'C02','C13'}
        if 'Text' in kt: s|={'C18','C02'}
    if T in('ArrayEnd',) : s|={'C07','C08'}
    if 'RSL' in g or st=='ON_RECUR_OBJ_END': s.add('C17')
    if st=='SCAN_KEYVALS':
        s|={'C04'} if 'FE' in g else {'C05'}
        s|={'C02'} if 'FE' in g else set()
    if st=='ON_PTR': s.add('C19')
    if st=='ON_JSON_UNMARSHALER': s.add('C18'); s|={'C10'} if 'null' in g else set()
    if st=='ON_VAL_END':
        for p,c in(('Array','C08'),('Slice','C07'),('Map','C16'),('Struct','C04'),('Ptr','C19'),('Recur','C17')):
            if p in pt: s.add(c)
        if 'true'==g.strip(): s.add('C17')
        if 'noParent' in g: s.add('C11')
    if tf:
        for p,c in(('Map','C16'),('Slice','C07'),('Ptr','C19')):
            if p in tf.group(1): s.add(c)
    if not s: s.add('C11')
    return sorted(s)
def retag(l):
    if not l.startswith('on '): return l
    t='['+' '.join(tags(l))+'] ->'
    return re.sub(r'\[C[\d C]+\] ->',t,l,1) if re.search(r'\[C[\d C]+\] ->',l) else l.replace('->',t,1)
