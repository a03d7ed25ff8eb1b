#!/usr/bin/env python3
"""Type catalogue of the bounded input search: fixed types per property plus seeded random ones.
usage: gen_types.py PROP SEED N > catalogue_test.go"""
import random, sys
prop, seed, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
R = random.Random(f"{prop}/{seed}")
INTS = "int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64".split()
SC = ["bool", "string", "float32", "float64"] + INTS
NUM = "jscandec.Number"
UN = ["UJ", "UJS", "UT", "UTS", "UTI", "UM", "UE", "UJB", "UJ8", "UTF", "UT0", "UTL", "UJA", "NIJ"]
NAMED = ["NStr", "NInt", "NBool", "NF", "NSl", "NMap", "NAny"]
REC = ["RP", "RS", "RM", "RA", "RLP", "RMP", "RLL", "RAR", "RT", "SH", "PR", "RX", "RY", "RQ", "R1P", "R1M", "R1S", "R1K", "RW"]
KEYS = ["string", "NStr", "UJS", "NIJ", "UT", "UTS", "UTI", NUM] + INTS
NAMES = ["a", "A", "b", "B", "aa", "aA", "Aa", "AA", "k", "K", "\u212a", "s", "S", "\u017f", "ks", "KS", "key", "Key", "KEY", "id", "Id", "ID", "x-y", "ä", "Ä", "日本", "field", "fielD", "name", "Name", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"]

def scalar():
    return R.choice(SC + [R.choice(INTS)] * 2 + ["string", "bool"])

def field(i, d, w):
    fn = "F%d" % i
    tag = ""
    t = typ(d - 1, w)
    r = R.random()
    if r < w.get("tag", .4):
        nm = R.choice(NAMES)
        tag = nm
    opts = []
    if R.random() < w.get("omit", .1): opts.append("omitempty")
    if R.random() < w.get("str", .12):
        opts.append("string")
        if R.random() < .8: t = scalar()
    R.shuffle(opts)
    if opts: tag += "," + ",".join(opts)
    elif tag and R.random() < .05: tag += ","
    if R.random() < .03: tag = R.choice(["-", "-,"])
    if R.random() < .04: fn = "f%d" % i          # unexported
    return fn, t, tag

def struct(d, w):
    n = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]) if not w.get("wide") else R.randint(1, 13)
    seen, out = set(), []
    for i in range(n):
        fn, t, tag = field(i, d, w)
        nm = tag.split(",")[0] if tag != "-" else None
        if tag == "-,": nm = "-"
        if not nm and tag != "-": nm = fn
        if nm in seen: continue
        seen.add(nm)
        out.append(fn + " " + t + (' `json:"%s"`' % tag if tag else ""))
    return "struct { " + "; ".join(out) + " }"

def typ(d, w):
    r = R.random()
    if d <= 0 or r < w.get("leaf", .25):
        r = R.random()
        if r < w.get("un", .06): return R.choice(UN)
        if r < w.get("un", .06) + .05: return NUM
        if r < .2: return R.choice(NAMED)
        if r < .28: return "any"
        if r < .31: return R.choice(["struct{}", "[0]int", "[]struct{}"])
        if r < .31 + w.get("rec", .03): return R.choice(REC)
        return scalar()
    k = R.choices(["ptr", "slice", "array", "map", "struct", "tslice"],
                  [w.get("ptr", 1.2), w.get("slice", 1.5), w.get("array", 1), w.get("map", 1), w.get("struct", 2.5), w.get("tslice", 1)])[0]
    if k == "ptr": return "*" + typ(d - 1, w)
    if k == "slice": return "[]" + typ(d - 1, w)
    if k == "tslice": return "[]" + scalar()
    if k == "array": return "[%d]%s" % (R.choice([0, 1, 1, 2, 2, 3, 4, 7]), typ(d - 1, w))
    if k == "map": return "map[%s]%s" % (R.choice(KEYS if R.random() < .6 else ["string"]), typ(d - 1, w))
    return struct(d, w)

FIX, W = [], {}
wrap = lambda t: [t, "[]" + t, "[2]" + t, "*" + t, "map[string]" + t, "struct { A %s; B %s }" % (t, t)]
if prop == "C01":
    for t in INTS: FIX += wrap(t) + ["[]*" + t, "struct { A []%s; B *%s }" % (t, t)]
    W = dict(leaf=.5)
elif prop == "C02":
    for t in ["string", "any", "NStr", "UT", "UTS"]: FIX += wrap(t)
    FIX += ["map[string]string", "map[NStr]NStr", "map[string]any", "map[UT]int", "[]map[string]string", "map[string]map[string]string"]
elif prop == "C03":
    ks = ["bool", "string", "float32", "float64", "NStr", "NInt", "NBool", "NF"] + INTS
    for t in ks: FIX.append('struct { A %s `json:",string"`; B int }' % t)
    FIX += wrap(NUM) + ["map[%s]%s" % (k, v) for k in INTS for v in ("any", "string")] + ["map[NInt]any", "map[UTI]int"]
    W = dict(str=.7, struct=5)
elif prop == "C04":
    for n in (16, 17, 40, 259):
        FIX.append("struct { " + "; ".join("F%d int16" % i for i in range(n)) + " }")
        FIX.append("struct { " + "; ".join('F%d string `json:"k%s"`' % (i, "x" * i if n < 50 else i) for i in range(n)) + " }")
    W = dict(wide=1, tag=.85, struct=8, leaf=.5)
elif prop == "C05":
    FIX += ["struct { A int }", "struct { A []struct { B int }; C string }", "struct{}", "[]struct{}", "struct { A struct{}; B int }", "map[string]struct { A, B int }", "struct { a int; B bool }", "RP", "RA", "*struct { A *struct { B int } }", "[]struct { A int }", "struct { A struct { B struct { C int }; D int }; E int }"]
    W = dict(struct=6)
elif prop == "C06":
    FIX += wrap("any") + ["NAny", "[]NAny", "map[string]any", "map[int]any", "struct { A any; B []any; C map[string]any; D *any; E [2]any }"]
    W = dict(leaf=.4)
elif prop == "C07":
    for t in SC + ["NStr", "NInt", "NBool", "NF", NUM, "any", "struct{}", "struct { A, B int }", "*int", "[]int", "[2]int", "map[string]int", "map[string]string", "UJ", "UJS", "UT", "UTS", "struct { A struct{} }", "[0]int", "RS"]:
        FIX += ["[]" + t, "[][]" + t]
        if t in SC: FIX += ["struct { A []%s; B int }" % t, "[2][]" + t]
    W = dict(slice=5, tslice=5)
elif prop == "C08":
    for t in ["int", "string", "bool", "int8", "any", "struct { A, B int }", "*int", "[]int", "[2]int8", "[0]int", "map[string]int", "UJ", "UT", "struct{}", NUM, "float32"]:
        for n in (0, 1, 2, 5): FIX.append("[%d]%s" % (n, t))
        FIX += ["struct { P int8; A [2]%s; Q int8 }" % t, "[][2]" + t, "[2][3]" + t]
    FIX += (["[65538]uint8"] if seed % 2 == 0 else []) + ["[300]int8", "[257]string", "struct { A [256]bool; B int8 }", "[2][128]int16"]
    W = dict(array=8)
elif prop == "C09":
    for t in ["float32", "float64", "NF", "any"]: FIX += wrap(t)
    W = dict(leaf=.5)
elif prop == "C10":
    for t in SC + [NUM, "any", "struct { A int }", "struct{}", "*int", "[]struct{}", "UJ", "UT", "*UJ", "*UT", "UM", "[2]int", "[0]int", "map[string]string", "map[string]int", "[]any", "RP", "[]RS", "**int", "UTS", "*UTS"] + ["[]" + s for s in SC]:
        FIX += ["struct { A %s; B int }" % t, "[]" + t, "[3]" + t, "map[string]" + t, "*" + t]
    for t in SC: FIX.append('struct { A %s `json:",string"`; B int }' % t)
elif prop == "C12":
    FIX += REC + ["[]" + r for r in REC] + ["struct { A [2]RP; B RA; C map[string]RS }", "[][]int8", "[2][2]int8", "map[string][]int8", "struct { A []struct { B []int8 } }", "[]*RA"]
elif prop == "C14":
    FIX += ["[3]int8", "[2][3]int8", "[]struct{ A struct{}; B int8 }", "struct { A int8; B [3]int16; C int8; D struct { X, Y int8 }; E bool }", "[4]bool", "[3]string", "[2]struct { A int8; B *int8; C int8 }", "[0]int", "struct { A [0]int; B int8 }", "struct { A struct{}; B int8; C [0]string; D int8 }", "map[string][3]int8", "map[string]struct{ A int8; B [2]int8 }", "[]RS", "[2]RP", "[2]RA", "struct { A []RS; B *RS; C map[string]*RS; X RM; Y RM }", "struct { A *int8; B int8 }", "struct { L []int8; N int8 }", "[2][]int8"] + ["struct { P int8; A %s; Q int8 }" % t for t in SC + ["any", NUM, "UJ", "UT", "[]int", "*int", "map[string]int"]] + ['struct { P int8; A %s `json:",string"`; Q int8 }' % t for t in SC] + ["[2]" + t for t in SC]
    FIX += ["struct { A int8; P [300]int8; B int8; C string }"] + (["struct { A int8; P [66000]uint8; B int8; C string; D []int8 }"] if seed % 2 == 0 else []) + ["[3]struct { A int8; P [260]int8; B int8 }", "map[string]struct { A int8; P [300]int8; B int8 }", "map[int]struct { P [130]uint8; B int8 }"]
elif prop == "C16":
    for k in KEYS:
        for v in ["int8", "string", "struct { A, B int }", "[]int", "map[string]int", "any", "*int"]: FIX.append("map[%s]%s" % (k, v))
    FIX += ["map[string]map[string]string", "map[string]UJ", "map[string]UT", "map[string]UJS", "map[NStr]NStr", "map[string]NStr", "map[string]" + NUM, "map[string]struct{}", "map[string][0]int", "map[string][200]byte", "map[string][2]int", "struct { A map[string]string; B map[string]int; C int }", "RM", "RMP", "map[string]RM", "[]map[string]string"]
    W = dict(map=8)
elif prop == "C17":
    FIX += REC * 3 + ["[]" + r for r in REC] + ["map[string]" + r for r in REC] + ["*" + r for r in REC] + ["[2]" + r for r in REC] + ["struct { A int8; B %s; C string }" % r for r in REC] + ["struct { A []%s; B int }" % r for r in REC]
    FIX += ["struct { A []RS; B *RS; C map[string]*RS; X RM; Y RM }", "struct { A []RA; B *RA; C map[string]*RP; X RP; Y *RM; Z map[string]RM; Q [2]RLL; S *RLL }", "struct { A RP; B *RP; C int }", "struct { A RA; B []RA; C map[string]RA; D int }", "PR", "[]PR"]
    W = dict(rec=.6)
elif prop == "C18":
    for t in UN: FIX += wrap(t) + ["[]*" + t, "**" + t, "map[string]*" + t, "[][]" + t, "struct { A *%s; B int; C []%s }" % (t, t)]
    FIX += ["map[UT]int", "map[UTS]string", "map[UTI]UJ", "map[UTS]UTS", "map[string]UTS", "map[string]UJS", "[]UJS", "[]UTI"]
    W = dict(un=.6)
elif prop == "C19":
    for t in SC + ["any", "struct { A int; B string }", "[]int", "[2]int", "map[string]int", "map[string]string", "*string", "**int", "struct{}", NUM, "UJ", "UT", "[]*int", "RP"]:
        FIX += ["*" + t, "[]*" + t, "[2]*" + t, "map[string]*" + t, "struct { A *%s; B *%s; C int }" % (t, t)]
    W = dict(ptr=8)
elif prop == "C21":
    for t in SC + [NUM, "any", "struct{}", "[]struct{}", "struct { A int }", "[0]int", "[2]int", "[]any", "map[string]string", "map[string]int", "UJ", "UT", "*int", "RP"] + ["[]" + s for s in SC]:
        FIX += [t, "struct { A %s; B int }" % t, "[]" + t, "[2]" + t, "map[string]" + t, "*" + t]
    for t in SC: FIX.append('struct { A %s `json:",string"`; B int }' % t)
else:
    for t in SC + [NUM, "any", "struct { A int }", "struct{}", "[]struct{}"] + UN + NAMED + REC: FIX += [t, "[]" + t, "struct { A %s; B int }" % t]
    for t in SC: FIX += ["map[string]" + t, "[2]" + t, "*" + t, 'struct { A %s `json:",string"`; B int }' % t]
    FIX += ["map[%s]int" % k for k in KEYS]
BAD = ["func()", "chan int", "complex64", "complex128", "uintptr", "unsafe.Pointer", "error", "fmt.Stringer", "map[bool]int", "map[float64]int", "map[struct{}]int", "map[[2]int]int", "map[any]int", "map[*int]int", "map[UJ]int", "map[*UT]int", "map[error]int", "map[interface{ UnmarshalText([]byte) error }]int", "map[complex64]int", "map[chan int]int", "map[NBool]int", "map[NF]string", "interface{ UnmarshalJSON([]byte) error }", "interface{ M() }", "map[float32]string"]
OKT = SC + [NUM, "any", "struct{}", "UJ", "UT", "UTS", "UM", "RP", "RA", "NStr", "[]struct{}", "[0]int", "[0]func()", "[2]int", "map[string]string", "map[UT]int", "map[UTS]int", "map[UTI]string", "map[UJS]string", "map[UJS]int", "map[NIJ]bool", "map[NStr]int", "map[NInt]any", "[]byte", "**int", "struct { a func(); B int }", 'struct { F func() `json:"-"`; B int }', "map[%s]int" % NUM] + ["map[%s]bool" % i for i in INTS]
def bad():
    t = R.choice(BAD)
    for _ in range(R.choice([0, 1, 1, 2, 3])):
        t = R.choice(["[]%s", "[2]%s", "*%s", "map[string]%s", "struct { A int; B %s }", "struct { A int; B %s; C string }", 'struct { A int; b %s }', 'struct { A %s `json:"-"` }', 'struct { A %s `json:"-,"` }', 'struct { A %s `json:",string"` }', "map[int]%s", "[0]%s", "[]struct { X %s }"]) % t
    return t
def strtag():
    t = R.choice(OKT)
    if R.random() < .4: t = R.choice(["[]%s", "*%s", "[1]%s", "map[string]%s", "struct { A %s }"]) % t
    tag = R.choice([",string", "n,string", ",omitempty,string", "n,string,omitempty", ",String", "string", "-,string", ",string "])
    t = 'struct { Z int; F %s `json:"%s"`; B bool }' % (t, tag)
    if R.random() < .3: t = R.choice(["[]%s", "*%s", "map[string]%s", "struct { A %s }"]) % t
    return t
CT = []
if prop == "C15":
    CT = BAD + OKT + [bad() for _ in range(220)] + [strtag() for _ in range(160)] + ['struct { F %s `json:",string"` }' % t for t in OKT]
    for _ in range(60): CT.append(typ(3, W))
    CT = list(dict.fromkeys(CT))
W = dict(dict(), **W)
types = list(dict.fromkeys(FIX))
while len(types) < len(set(FIX)) + N:
    t = typ(R.choice([1, 2, 2, 3, 3, 4]), W)
    if "RAR" in t and "[" in t and prop not in ("C17",): continue
    # RQ twice in one type gives two nested recursion targets (known finding KF1)
    if t.count("RQ") > 1: continue
    if len(t) < 400 and t not in types: types.append(t)
DIR = {"C01": INTS + ["[]int8", "[]uint64"], "C02": ["string", "any", "map[string]string"], "C03": [NUM, "map[int8]any"], "C04": ["struct { A, B int }"],
       "C09": ["float32", "float64", "[]float64"], "C17": ["RP", "RS", "RM", "RA"], "C10": ["int", "[]int", "*int", "UT"], "C11": ["int8", "string", "any", "RA", "[]int", "map[string]any", "*int", "struct { V []any; P any }"],
       "C12": ["RA", "[2]int8"], "C18": ["UJ", "*UJ", "UT", "UM"], "C06": ["any"], "C07": ["[]int", "[]string", "[][]any"], "C08": ["[2]int", "[0]int"], "C16": ["map[string]int", "map[string]string"],
       "C19": ["*int", "**string"], "C05": ["struct { A int }"], "C21": ["int", "string", "[]bool"], "C14": ["[3]int8"], "C13": ["string", "any"], "C20": ["any", "RA", "string"]}.get(prop, ["any", "RA"])
print("package jscandec_test\n\nimport (\n\t\"fmt\"\n\t\"unsafe\"\n\n\tjscandec \"github.com/romshark/jscan-experimental-decoder\"\n)\n\nvar _ jscandec.Number\nvar _ fmt.Stringer\nvar _ unsafe.Pointer\n\nfunc catalogue() []runner {\n\treturn []runner{")
for i, t in enumerate(types): print("\t\tptr[%s](%s)," % (t, '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'))
for t in DIR: print("\t\tdir[%s](\"%s\")," % (t, t))
print("\t}\n}")
print("\nfunc constructCatalogue() []ctorRunner {\n\treturn []ctorRunner{")
for t in CT: print("\t\tctor[%s](%s)," % (t, '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'))
print("\t}\n}")
