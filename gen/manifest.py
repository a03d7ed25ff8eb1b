# Generates MANIFEST.json (run: python3 gen/manifest.py)
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps=[json.loads(l) for l in open(V+'/properties.jsonl')]
proved={}
for n in sorted(os.listdir(V+'/contracts')):
    t=open(V+'/contracts/'+n).read()
    for blk in re.split(r'^(?=func )',t,flags=re.M)[1:]:
        m=re.match(r'func (\S+?)\(',blk); q=re.search(r'^props (.*)$',blk,re.M)
        for c in (q.group(1).split() if q else []): proved.setdefault(c,[]).append(m.group(1))
        rows={}
        for r in re.finditer(r'^on .*?\[((?:C\d\d ?)+)\] ->',blk,re.M):
            for c in r.group(1).split(): rows[c]=rows.get(c,0)+1
        for c in rows:
            if not (q and c in q.group(1).split()): proved.setdefault(c,[]).append('%s (%d step rows)'%(m.group(1),rows[c]))
checks=[]
extra={"C12":" What is proved: every return of Decode leaves all frames without destination, without saved states and with the base offset of the outermost saved state; pushRecursion and popRecursion save and restore exactly the destinations, offsets and lengths of the chain of frames. That no other frame field is written follows from the frame conditions of the step rows (C14). That a step never reads a Len left over from an earlier call is argued in DESIGN.md and exercised by the bounded companion, not proved.",
"C15":" What is proved: of every plan that is built without error, for all types and all option values: the type, Go type, size, offset, capacity and links of every frame, the field list with names taken from the tags, the `string` option and its enforcement, recursion frames and targets, that every supported type (any solution of the recursive equation for what is supported) is accepted, that a supported type with a useless `string` option gives the dedicated error exactly where the option says so, and that other types give an error. Package reflect is uninterpreted (its methods are pure functions of their receiver), plans are shorter than 2^31 frames."}
for p in ps:
    i=p['id']; pr=i in proved
    checks.append(dict(property=i,quick_cmd="python3 check.py %s quick"%i,thorough_cmd="python3 check.py %s thorough"%i,
      technique="contract-based deductive verification (gocon: VCs from go/ssa, SMT)" if pr else "bounded stand-in for a function not yet under contract: differential testing against an independent reference decoder",
      level="proof" if pr else "exploration",
      level_note=("Under contract: "+", ".join(proved[i][:12])+". Callees, tokenizer and decoder-plan facts the steps rely on are listed as assumptions in the evidence; the public API end to end is additionally covered by a bounded companion (not counted as proved)."+extra.get(i,"")+" See DESIGN.md." if pr else
        "Bounded: no contract discharges this property yet; seeded differential search over the public API against an independent reference decoder, with generated destination types. Not counted as proved.")))
json.dump(dict(version=1,setup_cmd="python3 check.py --setup",checks=checks,not_applicable=[],
  notes="No hooks in /repo. Obligations are generated from /repo's working tree on every run. See DESIGN.md."),open(V+'/MANIFEST.json','w'),indent=1)
