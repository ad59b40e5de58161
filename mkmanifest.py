#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and properties.jsonl."""
import json,os,re,glob
H=os.path.dirname(os.path.abspath(__file__))
ids=set()
for f in glob.glob(H+'/harness/*.go'):
    ids|=set(re.findall(r'^\s*ID:\s*"(C\d\d)"',open(f).read(),re.M))
T={
'C01':("property-based testing of the real server against a reference filter evaluator",""),
'C02':("property-based testing of the real server against a reference filter evaluator (specified and known-defect model)",""),
'C03':("stateful model-based property testing of the real server",""),
'C04':("property-based round-trip testing (submitted ticket vs. offered ticket) of the real server",""),
'C05':("stateful property-based testing over ticket ages with real and simulated clocks",""),
'C06':("property-based fault injection into a fake Redis with content-marked updates under generated concurrency",""),
'C07':("stateful property-based testing with fault injection; oracle: fold of the stored log",""),
'C08':("property-based fault injection (outages, dropped and hanging connections) with load invariants",""),
'C09':("property-based testing of the storage command history against invariants",""),
'C10':("property-based testing of chunked requests against size, completeness and partition invariants",""),
'C11':("property-based round-trip testing over random chunkings, in process",""),
'C12':("property-based testing with generated match function scripts; oracle: multiset equality of matches",""),
'C13':("property-based testing with generated match function scripts and slow replication",""),
'C14':("property-based testing of requests around the limits and of malformed ids; oracle: storage log unchanged or exact",""),
'C15':("stateful property-based testing of watchers",""),
'C16':("structured fuzzing of requests, match function behaviour and stream entries; oracle: the server survives and still answers correctly",""),
'C17':("property-based testing of the match functions over generated profiles, in process",""),
'C18':("differential property-based testing REST vs. gRPC",""),
'C19':("property-based testing over generated configurations against observed behaviour",""),
'C20':("stateful property-based testing; oracle: counts of the call history vs. published metrics",""),
'C21':("property-based testing of the example matchmaker against a scripted fake server",""),
'C22':("generated concurrent histories with an interval oracle over invocations",""),
'C23':("property-based testing of slow and hanging match functions against time bounds",""),
'C24':("metamorphic property-based testing: generated rounds of calls repeated, against goroutines, descriptors and live heap",""),
'C25':("property-based crash testing: stop or kill at generated moments under generated load; oracle: the stored history",""),
'C26':("property-based testing of prompt calls next to generated inconsiderate peers; oracle: latency bounds far above normal and far below the stalls",""),
}
NOTE="Generated-input search on the real code, seeded by VERIF_SEED; a shrunk failing case is written as replay file (./replay.sh). Trusts the harness's fake Redis (stream subset) and its reference models; not a proof."
P=[json.loads(l) for l in open(H+'/properties.jsonl')]
checks=[];na=[]
for p in P:
    i=p['id']
    if i in ids:
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick ./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":T[i][0],"level":"exploration","level_note":NOTE})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"No hooks are needed: the checks drive the unmodified binaries and exported packages built from /repo's working tree.","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"See DESIGN.md. known-findings.txt lists recorded and repaired defects."}
open(H+'/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
print(len(checks),"checks")
