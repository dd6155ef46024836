#!/usr/bin/env python3
# Writes MANIFEST.json.
import json,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C23":"constant time is a property of pairs of executions' timing; the functional contracts of this family say nothing about instructions executed or memory touched, and no deductive back end here models them"}
CLAIM=sys.argv[1:] if len(sys.argv)>1 else [p['id'] for p in props if p['id'] not in NA]
NOTE=json.load(open('/verif/tools/notes.json'))
checks=[]
for p in props:
    i=p['id']
    if i in CLAIM:
        checks.append({"property":i,"quick_cmd":f"bin/gov check {i} quick","thorough_cmd":f"bin/gov check {i} thorough","technique":"contract-based deductive verification of the Go source (own VC generator over Go SSA; z3 and cvc5 discharge the obligations)","level":"proof","level_note":NOTE.get(i,NOTE["*"])})
na=[{"property":p['id'],"reason":NA.get(p['id'],"not yet under contract")} for p in props if p['id'] not in CLAIM]
json.dump({"version":1,"setup_cmd":"bash tools/setup.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
