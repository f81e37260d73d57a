#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from contracts/properties.json and properties.jsonl.
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
conf=json.load(open(os.path.join(here,"contracts","properties.json")))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
NA=json.load(open(os.path.join(here,"tools","not_applicable.json")))
NOTE="Every obligation generated from the current source of the functions under contract is discharged by an SMT solver, for all inputs and iterations. Assumes: the stated contracts of external functions, abstract floating point, lengths below 2^60, one goroutine per table, termination. Trusted: govc (the obligation generator in govc/), go/ssa, z3, cvc5. A bounded run of the real code replays the same property and supplies failing inputs; it is not counted as proved."
checks=[]
na=[]
for x in props:
    c=conf.get(x["id"])
    if c is None:
        na.append({"property":x["id"],"reason":NA[x["id"]]}); continue
    checks.append({"property":x["id"],"quick_cmd":"bash check.sh %s quick"%x["id"],"thorough_cmd":"bash check.sh %s thorough"%x["id"],
      "technique":"contract-based deductive verification of the Go source (govc: weakest preconditions over go/ssa, SMT)"
        +("; the composition of the proved parts by a bounded run-time check" if c.get("level")=="other" else ""),
      "level":c.get("level","proof"),"level_note":(c.get("level_note","")+" " if c.get("level_note") else "")+NOTE})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: contracts live in /verif/contracts and the checks read the unmodified source","source_commits":[]},
   "checks":checks,"not_applicable":na,
   "notes":"check.sh builds the verifier and the replay drivers from /verif and /repo on every run; nothing is cached between runs."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
print(len(checks),len(na))
