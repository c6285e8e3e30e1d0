#!/usr/bin/env python3
# writes MANIFEST.json from checks/*.json and the list below
import json,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
NA={
"C19":"Schedules: data races, deadlocks and serialisability under every interleaving of goroutines need permission-based concurrent separation logic (ownership of every mutex-protected field, channel protocols), which the sequential verification-condition generator used here does not have; go statements and channel operations are outside its semantics.",
"C20":"The input of the property is an arbitrary byte sequence that goes through the third-party PHP lexer/parser (go-phpparser) and about 60 recursive tree walkers; contracts would have to specify the whole external syntax tree, which is out of reach of function-by-function contracts here.",
"C21":"Crash points lie inside goleveldb's write-ahead log and file system calls; without a contract for the storage engine's crash behaviour there is nothing to prove in this code base, and assuming that contract would assume the property.",
}
checks=[]
have=set()
for f in sorted(glob.glob('checks/*.json')):
    c=json.load(open(f)); p=c['property']; have.add(p)
    checks.append({"property":p,"quick_cmd":f"bin/check {p} quick","thorough_cmd":f"bin/check {p} thorough",
      "technique":c.get("technique","contract-based deductive verification: contracts on the Go code, verification conditions from its SSA discharged by z3/cvc5"),
      "level":c.get("level","proof"),"level_note":c.get("level_note","Every obligation generated from /repo's current source is discharged by an SMT solver; see evidence for inlined functions, assumptions and the bounded stand-ins.")})
na=[{"property":p["id"],"reason":NA.get(p["id"],"No check yet: contracts for this property are not written.")} for p in props if p["id"] not in have]
m={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na,
   "notes":"All checks run bin/check, which builds govc (the verification-condition generator in govc/) and runs it on /repo's current working tree."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
