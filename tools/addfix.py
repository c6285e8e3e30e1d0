import json,sys
prop,commit,what=sys.argv[1:4]
line=f"fixed: property={prop} {commit} {what}"
with open('/tmp/w/verif/known-findings.jsonl','a') as f:
    f.write(json.dumps({"property":prop,"kind":"fixed","match":"","commit":commit,"what":what,"line":line},ensure_ascii=False)+"\n")
