#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/*/spec.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
reasons=json.load(open(V+"/tools/props/not_applicable.json"))
for p in props:
    sp=V+"/harness/%s/spec.json"%p["id"]
    if os.path.exists(sp) and p["id"] not in reasons:
        s=json.load(open(sp))
        checks.append(dict(property=p["id"],quick_cmd="bin/check %s quick"%p["id"],thorough_cmd="bin/check %s thorough"%p["id"],
            technique=s["technique"],level=s["level"],level_note=s["note"]))
    else:
        na.append(dict(property=p["id"],reason=reasons.get(p["id"],"Not claimed: its check is not built (yet).")))
m=dict(version=1,setup_cmd="bin/setup",
 hooks=dict(guard="verif (no hook is compiled into /repo; the checks add files and instrumented copies through a go build overlay)",
            enable="go test -c -overlay FILE.json, generated by bin/check for each run",source_commits=[]),
 checks=checks,not_applicable=na,
 notes="Run from /verif. bin/check ID quick|thorough; see DESIGN.md.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
print(len(checks),"checks",len(na),"not claimed")
