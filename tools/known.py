#!/usr/bin/env python3
"""known.py PROP COMMIT text : append a fixed entry"""
import sys,json
V="/verif/known_findings.jsonl"
prop,com,what=sys.argv[1:4]
L=[json.loads(l) for l in open(V) if l.strip()]
n=sum(1 for l in L if l["property"]==prop)+1
open(V,"a").write(json.dumps({"property":prop,"key":"fixed-%d"%n,"status":"fixed","commit":com,"what":"fixed: property=%s %s %s"%(prop,com,what)},separators=(",",":"))+"\n")
