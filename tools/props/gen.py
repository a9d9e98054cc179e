#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"props.py")).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
