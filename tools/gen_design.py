#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md + one section per property put together from the check's own
EXPLAIN/RULE/ASSUME, the limits below, known_findings.jsonl and the planted bugs. Design time only; no check runs it."""
import json,os,sys,importlib,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
M=json.load(open(V+'/MANIFEST.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed={c['property']:c for c in M['checks']}
na={c['property']:c['reason'] for c in M['not_applicable']}
LIM={}
exec(open(V+'/tools/design_limits.py').read())
seeds={}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(d)),m['what_it_breaks'],m.get('caught',True)))
kf={};fx={}
for l in open(V+'/known_findings.jsonl'):
    l=l.strip()
    if not l: continue
    try: d=json.loads(l)
    except Exception: d={'raw':l}
    raw=d.get('raw') or d.get('note') or ''
    p=d.get('property')
    s=json.dumps(d)
    if 'fixed' in d or 'fixed:' in s[:40]:
        t=d.get('fixed') or raw
        import re
        m=re.search(r'property=(C\d\d)',s); p=p or (m and m.group(1))
        fx.setdefault(p,[]).append(t if isinstance(t,str) else s)
    else: kf.setdefault(p,[]).append(d)
out=[open(V+'/tools/design_head.md').read().rstrip(),'','## Per property','']
for p in props:
    i=p['id']; out.append(f"### {i} {p['title']}\n")
    if i not in claimed:
        out.append(f"Not claimed: {na.get(i,'')}\n"); continue
    m=importlib.import_module('sa.checks.'+i.lower())
    out.append('*How it is decided.* '+' '.join(getattr(m,'EXPLAIN','').split())+'\n')
    out.append('*Rule.* '+' '.join(getattr(m,'RULE','').split())+'\n')
    if getattr(m,'ASSUME',None): out.append('*Assumes.* '+'; '.join(m.ASSUME)+'.\n')
    if i in LIM: out.append('*Not covered.* '+LIM[i]+'\n')
    for d in kf.get(i,[]): out.append('*Known finding.* '+(d.get('what') or d.get('summary') or json.dumps(d))+'\n')
    if i in seeds:
        out.append('*Planted bugs caught by this check.* '+'; '.join(f"`{a}` ({b})" for a,b,c in seeds[i] if c)+'.\n')
        miss=[f"`{a}` ({b})" for a,b,c in seeds[i] if not c]
        if miss: out.append('*Planted bugs missed.* '+'; '.join(miss)+'.\n')
open(V+'/DESIGN.md','w').write('\n'.join(out).rstrip()+'\n')
