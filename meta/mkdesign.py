#!/usr/bin/env python3
# Regenerates DESIGN.md from meta/design_head.md, meta/design_notes.py,
# properties.jsonl, contracts/, seeded/ and known_findings.txt.
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
N={}; exec(open(root+'/meta/design_notes.py').read(),N); NOTES=N['NOTES']
C={}; exec(open(root+'/meta/claims.py').read(),C)
funcs={}; lemmas={}; trusted=[]
for f in sorted(glob.glob(root+'/contracts/*.go')):
    cur=None
    for l in open(f):
        m=re.match(r'//@ (func|lemma) ([^\s]+(?:\([^)]*\))?[^\s]*)',l)
        if m and m.group(1)=='func': cur=('f',m.group(2))
        elif m: cur=('l',re.match(r'//@ lemma (\w+)',l).group(1))
        m=re.match(r'//@ property (.*)',l)
        if m and cur:
            for p in m.group(1).split():
                (funcs if cur[0]=='f' else lemmas).setdefault(p,[]).append(cur[1])
        m=re.match(r'//@ trusted(.*)',l)
        if m and cur: trusted.append((cur[1],m.group(1).strip()))
seeds={}
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(f)),m))
known=[l.strip() for l in open(root+'/known_findings.txt') if l.strip() and not l.startswith('#')]
o=[open(root+'/meta/design_head.md').read().rstrip(),'','## Properties','']
for p in props:
    i=p['id']
    o+=[f'### {i} {p["title"]}','']
    if i not in C['CLAIMS']:
        o+=['Not applicable: '+C['NA'].get(i,'-'),'']; continue
    o+=[NOTES[i].strip(),'']
    fs=[x for x in funcs.get(i,[]) if '#' not in x]; fr=[x for x in funcs.get(i,[]) if '#' in x]
    o+=['Functions under contract: '+', '.join(f'`{x}`' for x in fs)+'.']
    if fr: o+=['Second, weaker contracts (frame or size only): '+', '.join(f'`{x}`' for x in fr)+'.']
    if lemmas.get(i): o+=['Lemmas: '+', '.join(f'`{x}`' for x in lemmas[i])+'.']
    o+=['Beyond the front end, the solvers and the model: '+C['CLAIMS'][i]['note'].replace(C['BASE'],'').strip()] if C['CLAIMS'][i]['note'].replace(C['BASE'],'').strip() else []
    if seeds.get(i): o+=['Planted bugs its check catches: '+'; '.join(f'`{a}` ({m["what_it_breaks"]})' for a,m in seeds[i])+'.']
    o+=['']
o+=['## Contracts that are assumed','']+[f'- `{a}`: {b}' for a,b in trusted]+['']
o+=['## Defects found in arl/go-detour','','Each was shown on the real code by a harness case before it was repaired; the list is `known_findings.txt`.','']
o+=['- '+l for l in known]+['',open(root+'/meta/design_tail.md').read().rstrip(),'']
open(root+'/DESIGN.md','w').write('\n'.join(o))
