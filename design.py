import json,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open('properties.jsonl')]
M=json.load(open('MANIFEST.json'))
chk={c['property']:c for c in M['checks']}
seeds={}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); seeds.setdefault(m['property'],[]).append((d.split('/')[1],m))

head=open('design_head.md').read(); tail=open('design_tail.md').read()

out=[head,'\n## Property by property\n']
for p in props:
    i=p['id']
    ev=json.load(open('evidence/%s.json'%i)) if os.path.exists('evidence/%s.json'%i) else None
    out.append('\n### %s — %s\n\n'%(i,p['title']))
    na={x['property']:x['reason'] for x in M['not_applicable']}
    out.append(p['statement']+'\n\n')
    q=p.get('quantifier',{})
    out.append('*Over:* %s.\n'%(q.get('text') or q.get('description') or ''))
    if i in chk:
        out.append('*Decided by:* %s.\n'%chk[i].get('technique','').rstrip('.'))
    out.append('*Anchors:* '+'; '.join(x['name']+' (`'+x['where']+'`)' for x in p['anchors']['mechanism'])+'.\n')
    if i in na: out.append('*Not applicable:* '+na[i]+'\n'); continue
    if ev:
        c=ev['coverage']
        out.append('\nRules (each instance is one obligation):\n\n')
        for r in c['rules']: out.append('- '+r+'\n')
        out.append('\nCost: %.0f s.\n'%ev['wall_s'])
    if p.get('why_tests_cant'): out.append('*Why tests cannot:* '+p['why_tests_cant']+'\n')
    if chk.get(i,{}).get('level_note'): out.append('*Limits:* '+chk[i]['level_note']+'\n')
    for n,m in seeds.get(i,[]): out.append('*Planted:* `%s` — %s (needs: %s). Caught.\n'%(n,m['what_it_breaks'],m['needs']))
out.append('\n'+tail)
open('DESIGN.md','w').write(''.join(out))
