import json,subprocess,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/gen/manifest_notes.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    n=notes.get(i)
    if n and 'na' not in n:
        checks.append({'property':i,'quick_cmd':f'bin/check {i}','thorough_cmd':f'bin/check {i} thorough','technique':n['technique'],'level':n['level'],'level_note':n['note']})
    else:
        na.append({'property':i,'reason':(n or {}).get('na','not built yet')})
m={'version':1,'setup_cmd':'bin/setup','hooks':{'guard':'bladeink_verif','enable':'RUSTFLAGS="--cfg bladeink_verif"','source_commits':['4dc3288']},'checks':checks,'not_applicable':na}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
