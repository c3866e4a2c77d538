#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)));sys.path.insert(0,V)
import targets
C=targets.checks();props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
NA=getattr(targets,'NOT_APPLICABLE',{})
M={'version':1,'setup_cmd':'bash setup.sh','checks':[],'not_applicable':[]}
for p in props:
    if p in C:
        c=C[p];M['checks'].append({'property':p,'quick_cmd':'python3 check.py '+p,'thorough_cmd':'VERIF_TIER=thorough python3 check.py '+p,'technique':c['technique'],'level':c['level'],'level_note':c['note']})
    else: M['not_applicable'].append({'property':p,'reason':NA.get(p,'no check built yet')})
M['notes']='No hooks: the code under test is compiled as it is from /repo, the monitors sit at its public interfaces. Repairs of defects are the fix: commits in /repo; see known-findings.txt and DESIGN.md.'
json.dump(M,open(V+'/MANIFEST.json','w'),indent=1);print(len(M['checks']),'checks')
