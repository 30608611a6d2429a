"""Writes MANIFEST.json from registry + properties."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import registry
N=registry.NOTES
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
ch=[];na=[]
for p in props:
    i=p['id']
    if i in registry.CHECKS:
        ch.append(dict(property=i,quick_cmd='VERIF_TIER=quick python3 bin/check.py '+i,thorough_cmd='VERIF_TIER=thorough python3 bin/check.py '+i,
          technique=N[i][0],level='model_checking',level_note=N[i][1]))
    else: na.append(dict(property=i,reason=registry.NA.get(i,'check not built yet')))
json.dump(dict(version=1,setup_cmd='bash bin/setup.sh',checks=ch,hooks=dict(guard='none',enable='no hooks: the checks observe the public API only',source_commits=[]),not_applicable=na),open(V+'/MANIFEST.json','w'),indent=1)
