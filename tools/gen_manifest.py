import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
from importlib.machinery import SourceFileLoader
m=SourceFileLoader('lv',root+'/tools/levels.py').load_module()
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in m.LEVELS:
        t,n=m.LEVELS[i]
        checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",technique=t,level="model_checking",level_note=n))
    else:
        na.append(dict(property=i,reason="check under construction"))
json.dump(dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="none",enable="No hooks: the checkers replace the crates rayon-core and mpi-fork-fnsp by [patch.crates-io] in their own Cargo.toml; /repo is built unmodified.",source_commits=[]),checks=checks,not_applicable=na),open(root+'/MANIFEST.json','w'),indent=1)
