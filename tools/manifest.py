"""Writes ../MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NOTE='Held on the generated executions only (seeded workload, counts in the evidence file); trusts gcc sanitizers and the independent reference formulas of the driver.'
m={'version':1,'setup_cmd':'python3 run.py build C23','checks':[],'not_applicable':[],
   'notes':'run.py builds every driver with /repo\'s current sources (ASan+UBSan+libstdc++ debug mode), runs seeded cases on 8 cores and judges them with in-process monitors. No hooks are needed in /repo: every property is observed through the public API.'}
for p in props:
    i=p['id']
    if i in CHECKS:
        m['checks'].append({'property':i,'quick_cmd':'python3 run.py check '+i,'thorough_cmd':'VERIF_TIER=thorough python3 run.py check '+i,
          'technique':CHECKS[i].get('technique','runtime monitoring: seeded workload under ASan/UBSan with an in-process reference-model monitor'),'level':'exploration','level_note':CHECKS[i].get('note',NOTE)})
    else: m['not_applicable'].append({'property':i,'reason':'runtime monitoring applies, but its check is not built yet'})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
