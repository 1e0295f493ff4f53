import json,sys
sys.path.insert(0,'/verif/harness')
from plan import PROPS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE=json.load(open('/verif/tools/notes.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in PROPS:
        checks.append(dict(property=i,
            quick_cmd='VERIF_TIER=quick python3 harness/check.py %s'%i, thorough_cmd='VERIF_TIER=thorough python3 harness/check.py %s'%i,
            technique=NOTE.get(i,{}).get('technique','TLA+ trace validation with TLC: scenarios enumerated from a TLA+ design model are replayed on the real code and every recorded event is checked against the trace specification'),
            level='model_checking', level_note=NOTE.get(i,{}).get('note','TLC decides; the design model is exhaustive, the replayed inputs are bounded samples')))
    else:
        na.append(dict(property=i, reason='check under construction'))
m=dict(version=1, setup_cmd='python3 harness/setup.py', checks=checks, not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
