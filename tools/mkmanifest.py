import json
TECH={}  # property -> (technique, note)
VG="guarded value-graph dataflow over go/ssa compared with specification value graphs"
def t(ids,tech,note):
    for i in ids.split(): TECH[i]=(tech,note)
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in TECH:
        checks.append(dict(property=i,quick_cmd='bash check.sh '+i,thorough_cmd='bash check.sh '+i,technique=TECH[i][0],level='other',level_note=TECH[i][1]))
    else: na.append(dict(property=i,reason=NA.get(i,'the check for this property is not built yet')))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),'claimed',[x['property'] for x in na])
