import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
cfg={x['id']:x for x in json.load(open('/verif/props.json'))}
checks=[];na=[]
reasons=json.load(open('/verif/tools/not_applicable.json')) if os.path.exists('/verif/tools/not_applicable.json') else {}
for p in props:
    if p['id'] in cfg:
        c=cfg[p['id']]
        checks.append({"property":p['id'],"quick_cmd":"/verif/bin/gocv check -prop "+p['id'],"thorough_cmd":"VERIF_TIER=thorough /verif/bin/gocv check -prop "+p['id'],
          "technique":"contract-based deductive verification of the real Go code (gocv: verification conditions over go/ssa, discharged by z3)"+("" if c.get("level","proof")=="proof" else "; functions not under contract yet are compared with the executable contracts, bounded"),
          "level":c.get("level","proof"),"level_note":c['note']})
    else:
        na.append({"property":p['id'],"reason":reasons.get(p['id'],"not decided yet: the contracts of the functions it depends on are not written")})
json.dump({"version":1,"setup_cmd":"./mk.sh","checks":checks,"not_applicable":na,"notes":"no hooks: contracts live in /verif/contracts and are laid over /repo's packages when they are loaded"},open('/verif/MANIFEST.json','w'),indent=1)
