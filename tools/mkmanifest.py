import json
AI='abstract interpretation of the Go SSA form (shape and string-language domains, tabulated function summaries) over abstract documents'
NOTE=('Each obligation is one abstract document (or source text, or fault) that stands for every concrete one with the named defect; the analysis covers all paths of the entry point and everything it calls in the source. '
 'It rests on the models of the standard library in checker/ai/models.go and on the SSA builder. Where the analysis meets a construct it cannot model it says undecided (counted in the evidence) and raises no alarm.')
claims={}   # id -> (technique, note)
na={}
exec(open('/verif/tools/claims.py').read())
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[];nal=[]
for i in ids:
    if i in claims:
        t,n=claims[i]
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',technique=t,level='other',level_note=n))
    else:
        nal.append(dict(property=i,reason=na.get(i,'no check built for it yet')))
m=dict(version=1,setup_cmd='. ./env.sh && cd checker && go build -o /dev/null .',checks=checks,not_applicable=nal,
 notes='Every check builds the checker from /verif/checker (vendored dependencies, offline) and analyses the source in /repo; nothing of /repo is executed.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(nal),'not')
