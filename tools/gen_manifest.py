import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={ # id: (technique, note)
'C02':('explicit enumeration of implementation transitions against a reference composition of token-program instructions, whole-ledger equality',
 'Bounded-exhaustive: every operation of the stated products is executed on the freshly built program and on the reference; trusts the SVM and the bundled token program ELFs.'),
}
T['C03']=T['C02']
exec(open('/verif/tools/manifest_notes.py').read())
na={}
checks=[]; nalist=[]
for p in props:
    i=p['id']
    if i in T:
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',technique=T[i][0],level='model_checking',level_note=T[i][1]))
    else: nalist.append(dict(property=i,reason=na.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=nalist,
  notes='No hooks in /repo: every check drives the built artefacts (SBF program, library, CLI binary) from outside.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'claimed')
