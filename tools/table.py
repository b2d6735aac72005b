# Prints the table of planted changes for DESIGN.md.
import json,glob,os
print('| change | what it does | caught by |\n|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); print('| %s | %s | %s |'%(os.path.basename(d[:-1]),m['what_it_breaks'].replace('|','/'),m['property']))
