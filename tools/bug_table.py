import json,glob,os
L=['','## 4. Planted bugs','','Each was written from the text of a property; "check" is the check that reports it.','','| bug | what it breaks | needs | caught by | history |','|---|---|---|---|---|']
missed={'b13':'missed at first: P25 had no interpixel setting','b14':'missed at first: the stars of the two-star settings had equal control weights'}
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    L.append('| %s | %s | %s | %s | %s |'%(b,m['what_it_breaks'],m['needs'],m['property'],missed.get(b,m.get('history',''))))
s=open('DESIGN.md').read().split('\n## 4. Planted bugs')[0].rstrip('\n')+'\n'
open('DESIGN.md','w').write(s+'\n'.join(L)+'\n')
