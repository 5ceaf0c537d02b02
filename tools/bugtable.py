"""bugtable.py RESULTS: rewrite the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json and the outcome noted there)"""
import json,glob,os,re
s=open('/verif/DESIGN.md').read()
h='| id | property | what it needs | caught by |\n|---|---|---|---|\n'
a=s.index(h)+len(h)
m=re.search(r'\n\n',s[a:]); end=a+m.start() if m else len(s)
out=json.load(open('/verif/tools/bugs.json')) if os.path.exists('/verif/tools/bugs.json') else {}
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=d.split('/')[-2]; x=json.load(open(d))
    rows.append('| %s | %s | %s | %s |'%(i,x['property'],x['needs'].replace('|','/').replace('\n',' '),out.get(i,x['property'])))
open('/verif/DESIGN.md','w').write(s[:a]+'\n'.join(rows)+(s[end:] if m else '\n'))
