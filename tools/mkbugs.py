import re,json,os
s=open('/verif/DESIGN.md').read()
s=s.split('<!-- bugs -->')[0].rstrip()+'\n\n<!-- bugs -->\n| bug | property | what it needs | caught by |\n|---|---|---|---|\n'
res=json.load(open('/tmp/caught.json')) if os.path.exists('/tmp/caught.json') else {}
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json'))
    s+=f"| {b} | {m['property']} | {m['needs'][:160].replace('|','/')} | {res.get(b,'?')} |\n"
open('/verif/DESIGN.md','w').write(s)
