import os,sys,json,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
sel=sys.argv[1:]
S='/verif/seeded'
def one(b):
    m=json.load(open(f'{S}/{b}/meta.json'))
    d=f'/tmp/pl_{b}'
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,symlinks=True,ignore=shutil.ignore_patterns('.git'))
    r=subprocess.run(['git','apply',f'{S}/{b}/patch.diff'],cwd=d,capture_output=True,text=True)
    r=subprocess.run(['patch','-p1','-s','-i',f'{S}/{b}/patch.diff'],cwd=d,capture_output=True,text=True) if 0 else r
    e=dict(os.environ); 
    c=subprocess.run(['python3','check.py',m['property'],'--root',d],cwd='/verif',capture_output=True,text=True)
    v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    shutil.rmtree(d,ignore_errors=True)
    return b,m['property'],r.returncode,c.returncode,(v or c.stdout.splitlines()[-2:])
bs=[b for b in sorted(os.listdir(S)) if not sel or b in sel]
with ThreadPoolExecutor(6) as ex:
    P='/tmp/caught.json'
    res=json.load(open(P)) if os.path.exists(P) else {}
    for x in ex.map(one,bs):
        print(x[:4], str(x[4])[:200] if x[3]!=1 else '')
        res[x[0]]=x[1] if x[3]==1 else 'missed'
    json.dump(res,open(P,'w'))
