import sys,time; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.dont_write_bytecode=True
sys.setrecursionlimit(20000)
from multiprocessing import Pool
import check
from avn import report, pflow, pquery, pevents, pshare
from avn.flows import *
from avn.plan import PLAN
root=sys.argv[1]
sel=sys.argv[2] if len(sys.argv)>2 else 'all'   # all | fast | props list
MODS={"pflow": pflow, "pquery": pquery, "pevents": pevents, "pshare": pshare}
def go(task):
    kind,cfg,props=task
    out=[]
    if kind=='one':
        r=check.run_job((root,props,cfg)); return [r]
    try: r=Run(root,*cfg)
    except Exception as e:
        rep=report.Report('ALL'); rep.und('run',str(cfg),f'{type(e).__name__} {e}',''); return [rep]
    for p,names in props:
        rep=report.Report(p)
        try:
            for nm in names:
                m,f=nm.split('.'); getattr(MODS[m],f)(r,rep)
        except Exception as e:
            import traceback; tb=traceback.extract_tb(e.__traceback__)[-1]
            rep.und('analysed',str(cfg),f'{type(e).__name__} {e} {tb.filename[-12:]}:{tb.lineno}','')
        out.append(rep)
    return out
def main():
    props=sorted(PLAN) if sel in('all','fast') else sel.split(',')
    byc={}; tasks=[]
    for p in props:
        for j in PLAN[p].jobs('quick'):
            if j[0]=='flow' and j[3]==():
                byc.setdefault(j[2],[]).append((p,j[1]))
            elif sel=='fast' and j[0] in ('p18','device','fun','intfun','intflow') and hash(str(j))%4: continue
            elif j[0]=='flow' and sel=='fast': continue
            else: tasks.append(('one',j,p))
    if sel=='fast':
        keep=[(NPCLS,True,False,False),(NPCLS,False,True,True),(THCLS,True,True,True),(THCLS,False,False,False),(NPCLS,True,True,True),(THCLS,True,False,True)]
        byc={c:v for c,v in byc.items() if c in keep}
    tasks=[('flow',c,v) for c,v in byc.items()]+tasks
    st={}; det={}
    with Pool(8,maxtasksperchild=1) as pool:
        for reps in pool.imap_unordered(go,tasks):
            for r in reps:
                d=st.setdefault(r.prop,{})
                for o in r.obs:
                    d[o.status]=d.get(o.status,0)+1
                    if o.status!='holds': det.setdefault((r.prop,o.status),[]).append(o)
    V=[p for p in sorted(st) if st[p].get('violated')]
    U=[p for p in sorted(st) if st[p].get('undecided')]
    L=[p for p in sorted(st) if p in PLAN and sel=='all' and st[p].get('holds',0)<PLAN[p].minimum]
    print('VIOL',*V,'| UND',*[f"{p}:{st[p]['undecided']}" for p in U],'| LOW',*L)
    n=int(sys.argv[3]) if len(sys.argv)>3 else 2
    for (p,s),os_ in sorted(det.items()):
        for o in os_[:n]:
            print('  ',p,s,o.rule[:50],'|',o.subject[:70],'|',o.detail[:200],'|',o.where[:60])
if __name__=='__main__': main()
