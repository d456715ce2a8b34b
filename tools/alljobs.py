import json,sys,os,time
sys.path.insert(0,'/verif/tools'); sys.argv=['x','/tmp/h/none.py']
import importlib.util
s=open('/verif/tools/hand.py').read().replace('\nmain()\n','\n')
exec(compile(s.replace('__file__','"/verif/tools/hand.py"'),'hand','exec'))
from concurrent.futures import ThreadPoolExecutor
old={tuple(j):w for j,st,wh,w in json.load(open('/tmp/dmap.json'))}
js=sorted(jobs(),key=lambda j:-(old.get(tuple(j)) or 0))
t=time.time(); bad=[]; slow=[]
with ThreadPoolExecutor(8) as ex:
    for j,r in zip(js, ex.map(lambda j: one(j,'/repo',500),js)):
        if r['status']!='equal': print(j,r['status'],str(r.get('detail',''))[:200],flush=True)
        w=r.get('wall_s') or 0
        if w>10 and w>1.4*(old.get(tuple(j)) or 0): print('slow',j,old.get(tuple(j)),w,flush=True)
print('total',round(time.time()-t))
