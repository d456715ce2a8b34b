"""seed.py ID PROP FILE 'old' 'new' needs breaks demo.py : creates /verif/seeded/ID after confirming"""
import sys,os,subprocess,json,shutil
def seed(id,prop,edits,needs,breaks,demo):
    wt='/tmp/seedwt'
    subprocess.run(['rm','-rf',wt]); subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['cp','-a','/repo',wt])
    for f,old,new in edits:
        p=os.path.join(wt,f); s=open(p).read()
        assert s.count(old)==1,(f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    for f,old,new in edits:
        base=subprocess.run(['git','-C','/repo','show','792288a:'+f],capture_output=True,text=True).stdout.splitlines()
        import difflib
        o=open('/repo/'+f).read().splitlines(); n=open(os.path.join(wt,f)).read().splitlines()
        for t,i1,i2,j1,j2 in difflib.SequenceMatcher(None,o,n,autojunk=False).get_opcodes():
            if t!='equal':
                for l in o[i1:i2]:
                    if l not in base: print('   NOT ORIGINAL LINE:',l)
    diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\ncd "$(pwd)"\nPYTHONPATH="$(pwd)" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=wt,capture_output=True,text=True)
    env=dict(os.environ,VG_REPO=wt)
    r2=subprocess.run(['python3','-m','vg.check','--property',prop],cwd='/verif',env=env,capture_output=True,text=True)
    print(id,'demo ok/bug:',r0.returncode,r1.returncode,'check:',r2.returncode,[l for l in r2.stdout.splitlines() if 'VIOL' in l or 'undec' in l][:3])
    if r0.returncode or not r1.returncode: print(r0.stderr[-600:],r1.stderr[-300:])
    # tests in worktree: swap into /repo temporarily is unsafe; run test.sh against patched /repo
    subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
    try:
        subprocess.run(['bash','/opt/vp/test.sh','/tmp/o_seed.json'],capture_output=True)
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    o=json.load(open('/tmp/o_seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    base=set(b['stable'])
    ps=set(o.get('passed',[]))
    print('   tests missing:',len(base-ps),list(base-ps)[:3],'passed',len(ps))
    subprocess.run(['rm','-rf',wt])
