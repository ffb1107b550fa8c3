"""plant.py ID... | all : apply bug, test, demo, check; keep in /verif/seeded"""
import importlib, json, os, shutil, subprocess, sys, re
sys.path.insert(0,'/verif/tools/plant')
import bugs
R='/repo'
def sh(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
def undo(): sh('git','-C',R,'checkout','--','.')
FIX=set(sh('git','-C',R,'log','--format=%H','d0d3abe..HEAD').stdout.split())
def own_lines(diff):
    # removed lines must be of the original repository
    bad=[]; f=None; n=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            b=sh('git','-C',R,'blame','-l','-L%d,%d'%(n,n),'HEAD','--',f).stdout.split()[0].lstrip('^')
            if any(x.startswith(b) for x in FIX): bad.append(l)
            n+=1
        elif l.startswith(' '): n+=1
    return bad
def demo(d):
    return sh('bash',d+'/demo.sh',cwd=R,timeout=280)
def run(bid, quick=True):
    b=bugs.B[bid]; d='/verif/seeded/'+bid
    assert not sh('git','-C',R,'status','--porcelain').stdout.strip(), 'dirty'
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.py','w').write(open('/verif/tools/plant/H.py').read()+b['demo'].strip('\n')+'\n')
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    r=demo(d); clean=r.returncode
    if clean: print(bid,'DEMO FAILS CLEAN',r.stdout[-800:],r.stderr[-1500:])
    try:
        for f,a,c in b['edits']:
            p=R+'/pyNTM/'+f; s=open(p).read()
            assert s.count(a)==b.get('n',1),(bid,f,s.count(a),a)
            open(p,'w').write(s.replace(a,c))
        diff=sh('git','-C',R,'diff').stdout
        open(d+'/patch.diff','w').write(diff)
        bad=own_lines(diff)
        r=demo(d); dem=r.returncode
        t=sh('bash','/verif/tools/plant/t.sh').stdout
        ok='missing: []' in t and 'BUILDFAIL' not in t
        props=[b['prop']]+b.get('also',[])
        res={}
        for p in props:
            c=sh('./check',p,cwd='/verif',env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'))
            viol='VIOLATION property=%s'%p in c.stdout
            res[p]=(c.returncode,viol)
            last=[l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'case' in l][-2:]
    finally:
        undo()
    good = clean==0 and dem!=0 and ok and not bad
    print(bid, 'VALID' if good else 'INVALID clean=%s demo=%s tests=%s bad=%s'%(clean,dem,ok,bad), 'CAUGHT' if res[b['prop']]==(1,True) else 'MISSED', res, flush=True)
    if not ok: print(t[-600:])
    if dem==0: print('demo passes with patch')
    if not good: shutil.move(d,'/tmp/b/bad_'+bid) if not os.path.exists('/tmp/b/bad_'+bid) else shutil.rmtree(d)
if __name__=='__main__':
    ids=sys.argv[1:]
    if ids==['all']: ids=list(bugs.B)
    for i in ids:
        try: run(i)
        except Exception as e:
            undo(); print(i,'ERROR',repr(e)); shutil.rmtree('/verif/seeded/'+i,ignore_errors=True)
