import difflib, sys, os, json, subprocess, shutil
R='/repo'
def sh(*a, **k): return subprocess.run(a, text=True, capture_output=True, **k)
def make(id, prop, needs, breaks, edits, demo, test=True, files=()):
    d=f'/verif/seeded/{id}'
    assert not sh('git','-C',R,'status','--short').stdout.strip(), 'repo dirty'
    try:
        for f,old,new in edits:
            p=f'{R}/src/siotls/{f}'; s=open(p).read()
            assert s.count(old)==1,(f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        patch=sh('git','-C',R,'diff').stdout
        mine=0
        for f,old,new in edits:
            bl=sh('git','-C',R,'blame','-s','HEAD','--','src/siotls/'+f).stdout.splitlines()
            src=sh('git','-C',R,'show','HEAD:src/siotls/'+f).stdout.splitlines()
            sm=difflib.SequenceMatcher(None,src,open(f'{R}/src/siotls/{f}').read().splitlines(),autojunk=False)
            for tag,i1,i2,_,_ in sm.get_opcodes():
                if tag!='equal': mine+=sum(not l.startswith('^') for l in bl[i1:i2]); 
        if mine: print(f'  !! {mine} changed lines are not original')
        os.makedirs(d,exist_ok=True)
        open(f'{d}/patch.diff','w').write(patch)
        shutil.copy('/verif/tools/seedtool/lib.py',d)
        open(f'{d}/demo.py','w').write(demo)
        open(f'{d}/demo.sh','w').write('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh',0o755)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{d}/meta.json','w'),indent=1)
        bad=sh('bash',f'{d}/demo.sh',cwd=R)
        lost=None
        if test:
            sh('bash','/opt/vp/build.sh'); sh('bash','/opt/vp/test.sh','/tmp/seed.json')
            st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed.json'))
            lost=sorted(st-set(o['passed']))
        chk=sh('./check',prop,'quick',cwd='/verif')
    finally:
        sh('git','-C',R,'checkout','--','.')
    good=sh('bash',f'{d}/demo.sh',cwd=R)
    vio=[l for l in chk.stdout.splitlines() if l.startswith('VIOLATION')]
    ok = good.returncode==0 and bad.returncode!=0 and not lost
    print(f'{id}: valid={ok} caught={bool(vio) and chk.returncode==1} good={good.returncode} bad={bad.returncode} lost={lost}')
    if good.returncode: print(good.stdout[-500:],good.stderr[-1500:])
    if not bad.returncode: print('DEMO DID NOT FAIL', bad.stdout[-300:])
    if not vio: print(chk.stdout[-300:])
    return ok
