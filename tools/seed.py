#!/usr/bin/env python3
"""Development helper: confirm a planted change in a scratch copy (never run by a check).
usage: seed.py add ID PROP 'needs' 'what' FILE(relative to ntl-extras) <<< python-literal list of (old,new), demo in /tmp/w/ID.cpp
       seed.py suite ID...   runs the stable suite with each patch in turn (slow)"""
import sys,os,subprocess,json,shutil
SB='/tmp/sb'
V=os.environ.get('SEED_V','/tmp/dev/verif/seeded')
DEMO='''#!/bin/bash
# run with cwd = the repository, after the build: exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
inc=(); for m in ntl-extras/*/; do inc+=(-I"$m"); done
g++ -std=c++11 -O1 "${inc[@]}" -I_build/include "$d/demo.cpp" _build/libpml.a -lntl -lpthread -lgmp -lm -o "$T/demo" || exit 1
timeout 120 "$T/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,universal_newlines=True,**k)
def sync():
    if not os.path.isdir(SB): sh(f'cp -a /repo {SB}')
    sh(f'git -C {SB} checkout -q -- . && git -C {SB} fetch -q /repo && git -C {SB} reset -q --hard FETCH_HEAD')
def mkfile():
    s=open('/opt/vp/pml.mk').read().replace('/repo',SB); open('/tmp/w/pml.mk','w').write(s)
def build():
    mkfile(); r=sh('make -f /tmp/w/pml.mk -j8 lib'); return r
def add(id,prop,needs,what,edits,demo):
    sync()
    r=build(); assert r.returncode==0,r.stdout[-2000:]
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/demo.cpp','w').write(demo); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    r=sh(f'bash {d}/demo.sh',cwd=SB); print('clean demo rc',r.returncode,r.stdout[-600:])
    if r.returncode: return False
    for f,old,new in edits:
        s0=sh(f'git -C {SB} show cc060f2:ntl-extras/{f}').stdout
        if old not in s0: print('!!! text not in the original file',f,repr(old))
        p=f'{SB}/ntl-extras/{f}'; s=open(p).read()
        assert s.count(old)==1,(f,old,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=sh(f'git -C {SB} diff').stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+'/meta.json','w'),indent=1)
    r=build(); assert r.returncode==0,r.stdout[-2000:]
    r=sh(f'bash {d}/demo.sh',cwd=SB); print('patched demo rc',r.returncode,r.stdout[-300:])
    sh(f'git -C {SB} checkout -q -- .')
    return r.returncode!=0
def suite(ids):
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in ids:
        sync(); r=sh(f'git -C {SB} apply {V}/{i}/patch.diff'); assert r.returncode==0,r.stdout
        mkfile()
        for f in ('test.sh','run_tests.py','results.py'):
            s=open('/opt/vp/'+f).read().replace('/repo',SB).replace('/opt/vp/pml.mk','/tmp/w/pml.mk').replace('/opt/vp/run_tests.py','/tmp/w/run_tests.py').replace('/opt/vp/results.py','/tmp/w/results.py')
            open('/tmp/w/'+f,'w').write(s)
        r=sh('bash /tmp/w/test.sh /tmp/w/out.json')
        o=json.load(open('/tmp/w/out.json')); bad=[t for t in base if t not in o['passed']]
        print(i,'stable tests failing:',bad, '' if o['passed'] else r.stdout[-800:],flush=True)
        sh(f'git -C {SB} checkout -q -- .')
def catch(ids,tier='quick'):
    for i in ids:
        m=json.load(open(f'{V}/{i}/meta.json')); 
        assert sh('git -C /repo status --porcelain').stdout==''
        r=sh(f'git -C /repo apply {V}/{i}/patch.diff'); assert r.returncode==0,r.stdout
        try:
            import time; t=time.time()
            r=sh(f'cd /verif && timeout 900 python3 run.py {m["property"]} --tier {tier}')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i,m['property'],'rc',r.returncode,v[:2],'%.0fs'%(time.time()-t),flush=True)
        finally: sh('git -C /repo checkout -q -- .')
if __name__=='__main__':
    {'suite':suite,'catch':catch}[sys.argv[1]](sys.argv[2:])
