#!/usr/bin/env python3
"""seed.py new ID PROP NEEDS WHAT  (reads demo.cpp from stdin; patch = diff of /tmp/seedwork against HEAD)
   seed.py verify ID...   patch applies, builds, passes the stable tests, demo passes without and fails with the patch
   seed.py catch ID [PROP...]  applies the patch to /repo, runs the check(s), undoes it
"""
import sys, os, subprocess, json, shutil, time
V='/verif/seeded'; W='/tmp/seedwork'
DEMO='''#!/bin/bash
# exit 0: the property held for this scenario; nonzero: it was broken
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
lib="$(find . -name libsrtc.a -not -path './.git/*' | head -1)"
stun="$(find . -name libsrtc_stun.a -not -path './.git/*' | head -1)"
g++ -std=c++17 -O1 -g -Iinclude -Isrc -Isrc/stun -I. -fno-access-control "$here/demo.cpp" -o "$tmp/demo" "$lib" "$stun" -lssl -lcrypto -lpthread
timeout 120 "$tmp/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def work():
    if not os.path.isdir(W):
        sh(f'cp -a /repo {W}')
    else:
        sh(f'git -C {W} checkout -q -- . ; git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD')
def new(i,prop,needs,what):
    d=f'{V}/{i}'; os.makedirs(d,exist_ok=True)
    p=sh(f'git -C {W} diff').stdout
    if not p: sys.exit('no diff in '+W)
    open(d+'/patch.diff','w').write(p)
    if not sys.stdin.isatty():
        s=sys.stdin.read()
        if s.strip(): open(d+'/demo.cpp','w').write(s)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+'/meta.json','w'),indent=1)
    sh(f'git -C {W} checkout -q -- .')
def conf(d):
    os.makedirs('/tmp/seedvp',exist_ok=True)
    for f in ('env.sh','build.sh','test.sh'):
        t=open('/opt/vp/'+f).read().replace('/opt/vp/env.sh','/tmp/seedvp/env.sh').replace('/opt/vp/test','/tmp/seedvp/test').replace('/repo',d)
        open('/tmp/seedvp/'+f,'w').write(t)
def build(d):
    conf(d); return sh('bash /tmp/seedvp/build.sh')
def tests(d):
    r=sh('bash /tmp/seedvp/test.sh /tmp/seedvp/o.json'); o=json.load(open('/tmp/seedvp/o.json'))
    base=json.load(open('/opt/vp/BASELINE.json')); 
    want=base if isinstance(base,list) else base.get('passed') or base.get('stable') or base.get('tests') or []
    miss=[t for t in want if t not in o['passed']]
    return len(o['passed']),o['failed'],miss
def verify(i):
    d=f'{V}/{i}'; work()
    S='/tmp/seedrepo'
    # use /repo itself with build.sh would disturb it; copy once
    if not os.path.isdir(S): sh(f'git clone -q /repo {S}')
    sh(f'git -C {S} checkout -q -- . ; git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD')
    b=build(S)
    if b.returncode: print(i,'base build failed',b.stdout[-500:],b.stderr[-500:]); return
    r=sh(f'cd {S} && bash {d}/demo.sh'); base=r.returncode
    if base: print('   base demo output:',r.stdout[-800:],r.stderr[-800:])
    a=sh(f'git -C {S} apply {d}/patch.diff')
    if a.returncode: print(i,'patch does not apply',a.stderr); return
    b=build(S)
    if b.returncode: print(i,'patched build failed',b.stdout[-1500:]); sh(f'git -C {S} checkout -q -- .'); return
    t=tests(S)
    r=sh(f'cd {S} && bash {d}/demo.sh')
    print(i,'base',base,'patched',r.returncode,'OK' if base==0 and r.returncode else 'BAD'); print('   tests:',t); print('   demo:',(r.stdout+r.stderr).strip()[-200:])
    sh(f'git -C {S} checkout -q -- .')
def catch(i,props):
    d=f'{V}/{i}'
    if not props: props=[json.load(open(d+'/meta.json'))['property']]
    try:
        a=sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode: print(i,'no apply',a.stderr); return
        for p in props:
            t=time.time(); r=sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vf.py check {p}')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i,p,'exit',r.returncode,'%.0fs'%(time.time()-t),(v or r.stdout.splitlines()[-1:] or [r.stderr[-300:]])[0][:200])
    finally:
        sh('git -C /repo checkout -q -- .')
if __name__=='__main__':
    c=sys.argv[1]
    if c=='work': work()
    elif c=='new': new(*sys.argv[2:6])
    elif c=='verify':
        for i in sys.argv[2:]: verify(i)
    elif c=='catch': catch(sys.argv[2],sys.argv[3:])
    elif c=='catchall':
        for i in sorted(os.listdir(V)): catch(i,[])
