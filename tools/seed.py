#!/usr/bin/env python3
"""seed.py take ID PROP NEEDS BREAKS : current uncommitted change of /repo becomes seeded/ID/patch.diff (demo.cpp must exist), then test
   seed.py test ID [PROP...]         : confirm (build, stable tests, demo on clean and patched tree), run the property's check (and others given)
The tree is restored afterwards."""
import sys, os, json, subprocess, shutil
V='/verif'; R='/repo'
DEMO='''#!/bin/bash
# Compiles demo.cpp (beside this file) against the sources in the current directory and runs it in a scratch directory.
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
I=$(find "$R/trunk/src" "$R/trunk/dependencies" -type d -printf '-I%p ')
g++ -std=c++14 -O1 -w -D_GLIBCXX_ASSERTIONS -I/usr/include/eigen3 $I "$H/demo.cpp" -o "$W/demo" || exit 3
cd "$W" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -q -- .')
def stable():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: return 'BUILD FAILED\n'+b.stdout[-3000:]
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    o=json.load(open('/tmp/seed_o.json')); s=json.load(open('/opt/vp/BASELINE.json'))
    m=set(s['stable'])-set(o['passed'])
    return 'tests missing: %s'%sorted(m) if m else None
def test(i, props):
    d=f'{V}/seeded/{i}'; ok=True
    clean()
    x=sh(f'bash {d}/demo.sh',cwd=R); print('demo clean:',x.returncode, x.stdout[-300:] if x.returncode else '')
    ok&=x.returncode==0
    a=sh(f'git apply {d}/patch.diff',cwd=R)
    if a.returncode: print('APPLY FAILED',a.stdout); return False
    try:
        e=stable(); print('stable:', e or 'ok'); ok&=e is None
        x=sh(f'bash {d}/demo.sh',cwd=R); print('demo patched:',x.returncode,x.stdout[-300:]); ok&=x.returncode not in (0,3)
        c=[]
        for p in props:
            x=sh(f'python3 {V}/check.py {p} quick',cwd=V); v=[l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
            print('check',p,'exit',x.returncode,len(v),'violations',(v[:1] or x.stdout.splitlines()[-1:])); c.append(x.returncode==1 and bool(v))
    finally: clean()
    print(i,'COUNTS' if ok else 'DOES NOT COUNT','; CAUGHT' if c and c[0] else '; MISSED'); return ok
if sys.argv[1]=='take':
    i,p,n,b=sys.argv[2:6]; d=f'{V}/seeded/{i}'; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','wb').write(subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE).stdout)
    open(f'{d}/demo.sh','w').write(DEMO); os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':p,'needs':n,'what_it_breaks':b},open(f'{d}/meta.json','w'),indent=1)
    assert os.path.exists(f'{d}/demo.cpp'), 'no demo.cpp'
    test(i,[p]+sys.argv[6:])
else:
    i=sys.argv[2]; test(i,sys.argv[3:] or [json.load(open(f'{V}/seeded/{i}/meta.json'))['property']])
