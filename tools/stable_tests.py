#!/usr/bin/env python3
"""Runs the stable tests (one process per test, GOMAXPROCS=1, as /opt/vp/test.sh does, but in
parallel) of a copy of the repository; prints the stable tests that do not pass."""
import sys, subprocess, json, os, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
d=sys.argv[1]
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
pkgs={}
for s in stable:
    p,t=s.rsplit('/',1)
    while t[:1]!='T' and '/' in p and not p.split('/')[-1].islower():  # subtests keep their parent
        p,h=p.rsplit('/',1); t=h+'/'+t
    pkgs.setdefault(p,[]).append(t)
tmp=tempfile.mkdtemp(prefix='st_'); bad=[]
env='. /opt/vp/env.sh; export GOSUMDB=off; '
def comp(p):
    r=subprocess.run(env+f'cd {d} && go test -c -vet=off -o {tmp}/{p.replace("/","_")}.test {p}',shell=True,capture_output=True,text=True)
    return p,r
def run(a):
    p,t=a
    dirp=d+'/'+p.split('distclus/',1)[1]
    r=subprocess.run(f"GOMAXPROCS=1 timeout -s KILL 50 {tmp}/{p.replace('/','_')}.test -test.paniconexit0 -test.count=1 -test.timeout=40s -test.run '^{t}$'",shell=True,cwd=dirp,capture_output=True,text=True,stdin=subprocess.DEVNULL)
    return (p.split('/')[-1]+'/'+t, r.returncode, r.stdout[-300:])
with ThreadPoolExecutor(7) as ex:
    for p,r in ex.map(comp,pkgs):
        if r.returncode: bad.append((p,'compile',r.stderr[:300]))
    for n,rc,o in ex.map(run,[(p,t) for p in pkgs for t in sorted({x.split('/')[0] for x in pkgs[p]})]):
        if rc: bad.append((n,rc,o if '-v' in sys.argv else ''))
shutil.rmtree(tmp)
print('PASS' if not bad else 'FAIL '+str(bad))
