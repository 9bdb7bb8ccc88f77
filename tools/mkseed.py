#!/usr/bin/env python3
"""Builds and validates the planted bugs described in tools/seedspecs/*.py.

Each spec module defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)],
PKG (package directory the demonstration test is overlaid into) and DEMO (Go source
of an external or internal test file with TestDemo).
usage: mkseed.py [--notests] [--nocheck] [ID...]   (all by default)
Validation: demo passes on the unchanged tree, fails with the patch, the stable tests pass
with the patch; then the property's check is run against the patched tree.
"""
import sys, os, subprocess, json, importlib.util, tempfile, shutil, glob
V='/verif'; R='/repo'
DEMO_SH='''#!/bin/bash
# Demonstration: exit 0 when the property holds, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/o.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"}}
EOF
%(env)sgo test %(flags)s-vet=off -count=1 -timeout 200s -overlay "$tmp/o.json" -run 'TestDemo' ./%(pkg)s
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def load(p):
    s=importlib.util.spec_from_file_location('spec',p); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
def main():
    args=[a for a in sys.argv[1:] if not a.startswith('--')]
    opts=[a for a in sys.argv[1:] if a.startswith('--')]
    specs=[p for p in sorted(glob.glob(V+'/tools/seedspecs/*.py')) if not args or os.path.basename(p)[:-3] in args]
    def one(p):
        sid=os.path.basename(p)[:-3]
        m=load(p)
        work=tempfile.mkdtemp(prefix='seed_')
        try:
            sh(f'cp -a {R} {work}/repo'); w=work+'/repo'
            for f,old,new in m.EDITS:
                t=open(w+'/'+f).read()
                assert t.count(old)==1,(sid,f,t.count(old))
                open(w+'/'+f,'w').write(t.replace(old,new))
            sh('gofmt -l .',cwd=w)
            diff=sh('git diff',cwd=w).stdout
            d=f'{V}/seeded/{sid}'; os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','w').write(diff)
            open(d+'/demo_test.go','w').write(m.DEMO)
            fl=getattr(m,'FLAGS',''); env=getattr(m,'ENV','')
            open(d+'/demo.sh','w').write(DEMO_SH%dict(pkg=m.PKG,flags=fl+' ' if fl else '',env=env+' ' if env else ''))
            os.chmod(d+'/demo.sh',0o755)
            json.dump({"property":m.PROPERTY,"needs":m.NEEDS,"what_it_breaks":m.BREAKS},open(d+'/meta.json','w'),indent=1)
            r0=sh(f'bash {d}/demo.sh',cwd=R); r1=sh(f'bash {d}/demo.sh',cwd=w)
            ok=r0.returncode==0 and r1.returncode!=0
            msg=f'{sid} {m.PROPERTY}: demo clean={r0.returncode} patched={r1.returncode}'
            if not ok: msg+='\nBAD\n'+r0.stdout[-1500:]+r0.stderr[-500:]+'\n---\n'+r1.stdout[-800:]
            if '--notests' not in opts:
                msg+=' tests='+sh(f'python3 {V}/tools/stable_tests.py {w}').stdout.strip()
            if '--nocheck' not in opts:
                v=work+'/verif'; os.mkdir(v)
                sh(f'cp -a {V}/engine {V}/harness {V}/check.sh {v}/; cp -a {V}/known_findings.json {v}/')
                sh(f"sed -i 's#=> /repo#=> {w}#' {v}/harness/go.mod")
                rc=sh(f'{v}/check.sh {m.PROPERTY}')
                vs=[l for l in rc.stdout.splitlines() if 'VIOLATION' in l]
                msg+=f'\n   check: exit={rc.returncode} {vs[:1]} {"" if vs else rc.stdout[-300:]+rc.stderr[-300:]}'
            print(msg,flush=True)
        finally: shutil.rmtree(work)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex: list(ex.map(one,specs))
main()
