#!/usr/bin/env python3
"""mkseed.py SPEC.py... : builds and confirms planted bugs.
A SPEC defines id, property, needs, breaks, edits=[(file, old, new)], pkg, test (body of a Go test file without package clause), optional imports."""
import sys, os, subprocess, shutil, tempfile, json
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO='''#!/bin/bash
# Runs with cwd /repo: an in-package test (demo_test.go.in beside this file) laid over the package.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
d="$(mktemp -d)"
trap '/bin/rm -rf "$d"' EXIT
cp "$here/demo_test.go.in" "$d/demo_test.go"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$d/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$d/overlay.json" -run '^TestDemo$' ./PKG
'''
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,env=env,capture_output=True,text=True,**k)
def tests(cwd):
    r=run(['go','test','-json','-vet=off','-count=1','-timeout','10m','./...'],cwd)
    p=set()
    for l in r.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and 'Test' in e: p.add((e['Package'],e['Test']))
    return p
def norm(s): return s
bad=0
only=None
for spec in sys.argv[1:]:
    S={}; exec(open(spec).read(),S)
    sid=S['id']; out=f'{root}/seeded/{sid}'
    os.makedirs(out,exist_ok=True)
    open(out+'/demo.sh','w').write(DEMO.replace('PKG',S['pkg'])); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo_test.go.in','w').write('package '+S['pkg'].split('/')[-1]+'\n'+S['test'])
    json.dump(dict(property=S['property'],needs=S['needs'],what_it_breaks=S['breaks']),open(out+'/meta.json','w'),indent=1)
    tmp=tempfile.mkdtemp(prefix='seed-'); w=tmp+'/r'
    try:
        shutil.copytree('/repo',w,symlinks=True)
        r0=run(['bash',out+'/demo.sh'],w)
        base=tests(w)
        for f,old,new in S['edits']:
            t=open(w+'/'+f).read()
            if t.count(old)!=1: raise SystemExit(f'{sid}: {t.count(old)} matches in {f} for {old!r}')
            open(w+'/'+f,'w').write(t.replace(old,new))
        d=run(['git','diff'],w).stdout
        open(out+'/patch.diff','w').write(d)
        b=run(['go','build','./...'],w)
        r1=run(['bash',out+'/demo.sh'],w)
        after=tests(w)
        lost=base-after
        ok=r0.returncode==0 and r1.returncode!=0 and b.returncode==0 and not lost and d
        print(sid,'OK' if ok else 'BAD','clean demo',r0.returncode,'patched demo',r1.returncode,'build',b.returncode,'lost tests',sorted(lost))
        if not ok:
            bad=1
            print(r0.stdout[-1500:],r0.stderr[-800:],'\n--patched--',r1.stdout[-1500:],b.stderr[-800:])
        elif '-v' in os.environ.get('SEEDV',''): print(r1.stdout[-600:])
    finally:
        shutil.rmtree(tmp)
sys.exit(bad)
