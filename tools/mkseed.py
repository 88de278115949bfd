#!/usr/bin/env python3
"""Builds planted bugs under /verif/seeded from short descriptions.

mkseed.py FILE.py [ID...]: FILE.py defines SEEDS, a list of dicts with id, property, edits
[(file, old, new)], demo (Go source of package main), needs, breaks. Each is
applied in a scratch copy of /repo, checked (builds, stable tests pass, demo
passes on /repo and fails on the copy, edits hit original lines) and kept only
then."""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap, importlib.util
ENV=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=readonly', GOPROXY='off', GOWORK='off', GO111MODULE='on')
BASE=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.split()[0]
DEMO='''#!/bin/bash
# run with cwd = the repository; exits 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && { export PATH=$d:$PATH; break; }; done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp "$here/demo.go" "$w/main.go"
printf 'module demo\\n\\ngo 1.17\\n\\nrequire github.com/jhump/gopoet v0.0.0\\n\\nreplace github.com/jhump/gopoet => %s\\n' "$repo" > "$w/go.mod"
cd "$w" && go build FLAGS -o demo . || exit 3
export SCRATCH="$w/scratch"; mkdir "$SCRATCH"
cd "$SCRATCH" && timeout 120 ../demo
'''
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def stable(cwd):
    r=run(['go','test','-json','-count=1','./...'],cwd)
    ok=set()
    for l in r.stdout.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Test'])
    want=json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in want if re.split(r'[:/ ]',t)[-1] not in {x.split('/')[-1] for x in ok}]
def main():
    spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only=set(sys.argv[2:])
    for s in m.SEEDS:
        if only and s['id'] not in only: continue
        w=tempfile.mkdtemp(); c=w+'/repo'
        subprocess.run(['cp','-a','/repo',c],check=True)
        try:
            bad=None
            for f,old,new in s['edits']:
                t=open(f'{c}/{f}').read()
                if t.count(old)!=1: bad=f'{f}: {t.count(old)} matches of {old!r}'; break
                open(f'{c}/{f}','w').write(t.replace(old,new))
            if not bad:
                patch=run(['git','diff'],c).stdout
                # every removed line must be an original one
                for f in {e[0] for e in s['edits']}:
                    for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',run(['git','diff','-U0','--',f],c).stdout,re.M):
                        a=int(h[1]); n=int(h[2] or 1)
                        if n==0: continue
                        bl=run(['git','blame','-s','-l','-L',f'{a},{a+n-1}','HEAD','--',f],'/repo').stdout
                        orig=[l for l in bl.splitlines() if l.lstrip('^').startswith(BASE[:39])]
                        if not orig: print('  note',s['id'],f,a,'hunk changes only lines of own commits')
                r=run(['go','build','./...'],c)
                if r.returncode: bad='build: '+r.stderr
            if not bad:
                r=run(['go','vet','.'],c)
                miss=stable(c)
                if miss: bad=f'tests fail: {miss}'
            d=f"/verif/seeded/{s['id']}"
            if not bad:
                t=w+'/d'; os.makedirs(t)
                open(t+'/demo.go','w').write(textwrap.dedent(s['demo']).lstrip())
                open(t+'/demo.sh','w').write(DEMO.replace('FLAGS ',s.get('flags','')+' ' if s.get('flags') else '')); os.chmod(t+'/demo.sh',0o755)
                r0=run(['bash',t+'/demo.sh'],'/repo'); r1=run(['bash',t+'/demo.sh'],c)
                if r0.returncode!=0: bad=f'demo fails on /repo: {r0.returncode} {r0.stdout[-600:]} {r0.stderr[-600:]}'
                elif r1.returncode==0: bad='demo passes with the bug'
                elif r1.returncode==3: bad='demo does not build with the bug: '+r1.stderr
            if bad: print('REJECT',s['id'],bad); continue
            os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','w').write(patch)
            for f in ('demo.go','demo.sh'): shutil.copy(t+'/'+f,d+'/'+f)
            json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
            print('kept',s['id'],'|',(r1.stdout+r1.stderr).strip().splitlines()[:1])
        finally: shutil.rmtree(w)
main()
