#!/usr/bin/env python3
"""tryseeds.py [ID...]: runs the quick check of each planted bug's property on a
scratch copy of /repo with the bug, from a scratch copy of the harness (as it is
in /verif now). JOBS=n runs n at a time; PROPS="C01 C02" runs those checks."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=readonly', GOPROXY='off', GOWORK='off', GO111MODULE='on', VERIF_SEED=os.environ.get('VERIF_SEED','1'), VERIF_TIER='quick')
ids=sys.argv[1:] or sorted(os.listdir(V+'/seeded'))
w=tempfile.mkdtemp(); os.chmod(w,0o755)
def one(s):
    d=f'{w}/{s}'; os.mkdir(d); repo,verif=d+'/repo',d+'/verif'
    try:
        subprocess.run(['git','clone','-q','/repo',repo],check=True)
        subprocess.run(['git','apply',f'{V}/seeded/{s}/patch.diff'],cwd=repo,check=True)
        os.mkdir(verif)
        subprocess.run(f'git -C {V} ls-files -z --cached --others --exclude-standard | grep -zv ^seeded/ | xargs -0 cp --parents -t {verif}',shell=True,check=True,cwd=V)
        p=verif+'/harness/go.mod'; t=open(p).read(); open(p,'w').write(t.replace('=> /repo','=> '+repo))
        prop=json.load(open(f'{V}/seeded/{s}/meta.json'))['property']
        for q in os.environ.get('PROPS',prop).split():
            try: o=subprocess.run(['./check.sh',q],cwd=verif,env=ENV,capture_output=True,text=True,errors='replace',timeout=900)
            except subprocess.TimeoutExpired: print(f'{s}: MISSED by {q} (timeout)',flush=True); continue
            ok=o.returncode==1 and f'VIOLATION property={q} ' in o.stdout
            print(f'{s}: caught by {q}' if ok else f'{s}: MISSED by {q} (exit {o.returncode})',flush=True)
            if os.environ.get('KEEP'): open(f'/tmp/seed-{s}-{q}.log','w').write(o.stdout+o.stderr)
    finally: shutil.rmtree(d,ignore_errors=True)
try:
    with ThreadPoolExecutor(int(os.environ.get('JOBS','3'))) as ex: list(ex.map(one,ids))
finally: shutil.rmtree(w,ignore_errors=True)
