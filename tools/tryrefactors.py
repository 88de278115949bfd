#!/usr/bin/env python3
"""tryrefactors.py [ID...]: applies each edit of refactors.py in a scratch copy
of /repo and runs all checks on it from a scratch copy of the committed
harness; they have to stay quiet. SLOW=1 runs them in full, otherwise without
the factor by which each check's number of cases is raised."""
import os, shutil, subprocess, sys, tempfile, glob
sys.path.insert(0, os.path.dirname(__file__))
from refactors import REFACTORS
ENV=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=readonly', GOPROXY='off', GOWORK='off', GO111MODULE='on', VERIF_SEED=os.environ.get('VERIF_SEED','1'), VERIF_TIER='quick')
only=set(sys.argv[1:])
w=tempfile.mkdtemp()
try:
    for r in REFACTORS:
        ident,edits=r[0],r[1]
        if only and ident not in only: continue
        repo,verif=w+'/repo',w+'/verif'
        shutil.rmtree(repo,ignore_errors=True); shutil.rmtree(verif,ignore_errors=True)
        subprocess.run(['cp','-a','/repo',repo],check=True)
        subprocess.run(['git','clone','-q','/verif',verif],check=True)
        p=verif+'/harness/go.mod'; t=open(p).read(); open(p,'w').write(t.replace('=> /repo','=> '+repo))
        if not os.environ.get('SLOW'):
            p=verif+'/harness/core.go'; t=open(p).read()
            x='max(quick, min(quick*max(1, def.Boost), thorough))'
            assert x in t; open(p,'w').write(t.replace(x,'quick'))
        bad=None
        for f,old,new in edits:
            t=open(f'{repo}/{f}').read()
            if t.count(old)!=1: bad=f'{t.count(old)} matches of {old[:60]!r}'; break
            open(f'{repo}/{f}','w').write(t.replace(old,new))
        if bad: print(ident,'BAD EDIT',bad,flush=True); continue
        b=subprocess.run(['go','build','./...'],cwd=repo,env=ENV,capture_output=True,text=True)
        if b.returncode: print(ident,'DOES NOT BUILD',b.stderr,flush=True); continue
        ts=subprocess.run(['go','test','-vet=off','./...'],cwd=repo,env=ENV,capture_output=True,text=True)
        loud=[]
        for c in ['C%02d'%i for i in range(1,18)]:
            o=subprocess.run(['./check.sh',c],cwd=verif,env=ENV,capture_output=True,text=True,errors='replace')
            if o.returncode and not ('INCONCLUSIVE' in o.stdout and 'need' in o.stdout and 'VIOLATION' not in o.stdout): loud.append(c); open(f'/tmp/refactor-{ident}-{c}.log','w').write(o.stdout+o.stderr)
        print(ident,'tests '+('pass' if ts.returncode==0 else 'FAIL'),'LOUD: '+' '.join(loud) if loud else 'quiet',flush=True)
finally:
    shutil.rmtree(w,ignore_errors=True)
