#!/usr/bin/env python3
"""Regression suite of the analyser: edits of the repository with the verdict
expected of some checks. usage: variants.py [substring...]; env SVB=binary.
Every variant must build and pass the repository's tests."""
import os,sys,subprocess,shutil,tempfile,glob,importlib.util
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.abspath(__file__))
ENV=dict(os.environ,GOFLAGS='-mod=readonly',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
V=[] # name, props, expect (quiet/alarm), edits
def v(name,props,expect,*edits): V.append((name,props,expect,edits))
for f in sorted(glob.glob(here+'/variants/*.py')):
    exec(compile(open(f).read(),f,'exec'))
def sh(cmd,cwd,t=900,**e):
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=dict(ENV,**e),capture_output=True,text=True,timeout=t)
    return r.returncode,r.stdout+r.stderr
def one(x):
    name,props,expect,edits=x
    props=os.environ.get('PROPS',props)
    w=tempfile.mkdtemp(prefix='var.',dir='/tmp')
    try:
        repo=w+'/repo'; shutil.copytree('/repo',repo,symlinks=True)
        for e in edits:
            f,old,new=e[:3]
            s=open(repo+'/'+f).read() if os.path.exists(repo+'/'+f) else ''
            if old and s.count(old)<1: return name,'NO MATCH in '+f+' '+repr(old)[:60],''
            s=s.replace(old,new,-1 if len(e)>3 else 1) if old else s+new
            open(repo+'/'+f,'w').write(s)
        rc,o=sh('go build ./... && go vet ./pkg/encode ./pkg/decode',repo)
        if rc: return name,'DOES NOT BUILD',o[-500:]
        if not os.environ.get('NOTEST'):
            rc,o=sh('go test -vet=off -count=1 ./...',repo)
            if rc: return name,'TESTS FAIL',o[-500:]
        rc,o=sh('timeout 900 '+os.environ.get('SVB','/tmp/svb')+' -prop '+props+' -out '+w+'/o',w,SVB_REPO=repo)
        ok=(rc==0) if expect=='quiet' else (rc==1)
        o+=''.join(open(x).read() for x in glob.glob(w+'/o/evidence/*.findings.txt'))
        lines=[l for l in o.splitlines() if 'VIOLATION' not in l and ' held;' not in l]
        return name,('ok ' if ok else 'WRONG ')+expect+' rc=%d'%rc,'' if ok and not os.environ.get('SHOW') else '\n'.join(l[:300] for l in lines[:int(os.environ.get('N','6'))])
    except Exception as e:
        return name,'ERROR',repr(e)
    finally:
        shutil.rmtree(w)
sel=[x for x in V if not sys.argv[1:] or any(s in x[0] for s in sys.argv[1:])]
bad=0
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for n,r,d in ex.map(one,sel):
        if not r.startswith('ok') or os.environ.get('SHOW'): print(n+': '+r+('\n'+d if d else ''),flush=True)
        if not r.startswith('ok'): bad+=1
print(len(sel),'variants,',bad,'unexpected')
