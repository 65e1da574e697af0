#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs.py after confirming
each in a scratch copy: builds, tests pass, demo fails with and passes without.
usage: plant.py [ID...]   (no ids: all not yet planted)"""
import os,sys,subprocess,shutil,json,tempfile
sys.path.insert(0,os.path.dirname(__file__))
from bugs import BUGS
SEED='/verif/seeded'
ENV=dict(os.environ,GOFLAGS='-mod=readonly',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
DEMO='''#!/bin/sh
# exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/o.json"
GO
'''
RUN='%sgo build -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 8\n%stimeout 200 "$tmp/demo"'
def sh(cmd,cwd,env=None,t=900):
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=env or ENV,capture_output=True,text=True,timeout=t)
    return r.returncode,(r.stdout+r.stderr)
def main():
    ids=sys.argv[1:]
    for id,b in BUGS.items():
        d=SEED+'/'+id
        if ids and id not in ids: continue
        if not ids and os.path.exists(d+'/patch.diff'): continue
        w=tempfile.mkdtemp(prefix='plant.',dir='/tmp')
        repo=w+'/repo'
        try:
            subprocess.check_call(['cp','-a','/repo',repo])
            dd=w+'/d'; os.mkdir(dd)
            if 'sh' in b:
                body=DEMO.split('printf')[0]+b['sh']
            else:
                body=DEMO.replace('GO\n',RUN%(b.get('benv',''),b.get('env',''))+'\n')
                open(dd+'/demo.go','w').write(b['demo'])
            open(dd+'/demo.sh','w').write(body+('' if body.endswith('\n') else '\n')); os.chmod(dd+'/demo.sh',0o755)
            rc0,o0=sh('sh '+dd+'/demo.sh',repo)
            ok=True
            for f,old,new in b['edits']:
                s=open(repo+'/'+f).read()
                if s.count(old)<1: print(id,'no match in',f,repr(old)[:80]); ok=False; break
                s=s.replace(old,new) if b.get('all') else s.replace(old,new,1)
                open(repo+'/'+f,'w').write(s)
            if not ok: continue
            _,diff=sh('git diff',repo)
            rcb,ob=sh('go build ./...',repo)
            rct,ot=0,''
            if rcb==0:
                for _ in range(b.get('runs',3)):
                    rct,ot=sh('go test -vet=off -count=1 ./...',repo)
                    if rct: break
            rc1,o1=sh('sh '+dd+'/demo.sh',repo)
            good=rc0==0 and rcb==0 and rct==0 and rc1!=0
            print(id,'OK' if good else 'REJECTED','demo before',rc0,'build',rcb,'tests',rct,'demo after',rc1)
            if not good:
                print((o0[-400:] if rc0 else '')+(ob[-400:] if rcb else '')+(ot[-600:] if rct else '')+o1[-300:]); continue
            print('   ',o1.strip()[:200].replace('\n',' | '))
            shutil.rmtree(d,ignore_errors=True); shutil.copytree(dd,d)
            open(d+'/patch.diff','w').write(diff)
            json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        finally:
            shutil.rmtree(w)
main()
