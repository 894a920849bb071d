#!/usr/bin/env python3
"""mkbugs.py FILE.py [id...]: plant bugs defined in FILE.py, confirm, store in /verif/seeded."""
import sys, os, subprocess, json, shutil, tempfile, runpy
defs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
base='91ba500'
WT='/tmp/bugwt'
DEMO_SH='''#!/bin/bash
# runs demo_test.go (next to this script) as an extra package of the module in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/verifdemo/demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
go test -c -vet=off -o "$t/demo" -overlay "$t/overlay.json" ./verifdemo || exit 2
cd "$t" && ./demo -test.timeout 120s
'''
HEAD='''package verifdemo

import (
%s)

'''
def sh(cmd, cwd=None):
    p=subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
    return p.returncode, p.stdout+p.stderr
for b in defs:
    if only and b['id'] not in only: continue
    shutil.rmtree(WT, ignore_errors=True)
    sh(f'cp -a /repo {WT}')
    files={}
    ok=True
    for (f,old,new) in b['edits']:
        p=f'{WT}/{f}'
        s=open(p).read()
        if s.count(old)!=1:
            print(b['id'],'edit matches',s.count(old),'times in',f); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if not ok: continue
    # changed lines original?
    rc,diff=sh('git diff',WT)
    rc,blame=0,''
    for f in {e[0] for e in b['edits']}:
        orig=set(subprocess.run(['git','show',f'{base}:{f}'],cwd=WT,capture_output=True,text=True).stdout.split('\n'))
        rc,d=sh(f'git diff -U0 -- {f}',WT)
        for l in d.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                print(b['id'],'WARNING removed line not original:',l)
    rc,out=sh('gofmt -l .',WT)
    rc,out=sh('GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build ./...',WT)
    if rc: print(b['id'],'BUILD',out); continue
    d=f'/verif/seeded/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    imps=''.join(f'\t"{i}"\n' for i in sorted(b.get('imports',[])+['testing']))
    pk={'geo':'github.com/hzw456/go-geo','wkt':'github.com/hzw456/go-geo/wkt','geojson':'github.com/hzw456/go-geo/geojson'}
    for k in b.get('pkgs',['geo']):
        imps+=f'\n\t{k} "{pk[k]}"\n' if k=='geo' else f'\n\t"{pk[k]}"\n'
    open(d+'/demo_test.go','w').write(HEAD%imps + b['demo'].strip()+'\n')
    sh(f'gofmt -w {d}/demo_test.go')
    open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    rc1,o1=sh(f'{d}/demo.sh','/repo')
    rc2,o2=sh(f'{d}/demo.sh',WT)
    # tests
    bl=json.load(open('/opt/vp/BASELINE.json'))
    rc,log=sh(f'''rm -f /tmp/w/out.json; sed 's#/repo#{WT}#' /opt/vp/overlay.json > /tmp/w/overlay.json; sed 's#cd /repo#cd {WT}#; s#/opt/vp/gotest.json#/tmp/w/gotest.json#; s#/opt/vp/overlay.json#/tmp/w/overlay.json#' /opt/vp/test.sh > /tmp/w/test.sh; bash /tmp/w/test.sh /tmp/w/out.json''')
    res=json.load(open('/tmp/w/out.json')) if os.path.exists('/tmp/w/out.json') else {}
    def passed(r):
        for k in ('passed','pass'):
            if k in r: return set(r[k])
        return {k for k,v in r.get('tests',r).items() if v in ('pass','passed')}
    stable=bl['stable']
    if isinstance(stable,dict): stable=[k for k,v in stable.items()]
    miss=[t for t in stable if t not in passed(res)]
    good = rc1==0 and rc2!=0 and not miss
    print(b['id'], 'OK' if good else 'BAD', 'demo clean',rc1,'patched',rc2,'missing tests',miss[:3])
    if not good:
        print(o1[-600:] if rc1 else '', o2[-600:] if rc2==0 else '')
        shutil.rmtree(d)
shutil.rmtree(WT, ignore_errors=True)
