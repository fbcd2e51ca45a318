"""Helper to write planted changes: seed(id, prop, pkg, edits, demo, needs, breaks)."""
import os,subprocess,tempfile,shutil,json
S='/verif/seeded'
DEMO='''#!/bin/bash
# in-package test laid over the tree; passes on the unchanged tree
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)szz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/overlay.json"
timeout 250 go test -count=1 -vet=off -overlay "$T/overlay.json" -run '^TestZZDemo$' ./%(pkg)s 
'''
def seed(id,prop,pkg,edits,demo,needs,breaks,script=None,extra={}):
    d=tempfile.mkdtemp(prefix='kmk.');r=d+'/r'
    subprocess.check_call(['git','clone','-q','/repo',r])
    for f,a,b in edits:
        p=r+'/'+f;s=open(p).read()
        if s.count(a)!=1: raise Exception(f'{id}: {f}: {s.count(a)} matches of {a!r}')
        open(p,'w').write(s.replace(a,b))
    subprocess.call(['gofmt','-w']+[r+'/'+f for f,_,_ in edits])
    diff=subprocess.check_output(['git','diff'],cwd=r).decode()
    shutil.rmtree(d)
    o=S+'/'+id;os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(diff)
    pk=(pkg+'/') if pkg else ''
    open(o+'/demo.sh','w').write(script or DEMO%dict(pkg=pk))
    if demo: open(o+'/demo_test.go','w').write(demo)
    for k,v in extra.items(): open(o+'/'+k,'w').write(v)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(o+'/meta.json','w'),indent=1)
