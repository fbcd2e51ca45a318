#!/usr/bin/env python3
"""seed.py verify ID..  confirm planted changes in scratch copies (builds, stable tests pass, demo 0 -> nonzero)
   seed.py check ID..   run the checks of the planted change's property (and all others with -a) on it
Development aid only; no registered check uses it."""
import sys,os,json,subprocess,shutil,tempfile,concurrent.futures as cf
V='/verif';S=V+'/seeded'
def sh(cmd,cwd=None,env=None,t=600):
    e=dict(os.environ);e.update(env or {})
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return p.returncode,p.stdout.decode(errors='replace')
def copy(patch):
    d=tempfile.mkdtemp(prefix='kseed.')
    r=d+'/repo'
    sh(f'git clone -q /repo {r} 2>/dev/null || cp -a /repo {r}')
    if patch:
        rc,o=sh(f'git apply {patch}',cwd=r)
        if rc: raise Exception('patch: '+o)
    return d,r
def verify(i):
    p=f'{S}/{i}'
    d,r=copy(p+'/patch.diff')
    d0,r0=copy(None)
    try:
        demo=tempfile.mkdtemp(prefix='kdemo.')
        for f in os.listdir(p):
            if f in('patch.diff','meta.json'):continue
            shutil.copy(p+'/'+f,demo)
        rc,o=sh('. /opt/vp/env.sh; go build ./... && go vet ./... ',cwd=r)
        rb,ob=sh('. /opt/vp/env.sh; go build ./...',cwd=r)
        if rb: return i,'BUILD FAILS '+ob
        vet='' if rc==0 else ' (vet: '+o[-200:]+')'
        t=open('/opt/vp/test.sh').read().replace('/repo',r).replace('work=/opt/vp/work','work='+d+'/work')
        open(d+'/t.sh','w').write(t)
        sh(f'bash {d}/t.sh {d}/out.json')
        res=json.load(open(d+'/out.json'));base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed=set(res.get('passed',res.get('pass',[])))
        miss=base-passed
        if miss: return i,'TESTS FAIL '+str(sorted(miss)[:5])
        a,oa=sh(f'. /opt/vp/env.sh; bash {demo}/demo.sh',cwd=r0,t=300)
        b,ob=sh(f'. /opt/vp/env.sh; bash {demo}/demo.sh',cwd=r,t=300)
        if a!=0: return i,'DEMO FAILS ON BASE '+oa[-600:]
        if b==0: return i,'DEMO PASSES WITH PATCH '+ob[-300:]
        return i,'ok'+vet+' | '+ob.strip()[-160:].replace('\n',' / ')
    finally:
        for x in (d,d0,demo): shutil.rmtree(x,ignore_errors=True)
def check(i,all_=False):
    m=json.load(open(f'{S}/{i}/meta.json'))
    d,r=copy(f'{S}/{i}/patch.diff')
    try:
        rc,o=sh(f'. /opt/vp/env.sh; KREPO={r} {V}/bin/kcheck all {d}/ev',cwd=V)
        hit=[l.split('=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')]
        own=m['property'] in hit
        first=[l for l in o.splitlines() if ': in ' in l][:1]
        return i,('CAUGHT ' if own else 'MISSED ')+m['property']+' hits='+','.join(hit)+' '+(first[0][:150] if first else (o[-200:] if rc not in(0,1) else ''))
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=='__main__':
    what=sys.argv[1];ids=sys.argv[2:] or sorted(os.listdir(S))
    with cf.ThreadPoolExecutor(4 if what=='verify' else 6) as ex:
        for i,r in ex.map(verify if what=='verify' else check,ids): print(i,r,flush=True)
