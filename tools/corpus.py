#!/usr/bin/env python3
"""corpus.py [FILTER]: run the checks on small variants of /repo, kept in
tools/corpus/*.py as M(name, props, file, old, new, ...) for changes that break
a property and R(name, file, old, new, ...) for ones that keep the behaviour.
Prints mutants no expected check reports and refactorings that any reports.
Development aid only; no registered check uses it."""
import sys,os,glob,shutil,subprocess,tempfile,concurrent.futures as cf
V='/verif';items=[]
def M(name,props,*ed): items.append(('M',name,props.split(),ed))
def R(name,*ed): items.append(('R',name,[],ed))
for f in sorted(glob.glob(V+'/tools/corpus/*.py')): exec(compile(open(f).read(),f,'exec'))
def run(it):
    kind,name,props,ed=it
    d=tempfile.mkdtemp(prefix='kcorp.');r=d+'/repo'
    try:
        shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('.git'))
        for k in range(0,len(ed),3):
            p=r+'/'+ed[k]; s=open(p).read() if os.path.exists(p) else ''
            if ed[k+1] is None: s=s+ed[k+2]
            else:
                if s.count(ed[k+1])<1: return name,kind,'EDIT DOES NOT APPLY: '+ed[k+1][:60]
                s=s.replace(ed[k+1],ed[k+2],1)
            os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(s)
        e=dict(os.environ)
        p=subprocess.run('. /opt/vp/env.sh; go build ./... ',shell=True,cwd=r,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if p.returncode: return name,kind,'DOES NOT BUILD: '+p.stdout.decode()[:300]
        p=subprocess.run(f'. /opt/vp/env.sh; KREPO={r} timeout 300 {os.environ.get("KC","/tmp/kc")} all {d}/ev',shell=True,cwd=V,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        o=p.stdout.decode(errors='replace')
        hit=[l.split('=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')]
        msgs=[l.strip() for l in o.splitlines() if ': in ' in l]
        bad=[l for l in o.splitlines() if l.startswith('internal') or l.startswith('panic:') or l.startswith('goroutine ')]
        if bad or p.returncode not in(0,1,2): return name,kind,'RC %d '%p.returncode+(bad or [''])[0][:200]+o[-200:].replace('\n',' ')
        if kind=='M':
            if not hit: return name,kind,'MISSED (want %s)'%' '.join(props)
            lost=[x for x in props if x not in hit]
            if lost: return name,kind,'PARTLY: hits %s, not %s'%(' '.join(hit),' '.join(lost))
            return name,kind,'ok '+' '.join(hit)
        return name,kind,('ok' if not hit else 'ALARM %s\n      '%' '.join(hit)+'\n      '.join(m[:330] for m in msgs[:5]))
    except Exception as x: return name,kind,'EXC '+repr(x)
    finally: shutil.rmtree(d,ignore_errors=True)
flt=sys.argv[1:]; sel=[i for i in items if not flt or any(f in i[1] for f in flt)]
verbose=os.environ.get('VERB')
n=0
with cf.ThreadPoolExecutor(8) as ex:
    for name,kind,res in ex.map(run,sel):
        if res.startswith('ok'): n+=1
        if verbose or not res.startswith('ok'): print(kind,name,res,flush=True)
print(n,'of',len(sel),'as expected')
