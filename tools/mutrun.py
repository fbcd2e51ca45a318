#!/usr/bin/env python3
"""mutrun.py OUT [FILE...]: run the checks on every first-order mutant of the
given files of /repo (default all) and list those no check reports, with whether
the stable tests notice them. Development aid only."""
import sys,os,json,glob,shutil,subprocess,tempfile,concurrent.futures as cf,queue
out=sys.argv[1]
fs=sys.argv[2:] or [f for f in subprocess.check_output(['git','-C','/repo','ls-files','*.go'],text=True).split() if not f.endswith('_test.go') and 'sample' not in f and '_example' not in f and not f.endswith('doc.go')]
ENV='. /opt/vp/env.sh; '
subprocess.check_call(ENV+'cd /verif/tools/mutate && GO111MODULE=off go build -o /tmp/mutate main.go',shell=True)
ms=[json.loads(l) for l in subprocess.check_output(['/tmp/mutate']+fs,cwd='/repo',text=True).splitlines()]
import random
if os.environ.get('SAMPLE'): random.Random(int(os.environ.get('SEED','1'))).shuffle(ms); ms=ms[:int(os.environ['SAMPLE'])]
dirs=queue.Queue()
for _ in range(8):
    d=tempfile.mkdtemp(prefix='kcorp.'); shutil.copytree('/repo',d+'/repo',ignore=shutil.ignore_patterns('.git')); dirs.put(d)
KC=os.environ.get('KC','/tmp/kc')
def run(m):
    d=dirs.get(); p=d+'/repo/'+m['File']
    try:
        b=open('/repo/'+m['File'],'rb').read()
        open(p,'wb').write(b[:m['From']]+m['New'].encode()+b[m['To']:])
        r=subprocess.run(ENV+'go build ./...',shell=True,cwd=d+'/repo',capture_output=True)
        if r.returncode: return m,'nobuild'
        r=subprocess.run(ENV+f'KREPO={d}/repo timeout 300 {KC} all {d}/ev',shell=True,cwd='/verif',capture_output=True,text=True,errors='replace')
        hit=[l.split('=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if r.returncode not in(0,1) : return m,'RC%d %s'%(r.returncode,(r.stdout+r.stderr)[-200:].replace('\n',' '))
        if hit: return m,'hit '+','.join(hit)
        r=subprocess.run(ENV+'timeout 200 go test ./... ',shell=True,cwd=d+'/repo',capture_output=True,text=True,errors='replace')
        base=open('/tmp/mutbase.txt').read().split() if os.path.exists('/tmp/mutbase.txt') else []
        fails=[l.split()[2] for l in r.stdout.splitlines() if l.strip().startswith('--- FAIL')]
        fails=[f for f in fails if f not in base]
        return m,'SURVIVED'+(' (tests fail: %s)'%fails[:2] if fails else '')
    except Exception as x: return m,'EXC '+repr(x)
    finally:
        shutil.copy('/repo/'+m['File'],p); dirs.put(d)
n=k=0
with open(out,'w') as f, cf.ThreadPoolExecutor(8) as ex:
    for m,res in ex.map(run,ms):
        if res=='nobuild': continue
        n+=1
        if res.startswith('hit'): k+=1; continue
        f.write('%s:%d %s %r -> %r: %s\n'%(m['File'],m['Line'],m['Op'],m['Old'][:80],m['New'][:80],res)); f.flush()
    f.write('%d of %d mutants that build are reported\n'%(k,n))
while not dirs.empty(): shutil.rmtree(dirs.get(),ignore_errors=True)
