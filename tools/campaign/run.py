#!/usr/bin/env python3
# campaign/run.py M|R [regex] : plants each change in a scratch copy and runs the checks named
import sys,os,re,subprocess,shutil,importlib.util,concurrent.futures as cf,threading
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
import mutants as mm
mod = importlib.import_module(sys.argv[3]) if len(sys.argv)>3 else mm
kind=sys.argv[1]; rx=re.compile(sys.argv[2] if len(sys.argv)>2 else '.')
def path(f): return 'libamqpprox/amqpprox_'+f+('' if '.' in f else '.cpp')
L=threading.Lock(); n=[0]
def one(job):
    i,props,f,edits=job
    d='/tmp/camp_%s%d'%(kind,i); shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    out=[]
    try:
        p=d+'/'+path(f); s=open(p).read()
        for o,nw in edits:
            r=re.compile(re.escape(o).replace('\\\n','\n+'))
            if not r.search(s): return ['%s%d %s NOT FOUND %r'%(kind,i,f,o[:60])]
            s=r.sub(lambda m: nw,s,1)
        open(p,'w').write(s)
        for pr in props:
            e=dict(os.environ,VERIF_REPO=d)
            r=subprocess.run(['python3-vt','/verif/vc/run.py',pr,'--tier','quick'],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            ls=[l for l in r.stdout.split('\n') if l.strip()]
            v=[l for l in ls if l.startswith(('VIOLATION','OK'))] or ls[-2:]
            fo=[l.strip() for l in ls if 'failed obligation' in l or 'undecided' in l and not l.startswith('OK') or 'harness' in l and not l.startswith('OK')][:3]
            out.append('%s%d %s %s rc=%d %s %s'%(kind,i,pr,f,r.returncode,' '.join(v)[:230],(' || '.join(fo))[:400]))
    finally: shutil.rmtree(d,ignore_errors=True)
    return out
jobs=[]
if kind=='M':
    for i,(p,f,o,nw) in enumerate(mod.M): jobs.append((i,[p],f,[(o,nw)]))
else:
    for i,(p,f,e) in enumerate(mod.R): jobs.append((i,p,f,e))
jobs=[j for j in jobs if any(rx.search('%s%d %s %s'%(kind,j[0],p,j[2])) for p in j[1])]
with cf.ThreadPoolExecutor(int(os.environ.get('J','2'))) as ex:
    for r in ex.map(one,jobs):
        for l in r: print(l,flush=True)
