#!/usr/bin/env python3
# mutp.py PROPS FILE.py : FILE defines M = [(expect 'c'/'q', file, old, new[,occ])...]
import sys,subprocess,os,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
props=sys.argv[1]; ns={}; exec(open(sys.argv[2]).read(),ns); M=ns['M']
def one(im):
    i,m=im
    d='/tmp/mp/%d'%i; v='/tmp/mp/v%d'%i
    os.makedirs(v,exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude','.git','/repo/',d+'/'],check=True)
    shutil.copy('/verif/known-findings.txt',v)
    exp,f,old,new=(tuple(m)+('',))[:4]; n=m[4] if len(m)>4 else 0
    edits=[(f,old,new,n)]
    if isinstance(f,list): edits=[(e+(0,))[:4] for e in f]; old=str(m[2]); new=''
    for (f,o,nw,n) in edits:
        s=open(d+'/'+f).read(); parts=s.split(o)
        if n>=len(parts)-1: return 'NOTFOUND %r %r'%(f,o)
        open(d+'/'+f,'w').write(o.join(parts[:n+1])+nw+o.join(parts[n+1:]))
    b=subprocess.run(['go','build','./...'],cwd=d,capture_output=True,text=True)
    if b.returncode: return 'NOBUILD %r %s'%(new,b.stderr[:300])
    r=subprocess.run(['/verif/bin/kdcheck','-prop',props,'-verif',v],env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
    out=[l for l in r.stdout.splitlines() if not l.startswith('    |')]
    got='c' if r.returncode else 'q'
    s=('   ' if got==exp else '!! ')+got+' '+f+' '+repr(old[:60])+' -> '+repr(new[:60])
    if r.returncode and (got!=exp or os.environ.get('V')): s+='\n       '+' / '.join(x.strip() for x in out[:3])[:500]
    return s
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one,list(enumerate(M))): print(r,flush=True)
