"""usage: refac.py [names]: apply behaviour-preserving variants to a copy of /repo and run the named checks"""
import sys, os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import variants, variants4, variants5, variants6; [variants.V.update(m.V) for m in (variants4, variants5, variants6)]
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names=[a for a in sys.argv[1:] if a in variants.V] or [a for a in sys.argv[1:] if a not in variants.V and [v for v in variants.V if v.startswith(a)]] and [v for v in variants.V if any(v.startswith(a) for a in sys.argv[1:])] or list(variants.V)
def one(n):
    props,edits=variants.V[n]
    d='/tmp/refac/'+n
    subprocess.run(['rm','-rf',d]); shutil.copytree('/repo',d)
    for f,a,b in edits:
        p=os.path.join(d,f); s=open(p).read()
        if s.count(a)<1: return n+' EDIT DOES NOT APPLY: '+a[:60]
        open(p,'w').write(s.replace(a,b))
    t=subprocess.run(['bash','-c','cd %s && /opt/venv/bin/python -m unittest discover -q utg 2>&1 | tail -3'%d],capture_output=True,text=True)
    out=[n+' tests: '+t.stdout.strip().replace('\n',' ')]
    for p in props:
        r=subprocess.run(['python3-vt','check.py',p],cwd=HERE,env=dict(os.environ,UTG_REPO=d),capture_output=True,text=True)
        out.append('  %s rc=%d %s'%(p,r.returncode,(r.stdout+r.stderr[-500:]).strip().replace('\n','\n      ')[-1500:]))
    subprocess.run(['rm','-rf',d])
    return '\n'.join(out)
for n in names: print(one(n),flush=True)
