#!/usr/bin/env python3
"""Quick strength test: mutate.py FILE.py [NAME...]. FILE.py fills M: list of (name, [properties], [(file, old, new)...]).
Applies each to a scratch copy of /repo, builds a scratch copy of the simulator against it, and runs those checks."""
import sys, os, subprocess, shutil
W=os.environ.get('MUT_DIR','/tmp/mut')
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(W, exist_ok=True)
ns={}; exec(open(sys.argv[1]).read(), ns)
run(['rsync','-a','--delete','--exclude','target','/verif/sim/',W+'/sim/','--exclude','target']) if shutil.which('rsync') else run(['bash','-c',f'mkdir -p {W}/sim && cp -a /verif/sim/Cargo.* /verif/sim/.cargo /verif/sim/src {W}/sim/'])
t=open(W+'/sim/Cargo.toml').read().replace('/repo/bsp-server',W+'/repo/bsp-server'); open(W+'/sim/Cargo.toml','w').write(t)
names=sys.argv[2:]
for name, props, edits in ns['M']:
    if names and name not in names: continue
    run(['bash','-c',f'mkdir -p {W}/repo && cp -a /repo/. {W}/repo/ && git -C {W}/repo checkout -q -- .'])
    bad=False
    for f,old,new in edits:
        p=f'{W}/repo/{f}'; s=open(p).read()
        if s.count(old)!=1: print(name,'EDIT DOES NOT APPLY',f,s.count(old)); bad=True; break
        open(p,'w').write(s.replace(old,new))
    if bad: continue
    b=run(['cargo','build','--offline','--quiet'],cwd=W+'/sim')
    if b.returncode: print(name,'DOES NOT BUILD',b.stdout[-1500:]); continue
    for p in props:
        os.makedirs(W+'/out',exist_ok=True)
        shutil.copy('/verif/known-findings.jsonl',W+'/out/')
        x=run([W+'/sim/target/debug/bspsim','check',p],env={**os.environ,'BSPSIM_DIR':W+'/out'})
        l=[q for q in x.stdout.split('\n') if 'class' in q or 'VIOLATION' in q or 'bspsim:' in q]
        print(name,p,{0:'MISSED',1:'caught'}.get(x.returncode,f'RC{x.returncode}'),' | '.join(q[:150] for q in l[:2]) if x.returncode!=0 else (l[-1] if l else x.stdout[-300:]),flush=True)
