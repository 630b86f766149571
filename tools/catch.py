#!/usr/bin/env python3
"""Which checks catch which planted bugs. catch.py [ID...] [-a]: apply each patch to /repo, run its property's check (-a: all), undo."""
import sys, os, json, subprocess, re
os.chdir('/verif')
a = [x for x in sys.argv[1:] if x[0] != '-']
allc = '-a' in sys.argv
props = [c['property'] for c in json.load(open('MANIFEST.json'))['checks']]
assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
for i in a or sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{i}/meta.json'))
    subprocess.run(['git','-C','/repo','apply',f'/verif/seeded/{i}/patch.diff'],check=True)
    res = []
    try:
        for p in (props if allc else [m['property']]):
            x = subprocess.run(['./check',p],capture_output=True,text=True,env={**os.environ,'VERIF_SEED':'1','VERIF_TIER':'quick'})
            v = [l for l in x.stdout.split('\n') if l.startswith('VIOLATION')]
            if x.returncode == 1 and v: res.append(f'{p}')
            elif x.returncode: res.append(f'{p}?{x.returncode}')
            if not allc: print(x.stdout[-600:] if x.returncode!=0 else '')
    finally:
        subprocess.run(['git','-C','/repo','checkout','--','.'],check=True)
    print(i, m['property'], 'caught by', ' '.join(res) or 'NONE', flush=True)
