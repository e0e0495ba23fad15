#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from a seed description file and try it out.

usage: plant.py make SEEDS.py [id...]     write patch.diff, demo.sh, demo.cpp, meta.json
       plant.py try  [--nocheck] id...    apply to /repo, build, test, demo, run the property's check, undo
SEEDS.py defines SEEDS = [dict(id, prop, edits=[(path, old, new)], demo, plats, needs, breaks)];
a path starting with 'both:' is edited in both backends' directories.
Nothing a registered check runs uses this file.
"""
import json, os, subprocess, sys, shutil, runpy
SB='/tmp/sb'; OUT='/verif/seeded'
P='src/graphblas/platforms/'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(s):
    sh(f'git -C {SB} checkout -q -- . && git -C {SB} fetch -q /repo HEAD && git -C {SB} reset -q --hard FETCH_HEAD')
    for path, old, new in s['edits']:
        fs=[P+b+'/'+path[5:] for b in ('sequential','optimized_sequential')] if path.startswith('both:') else [path]
        for f in fs:
            t=open(f'{SB}/{f}').read()
            nth=0
            if isinstance(old, tuple): o,nth=old
            else: o=old; assert t.count(o)==1, (s['id'], f, t.count(o))
            parts=t.split(o); assert len(parts)>nth+1,(s['id'],f)
            t=o.join(parts[:nth+1])+new+o.join(parts[nth+1:])
            open(f'{SB}/{f}','w').write(t)
    d=f"{OUT}/{s['id']}"; os.makedirs(d, exist_ok=True)
    open(d+'/patch.diff','w').write(sh(f'git -C {SB} diff').stdout)
    sh(f'git -C {SB} checkout -q -- .')
    open(d+'/demo.cpp','w').write(s['demo'].lstrip('\n'))
    plats=s.get('plats',['sequential','optimized_sequential'])
    flags=s.get('flags','')
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken (cwd: /repo)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
for plat in {' '.join(plats)}; do
  g++ -std=c++17 -w {flags} -I src -I src/graphblas/platforms/$plat -o "$work/demo" "$here/demo.cpp" || exit 2
  timeout 120 "$work/demo" || {{ echo "broken on $plat"; exit 1; }}
done
exit 0
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']}, open(d+'/meta.json','w'), indent=1)
def tryit(i, check=True):
    d=f'{OUT}/{i}'; prop=json.load(open(d+'/meta.json'))['property']
    r=[]
    assert sh('git -C /repo status --porcelain').stdout=='', 'repo dirty'
    a=sh(f'cd /repo && bash {d}/demo.sh'); r.append(('clean demo',a.returncode))
    b=sh(f'git -C /repo apply {d}/patch.diff')
    if b.returncode: print(i,'APPLY FAILED',b.stderr); return
    try:
        t=sh('bash /tmp/rt.sh'); r.append(('tests',t.stdout.strip()[-60:]))
        a=sh(f'cd /repo && bash {d}/demo.sh'); r.append(('patched demo',a.returncode,(a.stdout+a.stderr)[-100:]))
        if check:
            man=json.load(open('/verif/MANIFEST.json'))
            cmd=[c['quick_cmd'] if 'quick_cmd' in c else c['quick'] for c in man['checks'] if c.get('id',c.get('property'))==prop or c.get('property')==prop][0]
            k=sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick {cmd}'); 
            v=[l for l in k.stdout.splitlines() if 'VIOLATION' in l]
            r.append(('check',k.returncode,v[:1], len(v)))
    finally:
        sh('git -C /repo checkout -q -- .')
    print(i,prop,*r,flush=True)
if sys.argv[1]=='make':
    for s in runpy.run_path(sys.argv[2])['SEEDS']:
        if len(sys.argv)==3 or s['id'] in sys.argv[3:]: make(s)
else:
    a=sys.argv[2:]; chk=True
    if a and a[0]=='--nocheck': chk=False; a=a[1:]
    for i in a: tryit(i, chk)
