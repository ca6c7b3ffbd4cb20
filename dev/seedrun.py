#!/usr/bin/env python3
"""seedrun.py [--all] ID... : runs the check(s) of planted bugs on a patched copy of /repo (with --all every claimed check)."""
import sys,os,json,subprocess,tempfile,shutil,concurrent.futures
HERE='/verif'
def one(a):
    sid,c=a
    d=tempfile.mkdtemp(prefix='sr.')
    try:
        repo=d+'/repo'; os.mkdir(repo)
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {repo} && cd {repo} && patch -s -p1 < {HERE}/seeded/{sid}/patch.diff',shell=True,check=True)
        env=dict(os.environ,POLY_REPO=repo,POLY_CACHE=d+'/cache',POLY_EVID=d+'/ev'); os.makedirs(d+'/cache')
        for x in os.listdir(HERE+'/.cache'):
            if x.startswith('polyx-'): shutil.copy(HERE+'/.cache/'+x,d+'/cache/'+x)
        r=subprocess.run([sys.executable,HERE+'/check.py',c],env=env,capture_output=True,text=True)
        return sid,c,r.returncode,[l for l in r.stdout.splitlines() if l.startswith('  ') or 'NO ANS' in l][:6]
    finally: shutil.rmtree(d)
al='--all' in sys.argv
ids=[a for a in sys.argv[1:] if a[0]!='-'] or sorted(os.listdir(HERE+'/seeded'))
m=[c['property_id'] if 'property_id' in c else c.get('property') for c in json.load(open(HERE+'/MANIFEST.json'))['checks']]
jobs=[(s,c) for s in ids for c in (m if al else [json.load(open(f'{HERE}/seeded/{s}/meta.json'))['property']])]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for sid,c,rc,ls in ex.map(one,jobs):
        if al and rc==0: continue
        print(sid,c,rc); [print('   ',l[:230]) for l in ls]
