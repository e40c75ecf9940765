"""try.py [ids...] [--checks c01,c02]: runs the property's check against each planted bug, in copies"""
import sys,os,json,subprocess,shutil,time
ids=[a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir('/verif/seeded'))
chk=None
for a in sys.argv[1:]:
    if a.startswith('--checks='): chk=a[9:].split(',')
shutil.rmtree('/tmp/vcopy',ignore_errors=True)
shutil.copytree('/verif','/tmp/vcopy',ignore=shutil.ignore_patterns('.git','seeded','out','evidence'))
os.makedirs('/tmp/vcopy/evidence');os.makedirs('/tmp/vcopy/out')
for i in ids:
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    d='/tmp/mut'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run('cp -a /repo/src %s/src && cp -a /repo/test %s/test && cd %s && patch -s -p1 < /verif/seeded/%s/patch.diff'%(d,d,d,i),shell=True,check=True)
    for c in chk or [m['property'].lower()]:
        if not os.path.exists('/tmp/vcopy/checks/%s.py'%c): print(i,c,'no check'); continue
        t=time.time()
        r=subprocess.run(['python3','checks/%s.py'%c],cwd='/tmp/vcopy',env=dict(os.environ,NK_REPO=d,VERIF_SEED='1',VERIF_TIER='quick'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        why=[l for l in r.stdout.split('\n') if l.startswith('  ')]
        print(i,c,'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,len(v),'%.0fs'%(time.time()-t),(why[0][:160] if why else r.stdout[-300:] if r.returncode not in(0,1) else ''),flush=True)
