"""mkseed.py SPECFILE...: each spec is a python file defining id, prop, needs, breaks, edits=[(file,old,new)], files={name:text}, demo(optional)"""
import sys,os,subprocess,json,shutil,re
RIG=open('/verif/tools/rig.c').read() if os.path.exists('/verif/tools/rig.c') else ''
DEMO_NKS='''#!/bin/bash
# Runs demo.nks with a "print" function and compares what it prints.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -I/repo/src "$D/rig.c" /repo/src/*.c -o "$W/rig" -lm || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$W/rig" "$D/demo.nks" ARGS > "$W/out" 2> "$W/err"
echo "exit $?" >> "$W/out"
diff "$D/expected.txt" "$W/out" || { tail -5 "$W/err"; exit 1; }
'''
DEMO_C='''#!/bin/bash
# Builds and runs demo.c against the sources; it exits with 0 if all is well.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -I/repo/src "$D/demo.c" /repo/src/*.c -o "$W/demo" -lm || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$W/demo" || exit 1
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def git(*a): return subprocess.run(['git','-C','/repo']+list(a),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
notest='--notest' in sys.argv
for sp in [a for a in sys.argv[1:] if not a.startswith('--')]:
    g={}
    exec(open(sp).read(),g)
    d='/verif/seeded/'+g['id']
    assert git('status','--porcelain').stdout.strip()=='' , 'repo dirty'
    try:
        for f,old,new in g['edits']:
            p='/repo/src/'+f; s=open(p).read()
            assert s.count(old)==1,(f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=git('diff').stdout
    finally:
        git('checkout','--','.')
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    for n,t in g.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    if 'nks' in g:
        open(d+'/rig.c','w').write(RIG); open(d+'/demo.nks','w').write(g['nks']); open(d+'/demo.sh','w').write(DEMO_NKS.replace('ARGS',g.get('args','')))
        open(d+'/expected.txt','w').write('')
    else:
        open(d+'/demo.c','w').write(g['c']); open(d+'/demo.sh','w').write(DEMO_C)
    json.dump({"property":g['prop'],"needs":g['needs'],"what_it_breaks":g['breaks']},open(d+'/meta.json','w'),indent=1)
    os.chmod(d+'/demo.sh',0o755)
    def demo(): return sh('bash %s/demo.sh'%d,cwd='/repo')
    if 'nks' in g:
        o=demo().stdout
        exp=[l[2:] for l in o.split('\n') if l.startswith('> ')]
        open(d+'/expected.txt','w').write('\n'.join(exp)+'\n')
        print('   expected:',exp[:12])
    r0=demo()
    a=git('apply',d+'/patch.diff'); assert a.returncode==0,a.stdout
    try:
        r1=demo()
        ok=False
        if r0.returncode==0 and r1.returncode==1:
            if notest: ok=True
            else:
                t=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedout.json')
                try:
                    o=json.load(open('/tmp/seedout.json')); miss=base-set(o['passed']); ok=not miss
                    if miss: print('   tests fail:',sorted(miss)[:4],len(miss))
                except Exception as e: print('   build/test problem',e,t.stdout[-500:])
    finally:
        git('checkout','--','.')
    print(g['id'],'clean',r0.returncode,'patched',r1.returncode,'OK' if ok else 'REJECTED', (r0.stdout if r0.returncode else r1.stdout)[-600:],flush=True)
    if not ok: shutil.move(d,'/tmp/seeds/rejected-'+g['id']) if not os.path.exists('/tmp/seeds/rejected-'+g['id']) else shutil.rmtree(d)
sh('bash /opt/vp/build.sh')
