"""plant(id, property, edits, demo_c, needs, breaks): try a seeded change on /repo (restored afterwards), keep it
under /verif/seeded/<id> when it builds, passes the stable tests and its demonstration tells the trees apart."""
import subprocess,os,json,shutil,sys
V='/verif';R='/repo'
DEMO='''#!/bin/bash
# Exit 0 when the property holds for this demonstration.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -fsanitize=address -DVERSION_MAJOR=2 -DVERSION_MINOR=0 -DVERSION_PATCH=0 -DVERSION_DEVEL=1 -Iinclude -Isrc src/*.c "$D/demo.c" -lyaml -lpthread -o "$T/demo" || exit 99
cd "$T" && timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def stable():
    b=json.load(open('/opt/vp/BASELINE.json'))
    return b
def passed(out):
    return json.load(open(out))
def tests_ok():
    r=sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build: '+r.stdout[-500:]+r.stderr[-1500:]
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    o=json.load(open('/tmp/plant_out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
    want=b['stable']
    got=o.get('passed') or []
    miss=set(want)-set(got)
    return '' if not miss else 'tests failing: '+', '.join(sorted(miss)[:8])+f' ({len(miss)})'
def plant(i,prop,edits,demo,needs,breaks,checks=None,demo_sh=None):
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(),'repo dirty'
    d=f'{V}/seeded/{i}'
    tmp=f'/tmp/plant_{i}';shutil.rmtree(tmp,ignore_errors=True);os.makedirs(tmp)
    open(tmp+'/demo.c','w').write(demo);open(tmp+'/demo.sh','w').write(demo_sh or DEMO);os.chmod(tmp+'/demo.sh',0o755)
    ok=False;res={}
    try:
        r=sh(f'bash {tmp}/demo.sh',cwd=R)
        if r.returncode: print(i,'DEMO FAILS ON CLEAN TREE',r.returncode,r.stdout[-800:],r.stderr[-1500:]);return
        for f,a,b in edits:
            s=open(f'{R}/{f}').read()
            if s.count(a)!=1: print(i,'EDIT MATCHES',s.count(a),a);return
            open(f'{R}/{f}','w').write(s.replace(a,b))
        open(tmp+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
        t=tests_ok()
        if t: print(i,'REJECTED',t);return
        r=sh(f'bash {tmp}/demo.sh',cwd=R)
        if r.returncode==0: print(i,'DEMO PASSES WITH PATCH');return
        if r.returncode==99: print(i,'DEMO DOES NOT BUILD',r.stderr[-800:]);return
        ok=True
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(tmp+'/meta.json','w'),indent=1)
        shutil.rmtree(d,ignore_errors=True);shutil.copytree(tmp,d)
        for c in (checks or [prop]):
            if not os.path.exists(f'{V}/harness/props/{c}.cpp'): res[c]='no check';continue
            r=sh(f'./check.sh {c} quick',cwd=V)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res[c]='caught' if r.returncode==1 and v else f'MISSED ({r.returncode})'
            if v: res[c]+=': '+r.stdout.splitlines()[1][:160] if len(r.stdout.splitlines())>1 else ''
    finally:
        sh(f'git -C {R} checkout -- .');shutil.rmtree(tmp,ignore_errors=True)
    print(i,'kept' if ok else 'not kept',res,flush=True)
