#!/usr/bin/env python3
"""Development tool (no check uses it): turn bug descriptions into seeded/<id>/ and try them.

A bug file is Python that calls  bug(id, prop, file, [(old,new),...], needs, breaks, demo, srcs='', flags='')
usage: plant.py FILE.py [ids...]   [--nocheck] [--tier thorough]
For each bug: apply to a copy of /repo, write patch.diff, build, stable tests, demo (must fail), undo, demo (must pass);
then the property's check runs on a patched copy (VP_REPO) and must report."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
R='/tmp/plantwork'; V='/verif' # bugs are tried in a copy of /repo
BUGS=[]
def bug(id, prop, file, subs, needs, breaks, demo, srcs='', flags=''):
    BUGS.append(dict(id=id,prop=prop,file=file,subs=subs,needs=needs,breaks=breaks,demo=demo,srcs=srcs,flags=flags))
def sh(c, cwd=None, env=None, timeout=1000):
    return subprocess.run(c, shell=isinstance(c,str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def undo(): sh('git checkout -- .',R)
def main():
    args=[a for a in sys.argv[1:] if not a.startswith('--')]
    exec(compile(open(args[0]).read(),args[0],'exec'),globals())
    want=args[1:]; jobs=[]
    shutil.rmtree('/tmp/plantwork',ignore_errors=True)
    sh('git clone -q /repo /tmp/plantwork')
    if os.path.isdir('/repo/tests/build'): sh('cp -a /repo/tests/build /tmp/plantwork/tests/')
    ex=cf.ThreadPoolExecutor(3)
    for b in BUGS:
        if want and b['id'] not in want: continue
        d=f"{V}/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
        open(d+'/demo.cc','w').write(b['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -I. {b['flags']} "$here/demo.cc" {b['srcs']} -o "$t/demo" || exit 8
timeout 120 "$t/demo"
''')
        os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        p=f"{R}/{b['file']}"; s=open(p).read()
        bad=False
        for o,n in b['subs']:
            if s.count(o)!=1: print(b['id'],'PATTERN COUNT',s.count(o),repr(o)); bad=True
            s=s.replace(o,n)
        if bad: continue
        try:
            r=sh(['bash',d+'/demo.sh'],R)
            if r.returncode!=0: print(b['id'],'demo FAILS on clean tree',r.returncode,r.stdout[-1500:]); continue
            open(p,'w').write(s)
            diff=sh('git diff',R).stdout
            base=set(sh(['git','show','1f2886c:'+b['file']],R).stdout.split('\n'))
            mine=[l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:] not in base]
            if mine: print(b['id'],'NOTE: changes lines of a fix:',mine[:3])
            open(d+'/patch.diff','w').write(diff)
            r=sh('make -C tests -j6 build/runtests',R)
            if r.returncode!=0: print(b['id'],'BUILD fail',r.stdout[-1500:]); continue
            r=sh('timeout 100 tests/build/runtests',R)
            if r.returncode!=0: print(b['id'],'TESTS FAIL',r.stdout[-800:]); continue
            r=sh(['bash',d+'/demo.sh'],R)
            if r.returncode==0: print(b['id'],'demo passes WITH the patch'); continue
            demo_out=r.stdout.strip().split('\n')[-1][:100]
            cp=f"/tmp/plant_{b['id']}"; shutil.rmtree(cp,ignore_errors=True)
            shutil.copytree(R,cp,ignore=shutil.ignore_patterns('.git','_build','build'))
        finally: undo()
        def chk(b=b,cp=cp,dem=demo_out):
            env=dict(os.environ,VP_REPO=cp,VERIF_SEED='1',VERIF_TIER='quick')
            tier=sys.argv[sys.argv.index('--tier')+1] if '--tier' in sys.argv else 'quick'
            try:
                r=sh(['python3',V+'/check.py',b['prop'],tier],V,env)
                v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                ok=r.returncode==1 and v and ('property='+b['prop']) in v[0]
                print(b['id'],b['prop'],'CAUGHT' if ok else f'**MISSED** rc={r.returncode} '+r.stdout[-300:],'| demo:',dem,flush=True)
            finally: shutil.rmtree(cp,ignore_errors=True)
        if '--nocheck' not in sys.argv: jobs.append(ex.submit(chk))
        else: print(b['id'],'ok | demo:',demo_out); shutil.rmtree(cp,ignore_errors=True)
    for j in jobs: j.result()
    shutil.rmtree('/tmp/plantwork',ignore_errors=True)
main()
