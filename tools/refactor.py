#!/usr/bin/env python3
"""Development tool (no check uses it): behaviour-preserving edits on a copy of /repo, on which the checks must stay quiet.

A file of edits is Python that calls  ref(id, [props], file, [(old,new),...])
usage: refactor.py FILE.py [ids...] [-j N]"""
import sys, os, subprocess, shutil, concurrent.futures as cf
R='/repo'; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFS=[]
def ref(id, props, file, subs): REFS.append((id,props,file,subs))
def one(r):
    id,props,file,subs=r
    d=f'/tmp/refc_{id}'; shutil.rmtree(d,ignore_errors=True)
    shutil.copytree(R,d,ignore=shutil.ignore_patterns('_build','.git'))
    p=f'{d}/{file}'; s=open(p).read(); out=[]
    for o,n in subs:
        if s.count(o)<1: return [f'{id} PATTERN COUNT 0 {o!r}']
        s=s.replace(o,n)
    open(p,'w').write(s)
    for c in props:
        q=subprocess.run(['python3',V+'/check.py',c,'quick'],env=dict(os.environ,VP_REPO=d,VP_NCPU=os.environ.get('VP_NCPU','3')),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        out.append(f'{id} {c} rc={q.returncode} '+('' if q.returncode==0 else 'ALARM '+q.stdout[-1500:]))
    shutil.rmtree(d,ignore_errors=True)
    return out
def main():
    args=sys.argv[1:]; j=2
    if '-j' in args: i=args.index('-j'); j=int(args[i+1]); del args[i:i+2]
    exec(compile(open(args[0]).read(),args[0],'exec'),globals())
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(one,r) for r in REFS if not args[1:] or r[0] in args[1:]]):
            print('\n'.join(f.result()),flush=True)
main()
