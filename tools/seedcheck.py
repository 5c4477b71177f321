#!/usr/bin/env python3
"""tools/seedcheck.py ID... : validate planted bugs in a scratch copy of /repo (applies, builds, stable tests pass, demo 0 -> nonzero).
   tools/seedcheck.py --catch ID... : apply to /repo, run the property's quick check, undo; prints caught/missed."""
import sys,os,subprocess,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
a=sys.argv[1:]; catch='--catch' in a; notest='--notest' in a; ids=[x for x in a if not x.startswith('--')] or sorted(os.listdir(V+'/seeded'))
for i in ids:
    d=V+'/seeded/'+i; m=json.load(open(d+'/meta.json'))
    if catch:
        assert sh('git -C /repo status --porcelain').stdout==b''
        assert sh('git -C /repo apply %s/patch.diff'%d).returncode==0,i
        try: r=sh('python3 check.py %s --tier quick'%m['property'],cwd=V)
        finally: sh('git -C /repo checkout -- .')
        o=r.stdout.decode(); print(i,m['property'],'CAUGHT' if r.returncode==1 and 'VIOLATION property=%s'%m['property'] in o else 'MISSED rc=%d'%r.returncode); 
        if r.returncode!=1: print('\n'.join(x[:300] for x in o.splitlines()[-4:]))
        else: print('   ','\n    '.join(x[:200] for x in o.splitlines() if ': ' in x and 'instance ' in x)[:400])
    else:
        w='/repo'; assert sh('git -C /repo status --porcelain').stdout==b''
        dd='/tmp/seeddemo'; shutil.rmtree(dd,ignore_errors=True); shutil.copytree(d,dd,ignore=shutil.ignore_patterns('*.diff','meta.json'))
        run=lambda: sh('bash %s/demo.sh'%dd,cwd=w,timeout=300)
        b=t=None; r0=run(); ap=sh('git -C /repo apply %s/patch.diff'%d); ok=ap.returncode==0
        try:
            if not notest and ok:
                b=sh('bash /opt/vp/build.sh').returncode; sh('bash /opt/vp/test.sh /tmp/seed_out.json'); o=json.load(open('/tmp/seed_out.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=len(set(base)-set(o['passed']))
            r1=run()
        finally: sh('git -C /repo checkout -- .')
        print(i,'apply',ok,'build',b,'stable tests failing',t,'demo clean rc',r0.returncode,'patched rc',r1.returncode,'=> '+('OK' if ok and r0.returncode==0 and r1.returncode!=0 and not b and not t else 'BAD'),flush=True)
        if r0.returncode!=0 or r1.returncode==0: print(r0.stdout.decode()[-600:],r1.stdout.decode()[-300:])
        shutil.rmtree(dd,ignore_errors=True)
