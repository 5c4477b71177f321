#!/usr/bin/env python3
"""Runs the solver-based check of one property:  check.py <ID> [--tier quick|thorough] [--keep] [--only NAME]
Rebuilds everything from /repo's working tree: harness + library code -> LLVM IR -> symbolic execution (engine/)
with Z3; counterexamples and a few witness paths are replayed on a native g++ build of the same harness."""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, concurrent.futures as cf, fcntl
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VF_REPO','/repo')
sys.path.insert(0,V)
import props
CLANG='/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++-18'
NPROC=int(os.environ.get('VF_JOBS','8'))
def sh(cmd,timeout=None,env=None):
    try:
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,env=env)
        return p.returncode,p.stdout.decode(errors='replace'),p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout',(e.stdout or b'').decode(errors='replace'),(e.stderr or b'').decode(errors='replace')
def engine():
    """build the executor if it is missing or older than its sources (content hash)"""
    h=hashlib.sha256()
    for f in ('engine/engine.cpp','engine/expr.hpp','engine/solver.hpp','engine/build.sh'): h.update(open(os.path.join(V,f),'rb').read())
    tag=h.hexdigest()[:16]; b=os.path.join(V,'build'); os.makedirs(b,exist_ok=True); exe=os.path.join(b,'sxe-'+tag)
    with open(os.path.join(b,'lock'),'w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for o in os.listdir(b):
                if o.startswith('sxe-'): os.remove(os.path.join(b,o))
            rc,o,e=sh([os.path.join(V,'engine/build.sh'),exe])
            if rc!=0: print('engine build failed',e[-2000:]); sys.exit(3)
    return exe
class Ctx: pass
def config(c,mpi,hdf,kokkos=0):
    """private generated config header, as cmake would write it"""
    d=os.path.join(c.w,'cfg_%d%d%d'%(mpi,hdf,kokkos)); os.makedirs(d+'/src/grid/iteration',exist_ok=True)
    t='#ifndef SCHNEK_CONFIG_HPP_\n#define SCHNEK_CONFIG_HPP_\n#define SCHNEK_VERSION "v"\n'
    if mpi: t+='#define SCHNEK_HAVE_MPI\n'
    if hdf: t+='#define SCHNEK_HAVE_HDF5\n'
    if hdf==2: t+='#define SCHNEK_USE_HDF_PARALLEL\n'
    if kokkos: t+='#define SCHNEK_HAVE_KOKKOS\n'
    f=d+'/src/config.hpp'
    with c.lockfor(f):      # written once: other instances may be compiling against it
        if not os.path.exists(f):
            open(f+'.tmp','w').write(t+'#endif\n'); os.rename(f+'.tmp',f)
    return d
def incs(c,inst):
    d=config(c,1 if inst.get('mpi') else 0,inst.get('hdf',0),1 if inst.get('kokkos') else 0)
    return ['-I'+V+'/shim/'+s for s in inst.get('shims',[])]+['-I'+V+'/shim/common','-I'+V+'/harness','-I'+REPO+'/src','-isystem',d+'/src/grid','-isystem',d+'/src/grid/iteration','-isystem',d+'/src']
def defs(inst): return ['-D%s=%s'%(k,v) for k,v in inst.get('defs',{}).items()]
SYM=['-std=c++17','-O1','-g','-fno-pic','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-D_GLIBCXX_EXTERN_TEMPLATE=-1','-DVF_SYMBOLIC','-w','-emit-llvm','-c']
NAT=['-std=c++17','-O1','-g','-w','-fsanitize=address','-fno-omit-frame-pointer']
def libflags(c,inst): return incs(c,inst)+inst.get('cflags',[])+(defs(inst) if inst.get('libdefs') else [])   # flags of library sources and runtime: no harness macros, so they are compiled once
def path(f): return os.path.join(REPO,f) if f.startswith('src/') else os.path.join(V,'harness',f)
def key(*a): return hashlib.sha256(repr(a).encode()).hexdigest()[:20]
def compile_bc(c,src,flags):
    out=os.path.join(c.w,key('bc',src,flags)+'.bc')
    with c.lockfor(out):
        if not os.path.exists(out):
            rc,o,e=sh([CLANG]+SYM+flags+[src,'-o',out+'.tmp'],timeout=300)
            if rc!=0: return None,e[:20000]
            os.rename(out+'.tmp',out)
    return out,''
def compile_obj(c,src,flags,extra=()):
    out=os.path.join(c.w,key('o',src,flags,extra)+'.o')
    with c.lockfor(out):
        if not os.path.exists(out):
            rc,o,e=sh(['g++']+NAT+list(extra)+flags+['-c',src,'-o',out+'.tmp'],timeout=300)
            if rc!=0: return None,e[:20000]
            os.rename(out+'.tmp',out)
    return out,''
def native(c,inst,fill=''):
    """native build of the same harness; fill selects how indeterminate stack variables are initialised"""
    flags=incs(c,inst)+inst.get('cflags',[])+defs(inst); extra=('-ftrivial-auto-var-init='+fill,) if fill else ()
    objs=[]
    for s in [inst['harness']]+inst.get('srcs',[])+['replay_rt.cpp']:
        o,e=compile_obj(c,path(s),flags if s==inst['harness'] else libflags(c,inst),extra)
        if not o: return None,e
        objs.append(o)
    exe=os.path.join(c.w,key('exe',objs)); rc,o,e=sh(['g++']+NAT+objs+['-o',exe]+inst.get('libs',[]),timeout=300)
    return (exe,'') if rc==0 else (None,e[-3000:])
def run_native(exe,vals,w,timeout=20,fillbyte=None,fs=None):
    fn=os.path.join(w,'in_'+key(vals,time.time())); open(fn,'w').write('\n'.join(str(v) for v in vals)+'\n')
    opt='detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=0'
    if fillbyte is not None: opt+=':max_malloc_fill_size=1048576:malloc_fill_byte=%d'%fillbyte
    rc,o,e=sh([exe,fn],timeout=timeout,env=dict(os.environ,ASAN_OPTIONS=opt)); return rc,o,e,fn
def run_instance(c,inst):
    r={'name':inst['name'],'status':'error','detail':''}; t0=time.time(); flags=incs(c,inst)+inst.get('cflags',[])+defs(inst); bcs=[]
    ss=[inst['harness']]+inst.get('srcs',[])+['rt.cpp']
    comp=[c.pool.submit(compile_bc,c,path(s),flags if s==inst['harness'] else libflags(c,inst)) for s in ss]
    if inst.get('srcs') and inst.get('native',True): nat=[c.pool.submit(compile_obj,c,path(s),flags if s==inst['harness'] else libflags(c,inst)) for s in ss[:-1]+['replay_rt.cpp']]
    for s,fu in zip(ss,comp):
        o,e=fu.result()
        if not o: r['detail']='compile of %s failed: %s'%(s,' | '.join([l for l in e.splitlines() if 'error' in l][:3])[:700]); return r
        bcs.append(o)
    out=os.path.join(c.w,key('out',inst['name'])+'.json'); mt=inst.get('max_time',c.budget)
    cmd=[c.exe]+bcs+['-o',out,'--max-time',str(mt),'--query-ms',str(inst.get('query_ms',60000 if c.tier=='quick' else 300000)),'--max-viol',str(inst.get('max_viol',4)),'--max-steps',str(inst.get('max_steps',3000000)),'--wit',str(inst.get('wit',3))]
    rc,o,e=sh(cmd,timeout=mt+120)
    if not os.path.exists(out): r['detail']='executor produced no result (rc=%s): %s'%(rc,e[-1500:]); return r
    d=json.load(open(out)); r['res']=d; r['status']=d['status']; r['detail']=d['inconclusive']; r['wall']=time.time()-t0
    if d['status']=='ok':
        # vacuity: at least one completed path, and every required marker reached
        if d['paths']<1: r['status']='error'; r['detail']='vacuous: no feasible path reached the end of the harness'
        if d['asserts']<1: r['status']='error'; r['detail']='vacuous: no assertion evaluated'
        miss=[m for m in inst.get('reach',[]) if m not in d['reach']]
        if miss: r['status']='error'; r['detail']='vacuous: never reached '+', '.join(miss)
    # replay
    r['replayed']=0; r['confirmed']=[]; r['unconfirmed']=[]
    if d['violations'] or (d['witnesses'] and inst.get('native',True)):
        exe,e=native(c,inst)
        if not exe: r['status']='error'; r['detail']='native build failed: '+e; return r
    if d['status']=='ok' and inst.get('native',True):
        for wi in d['witnesses']:
            vals=[int(x[1]) for x in wi['in']]; rc,o,e,fn=run_native(exe,vals,c.w,timeout=60)
            obs=[l.split()[1] for l in o.splitlines() if l.startswith('OBS ')]
            if rc!=0: r['status']='error'; r['detail']='native run of a witness path disagrees with the executor: rc=%s %s %s'%(rc,o[-400:],e[-1200:]); r['bad_witness']=vals; break
            if obs!=wi['obs']: r['status']='error'; r['detail']='native observations differ from the executor: %s vs %s'%(obs[:20],wi['obs'][:20]); r['bad_witness']=vals; break
            r['replayed']+=1
    for v in d['violations']:
        vals=[int(x[2]) for x in v['in']]; ok=None
        for fill,fb in (('',None),('pattern',190),('zero',0),('',255)):
            x,e=native(c,inst,fill) if fill else (exe,'')
            if not x: continue
            rc,o,e2,fn=run_native(x,vals,c.w,timeout=10 if v['kind']!='nontermination' else 20,fillbyte=fb)
            bad=(rc=='timeout' and v['kind'] in('nontermination','recursion')) or (rc not in(0,78,'timeout'))
            if bad: ok=(rc,o,e2); break
        ent=dict(v,vals=vals,inst=inst['name'])
        if ok: ent['native']={'rc':ok[0],'out':ok[1][-600:],'err':ok[2][-1500:]}; r['confirmed'].append(ent)
        else: ent['native']={'rc':rc,'out':o[-300:]}; r['unconfirmed'].append(ent)
    return r
def known(pid):
    fs=[]
    p=os.path.join(V,'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l and not l.startswith('#'):
                d=json.loads(l)
                if d.get('property')==pid and d.get('status')=='finding': fs.append(d)
    return fs
def matches(f,v):
    m=f['match']; return all(m[k] in v.get(k,'') for k in ('msg','kind','where','inst') if k in m)
def main():
    a=sys.argv[1:]
    if a and a[0]=='--setup': print('executor',engine()); return
    pid=a[0]; tier=os.environ.get('VERIF_TIER','quick'); keep=False; only=None
    i=1
    while i<len(a):
        if a[i]=='--tier': tier=a[i+1]; i+=1
        elif a[i]=='--keep': keep=True
        elif a[i]=='--only': only=a[i+1]; i+=1
        i+=1
    if tier not in('quick','thorough'): tier='quick'
    t0=time.time(); c=Ctx(); c.tier=tier; c.exe=engine(); c.w=tempfile.mkdtemp(prefix='vf_%s_'%pid); c.budget=600 if tier=='quick' else 7200
    import threading; lk={}; g=threading.Lock()
    def lockfor(o):
        with g: return lk.setdefault(o,threading.Lock())
    c.lockfor=lockfor; c.pool=cf.ThreadPoolExecutor(NPROC)
    insts=[x for x in props.instances(pid,tier) if not only or only in x['name']]
    rc=2
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex: rs=list(ex.map(lambda x:run_instance(c,x),insts))
        rc=finish(pid,tier,insts,rs,time.time()-t0)
    finally:
        if keep: print('kept',c.w)
        else: shutil.rmtree(c.w,ignore_errors=True)
    sys.exit(rc)
def finish(pid,tier,insts,rs,wall):
    p=props.PROPS[pid]; kf=known(pid); conf=[]; unconf=[]; errs=[]
    for r in rs:
        for v in r.get('confirmed',[]): conf.append(v)
        for v in r.get('unconfirmed',[]): unconf.append((r,v))
        if r['status'] in('error','inconclusive'): errs.append((r['name'],r['detail']))
    new=[v for v in conf if not any(matches(f,v) for f in kf)]
    seen=set()
    for v in conf:
        for f in kf:
            if matches(f,v) and f['what'] not in seen: seen.add(f['what']); print('KNOWN-FINDING: property=%s %s'%(pid,f['what']))
    res=[r['res'] for r in rs if 'res' in r]
    tot=lambda k:sum(d.get(k,0) for d in res)
    fns=sorted({f for d in res for f in d['functions']}); stubs=sorted({f for d in res for f in d['stubbed']}); sites={}
    for d in res:
        for k,n in d['assert_sites'].items(): sites[k]=sites.get(k,0)+n
    samples=[]
    for r in rs:
        for w in r.get('res',{}).get('witnesses',[])[:1]: samples.append({'instance':r['name'],'path_inputs':{('%s#%d'%(n,j)):v for j,(n,v) in enumerate(w['in'][:40])}})
    ev={'property':pid,'tier':tier,'seed':int(os.environ.get('VERIF_SEED','1') or 1),'level':'model_checking','wall_s':round(wall,2),'violations':len(new),
        'coverage':{'states':tot('paths')+tot('killed'),'transitions':tot('steps'),'traces_validated_against_impl':sum(r.get('replayed',0) for r in rs),'samples':samples[:8] or ['none'],
          'exhaustive':not errs and not new,'bounds':p.get('bounds',''),
          'instances':[{'name':r['name'],'status':r['status'],'bounds':i.get('bounds',''),'defs':i.get('defs',{}),'paths':r.get('res',{}).get('paths',0),'queries':r.get('res',{}).get('queries',0),'solver_s':round(r.get('res',{}).get('solver_s',0),3),'wall_s':round(r.get('res',{}).get('wall_s',0),2)} for i,r in zip(insts,rs)],
          'paths_completed':tot('paths'),'paths_ended_by_assumption':tot('killed'),'ir_instructions_executed':tot('steps'),
          'solver':{'queries':tot('queries'),'sat':tot('sat'),'unsat':tot('unsat'),'unknown':tot('unknown'),'answered_by_cached_query':tot('cache_hits'),'answered_by_model':tot('model_hits'),'time_s':round(tot('solver_s'),3)},
          'assertions_evaluated':tot('asserts'),'assertions_needing_solver':tot('asserts_solver'),'assertion_sites':sites,
          'functions_encoded':len(fns),'functions':fns[:150],'stubs_used':stubs},
        'assumptions':p.get('assumptions',[])+props.COMMON_ASSUMPTIONS}
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
    print('%s [%s] instances=%d paths=%d asserts=%d (solver %d) queries=%d solver=%.1fs replayed=%d wall=%.1fs'%(pid,tier,len(rs),tot('paths'),tot('asserts'),tot('asserts_solver'),tot('queries'),tot('solver_s'),ev['coverage']['traces_validated_against_impl'],wall))
    if new:
        rd=os.path.join(V,'build','replays'); os.makedirs(rd,exist_ok=True)
        for n,v in enumerate(new):
            f=os.path.join(rd,'%s-%d.json'%(pid,n)); json.dump(v,open(f,'w'),indent=1)
            print('  instance %s: %s: %s\n    at %s\n    inputs %s\n    native: rc=%s %s'%(v['inst'],v['kind'],v['msg'],v['where'][:300],' '.join('%s=%s'%(x[0],x[1]) for x in v['in'])[:600],v['native']['rc'],(v['native']['out'].strip().splitlines() or [''])[-1][:200]))
        print('VIOLATION property=%s replay=%s'%(pid,os.path.join(rd,'%s-0.json'%pid))); return 1
    for r,v in unconf: print('UNCONFIRMED (not reproduced natively) %s: %s: %s at %s inputs %s native %s'%(v['inst'],v['kind'],v['msg'],v['where'],v['in'],v['native']))
    for n,d in errs: print('NO-ANSWER %s: %s'%(n,d))
    return 2 if (unconf or errs) else 0
if __name__=='__main__': main()
