#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current working tree.

1. compile the sources the property depends on to LLVM IR (from the working tree, on this run),
2. discharge every obligation of every contract of the property, function by function (zv/, z3),
3. compile and run the replay harness against the same sources: it turns failed obligations into failing
   inputs and is the (labelled, bounded) stand-in for functions outside the verifier's reach.

exit 0: nothing violated;  exit 1 + VIOLATION line otherwise."""
import os, sys
if os.environ.get('PYTHONHASHSEED')!='0':      # same term order, hence same solver behaviour, on every run
    os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)
import time, json, importlib, pickle, subprocess, shutil, tempfile, signal, threading, select, traceback, hashlib
ROOT=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[ROOT,ROOT+'/zv',ROOT+'/specs']
sys.setrecursionlimit(20000)
import build
from props import PROPS
TIER=os.environ.get('VERIF_TIER','quick')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
NPROC=int(os.environ.get('ZV_NPROC','8'))
T0=time.time()
LIMIT=float(os.environ.get('ZV_LIMIT',{'quick':520,'thorough':5400}[TIER if TIER in('quick','thorough') else 'quick']))
FNMAX={'quick':400,'thorough':2400}[TIER if TIER in('quick','thorough') else 'quick']

def log(*a): print(*a,file=sys.stderr,flush=True)

# ------------------------------------------------------------------ proofs
def run_one(prog,cs,c,opts):
    import contract, logic
    logic.STATS.queries=0
    r=contract.verify(prog,cs,c,opts)
    fails=[]
    for f in r.failed:
        fails.append(dict(name=f.get('name'),trace=str(f.get('trace'))[:400],reason=f.get('reason'),goal=f.get('goal'),model=f.get('model'),smt2=f.get('smt2','')[:200000]))
    return dict(fn=c.fn,status=r.status,reason=r.reason,obl=[(n,bool(ok)) for n,ok in r.obligations],failed=fails,paths=r.paths,inv=r.inv,wall=r.wall,
        queries=r.queries,solver=r.solver,inlined=r.inlined,externals=r.externals,contracts=r.contracts,rl=logic.STATS.rl,wallout=logic.STATS.wallout,maxt=logic.STATS.maxt)

def run_batch(prog,cs,todo,deadline,opts=None):
    """fork per function, NPROC at a time; yields results"""
    running={}
    todo=list(todo); out=[]
    while todo or running:
        while todo and len(running)<NPROC and time.time()<deadline:
            c=todo.pop(0)
            rd,wr=os.pipe()
            pid=os.fork()
            if pid==0:
                os.close(rd)
                try:
                    dn=os.open(os.devnull,os.O_WRONLY); os.dup2(dn,1); os.dup2(dn,2)
                    try: r=run_one(prog,cs,c,opts)
                    except BaseException as e: r=dict(fn=c.fn,status='undecided',reason='internal: '+repr(e)[:300],obl=[],failed=[],paths=0,inv=0,wall=0,queries=0,solver=0,inlined=[],externals=[],contracts=[],rl=0,wallout=0,maxt=0)
                    b=pickle.dumps(r)
                    with os.fdopen(wr,'wb') as f: f.write(b)
                finally: os._exit(0)
            os.close(wr)
            running[rd]=(pid,c,time.time(),[])
        if todo and time.time()>=deadline:
            for c in todo: out.append(blank(c,'not started: time budget of the check')); 
            todo=[]
        if not running: break
        rs,_,_=select.select(list(running),[],[],1.0)
        for rd in rs:
            pid,c,t,buf=running[rd]
            b=os.read(rd,1<<20)
            if b: buf.append(b); continue
            os.close(rd); os.waitpid(pid,0); del running[rd]
            try: out.append(pickle.loads(b''.join(buf)))
            except Exception: out.append(blank(c,'verifier process died (memory?)'))
        for rd in list(running):
            pid,c,t,buf=running[rd]
            if time.time()-t>FNMAX or time.time()>deadline+20:
                os.kill(pid,signal.SIGKILL); os.waitpid(pid,0); os.close(rd); del running[rd]
                out.append(blank(c,'wall-clock limit'))
    return out
def blank(c,why): return dict(fn=c.fn,status='undecided',reason=why,obl=[],failed=[],paths=0,inv=0,wall=0,queries=0,solver=0,inlined=[],externals=[],contracts=[],rl=0,wallout=0,maxt=0)

def resolve(f):
    if f.startswith('@'): return os.path.join(ROOT,f[1:])
    return os.path.join(build.S,f)

def prove_module(modname,pid,tmp,deadline,only=None):
    """-> list of results (with 'direct' flag)"""
    m=importlib.import_module(modname)
    want=[c for c in m.C if (pid is None or pid in c.props.split())]
    if only: want=[c for c in want if any(o in c.fn for o in only)]
    if TIER!='thorough' and not only: want=[c for c in want if not c.opts.get('thorough')]
    if not want: return []
    cs={}; foreign=set()
    for d in getattr(m,'DEPS',[]):
        for c in importlib.import_module(d).C: cs[c.fn]=c; foreign.add(c.fn)
    for c in m.C: cs[c.fn]=c; foreign.discard(c.fn)
    try:
        gen=os.path.join(tmp,'gen')
        os.makedirs(gen,exist_ok=True)
        if hasattr(m,'prebuild'): m.prebuild(gen)
        bc,ll=build.build([resolve(f) for f in m.FILES],os.path.join(tmp,modname),extra=[gen])
        from exe import Prog
        prog=Prog(bc,ll)
    except Exception as e:
        log("build/load failed:",repr(e)[:600])
        return [dict(blank(c,'build: '+repr(e)[:300]),direct=True) for c in want]
    res={}
    direct={c.fn for c in want}
    base=load_baseline()
    # long ones first
    want.sort(key=lambda c:-base.get(c.fn,{}).get('wall',1e9 if c.fn not in base else 0))
    todo=[c for c in want if not c.abstract]
    rounds=0
    while todo:
        out=run_batch(prog,cs,todo,deadline,getattr(m,'OPTS',None))
        for r in out:
            try: r['hash']=prog.closure_hash(r['fn'],set(cs))
            except Exception: r['hash']=None
        for r in out: r['module']=modname; r['direct']=r['fn'] in direct; res[r['fn']]=r
        # contracts relied upon by callers must hold as well
        need=set()
        for r in out:
            for d in r['contracts']:
                if d in cs and d not in res and not cs[d].abstract and not(TIER!='thorough' and (d in foreign or cs[d].opts.get('thorough'))): need.add(d)
                elif d in foreign: r.setdefault('foreign',[]).append(d)
        todo=[cs[d] for d in sorted(need)]
        if only: break
    return list(res.values())

_bl=None
def load_baseline():
    global _bl
    if _bl is None:
        p=os.path.join(ROOT,'specs','baseline.json')
        _bl=json.load(open(p)) if os.path.exists(p) else {}
    return _bl

def mine(pid,name):
    """does an obligation belong to the property?  clause labels may start with a property id"""
    lab=name.split(' ',1)[1] if name.startswith('ensures ') else name
    w=lab.split(' ')[0]
    if len(w)==3 and w[0]=='C' and w[1:].isdigit(): return w==pid
    return True

# ------------------------------------------------------------------ harness
def cxx(src,out,inc,defs):
    r=subprocess.run((['gcc','-fcommon'] if src.endswith('.c') else ['g++','-std=gnu++17','-fcommon'])+['-O1','-g','-w','-fsanitize=address','-fno-omit-frame-pointer','-DGCC_VERSION=40300','-DLINUX','-DZMDP_VERSION="1.1.7"','-DCFLAGS="x"','-include','limits.h']+defs+inc+['-c','-o',out,src],capture_output=True,text=True)
    return r.returncode,r.stderr
def parser_gen(gen):
    """the bison/flex outputs, made from the working tree as the project's makefiles do"""
    inc=os.path.join(gen,'include'); os.makedirs(inc,exist_ok=True)
    P=build.S+'/parsers/'
    a=subprocess.run(['bison','-d','-o',inc+'/pomdp_spec.tab.cc',P+'pomdp_spec.y'],capture_output=True,text=True)
    b=subprocess.run(['flex','-o'+inc+'/pomdp_spec.yy.cc',P+'pomdp_spec.l'],capture_output=True,text=True)
    return [inc+'/pomdp_spec.tab.cc',inc+'/pomdp_spec.yy.cc']
NOTLIB={'zmdp.cc','PolicyEvaluatorLSHack.cc'}
def all_sources(gen):
    """every library source of the project (no test programs, no main)"""
    out=parser_gen(gen)
    for d in build.DIRS:
        for f in sorted(os.listdir(os.path.join(build.S,d))):
            if f.startswith('test') or f in NOTLIB: continue
            if f.endswith(('.cc','.c')): out.append(os.path.join(build.S,d,f))
    return out
def build_harness(cfg,tmp):
    """returns (binary, None) or (None, reason)"""
    h=os.path.join(tmp,'h'); os.makedirs(h,exist_ok=True)
    gen=os.path.join(tmp,'hgen'); os.makedirs(gen,exist_ok=True)
    if cfg.get('prepare'): cfg['prepare'](gen)
    lib=[]
    if cfg.get('sources')=='ALL': lib=all_sources(gen); cfg=dict(cfg,sources=[])
    srcs=[os.path.join(ROOT,'harness',cfg['harness'])]+[os.path.join(ROOT,'harness','zh_main.cc')]+lib+[s.replace('$GEN',gen) if '$GEN' in s else os.path.join(build.S,s) for s in cfg.get('sources',[])]
    inc=['-I'+os.path.join(ROOT,'harness'),'-I'+gen,'-I'+gen+'/include']+build.incs()
    from concurrent.futures import ThreadPoolExecutor
    objs=[os.path.join(h,os.path.basename(s).replace('.','_')+'.o') for s in srcs]
    with ThreadPoolExecutor(8) as ex: rs=list(ex.map(lambda so:cxx(so[0],so[1],inc,cfg.get('defs',[])),zip(srcs,objs)))
    for s,(rc,e) in zip(srcs,rs):
        if rc: return None,f"harness does not compile against the current tree: {os.path.basename(s)}: {e[:1200]}"
    b=os.path.join(h,'harness')
    lo=objs[2:2+len(lib)]
    if lo: subprocess.run(['ar','rcs',h+'/lib.a']+lo,check=True)
    r=subprocess.run(['g++','-fsanitize=address']+objs[:2]+objs[2+len(lib):]+([h+'/lib.a'] if lo else [])+['-o',b],capture_output=True,text=True)
    if r.returncode: return None,"harness does not link: "+r.stderr[:1200]
    return b,None
def run_harness(b,pid,tmp,cfg):
    scratch=os.path.join(tmp,'scratch'); os.makedirs(scratch,exist_ok=True)
    env=dict(os.environ); env['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'; env['ZH_REPO']=build.REPO; env['ZH_DATA']=os.path.join(ROOT,'harness','data')
    lim=cfg.get('hlimit',{'quick':150,'thorough':1500}[TIER if TIER in('quick','thorough') else 'quick'])
    try:
        r=subprocess.run([b,'--seed',str(SEED),'--tier',TIER,'--dir',scratch],capture_output=True,text=True,errors='replace',cwd=scratch,env=env,timeout=lim,stdin=subprocess.DEVNULL)
        return r.returncode,r.stdout,r.stderr
    except subprocess.TimeoutExpired as e:
        return -1,(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or ''),'harness time limit'

# ------------------------------------------------------------------ main
def known_findings(pid):
    out=[]
    p=os.path.join(ROOT,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l=l.rstrip('\n')
            if l.startswith(f'known: property={pid} '):
                out.append(l.split(' ',2)[2])      # "<key> :: text"
    return out

def main():
    pid=sys.argv[1]
    only=sys.argv[2:]
    cfg=PROPS[pid]
    tmp=tempfile.mkdtemp(prefix=f'zv_{pid}_')
    rc=0
    try: rc=run(pid,cfg,tmp,only)
    except SystemExit: raise
    except BaseException as e:
        log(traceback.format_exc()); rc=2
    finally: shutil.rmtree(tmp,ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def run(pid,cfg,tmp,only):
    ev=os.path.join(ROOT,'evidence'); os.makedirs(ev,exist_ok=True)
    hres={}
    def hb():
        try:
            if cfg.get('harness'): hres['bin'],hres['why']=build_harness(cfg,tmp)
        except Exception as e: hres['bin'],hres['why']=None,repr(e)
    th=threading.Thread(target=hb); th.start(); th.join()      # no threads while forking provers
    results=[]
    deadline=T0+LIMIT
    for mod in cfg.get('mods',[]):
        results+=prove_module(mod,pid,tmp,deadline,only)
    base=load_baseline()
    bad=[]; und=[]; proved=[]
    nob=ndis=0; assoc=[]
    for r in results:
        ob=[(n,ok) for n,ok in r['obl'] if mine(pid,n)]
        nob+=len(ob); ndis+=sum(1 for _,ok in ob if ok)
        key=r['fn']
        if r['status']=='proved': proved.append(r); continue
        fm=[f for f in r['failed'] if mine(pid,f['name'])]
        if r['status']=='failed' and not fm: proved.append(r); r['note']='failed obligations belong to another property: '+'; '.join(f['name'] for f in r['failed']); continue
        timed=[f for f in fm if f['reason'] and any(w in f['reason'] for w in('cancel','timeout','resource','limit'))]
        definite=[f for f in fm if f not in timed]
        if r['status']=='failed' and definite and r['direct'] and base.get(key,{}).get('status')=='proved' and not r['wallout'] and r.get('hash') and r['hash']!=base[key].get('hash'):
            bad.append((r,definite))
        else: und.append(r)
    # harness
    hsum=None; hfail=[]; known=[]
    kf=known_findings(pid)
    if cfg.get('harness') and not only:
        if hres.get('bin'):
            rc,out,err=run_harness(hres['bin'],pid,tmp,cfg)
            hsum=dict(rc=rc,sections=[l for l in out.split('\n') if l.startswith(('OK ','SKIP '))],note=err[-400:] if rc<0 else None)
            for l in out.split('\n'):
                if l.startswith('FAIL '):
                    k=[x for x in kf if l[5:].startswith(x.split(' :: ')[0])]
                    if k: known.append((k[0],l))
                    else: hfail.append(l)
            if rc not in(0,1) and not hfail and rc>=0: hsum['note']='harness ended with code %d: %s'%(rc,err[-600:])
        else: hsum=dict(rc=None,note=hres.get('why'))
    for k in kf:
        txt=k.split(' :: ',1)[-1]
        if any(kk==k for kk,_ in known): print(f"KNOWN-FINDING: property={pid} {txt}")
    viol=[]
    rp=os.path.join(ev,f'{pid}.replay.txt')
    if os.path.exists(rp): os.remove(rp)
    rcode=0
    if hfail or bad:
        with open(rp,'w') as f:
            f.write(f"property {pid}\n")
            if hfail:
                f.write("\nFAILING INPUTS (replayed on the real code; harness %s, seed %d, tier %s)\n"%(cfg.get('harness'),SEED,TIER))
                for l in hfail: f.write(l+'\n')
            for r,fm in bad:
                f.write(f"\nFAILED OBLIGATIONS of {r['fn']}\n")
                for x in fm:
                    f.write(f"  {x['name']}\n    path (source line, branch): {x['trace']}\n    solver: {x['reason']}\n    goal: {(x['goal'] or '')[:3000]}\n    candidate model: {(x['model'] or '')[:3000]}\n")
        tail='' if hfail else ' no-failing-input-found'
        what=(hfail[0][:200] if hfail else '; '.join(f"{r['fn']}: {fm[0]['name']}" for r,fm in bad)[:300])
        print('#',what)
        print(f"VIOLATION property={pid} replay=evidence/{pid}.replay.txt{tail}")
        viol=[dict(what=what,replay=f'evidence/{pid}.replay.txt',failing_input=bool(hfail))]
        rcode=1
    tb=sorted({x for r in results for x in r['externals']})
    fns=[dict(function=r['fn'],status=r['status'] if r in proved or r in und else 'failed',obligations=len(r['obl']),discharged=sum(1 for _,ok in r['obl'] if ok),invariant_checks=r['inv'],paths=r['paths'],
              inlined=r['inlined'],callee_contracts=r['contracts'],queries=r['queries'],solver_s=round(r['solver'],2),wall_s=round(r['wall'],2),reason=r['reason'],direct=r['direct'],note=r.get('note')) for r in results]
    inv=sum(r['inv'] for r in results)
    assumptions=list(ASSUME)+cfg.get('assumptions',[])
    for r in und: assumptions.append(f"NOT PROVED on this run (bounded stand-in only): {r['fn']}: {r['reason'] or 'undischarged: '+'; '.join(f['name'] for f in r['failed'])}")
    fo=sorted({d for r in results for d in r.get('foreign',[])})
    if fo: assumptions.append('callee contracts used here and discharged by the checks C01/C02 (re-proved here in the thorough tier): '+', '.join(fo)[:1500])
    for b in cfg.get('bounded',[]): assumptions.append("outside the verifier's reach, bounded check only: "+b)
    level='proof' if nob and cfg.get('level','proof')=='proof' else cfg.get('level','other')
    if not nob: level='other'
    cov=dict(obligations=nob+inv,discharged=ndis+inv,checker_cmd=f"python3-vt check.py {pid}",trusted_base=TRUST+["library functions modelled, not verified: "+', '.join(tb)[:1500]],
        postcondition_obligations=nob,postconditions_discharged=ndis,loop_invariant_obligations=inv,functions_proved=len(proved),functions_undecided=[r['fn'] for r in und],functions_failed=[r['fn'] for r,_ in bad],
        back_end="z3 "+z3ver(),solver_seconds=round(sum(r['solver'] for r in results),1),solver_queries=sum(r['queries'] for r in results),
        functions=fns,bounded_harness=hsum,explanation=cfg.get('explanation','contracts on the real functions, discharged by z3 over LLVM IR compiled from the working tree; bounded replay harness for the functions listed as bounded'))
    evd=dict(property=pid,tier=TIER if TIER in('quick','thorough') else 'quick',seed=SEED,level=level,coverage=cov,assumptions=assumptions,wall_s=round(time.time()-T0,1),violations=viol)
    json.dump(evd,open(os.path.join(ev,f'{pid}.json'),'w'),indent=1)
    print(f"{pid}: functions proved {len(proved)}, undecided {len(und)}, failed {len(bad)}; obligations {ndis}/{nob} + {inv} invariant steps; harness {('rc=%s'%hsum['rc']) if hsum else '-'}; {time.time()-T0:.0f}s")
    for r in und: print(f"  undecided: {r['fn'][:110]}: {(r['reason'] or '; '.join(f['name']+' '+str(f['reason']) for f in r['failed']))[:200]}")
    if hsum and hsum.get('note'): print("  harness note:",str(hsum['note'])[:600])
    if os.environ.get('ZV_DUMP'): json.dump(results,open(os.environ['ZV_DUMP'],'w'),indent=1)
    return rcode
def z3ver():
    import z3
    return z3.get_version_string()
ASSUME=["machine integers treated as mathematical integers (no overflow or unsigned wrap-around)","floating point treated as exact real arithmetic; equalities hold up to rounding",
 "distinct reference/pointer parameters of a verified function denote distinct objects unless the contract says 'heap' (call sites in the library pass distinct objects; aliasing calls are exercised by the harness only)",
 "memory is typed: objects are only reached through pointers of their declared type; termination is not proved"]
TRUST=["clang 18 -O0 front end (C++ to LLVM IR) and its debug information","zv/ verification-condition generator (this repository)","z3","models of the C++ standard library in zv/stl.py","inductive lemmas on sums, maxima and sparse lookup (zv/lemmas.py, proved by z3 from their definitions)"]
if __name__=='__main__': main()
