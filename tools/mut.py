"""development helper: mut.py LIST.py [name…]: LIST.py holds M=[(name,'C05 C07',file,old,new)]; applies each in a scratch copy of /repo and runs the bounded harness of each property"""
import sys,os,subprocess,shutil,importlib.util,time
R='/tmp/w/mrepo'; W='/tmp/w/hlm'
os.environ['ZV_REPO']=R; os.environ['HL']='m'
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V,V+'/zv']
if not os.path.exists(R): subprocess.run(['cp','-a','/repo',R],check=True)
subprocess.run(f'rsync -a --delete /repo/ {R}/ 2>/dev/null || (rm -rf /tmp/w/mrepo; cp -a /repo {R})',shell=True)
subprocess.run(['git','-C',R,'checkout','-q','--','.'])
import check; from zv import build; from props import PROPS
from concurrent.futures import ThreadPoolExecutor
os.makedirs(W+'/gen/include',exist_ok=True); os.makedirs(W+'/scratch',exist_ok=True)
PROPS['C20']['prepare'](W+'/gen')
inc=['-I'+V+'/harness','-I'+W+'/gen','-I'+W+'/gen/include']+build.incs()
lib=check.all_sources(W+'/gen')
obj=lambda s:os.path.join(W,os.path.basename(s).replace('.','_')+'.o')
def comp(L):
    with ThreadPoolExecutor(8) as ex: rs=list(ex.map(lambda s:check.cxx(s,obj(s),inc,[]),L))
    return [e for rc,e in rs if rc]
ns={}; exec(open(sys.argv[1]).read(),ns); sel=sys.argv[2:]
def full(): e=comp(lib+[V+'/harness/zh_main.cc']); assert not e,e[0][:800]
env=dict(os.environ); env['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'; env['ZH_REPO']=R; env['ZH_DATA']=V+'/harness/data'
def run(p,rebuild):
    n=p.lower()
    if rebuild or not os.path.exists(f'{W}/{n}.o'):
        rc,e=check.cxx(f'{V}/harness/{n}.cc',f'{W}/{n}.o',inc,[]); assert not rc,e[:500]
    r=subprocess.run(['g++','-fsanitize=address',f'{W}/{n}.o',obj(V+'/harness/zh_main.cc')]+[obj(s) for s in lib]+['-o',f'{W}/{n}'],capture_output=True,text=True)
    if r.returncode: return 'LINK '+r.stderr[:300]
    t=time.time()
    try: r=subprocess.run([f'{W}/{n}','--seed',os.environ.get('SEED','1'),'--tier','quick','--dir',W+'/scratch'],capture_output=True,text=True,errors='replace',cwd=W+'/scratch',env=env,stdin=subprocess.DEVNULL,timeout=300)
    except subprocess.TimeoutExpired: return 'TIMEOUT'
    f=[l for l in r.stdout.split('\n') if l.startswith('FAIL') and 'FAIL mdpreset: the row of state 1 is not just the start state, or the model is refused (code 1)' not in l]
    return ('caught: '+f[0][:110] if f else '--- MISSED') + f' rc={r.returncode} {time.time()-t:.0f}s'
full(); hdr=False
for n in ns.get('HARN',[]): pass
done=set()
for name,props,f,old,new in ns['M']:
    if sel and not any(x in name for x in sel): continue
    p=R+'/'+f; s=open(p).read(); k=s.count(old)
    if k!=1: print(name,'PATTERN COUNT',k,flush=True); continue
    open(p,'w').write(s.replace(old,new)); ish=f.endswith('.h')
    try:
        e=comp([p]) if not ish and p in lib else comp(lib+[V+'/harness/zh_main.cc']); bad=bool(e)
        if bad: print(name,'COMPILE',e[0][-300:],flush=True)
        else:
            for q in props.split():
                print(name,q,run(q,ish or q not in done),flush=True); done.add(q)
                if ish: done.discard(q)
    finally:
        open(p,'w').write(s)
        if ish: full(); done.clear()
        elif p in lib: comp([p])
        else: full()
