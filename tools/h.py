"""development helper: build the library once (REB=1 to rebuild), then build and run one bounded harness:  h.py c05 [section]"""
import sys,os,subprocess
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from zv import build
from concurrent.futures import ThreadPoolExecutor
W='/tmp/w/hl'+os.environ.get('HL',''); os.makedirs(W+'/gen',exist_ok=True)
name=sys.argv[1]
from props import PROPS
sys.path[:0]=[check.ROOT+'/zv']
if PROPS.get(name.upper(),{}).get('prepare'): PROPS[name.upper()]['prepare'](W+'/gen')
inc=['-I'+check.ROOT+'/harness','-I'+W+'/gen','-I'+W+'/gen/include']+build.incs()
if not os.path.exists(W+'/lib.a') or os.environ.get('REB'):
    lib=check.all_sources(W+'/gen'); objs=[os.path.join(W,os.path.basename(s).replace('.','_')+'.o') for s in lib+[check.ROOT+'/harness/zh_main.cc']]
    with ThreadPoolExecutor(8) as ex: rs=list(ex.map(lambda so:check.cxx(so[0],so[1],inc,[]),zip(lib+[check.ROOT+'/harness/zh_main.cc'],objs)))
    for s,(rc,e) in zip(lib,rs):
        if rc: print(s,e[:500])
    if os.path.exists(W+'/lib.a'): os.remove(W+'/lib.a')
    subprocess.run(['ar','rcs',W+'/lib.a']+objs[:-1],check=True)
OB=f'{W}/{name}_{os.getpid()}.o'; EX=OB[:-2]; import atexit; atexit.register(lambda:[os.path.exists(x) and os.remove(x) for x in (OB,EX)])
rc,e=check.cxx(f'{check.ROOT}/harness/{name}.cc',OB,inc,[])
if rc: print(e[:3000]); sys.exit(2)
r=subprocess.run(['g++','-fsanitize=address',OB,W+'/zh_main_cc.o',W+'/lib.a','-o',EX],capture_output=True,text=True)
if r.returncode: print(r.stderr[:2000]); sys.exit(2)
env=dict(os.environ); env['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'; env['ZH_REPO']=build.REPO; env['ZH_DATA']=check.ROOT+'/harness/data'
import tempfile; SC=tempfile.mkdtemp(dir='/tmp/w'); import atexit,shutil; atexit.register(shutil.rmtree,SC,True)
a=[EX,'--seed',os.environ.get('SEED','1'),'--tier',os.environ.get('TIER','quick'),'--dir',SC]
if len(sys.argv)>2: a+=['--only',sys.argv[2]]
import time; t=time.time()
r=subprocess.run(a,capture_output=True,text=True,errors='replace',cwd=SC,env=env,stdin=subprocess.DEVNULL)
print('\n'.join(l[:1500] for l in r.stdout.split('\n'))[:6000]); print(r.stderr[-800:] if os.environ.get('ZH_VERBOSE') else '','time %.1f'%(time.time()-t))
