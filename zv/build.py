"""Compile /repo sources to LLVM IR and link them (every run, from the current working tree)."""
import subprocess, os, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO=os.environ.get('ZV_REPO','/repo')
S=REPO+'/src'
BIN='/usr/lib/llvm-18/bin/'
DIRS=['common','bounds','pomdpBounds','pomdpCore','search','parsers','exec','main','mdps']
def incs(extra=()): return [f"-I{S}/{d}" for d in DIRS]+[f"-I{d}" for d in extra]
CXXFLAGS=['-O0','-Xclang','-disable-O0-optnone','-fno-exceptions','-fno-discard-value-names','-g','-fstandalone-debug','-DGCC_VERSION=40300','-DLINUX','-DZMDP_VERSION=1.1.7','-DCFLAGS="x"','-flto','-fwhole-program-vtables','-fvisibility=hidden','-include','limits.h','-w']
class BuildError(Exception): pass
def compile_one(src,out,extra=()):
    c=[BIN+('clang' if src.endswith('.c') else 'clang++')]
    fl=[f for f in CXXFLAGS]
    if src.endswith('.c'): fl=[f for f in fl if f not in('-fno-exceptions','-fwhole-program-vtables')]
    if not src.endswith('.c'): fl=fl
    r=subprocess.run(c+fl+incs(extra)+['-c','-emit-llvm','-o',out,src],capture_output=True,text=True)
    if r.returncode: raise BuildError(f"{src}: {r.stderr[:1500]}")
def build(files,outdir,extra=()):
    """files: absolute paths; returns (bc, ll)"""
    os.makedirs(outdir,exist_ok=True)
    # one translation unit when that compiles: llvm-link would merge classes of the same layout into one type name
    cc=[f for f in files if f.endswith('.cc')]
    if len(cc)>1:
        u=os.path.join(outdir,'unity.cc')
        open(u,'w').write(''.join(f'#include "{f}"\n' for f in cc))
        try:
            compile_one(u,u[:-3]+'.bc',extra)
            files=[f for f in files if not f.endswith('.cc')]+[u]
            if os.path.exists(os.path.join(outdir,'unity_cc.bc')): os.remove(os.path.join(outdir,'unity_cc.bc'))
        except BuildError: pass
    outs=[os.path.join(outdir,os.path.basename(f).replace('.','_')+'.bc') for f in files]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda fo:os.rename(fo[0][:-3]+'.bc',fo[1]) if fo[0].endswith('/unity.cc') else compile_one(fo[0],fo[1],extra),zip(files,outs)))
    bc=os.path.join(outdir,'all.bc'); ll=os.path.join(outdir,'all.ll')
    if len(outs)==1: os.replace(outs[0],bc)
    else: r=subprocess.run([BIN+'llvm-link']+outs+['-o',bc],capture_output=True,text=True)
    if len(outs)>1 and r.returncode: raise BuildError(r.stderr[:1500])
    r=subprocess.run([BIN+'llvm-dis',bc,'-o',ll],capture_output=True,text=True)
    if r.returncode: raise BuildError(r.stderr[:1500])
    return bc,ll
