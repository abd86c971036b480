"""helper to plant a bug: bug(id, prop, [(file, old, new), ...], needs, breaks, demo_cc, sources) -> seeded/<id>/"""
import os,subprocess,json,shutil
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH='''#!/bin/bash
# cwd: /repo after the build.  exit 0 on a correct tree.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
I=""; for d in common bounds pomdpBounds pomdpCore search parsers exec main mdps; do I="$I -Isrc/$d"; done
%s
g++ -std=gnu++17 -O1 -g -w -fsanitize=address -DGCC_VERSION=40300 -DLINUX '-DZMDP_VERSION="x"' '-DCFLAGS="x"' -include limits.h $I -I$T -I"$D" -o "$T/demo" "$D/demo.cc" %s || exit 2
export ASAN_OPTIONS=detect_leaks=0
cd "$T" && timeout 200 ./demo
'''
W='/tmp/w/bugrepo'
def bug(id,prop,edits,needs,breaks,demo,sources=(),pre=''):
    subprocess.run('rm -rf /tmp/w/bugrepo; git clone -q /repo /tmp/w/bugrepo',shell=True,check=True)
    d=f"{R}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    subprocess.run(['git','-C',W,'diff','--quiet'],check=True)
    try:
        for f,o,n in edits:
            p=W+'/'+f; s=open(p).read()
            assert s.count(o)==1,(id,f,s.count(o))
            open(p,'w').write(s.replace(o,n))
        r=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True,check=True).stdout
    finally: subprocess.run(['git','-C',W,'checkout','-q','--','.'],check=True)
    open(d+'/patch.diff','w').write(r)
    open(d+'/demo.cc','w').write(demo)
    open(d+'/demo.sh','w').write(SH%(pre,' '.join('src/'+s if not s.startswith('$') else s for s in sources)))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
