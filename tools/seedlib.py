"""Generates /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cc, meta.json) from a table (development aid)."""
import os, subprocess, json, tempfile, shutil
ROOT='/verif/seeded'
DEMO_SH='''#!/bin/bash
# Builds demo.cc against the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
B=$R/_build
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DLITTLE_ENDIAN_ARCHITECTURE -DYAML_CPP_STATIC_DEFINE \\
  -I"$R/src/include" -I"$B/src/include" -isystem "$R/3rdparty/Cuba-4.2.2" \\
  -isystem "$R/3rdparty/einhard" -isystem "$R/3rdparty/yaml-cpp-0.8.0/include" \\
  -isystem /usr/include/eigen3 "$D/demo.cc" -o "$T/demo" "$B/src/libsmash.a" \\
  -lgsl -lgslcblas "$B/3rdparty/einhard/libeinhard.a" \\
  "$B/3rdparty/yaml-cpp-0.8.0/libyaml-cpp.a" \\
  "$B"/3rdparty/Cuba-4.2.2/src/*/lib*.a || exit 2
cd "$T" && timeout 120 ./demo
'''
PRE='''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>
#define REQUIRE(c) do { if (!(c)) { std::printf("FAILED %s:%d %s\\n", __FILE__, __LINE__, #c); std::exit(1); } } while (0)
'''
def make(seeds):
    for s in seeds:
        d=f"{ROOT}/{s['id']}"; os.makedirs(d,exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            diffs=''
            for f,old,new in s['edits']:
                src=open('/repo/'+f).read()
                for t0 in (t+'/a/',t+'/b/'):
                    p=t0+f
                    if not os.path.exists(p):
                        os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(src)
                p=t+'/b/'+f; x=open(p).read()
                assert x.count(old)==1,(s['id'],f,x.count(old),old)
                open(p,'w').write(x.replace(old,new))
            r=subprocess.run(['diff','-ruN','a','b'],cwd=t,capture_output=True,text=True)
            out=''.join(l for l in r.stdout.splitlines(True) if not l.startswith('diff '))
            # strip timestamps
            import re
            out=re.sub(r'^(---|\+\+\+) (\S+)\t.*$',r'\1 \2',out,flags=re.M)
            open(d+'/patch.diff','w').write(out)
        open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.cc','w').write(PRE+s['demo'])
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
