import subprocess,os,json,sys
DEMO='''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for f in src/pe_lib/*.cpp "$here/demo.cpp"; do echo "$f"; done | xargs -P8 -I{} sh -c 'g++ -w -O0 -g -fsanitize=address -Isrc/pe_lib -c "{}" -o "'$t'/$(basename {}).o"' || exit 3
g++ -fsanitize=address "$t"/*.o -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
'''
PRE='''#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdio>
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
using namespace pe_bliss;
using namespace pe_win;
#define CHECK(c) do { if(!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while(0)
'''
def bug(id, prop, edits, demo, needs, breaks):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert subprocess.run('git -C /repo status --porcelain --untracked-files=no',shell=True,capture_output=True,text=True).stdout=='' 
    try:
        for f,a,b in edits:
            p='/repo/src/pe_lib/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
        open(d+'/patch.diff','w').write(subprocess.run('git -C /repo diff',shell=True,capture_output=True,text=True).stdout)
    finally: subprocess.run('git -C /repo checkout -- .',shell=True,capture_output=True)
    open(d+'/demo.sh','w').write(DEMO); open(d+'/demo.cpp','w').write(PRE+demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
