#!/usr/bin/python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id>/ from a spec (development tool; no check uses it).
A spec calls seed(id, prop, file, [(old, new), ...], needs, breaks, demo_cpp)."""
import json, os, subprocess, sys
PRE = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <vector>
#define EXPECT(c) do{ if(!(c)){ std::fprintf(stderr,"FAILED line %d: %s\n",__LINE__,#c); std::exit(1);} }while(0)
static std::mt19937 rng(12345);
static int ri(int a,int b){ return a+(int)(rng()%(unsigned)(b-a+1)); }
'''
DEMO = '''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -fopenmp -w -DUSEGDAL -DRICHDEM_NO_PROGRESS %s -Iinclude -I/usr/include/gdal "$D/demo.cpp" -o "$T/demo" -L_build -lrichdem -Wl,-rpath,"$PWD/_build" -lgdal %s
cd "$T"; OMP_NUM_THREADS=%d timeout 200 "$T/demo"
'''
def seed(id, prop, edits, needs, breaks, demo, flags="", libs="", threads=1, demo_sh=None, extra={}):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    patch = ""
    for f, reps in edits:
        old = open("/repo/" + f).read(); new = old
        for a, b in reps:
            assert new.count(a) == 1, (id, f, new.count(a), a)
            new = new.replace(a, b)
        import difflib
        patch += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo is not None: open(d + "/demo.cpp", "w").write(PRE + demo)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % (flags, libs, threads))
    for k, v in extra.items(): open(d + "/" + k, "w").write(v)
    os.chmod(d + "/demo.sh", 0o755)
for s in sys.argv[1:]: exec(open(s).read())
