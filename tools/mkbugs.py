#!/usr/bin/env python3
"""Regenerates seeded/<id>/ from the table in bugs.py: patch.diff by editing a scratch copy of /repo's sources, demo.cpp, demo.sh, meta.json."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS
DEMO = r'''#!/bin/bash
# run with cwd = the repository, after its build. exit 0: behaves as it should.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; B="$R/_build/core"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
LIBS="-lmpc -lmpfr -lgmp -lboost_serialization -lboost_log -lboost_log_setup -lboost_filesystem -lboost_thread -lboost_chrono -lboost_regex -lboost_program_options -lboost_system -pthread"
clang++ -std=c++17 -O0 -w -DBOOST_LOG_DYN_LINK -I"$B/include" -I"$R/core/include" -I"$R/core/include/bertini2" -I/usr/include/eigen3 \
  "$D/demo.cpp" -L"$B/.libs" -lbertini2 -Wl,-rpath,"$B/.libs" $LIBS -o "$T/demo" || exit 3
cd "$T" && timeout 200 "$T/demo"
'''
PRE = r'''#include <bertini2/system/system.hpp>
#include <iostream>
#include <cmath>
using namespace bertini; using namespace bertini::node; using std::shared_ptr;
static int bad = 0;
#define EXPECT(c) do { if(!(c)) { std::cout << "not so: " #c "\n"; bad = 1; } } while(0)
template<class A, class B> bool near(A const& a, B const& b, double tol = 1e-9) { return !(abs(a - b) > tol) && !(abs(a-b) != abs(a-b)); }
'''
def main():
    only = sys.argv[1:]
    for b in BUGS:
        if only and b["id"] not in only: continue
        d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        subprocess.check_call(f"git -C {os.environ.get("SRC","")}/repo archive HEAD core/include core/src | tar -x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm base", shell=True)
        for path, pairs in b["edit"].items():
            p = os.path.join(t, path); s = open(p).read()
            for x in pairs:
                old, new = x[0], x[1]; n = x[2] if len(x) > 2 else 1
                assert s.count(old) == n, (b["id"], path, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True); assert diff
        shutil.rmtree(t)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(b.get("inc", "") + PRE + b.get("pre", "") + "int main()\n{\n" + b["demo"].strip("\n") + "\n\treturn bad;\n}\n")
        p = os.path.join(d, "demo.sh"); open(p, "w").write(DEMO); os.chmod(p, 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", b["id"])
main()
