#!/usr/bin/env python3
"""check.py PROPERTY... [--tier quick|thorough] [--build-only] [--debug-args ...]

Builds the harness of a property together with the bertini2 sources of /repo's working tree,
runs it, and leaves its evidence in evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import glob, os, subprocess, sys, time, json, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = os.path.join(REPO, "core")
BUILD = os.path.join(VERIF, "build")
LIBS = "-lmpc -lmpfr -lgmp -lboost_serialization -lboost_log -lboost_log_setup -lboost_filesystem -lboost_thread -lboost_chrono -lboost_regex -lboost_program_options -lboost_system -pthread"

from suites import SUITES  # property -> dict(src=[...], lib="tree"|"system"|"all", opt="-O0")

SKIP = {"blackbox/bertini.cpp", "blackbox/algorithm_builder.cpp", "function_tree/special_number.cpp"}
HEAVY = ["system/start/mhom.cpp", "system/start/total_degree.cpp", "system/system.cpp", "system/start/user.cpp",
         "system/straight_line_program.cpp", "function_tree/node.cpp"]

def lib_sources(kind):
    src = os.path.join(CORE, "src")
    allf = [os.path.relpath(p, src) for p in glob.glob(src + "/**/*.cpp", recursive=True)]
    allf = sorted(f for f in allf if f not in SKIP and "unity" not in os.path.basename(f))
    # files that define a main() are programs, not library parts
    def is_prog(f):
        t = open(os.path.join(src, f), errors="replace").read()
        return "int main(" in t
    allf = [f for f in allf if not is_prog(f)]
    if kind == "tree":
        allf = [f for f in allf if f.startswith(("function_tree/", "basics/"))]
    elif kind == "none":
        allf = []
    elif kind == "system":
        allf = [f for f in allf if not f.startswith(("blackbox/", "parallel/"))]
    order = {f: i for i, f in enumerate(HEAVY)}
    return sorted(allf, key=lambda f: (order.get(f, 99), f))

def write_ninja(prop, cfg, kind, cxx):
    opt = cfg.get("opt", "-O0")
    extra = cfg.get("flags", "")
    tag = (os.path.basename(cxx) + opt + extra).replace(" ", "").replace("/", "_")
    odir = os.path.join(BUILD, tag)
    os.makedirs(odir, exist_ok=True)
    flags = (f"-std=c++17 {opt} -g0 -w {extra} -I{VERIF}/harness/include -I{CORE}/include -I{CORE}/include/bertini2 "
             f"-I/usr/include/eigen3 -I{VERIF}/harness -DBOOST_LOG_DYN_LINK")
    out = [f"builddir = {odir}/ninja-{prop}", f"rule cxx\n  command = {cxx} {flags} $xf -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
           f"rule link\n  command = {cxx} {extra} -fuse-ld=lld $in -o $out {LIBS}"]
    objs = []
    def add(src, obj, xf=""):
        out.append(f"build {obj}: cxx {src}" + (f"\n  xf = {xf}" if xf else ""))
        objs.append(obj)
    hsrc = [(os.path.join(VERIF, "harness", s), os.path.join(odir, "h_" + s.replace("/", "_") + ".o")) for s in cfg["src"]]
    lsrc = [(os.path.join(CORE, "src", s), os.path.join(odir, "lib_" + s.replace("/", "_") + ".o")) for s in lib_sources(kind)]
    # long compilations first
    big = [x for x in lsrc if any(x[0].endswith(h) for h in HEAVY)]
    rest = [x for x in lsrc if x not in big]
    helpers = {"pbt.cpp", "ref.cpp", "b2ref.cpp"}
    hp = [x for x in hsrc if os.path.basename(x[0]) not in helpers]
    hh = [x for x in hsrc if os.path.basename(x[0]) in helpers]
    for s, o in hp + big + hh + rest:
        add(s, o)
    exe = os.path.join(odir, f"check_{prop}_{kind}")
    out.append(f"build {exe}: link " + " ".join(objs))
    out.append(f"default {exe}")
    nf = os.path.join(odir, f"{prop}_{kind}.ninja")
    text = "\n".join(out) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    return nf, exe

def build(prop, dev=False):
    cfg = SUITES[prop]
    attempts = [(cfg.get("lib", "all"), "clang++"), ("all", "clang++"), ("all", "g++")]
    if dev: attempts = attempts[:1]
    log = ""
    for kind, cxx in attempts:
        nf, exe = write_ninja(prop, cfg, kind, cxx)
        r = subprocess.run(["ninja", "-f", nf, "-j8"], cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return exe
        log += f"==== {kind} {cxx}\n" + r.stdout[-6000:]
    if dev: log = "\n".join(l[:300] for l in log.split("\n") if "rror" in l and "clang++" not in l)
    sys.stderr.write(log)
    return None

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    build_only = False; props = []; extra = []
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--tier": tier = args[i + 1]; i += 1
        elif a == "--build-only": build_only = True
        elif a == "--setup": pass
        elif a == "--": extra = args[i + 1:]; break
        else: props.append(a)
        i += 1
    if tier not in ("quick", "thorough"): tier = "quick"
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rc = 0
    for p in props:
        t0 = time.time()
        exe = build(p, dev=bool(extra))
        if exe is None:
            print(f"check {p}: harness could not be built against {REPO}", file=sys.stderr); rc = rc or 2; continue
        print(f"{p}: built in {time.time()-t0:.1f} s", flush=True)
        if build_only: continue
        ev = os.path.join(VERIF, "evidence", p + ".json")
        if os.path.exists(ev) and not extra: os.remove(ev)
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--replay-dir", os.path.join(VERIF, "replays")]
        if not any(x in extra for x in ("--sub", "--case", "--replay")): cmd += ["--out", ev]
        r = subprocess.run(cmd + extra)
        if r.returncode not in (0, 1): print(f"check {p}: harness ended with {r.returncode}", file=sys.stderr)
        rc = rc or r.returncode
    sys.exit(rc)
main()
