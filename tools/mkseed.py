#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DEMO_CPP "NEEDS" "BREAKS" [compiler flags and extra sources (relative to the repository)...]
Takes the change from the scratch clone /tmp/w, writes /verif/seeded/ID and confirms the demonstration."""
import json, os, shutil, subprocess, sys
ID, PROP, DEMO, NEEDS, BREAKS = sys.argv[1:6]; extra = sys.argv[6:]
d = "/verif/seeded/" + ID; os.makedirs(d, exist_ok=True)
patch = subprocess.run(["git", "-C", "/tmp/w", "diff"], capture_output=True, text=True).stdout
assert patch.strip(), "no change"
open(d + "/patch.diff", "w").write(patch)
if os.path.abspath(DEMO) != d + "/demo.cpp": shutil.copy(DEMO, d + "/demo.cpp")
flags = [e for e in extra if e.startswith("-")]; srcs = [e for e in extra if not e.startswith("-")]
inc = ["-I/repo", "-I/verif/sim/baselibs", "-I/verif/sim"]
open(d + "/support.cpp", "w").write("""#include <cstdio>
#include <cstdlib>
extern "C" [[noreturn]] void sim_contract_failure(const char* k, const char* c, const char* f, int l) { std::printf("contract failed: %s %s %s:%d\\n", k, c, f, l); std::fflush(stdout); std::abort(); }
extern "C" int sim_log_enabled(int) { return 0; }
extern "C" void sim_log_write(int, const char*, const char*) {}
extern "C" int sim_cas_weak_spurious() { return 0; }
""")
# sources that define what the demonstration needs: include closure, then by undefined symbol
import re; sys.path.insert(0, "/verif/tools"); import build
from concurrent.futures import ThreadPoolExecutor
od = "/tmp/seedobj"; os.makedirs(od, exist_ok=True)
cmd = ["g++", "-std=c++17", "-O1", "-w", "-ffunction-sections"] + flags + inc
todo, objs, inccpp = [d + "/demo.cpp", d + "/support.cpp"] + ["/repo/" + s for s in srcs], {}, set()
while todo:
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda s: (s, build.compile_one(s, cmd, od)), todo))
    todo = []
    for s, (o, ds) in res:
        objs[s] = o
        for x in ds:
            x = os.path.normpath(x)
            if s.endswith("/demo.cpp") and x.endswith(".cpp") and x.startswith("/repo"): inccpp.add(x)
            if x.startswith("/repo/"):
                for c in build.sibling_sources(x):
                    if c not in objs and c not in todo: todo.append(c)
    todo = [t for t in todo if t not in objs]
def syms(o, f): return set(l.split()[-1] for l in subprocess.run(["nm", f, o], capture_output=True, text=True).stdout.splitlines() if l.strip())
defs = {}
for s, o in objs.items():
    if s in inccpp: continue
    for y in syms(o, "--defined-only"): defs.setdefault(y, s)
use, work = [], [d + "/demo.cpp", d + "/support.cpp"] + ["/repo/" + s for s in srcs]
have = set()
while work:
    s = work.pop()
    if s in use: continue
    use.append(s); have |= syms(objs[s], "--defined-only")
    for y in syms(objs[s], "-u"):
        if y not in have and y in defs and defs[y] not in use: work.append(defs[y])
srcs = sorted(s[len("/repo/"):] for s in use if s.startswith("/repo/"))
deps = set()
for s in [d + "/demo.cpp"] + ["/repo/" + s for s in srcs]:
    r = subprocess.run(["g++", "-std=c++17", "-MM"] + flags + inc + [s], capture_output=True, text=True); assert r.returncode == 0, r.stderr
    deps |= set(r.stdout.replace("\\\n", " ").split())
shutil.rmtree(d + "/baselibs", ignore_errors=True)
for x in sorted(deps):
    if x.startswith("/verif/sim/"):
        t = d + "/baselibs/" + x[len("/verif/sim/"):].replace("baselibs/", "", 1); os.makedirs(os.path.dirname(t), exist_ok=True); shutil.copy(x, t)
open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with the repository as working directory; exits 0 if the property holds for the demonstrated case
R="$PWD"; D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
set -e
g++ -std=c++17 -O1 -w -ffunction-sections -Wl,--gc-sections %s -I"$R" -I"$D/baselibs" "$D/demo.cpp" "$D/support.cpp" %s -o "$T/demo" -lpthread -lrt
cd "$T" && timeout 120 ./demo
""" % (" ".join(flags), " ".join('"$R/%s"' % s for s in srcs)))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(d + "/meta.json", "w"), indent=1)
def run(cwd): r = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True); return r.returncode, (r.stdout + r.stderr)[-1500:]
a = run("/repo"); b = run("/tmp/w"); print("unchanged:", a, "\nchanged:", b)
ok = a[0] == 0 and b[0] not in (0, 124)
print("KEPT" if ok else "BAD")
if not ok: sys.exit(1)
subprocess.run(["git", "-C", "/tmp/w", "checkout", "-q", "--", "."])
