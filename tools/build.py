"""Compiles the simulator and node images from /repo's working tree and /verif/sim."""
import hashlib, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
CORE_FLAGS = ["g++", "-std=c++17", "-O2", "-g", "-fno-builtin-malloc", "-Wall", "-I" + SIM]
NODE_FLAGS = ["clang++", "-std=c++17", "-O1", "-g1", "-fPIC", "-fsanitize=thread", "-femulated-tls", "-w", "-mllvm", "-tsan-instrument-func-entry-exit=0",
              "-include", SIM + "/node_pre.h", "-I" + REPO, "-I" + SIM + "/baselibs", "-I" + SIM]
JOBS = os.cpu_count() or 8
_sha = {}
def sha(path):
    if path not in _sha:
        try:
            with open(path, "rb") as f: _sha[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError: _sha[path] = "?"
    return _sha[path]
class BuildError(Exception): pass
def deps_of(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    return [d for d in txt.split(":", 1)[1].split() if d]
def compile_one(src, cmd, odir):
    key = hashlib.sha1((" ".join(cmd) + src).encode()).hexdigest()[:16]
    o = os.path.join(odir, os.path.basename(src) + "." + key + ".o"); dep = o + ".d"; stamp = o + ".k"
    if os.path.exists(o) and os.path.exists(stamp):
        try:
            want = json.load(open(stamp))
            if all(sha(p) == h for p, h in want): return o, [p for p, _ in want]
        except ValueError: pass
    r = subprocess.run(cmd + ["-c", src, "-o", o, "-MD", "-MF", dep], capture_output=True, text=True)
    if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
    ds = deps_of(dep); ds = [d for d in ds if not d.startswith("/usr/")]
    json.dump([[d, sha(d)] for d in ds], open(stamp, "w")); os.unlink(dep)
    return o, ds
def build_core():
    od = os.path.join(B, "core"); os.makedirs(od, exist_ok=True)
    srcs = sorted(os.path.join(SIM, "core", f) for f in os.listdir(os.path.join(SIM, "core")) if f.endswith(".cpp"))
    with ThreadPoolExecutor(JOBS) as ex: objs = [o for o, _ in ex.map(lambda s: compile_one(s, CORE_FLAGS, od), srcs)]
    exe = os.path.join(B, "sim"); key = hashlib.sha1("".join(sha_file(o) for o in objs).encode()).hexdigest()
    if not os.path.exists(exe) or not os.path.exists(exe + ".k") or open(exe + ".k").read() != key:
        r = subprocess.run(["g++", "-rdynamic", "-o", exe + ".tmp"] + objs + ["-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode: raise BuildError("linking the simulator failed:\n" + r.stderr[-4000:])
        os.replace(exe + ".tmp", exe); open(exe + ".k", "w").write(key)
    return exe
def sha_file(p):
    with open(p, "rb") as f: return hashlib.sha1(f.read()).hexdigest()
SKIP = re.compile(r"(_test|_tests|_mock|_fake|_benchmark)\.cpp$|/(test|tests|test_doubles|fake|mock|benchmark|benchmarks|example|examples|qnx|rust|design|doc)/|_qnx\.cpp$|/qnx_")
def sibling_sources(header):
    """the source files that may implement what a header of the repository declares"""
    out = []
    base, ext = os.path.splitext(header)
    if ext in (".h", ".hpp"):
        c = base + ".cpp"
        if os.path.exists(c) and not SKIP.search(c): out.append(c)
    return out
def all_sources():
    out = []
    for d in ("score/mw/com/impl", "score/memory/shared", "score/message_passing", "score/mw/com/gateway", "score/mw/service", "score/mw/com"):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if f.endswith(".cpp") and not SKIP.search(p): out.append(p)
    return sorted(set(out))
LINK = ["clang++", "-shared", "-Wl,-Bsymbolic", "-nodefaultlibs", "-Wl,-z,now"]
LIBS = ["-lstdc++", "-lm", "-lgcc_s", "-lc"]
def undefined(objs):
    r = subprocess.run(["nm", "-C", "-u"] + objs, capture_output=True, text=True); return r.stdout
def build_image(name, scen, extra=(), node=(), copies=9, defs=()):
    """scen: scenario sources; node: stand-ins from sim/node; extra: sources of the repository that no include leads to"""
    od = os.path.join(B, "node"); os.makedirs(od, exist_ok=True)
    flags = [f.replace("entry-exit=0", "entry-exit=1") if "-DSIM_STACK" in defs else f for f in NODE_FLAGS] + list(defs)
    todo = [os.path.join(SIM, "scen", s) for s in scen] + [os.path.join(SIM, "node", s) for s in node] + [os.path.join(REPO, e) for e in extra]
    done, objs = set(), {}
    with ThreadPoolExecutor(JOBS) as ex:
        pend = {}
        import concurrent.futures as cf
        for s in todo:
            if s not in done: done.add(s); pend[ex.submit(compile_one, s, flags, od)] = s
        while pend:
            fin, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in fin:
                s = pend.pop(f); o, ds = f.result(); objs[s] = o
                for d in ds:
                    d = os.path.normpath(d)
                    if d.startswith(REPO + "/"):
                        for c in sibling_sources(d):
                            if os.path.basename(c) in node: continue   # a stand-in replaces it
                            if c not in done: done.add(c); pend[ex.submit(compile_one, c, flags, od)] = c
    order = sorted(objs); ol = [objs[s] for s in order]
    so = os.path.join(B, name + ".0.so")
    def link(objs_):
        return subprocess.run(LINK + ["-o", so + ".tmp", "-Wl,--unresolved-symbols=report-all", "-Wl,--no-undefined"] + objs_ + [os.path.join(B, "sim_syms.so")] + LIBS, capture_output=True, text=True)
    exe = os.path.join(B, "sim")
    # the executable's symbols, as a stub library, so that really undefined symbols are found at link time
    syms = sorted(set(l.split()[-1] for l in subprocess.run(["nm", "-D", "--defined-only", exe], capture_output=True, text=True).stdout.splitlines()))
    stub = os.path.join(B, "sim_syms.s"); txt = ".text\n" + "".join(".globl %s\n%s:\n" % (s.split("@")[0], s.split("@")[0]) for s in syms if not s.startswith("_ITM") and s not in ("_init", "_fini", "_end", "_edata", "__bss_start", "_IO_stdin_used", "data_start", "__data_start", "main", "_start"))
    if not os.path.exists(stub) or open(stub).read() != txt:
        open(stub, "w").write(txt)
    subprocess.run(["gcc", "-shared", "-nostdlib", "-Wl,-soname,sim_syms_none", "-o", os.path.join(B, "sim_syms.so"), stub], check=True)
    ar = os.path.join(B, name + ".rest.a")
    if os.path.exists(ar): os.unlink(ar)
    r = link(ol)
    if r.returncode:   # something moved to a file no header leads to: offer every source
        rest = [s for s in all_sources() if s not in done]
        print("linking %s: looking for definitions in %d more sources\n%s" % (name, len(rest), "\n".join(sorted(set(re.findall(r"undefined reference to [^\n]*", r.stderr)))[:20])), file=sys.stderr)
        def tryc(s):
            try: return compile_one(s, flags, od)[0]
            except BuildError: return None
        if os.environ.get("SIM_NO_FALLBACK"): raise BuildError(r.stderr[-3000:])
        with ThreadPoolExecutor(JOBS) as ex: more = [o for o in ex.map(tryc, rest) if o]
        subprocess.run(["ar", "rcs", ar] + more, check=True)
        r = link(ol + [ar])
        if r.returncode: raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-6000:]))
    # link again without the stub library: the executable provides those symbols
    inputs = ol + ([ar] if os.path.exists(os.path.join(B, name + ".rest.a")) else [])
    r = subprocess.run(LINK + ["-o", so + ".tmp"] + inputs + LIBS, capture_output=True, text=True)
    if r.returncode: raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-6000:]))
    os.replace(so + ".tmp", so)
    imgs = [so]
    for i in range(1, copies + 1):
        p = os.path.join(B, "%s.%d.so" % (name, i)); shutil.copyfile(so, p); imgs.append(p)
    return imgs, order
