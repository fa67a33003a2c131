#!/usr/bin/env python3
"""run_check.py PROPERTY quick|thorough: decides one property by seeded search over simulated runs."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "tools"))
import build, checks
EV = os.environ.get("SIM_EVIDENCE", os.path.join(V, "evidence"))
def die(msg): print("CHECK-ERROR " + msg); sys.exit(2)
def known_findings(prop):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("known: "):
            w = l.split(None, 3); 
            if w[1] == "property=" + prop: out[w[2]] = w[3].strip()
    return out
def replay(path):
    w = open(path).readline().split(); name, args = w[3], w[5:]; i = checks.IMAGES[name]; exe = build.build_core()
    imgs = build.build_image(name, i["scen"], extra=i.get("extra", ()), node=i.get("node", ()), copies=i.get("copies", 9), defs=i.get("defs", ()))[0]
    sys.exit(subprocess.run([exe, "replay", os.path.abspath(path)] + args + list(imgs)).returncode)
def main():
    if sys.argv[1] == "replay": replay(sys.argv[2])
    t0 = time.time(); prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); cfg = checks.CHECKS[prop]; os.environ["SIM_QUIET"] = "1"
    secs = cfg.get(tier, 40 if tier == "quick" else 600); secs = float(os.environ.get("SIM_SECS", secs))
    kf = known_findings(prop)
    exe = build.build_core(); imgs = {}; srcs = {}
    for name in sorted({r[0] for r in cfg["runs"]}):
        i = checks.IMAGES[name]
        try: imgs[name] = build.build_image(name, i["scen"], extra=i.get("extra", ()), node=i.get("node", ()), copies=i.get("copies", 9), defs=i.get("defs", ())); srcs[name] = sorted(os.path.relpath(x, build.REPO) for x in imgs[name][1] if x.startswith(build.REPO)); imgs[name] = imgs[name][0]
        except build.BuildError as e: die(str(e))
    tb = time.time() - t0; W = os.cpu_count() or 8; total_w = sum(r[2] for r in cfg["runs"]); parts = []; violation = None
    os.makedirs(os.path.join(build.B, "out"), exist_ok=True); os.makedirs(os.path.join(build.B, "replay"), exist_ok=True); os.makedirs(EV, exist_ok=True)
    gate_errors = []
    for n, (name, param, w) in enumerate(cfg["runs"]):
        out = os.path.join(build.B, "out", "%s.%d.json" % (prop, n)); args = ["--p=" + param] + (["--known=" + ",".join(kf)] if kf else [])
        b = secs * w / total_w
        r = subprocess.run([exe, "batch", out, str(seed * 1000003 + n), "1000000000", str(b), str(W)] + args + list(imgs[name]), capture_output=True, text=True, timeout=b + 120)
        if r.returncode: die("batch failed: " + r.stdout[-500:] + r.stderr[-1500:])
        d = json.load(open(out)); d.update(image=name, param=param, seed0=seed * 1000003 + n); parts.append(d)
        for k, v in enumerate(d["violations"][:4]):
            rf = os.path.join(build.B, "replay", "%s-%s.replay" % (prop, v["seed"]))
            m = subprocess.run([exe, "min", v["seed"], rf] + args + list(imgs[name]), capture_output=True, text=True)
            if m.returncode != 1: gate_errors.append("seed %s: %s" % (v["seed"], m.stdout.strip()[-300:])); continue
            body = open(rf).read(); open(rf, "w").write("check %s image %s args %s\nreplay with: python3 /verif/run_check.py replay THIS_FILE\n" % (prop, name, " ".join(args)) + body)
            g = subprocess.run([exe, "replay", rf] + args + list(imgs[name]), capture_output=True, text=True)
            if g.returncode != 1: gate_errors.append("replay of seed %s in a fresh process: %s" % (v["seed"], g.stdout.strip()[-300:])); continue
            txt = m.stdout.strip().split("\n")[-1]; violation = (rf, txt, v["seed"]); break
        if violation: break
        if d["errors"] or gate_errors: break
    tot = lambda k: sum(p[k] for p in parts)
    wall = time.time() - t0; faults = {}; counters = {}
    for p in parts:
        for k, v in p["faults"].items(): faults[k] = faults.get(k, 0) + v
        for k, v in p["counters"].items(): counters[k] = counters.get(k, 0) + v
    bw = sum(p["wall_s"] for p in parts)
    samples = []
    if not violation and parts and not parts[0]["errors"]:
        name, param, _ = cfg["runs"][0]
        s = subprocess.run([exe, "replay", "1"] + ["--p=" + param] + list(imgs[name]), capture_output=True, text=True).stdout.split("\n")
        samples = [{"seed": 1, "scenario": "%s --p=%s" % (name, param), "history": [l[:200] for l in (s if len(s) < 60 else s[:30] + ["..."] + s[-30:])]}]
    else: samples = [{"violation": violation[1] if violation else (gate_errors or [e["text"] for e in parts[-1]["error_list"]])[:3]}]
    used = {r[0] for r in cfg["runs"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "coverage": {"evaluations": tot("runs"), "distinct_nontrivial": tot("interleavings"), "rule": cfg.get("rule", checks.DEFAULT_RULE), "samples": samples,
                       "runs_completed_with_all_checks": tot("held"), "runs_without_verdict": tot("budget"), "runs_per_hour": round(tot("runs") / bw * 3600) if bw else 0, "seeds_per_hour": round(tot("runs") / bw * 3600) if bw else 0,
                       "scheduling_points": tot("steps"), "context_switches": tot("switches"), "simulated_seconds": round(tot("sim_ns") / 1e9, 3), "faults_injected": faults, "probes": counters,
                       "distinct_states_by_scenario_measure": tot("states"), "runs_repeated_with_equal_hash": tot("repeat_checks"), "build_s": round(tb, 1),
                       "parts": [{k: p[k] for k in ("image", "param", "seed0", "runs", "interleavings", "wall_s")} for p in parts],
                       "real_sources_compiled": {u: len(srcs[u]) for u in used}, "real_code": sorted(checks.IMAGES[u]["real"] for u in used), "stubbed": sorted({checks.IMAGES[u]["stub"] for u in used})},
          "assumptions": cfg.get("assumptions", ["sampled schedules and faults, not exhaustive", "memory is sequentially consistent at scheduling points; ordering bugs are looked for by happens-before race detection", "clang -O1 x86-64 build of the sources"])}
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d interleavings, %.1f simulated s, faults %s, %.1f s (build %.1f s)" % (prop, tier, tot("runs"), tot("interleavings"), tot("sim_ns") / 1e9, faults, wall, tb))
    if violation:
        print(violation[1]); print("VIOLATION property=%s replay=%s" % (prop, violation[0])); sys.exit(1)
    if gate_errors: die("; ".join(gate_errors))
    if tot("errors"): die("; ".join("%s %s" % (e["seed"], e["text"]) for p in parts for e in p["error_list"][:3]))
    if not tot("held"): die("no run completed")
    for k, v in kf.items(): print("KNOWN-FINDING: property=%s %s %s (seen in %d runs)" % (prop, k, v, counters.get("known_" + k, 0)))
    sys.exit(0)
main()
