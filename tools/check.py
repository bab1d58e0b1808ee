#!/usr/bin/env python3
"""Runs the check of one property: build, seeded search on all cores, minimise, replay, evidence."""
import json, os, re, subprocess, sys, time, shutil, struct
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from props import PROPS, SCHED

def findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "open"]

def read_replay(path):
    d = {}
    for l in open(path, errors="replace"):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("class", "msg", "seed", "hash"): d[k] = v
    return d

def run_cpp(prop, cfg, tier, seed, seconds, tmp):
    exe = B.build(cfg["target"])
    n = min(cfg.get("max_workers", 64), os.cpu_count() or 4)
    stop = os.path.join(tmp, "stop")
    procs = []
    for w in range(n):
        out = os.path.join(tmp, "w%d.json" % w)
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--workers", str(n), "--worker", str(w), "--seconds", str(seconds),
               "--out", out, "--replay-dir", tmp, "--twice", str(cfg.get("twice", 5)), "--max-violations", "2", "--stop-file", stop]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "w%d.err" % w), "w")), out))
    res = []
    pend = list(procs)
    deadline = time.time() + seconds * 2 + 200
    while pend:
        for p in list(pend):
            if p[0].poll() is not None:
                pend.remove(p)
                try: r = json.load(open(p[1]))
                except Exception: r = None
                res.append((p[0].returncode, r, p[1]))
                if r and r["violations"]: open(stop, "w").close()
        if time.time() > deadline:
            for p in pend: p[0].kill()
            return exe, res, "worker did not finish"
        time.sleep(0.05)
    return exe, res, ""

def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    seconds = float(os.environ.get("SIM_SECONDS", cfg["thorough"] if tier == "thorough" else cfg["quick"]))
    t0 = time.time()
    tmp = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try: rc = go(prop, cfg, tier, seed, seconds, tmp, t0)
    except B.BuildError as e:
        print("BUILD ERROR", e); rc = 2
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def go(prop, cfg, tier, seed, seconds, tmp, t0):
    exe, res, err = run_cpp(prop, cfg, tier, seed, seconds, tmp)
    t_build_search = time.time() - t0
    bad = [r for r in res if r[1] is None]
    agg = dict(runs=0, nontrivial=0, skipped=0, errors=0, mismatches=0, twice_checked=0, steps=0, switches=0, io_calls=0, sim_ns=0, phases=0)
    counters, samples, viols, skips, errs = {}, [], [], set(), []
    seen = set()
    secs = 0
    for rc, r, out in res:
        if not r: continue
        for k in agg: agg[k] += r[k]
        secs = max(secs, r["seconds"])
        for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
        samples += r["samples"][:1]; viols += r["violations"]; skips.update(r["skips"])
        if r["error"]: errs.append(r["error"])
        try:
            b = open(out + ".seen", "rb").read(); seen.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError: pass
    known = findings(prop)
    reported, confirmed, unconfirmed = None, 0, []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    known_hit = {}
    for v in sorted(viols)[:6]:
        info = read_replay(v)
        k = [f for f in known if f["class"] == info["class"] and re.search(f["match"], info.get("msg", ""))]
        if k: known_hit[k[0]["id"]] = known_hit.get(k[0]["id"], 0) + 1; continue
        if reported: continue
        final = os.path.join(VERIF, "replays", "%s-seed%s.replay" % (prop, info["seed"]))
        mini = v + ".min"
        subprocess.run([exe, "--replay", v, "--minimise", mini, "--min-seconds", str(cfg.get("min_seconds", 30))], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = False
        for cand in (mini, v):
            if not os.path.exists(cand): continue
            outs = [subprocess.run([exe, "--replay", cand], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace") for _ in range(2)]
            heads = [o.stdout.split("\n")[0] for o in outs]
            if all(o.returncode == 1 for o in outs) and heads[0] == heads[1] and ("class=%s " % info["class"]) in heads[0]:
                shutil.copy(cand, final); ok = True
                msg = outs[0].stdout
                break
        if ok: reported = (final, info, msg)
        else: unconfirmed.append(v)
    for f in known: print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "wall_s": round(wall, 2), "violations": 1 if reported else 0,
          "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(seen), "rule": cfg["rule"] + " Counted as distinct: different hash of (parameters, sequence of thread switches with their reasons).",
            "samples": samples[:6] or ["none"],
            "technique": "deterministic simulation: " + cfg.get("sched", SCHED),
            "seeds_per_hour": int(agg["runs"] / max(secs, 0.001) * 3600) if secs else 0,
            "simulated_runs": agg["runs"], "simulated_processes": agg["phases"], "nontrivial_runs": agg["nontrivial"], "void_runs": agg["skipped"], "void_reasons": sorted(skips),
            "simulated_time_s": round(agg["sim_ns"] / 1e9, 3), "steps": agg["steps"], "thread_switches": agg["switches"], "simulated_io_calls": agg["io_calls"],
            "faults_injected": {k[2:]: v for k, v in sorted(counters.items()) if k.startswith("f:")},
            "probes": {k[2:]: v for k, v in sorted(counters.items()) if k.startswith("p:")},
            "fault_model": cfg["faults"],
            "components_real": cfg["real"], "components_simulated": cfg["stub"],
            "determinism": {"seeds_run_twice": agg["twice_checked"], "hash_mismatches": agg["mismatches"]},
            "known_findings_hit": known_hit,
            "workers": len(res)},
          "assumptions": cfg.get("memory", ["x86-64 strong memory ordering: interleavings are sequentially consistent"]) + ["one seed is one execution; unexplored seeds are not covered"] + cfg.get("assumptions", [])}
    evd = os.path.join(VERIF, "evidence"); os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    if reported:
        final, info, msg = reported
        print("seed %s class %s" % (info["seed"], info["class"]))
        print("\n".join(msg.split("\n")[:12]))
        print("VIOLATION property=%s replay=%s" % (prop, final))
        return 1
    print("%s: %d runs (%d non-trivial, %d distinct), %d void, %.0f s search, faults %s" % (prop, agg["runs"], agg["nontrivial"], len(seen), agg["skipped"], secs, ev["coverage"]["faults_injected"]))
    if bad or err or agg["errors"] or unconfirmed or agg["mismatches"] or agg["runs"] == 0 or agg["skipped"] * 2 > agg["runs"]:
        print("CHECK ERROR: workers failed=%d %s errors=%d %s unconfirmed=%s mismatches=%d skipped=%d/%d %s" % (len(bad), err, agg["errors"], errs[:3], unconfirmed, agg["mismatches"], agg["skipped"], agg["runs"], sorted(skips)))
        for rc, r, out in res:
            if r is None:
                try: print(open(out[:-5] + ".err").read()[-500:])
                except OSError: pass
        return 2
    return 0

if __name__ == "__main__": main()
