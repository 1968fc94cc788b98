#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE
Builds the harness of a property from /repo's working tree, runs the generated
cases, writes evidence/<id>.json. Exit 0: held on everything explored; exit 1
with a VIOLATION line: broken."""
import argparse, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.path.insert(0, VERIF)
import build as B
from props import PROPS

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1:detect_stack_use_after_return=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4",
}

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(line)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--configs")
    a = ap.parse_args()
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(seed)
    except ValueError:
        seed = int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)
    env = dict(os.environ); env.update(ENV)
    if a.replay:
        return replay(a, env)
    pid = a.property
    spec = PROPS[pid]
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    runs = spec["runs"]
    if a.configs:
        runs = [r for r in runs if r["config"] in a.configs.split(",")]
    runs = [r for r in runs if tier == "thorough" or r.get("quick", 0) > 0]
    jobs = [(spec["src"], r["config"], r.get("defs", []), r.get("out", pid)) for r in runs]
    for r in runs:
        if spec.get("wraps"): B.extra_wraps(r.get("out", pid), spec["wraps"])
    jobs += [(spec["src"], c, [], pid) for c in spec.get("servers", [])]
    fuzz = tier == "thorough" and spec.get("fuzz", 0) and not a.configs
    if fuzz:
        jobs.append((spec["src"], spec.get("fuzzcfg", "fuzz"), [], pid))
        if spec.get("wraps"): B.extra_wraps(pid, spec["wraps"])
    try:
        bins = B.build(jobs)
    except B.BuildError as e:
        print("BUILD-ERROR", str(e), flush=True)
        return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="pbt_%s_" % pid)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "runs": []}
    violations, notes = [], []
    try:
        for r in runs:
            n = int((r["quick"] if tier == "quick" else r["thorough"]) * a.scale)
            out = os.path.join(tmp, "res.json")
            rep = os.path.join(tmp, "replay.json")
            for f in (out, rep):
                if os.path.exists(f): os.remove(f)
            s = seed if r.get("same_seed") else seed + 1000003 * runs.index(r)
            budget = r.get("budget", 240 if tier == "quick" else 5400)
            cmd = [bins[(r.get("out", pid), r["config"])], "--seed", str(s), "--cases", str(n), "--workers", str(r.get("workers", 8)), "--budget", str(budget),
                   "--out", out, "--replay-out", rep, "--config", r["config"], "--shrink-budget", "45" if tier == "quick" else "180", "--case-cpu", str(r.get("case_cpu", 40)), "--giant", str(r.get("giant", 0)), "--long", str(r.get("long", 0) * (1 if tier == "quick" else 4))]
            e = dict(env); e.update(r.get("env", {})); e["PBT_TIER"] = tier
            if spec.get("sched"): e["PBT_SCHED"] = "1"
            e["PBT_SERVERS"] = ";".join("%s=%s" % (c, bins[(pid, c)]) for c in spec.get("servers", []))
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if not os.path.exists(out):
                print("HARNESS-ERROR", p.returncode, p.stdout[-3000:], flush=True)
                return 2
            res = json.load(open(out))
            cov["evaluations"] += res["evaluations"]
            cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], res["distinct_nontrivial"]) if r.get("same_seed") else cov["distinct_nontrivial"] + res["distinct_nontrivial"]
            cov["rule"] = res["rule"]
            if len(cov["samples"]) < 10:
                cov["samples"] += [x[:400] for x in res["samples"][:5]]
            cov["runs"].append({"config": r["config"], "cases": res["evaluations"], "nontrivial": res["nontrivial"], "distinct_nontrivial": res["distinct_nontrivial"],
                                "complete": res["complete"], "labels": res["labels"], "wall_s": round(res["wall_s"], 2)})
            if res["status"] == "violation":
                dst = save_replay(pid, rep)
                violations.append({"config": r["config"], "message": res["message"], "replay": dst})
                print("%s [%s]: %s" % (pid, r["config"], res["message"]), flush=True)
                break
            if res["status"] == "unreproduced":
                notes.append("config %s: a worker stopped but no case reproduced: %s" % (r["config"], res["message"][:400]))
                print("INCONCLUSIVE %s [%s]: %s" % (pid, r["config"], res["message"][:1000]), flush=True)
        if not violations and spec.get("post"):
            v = spec["post"](pid=pid, tier=tier, seed=seed, env=env, bins=bins, tmp=tmp, cov=cov, scale=a.scale)
            if v:
                dst = save_replay_text(pid, json.dumps({"property": pid, "kind": "post", "message": v}))
                violations.append({"config": "post", "message": v, "replay": dst})
                print("%s: %s" % (pid, v), flush=True)
        if not violations and fuzz:
            v = run_fuzz(pid, bins[(pid, spec.get("fuzzcfg", "fuzz"))], spec["fuzz"], seed, env, tmp, cov)
            if v:
                violations.append(v)
                print("%s [fuzz]: %s" % (pid, v["message"]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov["samples"] = cov["samples"][:10]
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]), flush=True)
    for k in known_findings():
        if ("property=%s " % pid) in k:
            print("KNOWN-FINDING: " + k[len("finding:"):].strip())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
          "violations": len(violations), "violation_details": violations, "assumptions": spec.get("assumptions", []), "notes": notes}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), build %.1fs, total %.1fs" %
          (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], len(violations), tb, time.time() - t0))
    return 1 if violations else 0

def save_replay(pid, path):
    return save_replay_text(pid, open(path).read())

def save_replay_text(pid, text):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    dst = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, hashlib.sha256(text.encode()).hexdigest()[:10]))
    open(dst, "w").write(text)
    return dst

def run_fuzz(pid, binp, seconds, seed, env, tmp, cov):
    """Coverage-guided search over the same tapes (thorough tier)."""
    corpus = os.path.join(tmp, "corpus"); art = os.path.join(tmp, "art/")
    os.makedirs(corpus); os.makedirs(art)
    e = dict(env)
    e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("exitcode=66", "exitcode=77")
    cmd = [binp, corpus, "-seed=%d" % (seed or 1), "-max_total_time=%d" % seconds, "-jobs=8", "-workers=8", "-max_len=4096", "-len_control=20", "-timeout=120", "-rss_limit_mb=3000", "-artifact_prefix=" + art, "-print_final_stats=1"]
    subprocess.run(cmd, env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    execs = 0
    for f in glob.glob(os.path.join(tmp, "fuzz-*.log")):
        for line in open(f, errors="replace"):
            if line.startswith("stat::number_of_executed_units:"): execs += int(line.split()[-1])
    cov["evaluations"] += execs
    cov["runs"].append({"config": "fuzz", "cases": execs, "corpus": len(os.listdir(corpus)), "seconds": seconds})
    for f in sorted(glob.glob(art + "crash-*")):
        tape = open(f, "rb").read()
        hexf = os.path.join(tmp, "tape.hex"); open(hexf, "w").write(tape.hex())
        ok = 0; msg = ""
        for _ in range(3):
            p = subprocess.run([binp, f], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0:
                ok += 1; msg = p.stdout[-1500:]
        if ok == 3:
            dst = save_replay_text(pid, json.dumps({"property": pid, "config": "asan", "kind": "tape", "tape": tape.hex(), "message": msg}))
            return {"config": "fuzz", "message": msg, "replay": dst}
    return None

def replay(a, env):
    r = json.load(open(a.replay))
    pid = r["property"]; spec = PROPS[pid]
    run = [x for x in spec["runs"] if x["config"] == r["config"]][0] if r.get("config") in [x["config"] for x in spec["runs"]] else spec["runs"][0]
    if spec.get("wraps"): B.extra_wraps(run.get("out", pid), spec["wraps"])
    bins = B.build([(spec["src"], run["config"], run.get("defs", []), run.get("out", pid))] + [(spec["src"], c, [], pid) for c in spec.get("servers", [])])
    binp = bins[(run.get("out", pid), run["config"])]
    e = dict(env); e.update(run.get("env", {}))
    if spec.get("sched"): e["PBT_SCHED"] = "1"
    e["PBT_SERVERS"] = ";".join("%s=%s" % (c, bins[(pid, c)]) for c in spec.get("servers", []))
    tmp = tempfile.mkdtemp(prefix="pbt_replay_")
    try:
        if r.get("kind") == "sequence":
            cmd = [binp, "--seed", str(r["seed"]), "--out", tmp + "/r", "--sequence", str(r["start"]), str(r["stride"]), str(r["end"])]
        elif r.get("kind") == "tape":
            open(tmp + "/tape", "w").write(r["tape"])
            cmd = [binp, "--out", tmp + "/r", "--replay", tmp + "/tape"]
        else:
            print(r["message"]); return 1
        if a.verbose: cmd.append("--verbose")
        p = subprocess.run(cmd, env=e)
        return p.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
