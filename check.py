#!/usr/bin/env python3
"""check.py ID [quick|thorough] decides one property on /repo's working tree; see DESIGN.md."""
import json, os, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import common as C
from lib.table import PROPS


def plan(pid, tier):
    """(cpu, block size, tier of the enumeration, shards)"""
    both = C.cpus()
    lo, hi = both[0], both[-1]
    p = PROPS[pid]
    if p.get("quick") == "same" and tier == "quick":
        return [(cpu, 256, "quick", 8) for cpu in both]
    if p.get("quick") == "same":
        return [(cpu, b, t, 8) for b, t in [(256, "thorough"), (1024, "quick")] for cpu in both]
    if tier == "quick":
        return p.get("quick", [(lo, 256, "quick", 4), (hi, 1024, "quick", 4)]) if len(both) > 1 else [(lo, 256, "quick", 8)]
    full = [(lo, 256, "thorough", 8), (hi, 256, "quick", 8), (lo, 1024, "quick", 8), (hi, 1024, "thorough", 8), (hi, 2 << 20, "thorough", 8), (lo, 2 << 20, "quick", 8)]
    full = p.get("thorough", full)
    return [x for x in full if x[0] in both]


def build_all(builds, scratch, root):
    with ThreadPoolExecutor(2) as ex:
        return dict(zip(builds, ex.map(lambda k: C.build(scratch, *k, root=root), builds)))


def harness_check(pid, tier, scratch, t0):
    p = PROPS[pid]
    jobs = []
    steps = plan(pid, tier)
    builds = sorted({(cpu, b) for cpu, b, _, _ in steps}, key=lambda x: (x[1], x[0]))
    env = dict(p.get("env", {}))
    fallback = None
    # the harnesses refer to names inside nd; when those change, the next one down the list needs less of them
    roots = p.get("roots", ["nd.rs", "nd_ext.rs"])
    for root in roots:
        try:
            exes = build_all(builds, scratch, root)
            if root == "nd_ext.rs":
                # whole processes, until the time is up
                env["NDV_SECONDS"] = ("200" if len(roots) > 2 else "480") if tier == "quick" else "20000"
                env["PATH"] = "/usr/local/bin:/usr/bin:/bin"
            elif root == "nd_sched.rs" and tier == "quick":
                env["NDV_SECONDS"] = "500"
            jobs = []
            for cpu, b, t, n in steps:
                jobs.append({"name": f"{cpu}-{b}-{t}", "exe": exes[(cpu, b)], "prop": p["prop"], "tier": t, "shards": n, "env": dict(env, NDV_CPU=cpu), "cpu": cpu, "block": b, "trace": p.get("agree", False)})
            done, violations = C.run_jobs(jobs, scratch)
            break
        except (C.BuildError, C.Uncontrolled) as e:
            if root == roots[-1]:
                raise
            fallback = f"{root} cannot be used: " + str(e)[-1500:]
            print(fallback)
    compared = None
    if p.get("agree") and not violations:
        more, compared = C.compare_traces(jobs, scratch)
        violations += more
    for v in violations:
        v.setdefault("prop", p["prop"])
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": p["rule"], "samples": [], "exhaustive": all(any(C.matches(k, pid, v) for k in C.load_known()) for v in violations), "jobs": {}}
    if fallback or any(r.get("cut_short") for _, _, r in done):
        cov["exhaustive"] = False
    if fallback:
        cov["fallback"] = fallback + f"; {root} was used instead"
    if compared is not None:
        cov["compared_between_builds"] = compared
    per_job = {}
    for j, i, r in done:
        k = per_job.setdefault(j["name"], {"cases": 0, "distinct": 0, "rejects": 0, "unspecified": 0, "bounds": r["bounds"], "shards": 0, "longest_input": 0})
        k["cases"] += r["ran"]
        k["distinct"] += r["distinct"]
        k["rejects"] += r["rejects"]
        k["unspecified"] += r["unspecified"]
        k["shards"] += 1
        k["longest_input"] = max(k["longest_input"], r["longest"])
        if i == 0 and len(cov["samples"]) < 12:
            cov["samples"] += [f"[{j['name']}] {s}" for s in r["samples"]]
    cov["jobs"] = per_job
    cov["evaluations"] = sum(k["cases"] for k in per_job.values())
    extra = {}
    for _, _, r in done:
        for k, v in r.get("extra", {}).items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith("longest") else extra.get(k, 0) + v
    if extra:
        cov.update(extra)
        if extra.get("cases_cut_at_the_limit"):
            cov["exhaustive"] = False
    if "schedules" in extra:
        cov["cases"], cov["evaluations"] = cov["evaluations"], extra["schedules"]
    # outcomes are counted per shard; shards partition the cases, the two processors repeat them
    cov["distinct_nontrivial"] = max([k["distinct"] for k in per_job.values()] or [0])
    cov["builds"] = [f"{c} with {b}-byte blocks" for c, b in builds]
    return cov, violations


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    scratch = C.make_scratch()
    try:
        bad = 0
        for v in r["violations"]:
            if "job" not in v or "case" not in v:
                print(json.dumps(v))
                continue
            cpu, b, t = v["job"].rsplit("-", 2)
            for root in PROPS[pid].get("roots", ["nd.rs", "nd_ext.rs"]):
                try:
                    exe = C.build(scratch, cpu, int(b), root=root)
                    break
                except C.BuildError:
                    pass
            i, n = v["shard"].split("/")
            job = {"name": v["job"], "exe": exe, "prop": PROPS[pid]["prop"], "tier": t, "env": dict(PROPS[pid].get("env", {}), NDV_CPU=cpu)}
            vs, _ = C.rerun_case(job, int(i), int(n), v["case"], scratch)
            for x in vs:
                bad += 1
                print(json.dumps(x, indent=1))
        print(f"{bad} violation(s) reproduced")
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """nothing is kept from here: every check builds what it needs. Builds once to tell early if that's impossible"""
    scratch = C.make_scratch()
    try:
        C.build(scratch, C.cpus()[0], 256)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--setup":
        setup()
        sys.exit(0)
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.monotonic()
    scratch = C.make_scratch()
    try:
        p = PROPS[pid]
        if p.get("kind", "harness") == "harness":
            cov, violations = harness_check(pid, tier, scratch, t0)
            status = C.verdict(pid, tier, p.get("level", "exploration"), cov, violations, t0, p.get("assumptions", []))
        else:
            mod = __import__("lib." + p["kind"], fromlist=["run"])
            cov, violations = mod.run(pid, p, tier, scratch, t0)
            status = C.verdict(pid, tier, p.get("level", "exploration"), cov, violations, t0, p.get("assumptions", []))
        print(f"{pid} {tier}: {cov.get('evaluations', cov.get('states'))} executions, {time.monotonic() - t0:.1f} s, status {status}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(status)


if __name__ == "__main__":
    main()
