"""Runs the enumerations of the other properties again, in processes whose every access to memory is watched (AddressSanitizer), and
again where fresh memory is filled with something else: what a case gives must not depend on that. What the cases should give is the
other properties' business; here, only deaths and differences count."""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from . import common as C

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=1000000000:malloc_fill_byte=190:" \
       "max_free_fill_size=1000000000:free_fill_byte=17:handle_segv=1"
TRIPLE = "x86_64-unknown-linux-gnu"

# enumerations, and the cost of a shard of eight under the sanitizer (seconds)
TEXT = ["dump-format", "text-input", "roundtrip", "format"]
BYTES = ["assemble", "pad", "cut", "patch", "chunking"]
SLICES = ["width", "find", "walk", "slice", "guide", "invert", "extend", "merge", "lines"]
REST = ["output", "patch-back", "values"]
LONG = ["grammar", "regex", "compose", "expr"]


def build(scratch, cpu, block, root, watched):
    base = os.environ.get("NDV_TARGET_DIR")
    target = os.path.join(base or scratch, f"target-{cpu}-{block}-{'watched' if watched else 'plain'}")
    e = C.build_env(cpu)
    # the same compiler for both
    e["RUSTUP_TOOLCHAIN"] = "nightly-" + TRIPLE
    e["ND_VERIF_HARNESS"] = os.path.join(C.VERIF, "harness", root)
    e["ND_VERIF_BLOCK"] = str(block)
    args = ["cargo", "build", "-q", "--offline", "--manifest-path", f"{C.REPO}/Cargo.toml", "--target-dir", target, "--target", TRIPLE]
    if watched:
        e["RUSTFLAGS"] += " -Zsanitizer=address"
        e["CARGO_PROFILE_DEV_DEBUG"] = "1"
    r = subprocess.run(args, cwd=C.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise C.BuildError(r.stdout[-6000:])
    exe = os.path.join(scratch, f"nd-{cpu}-{block}-{'watched' if watched else 'plain'}")
    os.rename(os.path.join(target, TRIPLE, "debug", "nd"), exe) if not base else subprocess.run(["cp", os.path.join(target, TRIPLE, "debug", "nd"), exe], check=True)
    if not base:
        subprocess.run(["rm", "-rf", "--", target])
    return exe


def jobs_for(exes, tier, logs, root):
    """[(job watched, job plain or None)]"""
    lo, hi = C.cpus()[0], C.cpus()[-1]
    pairs = []

    def add(props, cpu, block, t, plain=True):
        for prop in props:
            js = []
            for watched in (True, False) if plain else (True,):
                env = {"NDV_CPU": cpu, "NDV_MAX": "1000000"}
                if watched:
                    env["ASAN_OPTIONS"] = ASAN + f":log_path={logs}/{prop}-{cpu}-{block}"
                else:
                    env["MALLOC_PERTURB_"] = "101"
                if root == "nd_ext.rs":
                    env["NDV_SECONDS"] = "25" if tier == "quick" else "300"
                js.append({"name": f"{cpu}-{block}-{t}-{prop}-{'watched' if watched else 'plain'}", "exe": exes[(cpu, block, watched)], "prop": prop, "tier": t,
                           "shards": 8, "env": env, "cpu": cpu, "block": block, "trace": root == "nd.rs", "watched": watched, "mem": None if watched else C.MEM})
            pairs.append((js[0], js[1] if plain else None))

    add(["dump-format", "text-input", "tight"], lo, 256, "quick", False)
    add(["dump-format", "text-input", "roundtrip", "assemble", "pad", "patch", "chunking", "width", "find", "walk", "guide", "merge", "output", "patch-back", "tight"], hi, 256, "quick")
    if tier == "thorough":
        add(["roundtrip", "format"], lo, 256, "quick", False)
        add(["format", "cut", "slice", "invert", "extend", "lines", "values"], hi, 256, "quick")
        add(LONG, hi, 256, "quick")
        add(["grammar"] + BYTES + SLICES + REST, lo, 256, "quick", False)
        add(["dump-format", "roundtrip", "assemble", "chunking", "walk", "width", "guide"], hi, 256, "thorough")
        add(TEXT + BYTES + SLICES + REST, hi, 1024, "quick")
    return pairs


def differences(a, b, scratch):
    """where two jobs over the same cases part"""
    for i in range(a["shards"]):
        try:
            x, y = (open(C.trace_path(j, i, scratch), "rb").read() for j in (a, b))
        except OSError:
            continue
        n = min(len(x), len(y)) // 16 * 16
        yield n // 16, None
        if x[:n] != y[:n]:
            k = next(k for k in range(0, n, 16) if x[k:k + 16] != y[k:k + 16])
            case = int.from_bytes(y[k:k + 8], "little")
            if x[k:k + 8] != y[k:k + 8]:
                raise RuntimeError("the builds did not go through the same cases")
            _, detail = C.rerun_case(b, i, b["shards"], case, scratch)
            yield 0, dict(detail, why="the outcome depends on what fresh memory holds (or on the sanitizer)", job=a["name"], shard=f"{i}/{a['shards']}", prop=a["prop"])


def run(pid, p, tier, scratch, t0):
    lo, hi = C.cpus()[0], C.cpus()[-1]
    kinds = {(lo, 256, True), (hi, 256, True), (hi, 256, False)} | ({(hi, 1024, True), (hi, 1024, False)} if tier == "thorough" else set())
    logs = os.path.join(scratch, "asan")
    os.makedirs(logs)
    fallback = None
    for root in ("nd.rs", "nd_ext.rs"):
        try:
            with ThreadPoolExecutor(3) as ex:
                ks = sorted(kinds)
                exes = dict(zip(ks, ex.map(lambda k: build(scratch, k[0], k[1], root, k[2]), ks)))
            break
        except C.BuildError as e:
            if root == "nd_ext.rs":
                raise
            fallback = f"{root} cannot be used: " + str(e)[-1500:]
            print(fallback)
    pairs = jobs_for(exes, tier, logs, root)
    jobs = [j for w, q in pairs for j in (w, q) if j]
    done, found = C.run_jobs(jobs, scratch)
    viol = []
    for v in found:
        # wrong results are reported by the property they belong to
        if str(v.get("why", "")).startswith("the process died"):
            viol.append(v)
    said = set()
    for f in sorted(os.listdir(logs)):
        t = open(os.path.join(logs, f), errors="replace").read()
        head = next((l for l in t.splitlines() if "ERROR" in l), t[:200])
        where = [l.strip() for l in t.splitlines() if " in " in l and "/src/" in l][:4]
        key = (head.split(": ", 1)[-1][:40], tuple(w.split(" in ", 1)[-1] for w in where))
        if key not in said:
            said.add(key)
            viol.append({"why": head[:300], "where": where, "job": f.rsplit(".", 1)[0], "log": t[:1500]})
    # the reports first
    viol.sort(key=lambda v: "log" not in v)
    compared = 0
    for w, q in pairs:
        if q and w["trace"] and len(viol) < 10:
            for n, d in differences(w, q, scratch):
                compared += n
                if d:
                    viol.append(d)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "exhaustive": not viol and not fallback, "rule": p["rule"], "jobs": {}}
    for j, i, r in done:
        k = cov["jobs"].setdefault(j["name"], {"cases": 0, "distinct": 0, "bounds": r["bounds"], "shards": 0})
        k["cases"] += r["ran"]
        k["distinct"] += r["distinct"]
        k["shards"] += 1
        if r.get("cut_short"):
            cov["exhaustive"] = False
        if i == 0 and j["watched"] and len(cov["samples"]) < 12:
            cov["samples"] += [f"[{j['name']}] {s}" for s in r["samples"][:1]]
    cov["evaluations"] = sum(k["cases"] for k in cov["jobs"].values())
    cov["distinct_nontrivial"] = sum(k["distinct"] for n, k in cov["jobs"].items() if n.endswith("watched"))
    cov["compared_between_fills"] = compared
    cov["builds"] = [f"{c} with {b}-byte blocks" + (", watched" if w else "") for c, b, w in sorted(kinds)]
    if fallback:
        cov["fallback"] = fallback
    return cov, viol
