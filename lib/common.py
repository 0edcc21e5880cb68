"""Shared machinery of the checks: building the harness from /repo's working tree, running shards, verdicts, evidence."""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV_SH = "/opt/vp/env.sh"
STALL = 150      # seconds without a new case before a shard counts as hung
MEM = 3 << 30    # address space of one shard


def cpus():
    flags = set()
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                flags = set(l.split(":", 1)[1].split())
                break
    except OSError:
        pass
    return ["x86-64", "x86-64-v3"] if {"avx2", "bmi2", "fma"} <= flags else ["x86-64"]


def build_env(cpu, cfg="--cfg nd_verif "):
    e = dict(os.environ)
    for k in ["CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"]:
        e.pop(k, None)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
    e["RUSTFLAGS"] = cfg + f"-C target-cpu={cpu} -A warnings"
    return e


class BuildError(Exception):
    pass


class Uncontrolled(Exception):
    """the code synchronizes its threads by something that the scheduler doesn't control"""


def build(scratch, cpu, block, root="nd.rs", libc=False):
    """builds /repo with the harness; returns the path of the binary. libc: every system call goes through the C library"""
    base = os.environ.get("NDV_TARGET_DIR")  # for development only: keep the dependencies' build output
    kind = "-sched" if root == "nd_sched.rs" else "-libc" if libc else ""
    target = os.path.join(base or scratch, f"target-{cpu}-{block}{kind}")
    e = build_env(cpu, "--cfg nd_verif " + {"-sched": "--cfg nd_verif_sched ", "-libc": "--cfg rustix_use_libc "}.get(kind, ""))
    e["ND_VERIF_HARNESS"] = os.path.join(VERIF, "harness", root)
    e["ND_VERIF_BLOCK"] = str(block)
    r = subprocess.run(["cargo", "build", "-q", "--offline", "--manifest-path", f"{REPO}/Cargo.toml", "--target-dir", target],
                       cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    exe = os.path.join(scratch, f"nd-{cpu}-{block}")
    shutil.copy(os.path.join(target, "debug", "nd"), exe)
    if not base:
        shutil.rmtree(target, ignore_errors=True)
    return exe


def build_plain(scratch, cpu, opt=None, release=False):
    """builds /repo as it is, without any harness"""
    base = os.environ.get("NDV_TARGET_DIR")
    target = os.path.join(base or scratch, f"target-{cpu}-plain{opt or ''}{'r' if release else ''}")
    e = build_env(cpu, "")
    if release:
        e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    if opt:
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = str(opt)
    r = subprocess.run(["cargo", "build", "-q", "--offline", "--manifest-path", f"{REPO}/Cargo.toml", "--target-dir", target],
                       cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    exe = os.path.join(scratch, f"nd-{cpu}-plain{'-release' if release else ''}")
    shutil.copy(os.path.join(target, "debug", "nd"), exe)
    if not base:
        shutil.rmtree(target, ignore_errors=True)
    return exe


def limits(mem=MEM):
    os.setpgid(0, 0)
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def trace_path(job, i, scratch):
    return os.path.join(scratch, f"trace-{job['name']}-{i}")


def compare_traces(jobs, scratch):
    """the builds for the two processors went through the same cases: the first case of each shard where they differ"""
    found, compared = [], 0
    groups = {}
    for j in jobs:
        groups.setdefault((j["block"], j["tier"], j["shards"]), []).append(j)
    for js in groups.values():
        for other in js[1:]:
            for i in range(other["shards"]):
                try:
                    a, b = (open(trace_path(j, i, scratch), "rb").read() for j in (js[0], other))
                except OSError:
                    continue
                n = min(len(a), len(b)) // 16 * 16
                compared += n // 16
                if a[:n] == b[:n]:
                    continue
                k = next(k for k in range(0, n, 16) if a[k:k + 16] != b[k:k + 16])
                case = int.from_bytes(b[k:k + 8], "little")
                if a[k:k + 8] != b[k:k + 8]:
                    raise RuntimeError("the builds did not go through the same cases")
                _, detail = rerun_case(other, i, other["shards"], case, scratch)
                detail = dict(detail, why=f"the outcome differs between {js[0]['name']} and {other['name']}", job=other["name"], shard=f"{i}/{other['shards']}")
                found.append(detail)
    return found, compared


class Shard:
    def __init__(self, job, i, n, scratch, only=None, maxv=None):
        self.job, self.i, self.n = job, i, n
        exe, prop, tier, extra = job["exe"], job["prop"], job["tier"], job.get("env", {})
        self.dir = os.path.join(scratch, f"s-{job['name']}-{i}" + ("" if only is None else "-only"))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.report = os.path.join(self.dir, "report.json")
        self.progress = os.path.join(self.dir, "progress")
        self.only_out = os.path.join(self.dir, "case.json")
        e = dict(os.environ, NDV_PROP=prop, NDV_TIER=tier, NDV_SHARD=f"{i}/{n}", NDV_SCRATCH=os.path.join(self.dir, "w"),
                 NDV_REPORT=self.report, NDV_PROGRESS=self.progress, RUST_BACKTRACE="0", MALLOC_ARENA_MAX="2", PATH="/usr/local/bin:/usr/bin:/bin", LC_ALL="C")
        e.update(extra)
        if job.get("trace") and only is None:
            e["NDV_TRACE"] = trace_path(job, i, scratch)
        if only is not None:
            e["NDV_ONLY"] = str(only)
            e["NDV_ONLY_OUT"] = self.only_out
        if maxv is not None:
            e["NDV_MAX"] = str(maxv)
        os.makedirs(e["NDV_SCRATCH"])
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen([exe], env=e, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, preexec_fn=lambda: limits(job.get("mem", MEM)), cwd=self.dir)
        self.last, self.last_t = None, time.monotonic()

    def position(self):
        try:
            b = open(self.progress, "rb").read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else None
        except OSError:
            return None

    def stalled(self, limit=STALL):
        p = self.position()
        if p != self.last:
            self.last, self.last_t = p, time.monotonic()
        return time.monotonic() - self.last_t > limit

    def kill(self):
        for f in (lambda: os.killpg(self.p.pid, signal.SIGKILL), self.p.kill):
            try:
                f()
            except OSError:
                pass
        self.p.wait()

    def logtext(self):
        return open(os.path.join(self.dir, "log"), "rb").read()[-2000:].decode("utf-8", "replace")

    def result(self):
        try:
            return json.load(open(self.report))
        except (OSError, ValueError):
            return None


def rerun_case(job, i, n, case, scratch):
    """a shard died in this case: runs the case alone, and tells if it dies again"""
    s = Shard(job, i, n, scratch, only=case)
    t0 = time.monotonic()
    while s.p.poll() is None and time.monotonic() - t0 < 240:
        time.sleep(0.1)
    hung = s.p.poll() is None
    if hung:
        s.kill()
    rep = s.result()
    if s.p.returncode == 4:
        raise Uncontrolled(s.logtext())
    if s.p.returncode == 3:
        raise RuntimeError(f"the harness itself failed at case {case}: {s.logtext()}")
    try:
        detail = json.load(open(s.only_out))
    except (OSError, ValueError):
        detail = {"case": case}
    if rep is not None and not hung and s.p.returncode == 0:
        return rep["violations"], detail
    detail["why"] = "hangs (no progress)" if hung else f"the process died with status {s.p.returncode}: {s.logtext()[-500:]}"
    return [detail], detail


def run_jobs(jobs, scratch, width=8):
    """jobs: dicts name, exe, prop, tier, env, shards. Returns [(job, shard index, report)], violations."""
    queue = [(j, i) for j in jobs for i in range(j["shards"])]
    running, done, violations = [], [], []
    while queue or running:
        while queue and len(running) < width:
            j, i = queue.pop(0)
            running.append(Shard(j, i, j["shards"], scratch))
        time.sleep(0.05)
        for s in list(running):
            rc = s.p.poll()
            if rc is None and not s.stalled():
                continue
            hung = rc is None
            if hung:
                s.kill()
            running.remove(s)
            rep = s.result()
            if rc == 4:
                for x in running:
                    x.kill()
                raise Uncontrolled(s.logtext())
            if rc == 3:
                raise RuntimeError(f"the harness itself failed: {s.logtext()}")
            if not hung and rc == 0 and rep is not None:
                done.append((s.job, s.i, rep))
                for v in rep["violations"]:
                    violations.append(dict(v, job=s.job["name"], shard=f"{s.i}/{s.n}"))
            else:
                case = s.position()
                if case is None:
                    raise RuntimeError(f"shard died at start: {s.logtext()}")
                vs, detail = rerun_case(s.job, s.i, s.n, case, scratch)
                if not vs:
                    # does not fail alone: run the whole shard once more before believing anything
                    if s.job.get("retried", {}).get(s.i):
                        raise RuntimeError(f"shard {s.job['name']} {s.i}/{s.n} dies at case {case} but the case passes alone: {s.logtext()}")
                    s.job.setdefault("retried", {})[s.i] = True
                    queue.append((s.job, s.i))
                else:
                    for v in vs:
                        violations.append(dict(v, job=s.job["name"], shard=f"{s.i}/{s.n}"))
            shutil.rmtree(s.dir, ignore_errors=True)
    return done, violations


def load_known():
    out = []
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        out = json.load(open(path)).get("findings", [])
    return out


def matches(finding, pid, v):
    """a listed finding identifies the failing input by the exact values of fields of the violation's record"""
    if finding["property"] != pid:
        return False
    return all(v.get(k) == want for k, want in finding["match"].items())


def verdict(pid, tier, level, coverage, violations, t0, assumptions=()):
    """writes the evidence, prints the verdict lines, returns the exit status"""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = load_known()
    listed = []
    fresh = []
    for v in violations:
        f = next((k for k in known if matches(k, pid, v)), None)
        if f is None:
            fresh.append(v)
        elif f not in listed:
            listed.append(f)
    status = 0
    replay = os.path.join(VERIF, "evidence", f"{pid}.replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    for f in listed:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    if fresh:
        json.dump({"property": pid, "tier": tier, "count": len(fresh), "violations": fresh[:20],
                   "how": "python3 /verif/check.py --replay <this file> runs the recorded cases again on /repo's working tree"},
                  open(replay, "w"), indent=1)
        v = fresh[0]
        print(json.dumps(v)[:3000])
        print(f"VIOLATION property={pid} replay={replay}")
        status = 1
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(time.monotonic() - t0, 2), "violations": len(fresh)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    return status


def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (4 << 30) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="ndv-", dir=base)
