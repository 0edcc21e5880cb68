"""Fault enumeration: runs nd with every single fault (thorough: also every pair of an error and what follows it) at every
system call it makes on its files, pipes and standard streams, and judges what is left. The injector is harness/shim.c."""
import errno, json, multiprocessing, os, shutil, stat, subprocess, tempfile
from lib import common as C

TIMEOUT = 60
NAMES = {v: k for k, v in errno.errorcode.items()}


def build_shim(scratch):
    so = os.path.join(scratch, "shim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(C.VERIF, "harness", "shim.c"), "-ldl", "-lpthread"], check=True)
    return so


def pat(n, k=0):
    return bytes((i * 7 + 3 + k * 13 + (i >> 8)) & 255 for i in range(n))


class Sc:
    """a scenario: files in the working directory, arguments, stdin; `edited`: files changed in place"""

    def __init__(self, name, args, files, stdin=None, edited=(), piped=False, outs=(), inputs=None, pager=False, fails=False, xdev=False):
        self.xdev = xdev  # every directory is on a file system of its own
        self.fails = fails  # must be refused or reported even without a fault
        self.name, self.files, self.stdin, self.edited, self.piped, self.outs, self.pager = name, files, stdin, list(edited), piped, list(outs), pager
        # in place: `args` are only the options; they tell what each of `edited` must become
        self.plain = args
        self.args = ["-i"] + args + list(inputs or edited) if edited else args


class Run:
    pass


def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = (open(p, "rb").read(), stat.S_IMODE(os.stat(p).st_mode))
    return out


def prepare(d, files):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for n, v in files.items():
        body, mode = v if isinstance(v, tuple) else (v, 0o644)
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "wb") as f:
            f.write(body)
        os.chmod(os.path.join(d, n), mode)


def execute(exe, so, d, args, stdin, faults="", log=None, xdev=False):
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d, "LC_ALL": "C"}
    if so:
        env.update(LD_PRELOAD=so, NDS_DIR=d)
        if faults:
            env["NDS_FAULTS"] = faults
        if xdev:
            env["NDS_XDEV"] = "1"
        if log:
            if os.path.exists(log):
                os.unlink(log)
            env["NDS_LOG"] = log
    r = Run()
    sin = subprocess.DEVNULL
    if stdin is not None:
        sin = open(os.path.join(d, "..", os.path.basename(d) + ".stdin"), "w+b")
        sin.write(stdin)
        sin.flush()
        sin.seek(0)
    try:
        p = subprocess.Popen([exe] + args, cwd=d, env=env, stdin=sin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            r.out, r.err = p.communicate(timeout=TIMEOUT)
            r.rc, r.hung = p.returncode, False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            r.out, r.err = p.communicate()
            r.rc, r.hung = None, True
    finally:
        if stdin is not None:
            sin.close()
    r.files = listing(d)
    r.events = []
    if log and os.path.exists(log):
        for l in open(log):
            op, lab, nth, req, ret, path = l.split(" ", 5)
            r.events.append((op, lab, int(nth), int(req), int(ret), path.strip()))
    return r


def actions(ev, kills, pager=False):
    op, lab, nth, req, ret, path = ev
    e = lambda *xs: [f"e{x}" for x in xs]
    if op in ("open", "openw"):
        a = e(errno.EACCES, errno.EMFILE, errno.EINTR)
    elif op == "read":
        a = e(errno.EIO, errno.EINTR) + [f"s{n}" for n in sorted({1, ret // 2, ret - 1}) if 0 < n < ret]
    elif op in ("write", "copy"):
        a = e(errno.EIO, errno.ENOSPC, errno.EINTR) + ([f"e{errno.EPIPE}"] if lab == "out" or pager and lab == "pipe" else [])
        sizes = [n for n in sorted({1, req // 2, req - 1}) if 0 < n < req]
        a += [f"s{n}" for n in sizes]
        if kills:
            a += [f"t{n}" for n in sizes]
    elif op == "spawn":
        a = e(errno.ENOENT, errno.EAGAIN)
    else:
        a = e(errno.EIO, errno.EACCES, errno.ENOSPC)
    if kills:
        a += ["k", "a"]
    return a


class Judge:
    def __init__(self, exe, so, sc, d):
        self.exe, self.so, self.sc, self.d = exe, so, sc, d

    def start(self):
        sc = self.sc
        prepare(self.d, sc.files)
        self.old = listing(self.d)
        prepare(self.d, sc.files)
        # what is right is what the fault-free program gives; for --inplace, what it prints when not told to edit in place
        self.base = execute(self.exe, self.so, self.d, sc.args, sc.stdin, log=self.d + ".log", xdev=sc.xdev)
        bad = []
        self.new = dict(self.base.files)
        if sc.fails:
            if self.base.hung or self.base.rc in (0, None) or self.base.rc < 0 or not self.base.err:
                bad.append(f"must be reported as an error, but the exit status is {self.base.rc}: {self.base.err[:200]!r}")
        elif self.base.hung or self.base.rc != 0:
            bad.append(f"fails without any fault: exit status {self.base.rc}: {self.base.err[:200]!r}")
        if sc.edited:
            for f in sc.edited:
                prepare(self.d, sc.files)
                r = execute(self.exe, None, self.d, sc.plain + [f], sc.stdin)
                want = (r.out, self.old[f][1])
                if self.base.files.get(f) != want and not (sc.fails and self.base.files.get(f) == self.old[f]):
                    bad.append(f"{f} should hold {want[0][:60]!r}... ({len(want[0])} bytes, mode {want[1]:o}), but " + self.show(self.base.files.get(f)))
                self.new[f] = want
            for f in set(self.old) | set(self.base.files):
                if f not in sc.edited and self.base.files.get(f) != self.old.get(f):
                    bad.append(f"{f}, which is not an input, changed: " + self.show(self.base.files.get(f)))
            if self.base.out:
                bad.append(f"printed {len(self.base.out)} bytes")
        return bad

    @staticmethod
    def show(x):
        return "is not there" if x is None else f"it has {len(x[0])} bytes {x[0][:60]!r}..., mode {x[1]:o}"

    def fault(self, faults, log=None):
        """one execution with the faults; returns (violations, run)"""
        sc = self.sc
        prepare(self.d, sc.files)
        r = execute(self.exe, self.so, self.d, sc.args, sc.stdin, faults, log, sc.xdev)
        acts = [f.rsplit(":", 1)[1] for f in faults.split(",")]
        targets = [f.split(":")[:2] for f in faults.split(",")]
        killed = r.rc == -9 and any(a[0] in "kta" for a in acts)
        bad = []
        if r.hung:
            return ["hangs"], r
        if r.rc < 0 and not killed:
            bad.append(f"died of signal {-r.rc}")
        epipe = any((t[1] == "out" or sc.pager) and a == f"e{errno.EPIPE}" for t, a in zip(targets, acts))
        benign = all(a[0] == "s" for a in acts) and not sc.fails
        if sc.fails and r.rc == 0:
            bad.append("must be reported as an error, but the exit status is 0")
        if benign and r.rc != 0:
            bad.append(f"a short read or write is no error, but the exit status is {r.rc}: {r.err[:200]!r}")
        if r.rc not in (0, None) and not killed and not r.err:
            bad.append(f"exit status {r.rc} with no message")
        if sc.edited:
            for f in sc.edited:
                got = r.files.get(f)
                allowed = [self.new[f]] if r.rc == 0 else [self.old[f], self.new[f]]
                if got not in allowed:
                    bad.append(f"{f} is neither what it was nor what it should be (exit status {r.rc}): " + self.show(got) if r.rc else f"exit status 0, but {f}: " + self.show(got))
            for f in self.old:
                if f not in sc.edited and r.files.get(f) != self.old[f]:
                    bad.append(f"{f}, which is not an input, changed: " + self.show(r.files.get(f)))
            extra = sorted(set(r.files) - set(self.old))
            cleanup = any(t[0] == "unlink" for t in targets)
            if extra and not killed and not cleanup:
                bad.append(f"left {extra} behind (exit status {r.rc})")
            if killed and not bad and not sc.fails:
                # the next run must not be disturbed by what the killed one left
                before = {f: r.files[f] for f in sc.edited}
                again = execute(self.exe, None, self.d, sc.args, sc.stdin)
                for f in sc.edited:
                    with tempfile.TemporaryDirectory(dir=os.path.dirname(self.d)) as t:
                        prepare(t, dict(sc.files, **{f: before[f]}))
                        want = execute(self.exe, None, t, sc.plain + [f], sc.stdin).out
                    if again.rc != 0 or again.files.get(f, (None,))[0] != want:
                        bad.append(f"run again after the kill: exit status {again.rc}, {f}: " + self.show(again.files.get(f)))
        elif r.rc == 0:
            if not epipe:
                if r.out != self.base.out:
                    bad.append(f"exit status 0, but the output is wrong: {len(r.out)} bytes for {len(self.base.out)}")
                for f in sorted(set(self.base.files) | set(r.files)):
                    if r.files.get(f) != self.base.files.get(f):
                        bad.append(f"exit status 0, but {f}: " + self.show(r.files.get(f)) + " for " + self.show(self.base.files.get(f)))
            elif not self.base.out.startswith(r.out):
                bad.append("the output is not a prefix of the right one")
        elif not sc.piped:
            if not self.base.out.startswith(r.out):
                bad.append("the output before the error is not a prefix of the right one")
            for f in self.old:
                if f not in sc.outs and r.files.get(f) != self.old[f]:
                    bad.append(f"{f} changed: " + self.show(r.files.get(f)))
        return bad, r


def work(job):
    exe, so, sc, thorough, kills, tag, base = job
    d = tempfile.mkdtemp(prefix="w", dir=base)
    n, states, viol, sample = 0, set(), [], []

    def report(faults, bad, r):
        for w in bad:
            viol.append({"scenario": sc.name, "build": tag, "args": sc.args, "faults": faults, "why": w,
                         "files": {k: (v[0] if isinstance(v, tuple) else v).hex()[:200] for k, v in sc.files.items()}, "stderr": r.err.decode("utf-8", "replace")[:300]})
    try:
        j = Judge(exe, so, sc, d)
        bad = j.start()
        n += 1
        report("", bad, j.base)
        seen = set()
        for ev in j.base.events if not bad else []:
            for a in actions(ev, kills, sc.pager):
                f = f"{ev[0]}:{ev[1]}:{ev[2]}:{a}"
                b, r = j.fault(f, log=d + ".log")
                n += 1
                states.add((r.rc, hash(r.out), hash(tuple(sorted(r.files.items())))))
                report(f, b, r)
                if len(sample) < 2:
                    sample.append(f"{sc.name}: nd {' '.join(sc.args)} with {f}: exit status {r.rc}")
                if len(viol) >= 3:
                    raise StopIteration
                if thorough and not b and a[0] in "es" and r.rc is not None:
                    i = next((i for i, e in enumerate(r.events) if e[:3] == ev[:3]), None)
                    for ev2 in r.events[i + 1:] if i is not None else []:
                        for a2 in actions(ev2, kills, sc.pager):
                            f2 = f + f",{ev2[0]}:{ev2[1]}:{ev2[2]}:{a2}"
                            if f2 in seen:
                                continue
                            seen.add(f2)
                            b, r2 = j.fault(f2)
                            n += 1
                            states.add((r2.rc, hash(r2.out), hash(tuple(sorted(r2.files.items())))))
                            report(f2, b, r2)
                            if len(viol) >= 3:
                                raise StopIteration
    except StopIteration:
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for s in (".stdin", ".log"):
            if os.path.exists(d + s):
                os.unlink(d + s)
    return n, len(states), viol, sample, len(j.base.events)


PATCH = b"000000000003 0002 | aa bb cc \n000000000005 0001 | \n"
GUIDE = b"000000000001 0004 | \n000000000004 0003 | \n"


def inplace(b, thorough):
    sizes = [0, 1, b - 1, b, b + 1, 2 * b + b // 2 + 3]
    bystanders = {"a.tmp": b"precious", "zz": pat(9), ".tmp": b"x"}
    for n in sizes:
        opts = [("identity", ["-f", "b"]), ("cut", ["-f", "b", "-n", "1..s+40"]), ("dump", ["-f", "x"]), ("pad", ["-f", "b", "-a", "3,5"])]
        if n > 8:
            opts += [("patch", ["-f", "b", "-p", "zp"]), ("guide", ["-f", "b", "-g", "zg"])]
        for name, o in opts:
            files = dict(bystanders, a=(pat(n), 0o640), zp=PATCH, zg=GUIDE)
            yield Sc(f"{name} on {n} bytes", o, files, edited=["a"])
    for n, m in [(0, 3), (b + 1, 2), (2 * b, b + 7)]:
        yield Sc(f"two files of {n} and {m} bytes", ["-f", "b", "-n", "1.."], dict(bystanders, a=(pat(n), 0o755), b=(pat(m, 1), 0o600)), edited=["a", "b"])
        yield Sc(f"a file and the one named like it with .tmp, {n} and {m} bytes", ["-f", "b", "-n", "1.."],
                 {"a": pat(n), "a.tmp": pat(m, 1), "zz": b"z"}, edited=["a", "a.tmp"])
        yield Sc(f"a file named twice, {n} bytes", ["-f", "b", "-a", "1,0"], dict(bystanders, a=pat(m), b=(pat(n, 1), 0o444)), edited=["a", "b"], inputs=["b", "a", "b"])


    for n in [5, b + 1]:
        o = ["-f", "b", "-n", "1.."]
        yield Sc(f"a file in a directory, {n} bytes", o, dict(bystanders, **{"d/a": (pat(n), 0o600), "d/b": b"q"}), edited=["d/a"])
        yield Sc(f"files in directories on file systems of their own, {n} bytes", o, {"d/a": (pat(n), 0o600), "d/b": b"q", "d/e/c": pat(7, 1), "zz": pat(3)},
                 edited=["d/a", "d/e/c", "zz"], xdev=True)
        yield Sc(f"a file that isn't there, {n} bytes", o, dict(bystanders, a=pat(n)), edited=["a"], inputs=["a", "none"], fails=True)
        yield Sc(f"a file that isn't there comes first, {n} bytes", o, dict(bystanders, b=pat(n)), edited=["b"], inputs=["a", "b"], fails=True)
        yield Sc(f"a directory, {n} bytes", o, dict(bystanders, **{"a": pat(n), "d/b": b"q"}), edited=["a"], inputs=["a", "d"], fails=True)
        yield Sc(f"a broken patch, {n} bytes", ["-f", "b", "-p", "zp"], dict(bystanders, a=pat(n), zp=b"zz\n"), edited=["a"], fails=True)
        yield Sc(f"stdin among the files, {n} bytes", o, dict(bystanders, a=pat(n)), edited=["a"], inputs=["a", "-"], fails=True)
        # the patch is read again for each of the files, and stdin can't be
        yield Sc(f"two files patched by stdin, {n} bytes", ["-f", "b", "-p", "-"], dict(bystanders, a=pat(n), b=pat(n, 1)), stdin=b"000001 02 | 41\n", edited=["a", "b"], fails=True)
        yield Sc(f"a file, named twice, patched by stdin, {n} bytes", ["-f", "b", "-p", "-"], dict(bystanders, a=pat(n)), stdin=b"000001 02 | 41\n", edited=["a"], inputs=["a", "a"])


def inplace_piped(b, thorough):
    for n in [1, b + 1]:
        yield Sc(f"patch-back on {n} bytes", ["-f", "x", "-P", "cat"], {"a": (pat(n), 0o640), "zz": b"z"}, edited=["a"], piped=True)
        yield Sc(f"patch-back that drops all, {n} bytes", ["-f", "x", "-w", "4", "-P", "cat > /dev/null"], {"a": pat(n), "zz": b"z"}, edited=["a"], piped=True)


def streams(b, thorough):
    def text(n):
        return b"".join(b"%012x 0010 | %s \n" % (i * 16, b" ".join(b"%02x" % ((i + k) & 255) for k in range(16))) for i in range(n))
    for n in [0, 1, b, 2 * b + 5]:
        yield Sc(f"dump {n} bytes", ["a"], {"a": pat(n)})
        yield Sc(f"copy {n} bytes", ["-f", "b", "a"], {"a": pat(n)})
        yield Sc(f"copy {n} bytes of stdin", ["-f", "b"], {}, stdin=pat(n))
        yield Sc(f"copy {n} bytes without newlines", ["-f", "b", "a"], {"a": b"x" * n})
        yield Sc(f"cut {n} bytes", ["-f", "b", "-n", "2..s+5,e-4..", "a"], {"a": pat(n)})
        yield Sc(f"lines {n} bytes", ["-l", "1..3,e-1..e", "a"], {"a": pat(n)})
        yield Sc(f"two files, {n} bytes", ["-c", "4", "a", "b"], {"a": pat(n), "b": pat(b + 3, 1)})
        yield Sc(f"stdin and a file zipped, {n} bytes", ["-z", "1", "-", "b"], {"b": pat(n, 1)}, stdin=pat(n))
        yield Sc(f"parse text of {n} bytes", ["-F", "x", "-f", "b", "a"], {"a": text(n // 66)})
        yield Sc(f"to a file, {n} bytes", ["-w", str(b // 2), "-o", "o", "a"], {"a": pat(n), "o": b"old"}, outs=["o"])
        yield Sc(f"to files, {n} bytes", ["-w", str(b // 2 + 1), "-o", "o{l}", "a"], {"a": pat(n), "o1": b"old"}, outs=["o%d" % i for i in range(9)])
        if n > 8:
            yield Sc(f"patched by a file, {n} bytes", ["-f", "b", "-p", "p", "a"], {"a": pat(n), "p": PATCH})
            yield Sc(f"patched by stdin, {n} bytes", ["-f", "b", "-p", "-", "a"], {"a": pat(n)}, stdin=PATCH)
            yield Sc(f"guided, {n} bytes", ["-g", "g", "a"], {"a": pat(n), "g": GUIDE})
            yield Sc(f"guided by stdin, {n} bytes", ["-g", "-", "a"], {"a": pat(n)}, stdin=GUIDE)
        yield Sc(f"paged, {n} bytes", ["--pager", "cat", "-f", "b", "a"], {"a": pat(n)}, piped=True, pager=True)


def refused(b, thorough):
    d = pat(b + 3)
    f = {"a": d, "b": d[:9], "p": PATCH}
    for name, args in [
        ("stdin twice", ["-", "-"]), ("stdin twice, by name", ["-", "/dev/stdin"]), ("stdin as input and patch", ["-p", "-", "-"]),
        ("stdin as guide and patch", ["-g", "-", "-p", "-", "a"]), ("stdin as input and guide", ["-g", "/dev/stdin", "-"]),
        ("stdin as patch and the input when none is named", ["-p", "-"]), ("stdin as guide and the input when none is named", ["-g", "-"]),
        ("stdin, by name, as patch and the input when none is named", ["-p", "/dev/stdin", "-f", "b"]),
        ("a file that isn't there", ["none"]), ("a file that isn't there comes second", ["a", "none"]), ("a directory", ["."]),
        ("a patch that isn't there", ["-p", "none", "a"]), ("a guide that isn't there", ["-g", "none", "a"]), ("a broken patch", ["-p", "a", "a"]),
        ("output into a directory that isn't there", ["-o", "no/o", "a"]), ("outputs into a directory that isn't there", ["-o", "no/o{n}", "a"]),
        ("an unknown option", ["--nonsense", "a"]), ("two ways to combine", ["-c", "1", "-z", "1", "a", "b"]), ("two slicers", ["-w", "4", "-r", "1..2", "a"]),
        ("two drains", ["-o", "o", "-P", "cat", "a"]), ("in place and zipped", ["-i", "-z", "1", "a"]), ("an unparsable text", ["-F", "x", "a"]),
        ("an unparsable pager", ["--pager", "nonexistent-pager", "a"]),
    ]:
        yield Sc(name, args, f, stdin=b"xyz", fails=True, outs=["o"])


    # two places that read standard input, whatever it holds: the one that comes second would find nothing left
    names = ["-", "/dev/stdin"]
    uses = [(f"as the {'input' if not o else 'patch' if o == '-p' else 'guide'} {n}", [o, n] if o else [n]) for o in ["-p", "-g", ""] for n in names]
    pairs = [(x, y) for x in uses for y in uses if x[1][0] != y[1][0] or (x[1][0] in names and y[1][0] in names)]
    pairs += [(x, ("as the input when none is named", [])) for x in uses[:4]]
    for (x, xs), (y, ys) in pairs:
        need = [] if not xs[1:] or not ys or not ys[1:] else ["a"]
        for what, text in [("nothing", b""), ("a patch", PATCH), ("a guide", GUIDE), ("a few bytes", b"xyz")]:
            for more in [[], ["-w", "8"], ["-f", "b", "-o", "o"]]:
                yield Sc(f"{what} on stdin, {x} and {y}, {more}", more + xs + ys + need, f, stdin=text, fails=True, outs=["o"])


def streams_piped(b, thorough):
    for n in [0, 1, b + 5]:
        yield Sc(f"patch-back, {n} bytes", ["-w", "64", "-P", "cat", "a"], {"a": pat(n)}, piped=True)
        yield Sc(f"patch-back that leaves its input, {n} bytes", ["-w", "64", "-P", "true", "a"], {"a": pat(n)}, piped=True)


def run(pid, p, tier, scratch, t0):
    thorough = tier == "thorough"
    so = build_shim(scratch)
    cpus = C.cpus()
    builds = [(cpus[0], 256)] + ([(cpus[-1], 1024)] if thorough else [])
    jobs, cov = [], {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "exhaustive": True, "rule": p["rule"], "jobs": {}}
    p = dict(p)
    for cpu, b in builds:
        try:
            exe = C.build(scratch, cpu, b, root="nd.rs", libc=True)
        except C.BuildError:
            exe = C.build(scratch, cpu, b, root="nd_ext.rs", libc=True)
        for fam in p["families"]:
            for sc in globals()[fam](b, thorough):
                jobs.append((exe, so, sc, not sc.piped, fam.startswith("inplace"), f"{cpu}-{b}", scratch))
    viol, calls = [], 0
    with multiprocessing.Pool(8) as pool:
        for n, states, v, sample, ncalls in pool.imap_unordered(work, jobs):
            cov["evaluations"] += n
            cov["distinct_nontrivial"] += states
            calls += ncalls
            viol += v
            if len(cov["samples"]) < 8:
                cov["samples"] += sample
    cov["scenarios"] = len(jobs)
    cov["system_calls"] = calls
    cov["builds"] = [f"{c} with {b}-byte blocks" for c, b in builds]
    if viol:
        cov["exhaustive"] = False
    viol.sort(key=lambda v: (v["scenario"], v["faults"]))
    return cov, viol
