"""Numbers around 2^31 .. 2^64 and beyond, in every spelling, at every place where nd takes one.
What must come out is computed here with unbounded integers: nd gives exactly that or refuses the number, in builds that check
their arithmetic and in builds that do not (as released)."""
import itertools
import multiprocessing
import os
import resource
import shutil
import subprocess
import tempfile
from . import common as C
from .large import Stream, dump, clip

T = b"abcdefgh"
N = len(T)
SURE = 1 << 59  # numbers below this are not to be refused
TIMEOUT = 20
CAP = 1 << 20


class Site:
    def __init__(self, name, args, want, sure=SURE, files=None):
        self.name, self.args, self.want, self.sure, self.files = name, args, want, sure, files or {}


def spellings(thorough):
    """[(text, value)]"""
    out = {}
    ks = range(29, 67) if thorough else (31, 32, 33, 53, 59, 60, 61, 62, 63, 64, 65)
    ds = (-3, -2, -1, 0, 1, 2, 5, 4096) if thorough else (-1, 0, 5)
    for k in ks:
        for d in ds:
            v = (1 << k) + d
            out[str(v)] = v
            if d in (-1, 0, 5):
                out[hex(v)] = v
    for v in (10 ** 18, 10 ** 19, 10 ** 20, 10 ** 31, 10 ** 32, 10 ** 40, (1 << 127) + 4, (1 << 128) + 4, (1 << 256) + 4):
        out[str(v)] = v
        out[hex(v)] = v
    # 2^64 + 4, the like of which wraps to 4
    v = (1 << 64) + 4
    out.update({"0b" + bin(v)[2:]: v, "0o" + oct(v)[2:]: v, "1_8446744073709551620": v, "0x1_0000_0000_0000_0004": v, "0X10000000000000004": v})
    for i, p in enumerate("kmgt", 1):
        for q, b in (("", 1000), ("i", 1024)):
            u = b ** i
            for e in (31, 32, 62, 63, 64):
                m = (1 << e) // u
                for d in (0, 1) if not thorough else (-1, 0, 1, 2):
                    if (m + d) * u >= 1 << 29:
                        out[f"{m + d}{p}{q}"] = (m + d) * u
                        out[f"{m + d}{p.upper()}{q}"] = (m + d) * u
    for m in (1, 2, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 31, 32, 33):
        out[f"{m}e"] = m * 10 ** 18
        out[f"{m}Ei"] = m << 60
    for z in (20, 31, 32, 33, 64, 80):
        out["0x" + "0" * z + "100000004"] = (1 << 32) + 4
    return sorted(out.items())


def ends(v):
    """[(text of S..E with @, S, E)]: from the head and the tail of [a, b)"""
    s = lambda d: lambda a, b: a + d
    e = lambda d: lambda a, b: b + d
    return [("@..", s(v), e(0)), ("..@", s(0), s(v)), ("e-@..e", e(-v), e(0)), ("2..e-@", s(2), e(-v)), ("s-@..e", s(-v), e(0)), ("1..e+@", s(1), e(v)),
            ("s-@..s+3", s(-v), s(3)), ("e-@..e-1", e(-v), e(-1)), ("@..@+4", s(v), s(v + 4)), ("e+@..", e(v), e(0)), ("..s-@", s(0), s(-v)),
            ("s-@..s+@", s(-v), s(v)), ("e-@..e+@", e(-v), e(v)), ("s+@-@..s+3", s(0), s(3)), ("e-(@-2)..e", e(2 - v), e(0)), ("e-@+@..e+1", e(0), e(1)),
            ("1+(@&1)..3", s(1 + (v & 1)), s(3)), ("s..s+(@%7)", s(0), s(v % 7)), ("0-@..2", s(-v), s(2)), ("s+3-@..e-@+4", s(3 - v), e(4 - v))]


def union(n, rs):
    k = sorted({i for a, b in clip(n, rs) for i in range(a, b)})
    return k


def sites(text, v):
    S = Stream([(N, T)])
    A = lambda *a: [x.replace("@", text) for x in a]
    rows = lambda s: dump(s, [(a, min(a + 16, s.n)) for a in range(0, s.n, 16)], cols=16)
    for t, f, g in ends(v):
        r = (f(0, N), g(0, N))
        # the expression alone may overflow: sums of two such numbers
        sure = SURE if t.count("@") < 2 else SURE // 4
        yield Site("--cut", A("-n", t, "t"), rows(S.cut(clip(N, [r])) if clip(N, [r]) else Stream([])), sure)
        yield Site("--cut, two ranges", A("-n", "0..1," + t, "t"), (lambda k: rows(Stream([(len(k), bytes(T[i] for i in k))])))(union(N, [(0, 1), r])), sure)
        yield Site("--slice", A("-r", t, "t"), dump(S, clip(N, [r])), sure)
        yield Site("--slice, two ranges", A("-r", t + ",3..5", "t"), dump(S, sorted(set(clip(N, [r, (3, 5)])))), sure)
        k = union(4, [(f(0, 4), g(0, 4))])
        yield Site("--lines", A("-w", "2", "-l", t, "t"), dump(S, [(2 * i, 2 * i + 2) for i in k], cols=2), sure)
        k = union(4, [(f(0, 4), g(0, 4)), (1, 2)])
        yield Site("--lines, two ranges", A("-w", "2", "-l", "1..2," + t, "t"), dump(S, [(2 * i, 2 * i + 2) for i in k], cols=2), sure)
        yield Site("--extend", A("-r", "2..4", "-x", t, "t"), dump(S, clip(N, [(f(2, 4), g(2, 4))])), sure)
        yield Site("--extend, two maps", A("-r", "2..4,3..7", "-x", t + ",s..e", "t"), dump(S, sorted(clip(N, [(2, 4), (3, 7), (f(2, 4), g(2, 4)), (f(3, 7), g(3, 7))]))), sure)
        yield Site("--invert", A("-r", "2..4", "-v", t, "t"), dump(S, sorted(clip(N, [(f(0, 2), g(0, 2)), (f(4, 8), g(4, 8))]))), sure)
        a, b = f(0, 4), g(0, 4)
        # a pitch whose slices are all empty is refused
        w = clip(N, [(a, b), (4 + a, 4 + b)])
        yield Site("--width with S..E", A("-f", "b", "-w", "4," + t, "t"), b"".join(T[i:j] for i, j in w) if a < b else None, sure)
        a, b = f(0, v), g(0, v)
        w = clip(N, [(a, b)])
        yield Site("--width of N", A("-f", "b", "-w", "@," + t, "t"), b"".join(T[i:j] for i, j in w) if a < b else None, sure)
    yield Site("--width", A("-f", "b", "-w", "@", "t"), T)
    yield Site("--width", A("-f", "b", "-w", "@,s..s+3", "t"), T[:3])
    yield Site("--width", A("-f", "b", "-w", "@,e-@..s+3", "t"), T[:3], SURE // 4)
    yield Site("--merge", A("-r", "2..4,5..6", "-m", "@", "t"), dump(S, [(2, 6)]))
    yield Site("--merge", A("-r", "0..1,7..8", "-x", "s..e", "-m", "@", "t"), dump(S, [(0, 8)]))
    yield Site("--walk", A("-f", "b", "-k", "@", "t"), T)
    yield Site("--walk, sequence", A("-f", "x", "-k", "3,@,@,@", "t"), dump(S, [(0, 3), (3, 8)], cols=16))
    yield Site("--walk, sequence", A("-f", "x", "-k", "@,@,3", "t"), dump(S, [(0, 8)], cols=16))
    for x in "bhil":
        yield Site("--walk, index", A("-f", "x", "-k", x + "[@]+3", "t"), dump(S, [(0, 3), (3, 6), (6, 8)], cols=16))
        yield Site("--walk, index", A("-f", "x", "-k", x + "[@-1]+3", "t"), dump(S, [(0, 3), (3, 6), (6, 8)], cols=16))
        yield Site("--walk, index from the stream", A("-f", "x", "-k", x + "[b[0]+@]+3", "t"), dump(S, [(0, 3), (3, 6), (6, 8)], cols=16), SURE)
    yield Site("--walk, expression", A("-f", "x", "-k", "(@)%5+1", "t"), dump(S, [(i, min(i + v % 5 + 1, N)) for i in range(0, N, v % 5 + 1)], cols=16))
    yield Site("--walk, expression", A("-f", "x", "-k", "b[0]*@", "t"), dump(S, [(0, 8)], cols=16), SURE >> 7)
    yield Site("--walk, negative", A("-k", "3-@", "t"), None)
    yield Site("--walk, negative", A("-k", "b[-@]+3", "t"), None)
    z = lambda n: Stream([(n, ("fill", 0))])
    for args, q, w in ((("@,0", "0..4"), z(v).cat(S), (0, 4)), (("0,@", "6..12"), S.cat(z(v)), (6, 12)), (("@,@", "6..12"), z(v).cat(S).cat(z(v)), (6, 12)),
                       (("@", "1..3"), z(v).cat(S), (1, 3)), (("2,@", "6..12"), z(2).cat(S).cat(z(v)), (6, 12))):
        yield Site("--pad", A("-a", args[0], "-r", args[1], "t"), dump(q, [w]))
    yield Site("--filler", A("--filler", "@", "-a", "1,0", "t"), None)
    for opt, q in (("-c", S.cat(z(v - N))), ("-z", S.cat(z(v - N)))):
        yield Site({"-c": "--cat", "-z": "--zip"}[opt], A(opt, "@", "-r", "6..12", "t", "u"), dump(q, [(6, 12)]), 0)
    for e, fn in (("n+@", lambda n: n + v), ("@-n", lambda n: v - n), ("-@-n", lambda n: -v - n), ("n*@", lambda n: n * v), ("n&@", lambda n: n & v), ("(n+@)%10", lambda n: (n + v) % 10),
                  ("@/3+l", lambda n: v // 3 + n - 2)):
        yield Site("--output", A("-r", "2..4,3..5", "-f", "b", "-o", "o{(" + e + ")}", "t"), b"", SURE >> 3,
                   {f"o{fn(2)}": T[2:4], f"o{fn(3)}": T[3:5]} if fn(2) != fn(3) else {f"o{fn(2)}": T[2:4] + T[3:5]})
    for e, x in (("@-@+4", 4), ("4+0*(@)", 4), ("(@)%5+1", v % 5 + 1), ("(@)/(@)+2", 3), ("@&7|4", v & 7 | 4), ("1+(@>0)", 2), ("(@-1<@)+1", 2), ("0-@+@+3", 3)):
        yield Site("an expression", A("-w", e, "t"), dump(S, [(i, min(i + x, N)) for i in range(0, N, x)], cols=x), SURE // 4)
    for o, s in ((v, 3), (3, v), (v, v)):
        h = f"{o:x} {s:x} | \n"
        w = clip(N, [(o, o + s)])
        yield Site("--guide", ["-g", "g", "t"], dump(S, w), 1 << 56, {"<g": h.encode()})


STOP = multiprocessing.Event()


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24))


def work(job):
    if STOP.is_set():
        return None, None
    exe, tag, scratch, text, v, name, args, want, sure, files = job
    d = tempfile.mkdtemp(prefix="h", dir=scratch)
    bad = None
    try:
        with open(os.path.join(d, "t"), "wb") as f:
            f.write(T)
        with open(os.path.join(d, "u"), "wb") as f:
            f.write(b"ABC")
        for k, b in files.items():
            if k[0] == "<":
                with open(os.path.join(d, k[1:]), "wb") as f:
                    f.write(b)
        outs = {k: b for k, b in files.items() if k[0] != "<"}
        given = {"t", "u"} | {k[1:] for k in files if k[0] == "<"}
        with open(os.path.join(d, ".out"), "wb") as o, open(os.path.join(d, ".err"), "wb") as e:
            p = subprocess.Popen([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=o, stderr=e, process_group=0,
                                 env={"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d, "LC_ALL": "C", "RUST_BACKTRACE": "0"})
            try:
                rc = p.wait(TIMEOUT)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = "hangs"
        with open(os.path.join(d, ".out"), "rb") as f:
            out = f.read(CAP)
        with open(os.path.join(d, ".err"), "rb") as f:
            err = f.read(400)
        left = {}
        for k in os.listdir(d):
            if k not in given and k[0] != ".":
                with open(os.path.join(d, k), "rb") as f:
                    left[k] = f.read(CAP)
        if rc == "hangs":
            bad = "doesn't end"
        elif rc == 0:
            if want is None:
                bad = f"is taken (prints {out[:60]!r}), it must be refused"
            elif out != want:
                bad = f"prints {out[:120]!r} for {want[:120]!r}"
            elif left != outs:
                bad = f"leaves {left} for {outs}"
        elif rc < 0 and rc != -6:
            bad = f"is killed by signal {-rc}"
        elif not err.strip():
            bad = f"exits with {rc} and no message"
        elif want is not None and not want.startswith(out) or want is None and out:
            bad = f"exits with {rc} after {out[:120]!r}"
        elif any(not outs.get(k, b"").startswith(b) for k, b in left.items()):
            bad = f"exits with {rc} and leaves {left}"
        elif want is not None and v < sure:
            bad = f"is refused: {err[-200:]!r}"
        outcome = (name, rc, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return outcome, bad and {"scenario": f"{name} of {text}", "build": tag, "args": args, "why": bad}


def run(pid, p, tier, scratch, t0):
    thorough = tier == "thorough"
    cpus = C.cpus()
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "exhaustive": True, "rule": p["rule"], "jobs": {}, "builds": []}
    seen, viol, jobs = set(), [], []
    for cpu in cpus if thorough else cpus[-1:]:
        for release in (False, True):
            tag = f"{cpu}, {'as released: no checks of arithmetic' if release else 'with checks of arithmetic'}"
            exe = C.build_plain(scratch, cpu, opt=1, release=release)
            cov["builds"].append(tag)
            for text, v in spellings(thorough):
                for s in sites(text, v):
                    # many zeros ahead may be refused as well
                    jobs.append((exe, tag, scratch, text, v, s.name, s.args, s.want, s.sure if len(text) < 30 else 0, s.files))
    with multiprocessing.Pool(16, limits) as pool:
        for (o, b), j in zip(pool.imap(work, jobs, chunksize=16), jobs):
            if o is None:
                continue
            k = cov["jobs"].setdefault(j[5], {"runs": 0})
            k["runs"] += 1
            cov["evaluations"] += 1
            seen.add(o)
            if k["runs"] <= 1:
                cov["samples"].append(f"nd {' '.join(j[6])}: {o[1]} {o[2][:60]!r}")
            if b:
                k["violations"] = k.get("violations", 0) + 1
                if k["violations"] <= 3 or o[1] == "hangs":
                    viol.append(b)
                if len(viol) >= 20:
                    STOP.set()
    cov["distinct_nontrivial"] = len(seen)
    cov["spellings"] = len(spellings(thorough))
    if viol:
        cov["exhaustive"] = False
    return cov, viol
