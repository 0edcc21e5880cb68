"""Positions, lengths and counts around 2^16, 2^24, 2^31 and 2^32 (and 2^33), on files with holes, with nd as it is shipped.
What must come out is computed here, on a stream that is a list of pieces and of which only the windows that are shown get spelt out."""
import hashlib, itertools, multiprocessing, os, shutil, subprocess, tempfile, threading
from lib import common as C

TIMEOUT = 300
CAP = 64 << 20
EDGES = [1 << 16, 1 << 24, 1 << 31, 1 << 32]


# ---------------------------------------------------------------- streams
def island(i, k):
    return ((i * 7 + (i >> 7) + k.bit_length() * 3) & 0x7f) | 1


class Stream:
    """pieces: (length, fill byte | bytes | (position of a byte in the file with holes))"""

    def __init__(self, pieces):
        self.pieces = [p for p in pieces if p[0] > 0]
        self.n = sum(p[0] for p in self.pieces)

    def get(self, a, b):
        a, b = max(a, 0), min(b, self.n)
        assert b - a < 1 << 22, "a window too large to spell out"
        out, at = [], 0
        for n, v in self.pieces:
            x, y = max(a, at), min(b, at + n)
            if x < y:
                if isinstance(v, bytes):
                    out.append(v[x - at:y - at])
                elif v[0] == "fill":
                    out.append(bytes([v[1]]) * (y - x))
                else:
                    out.append(v[1].raw(x - at + v[2], y - at + v[2]))
            at += n
        return b"".join(out)

    def sub(self, a, b):
        a, b = max(a, 0), min(b, self.n)
        out, at = [], 0
        for n, v in self.pieces:
            x, y = max(a, at), min(b, at + n)
            if x < y:
                if isinstance(v, bytes):
                    out.append((y - x, v[x - at:y - at]))
                elif v[0] == "fill":
                    out.append((y - x, v))
                else:
                    out.append((y - x, ("file", v[1], x - at + v[2])))
            at += n
        return out

    def cut(self, rs):
        out, pos = [], 0
        for a, b in sorted(rs):
            a = max(a, pos)
            if a < b:
                out += self.sub(a, b)
                pos = b
        return Stream(out)

    def patch(self, recs):
        out, pos = [], 0
        for o, s, body in recs:
            out += self.sub(pos, o) + [(len(body), body)]
            pos = o + s
        return Stream(out + self.sub(pos, self.n))

    def cat(self, other):
        return Stream(self.pieces + other.pieces)

    def round_up(self, n):
        return Stream(self.pieces + [(-self.n % n, ("fill", 0))])


class Holes:
    """a file of n bytes with an island of data around every edge, and zeros elsewhere"""

    def __init__(self, n, edges=EDGES):
        self.n, self.edges = n, [0] + [e for e in edges if e - 64 < n]

    def raw(self, a, b):
        out = bytearray(b - a)
        for k in self.edges:
            for i in range(max(a, k - 64, 0), min(b, k + 64, self.n)):
                out[i - a] = island(i, k)
        return bytes(out)

    def stream(self):
        return Stream([(self.n, ("file", self, 0))])

    def write(self, path):
        with open(path, "wb") as f:
            f.truncate(self.n)
            for k in self.edges:
                a, b = max(k - 64, 0), min(k + 64, self.n)
                if a < b:
                    f.seek(a)
                    f.write(self.raw(a, b))


# ---------------------------------------------------------------- what must come out
def hexlen(n):
    s = f"{n:04x}"
    return "0" * (len(s) % 2) + s


def dump(s, segs, fmt="x", cols=0):
    out = []
    for a, b in segs:
        x = s.get(a, b)
        if fmt == "b":
            out.append(x)
            continue
        w = max(cols, len(x))
        h = " ".join(f"{c:02x}" for c in x) + " " if x else ""
        t = "".join(chr(c) if 0x20 <= c < 0x7f else "." for c in x)
        out.append(f"{a:012x} {hexlen(b - a)} | {h}{'   ' * (w - len(x))}| {t}{' ' * (w - len(x))}\n".encode())
    return b"".join(out)


def clip(n, rs):
    return [(max(a, 0), min(b, n)) for a, b in rs if max(a, 0) < min(b, n)]


class Case:
    def __init__(self, family, edge, args, out, files=(), heavy=False, outs=None, how="text"):
        self.family, self.edge, self.args, self.out, self.files, self.heavy, self.outs, self.how = family, edge, args, out, dict(files), heavy, outs or {}, how


def rec(o, s, body):
    return f"{o:012x} {s:04x} | {' '.join(f'{c:02x}' for c in body)}\n"


def cases(thorough):
    D = [-2, -1, 0, 1, 2] if thorough else [-1, 0, 1]
    edges = EDGES + ([1 << 33] if thorough else [])
    for K in edges:
        H = Holes(K + 300, edges)
        S = H.stream()
        f = {"a": H}
        r = lambda a, b: f"{a}..{b}"

        # ---- cut, slice, guide: both ends around the edge
        for x, y in itertools.product(D, D):
            a, b = K + x, K + 5 + y
            yield Case("cut", K, ["-f", "b", "-n", r(a, b), "a"], S.get(a, b), f)
            yield Case("cut two", K, ["-f", "b", "-n", f"3..9,{r(a, a + 2)},{r(b, b + 90)}", "a"], S.get(3, 9) + S.cut([(a, a + 2), (b, b + 90)]).get(0, 1 << 20), f)
            yield Case("cut and pad", K, ["-n", f"{b}..", "-a", f"{a},{K}", "-r", f"{r(a - 9, a + 9)},{r(2 * K + 200, 2 * K + 400)}", "a"],
                       (lambda s: dump(s, clip(s.n, [(a - 9, a + 9), (2 * K + 200, 2 * K + 400)])))(Stream([(a, ("fill", 0))]).cat(S.cut([(b, S.n)])).cat(Stream([(K, ("fill", 0))]))), f)
            segs = sorted({(a, b), (K - 9, a), (b, b), (a, b + 3), (1, 4)})
            segs = [s for s in segs if s[0] < s[1]]
            yield Case("slice", K, ["-r", ",".join(r(*s) for s in reversed(segs)), "a"], dump(S, segs), f)
            yield Case("slice, extend", K, ["-r", r(a, b), "-x", "e-1..e+70,s-70..s-60", "a"], dump(S, sorted([(b - 1, b + 70), (a - 70, a - 60)])), f)
            m = max(b - a + 3, 0)
            yield Case("slice, merge", K, ["-r", f"{r(K - 20, a)},{r(b, b + 9)},{r(b + 9 + m, b + 50)}", "-m", str(m), "a"],
                       dump(S, [(K - 20, b + 50)]), f)
            yield Case("pitch, invert", K, ["-w", f"256,s..e-{9 + x}", "-v", f"s..e{y + 2:+d}", "-l", f"{K // 256 - 1}..{K // 256 + 1}", "a"],
                       dump(S, [(q - 9 - x, q + y + 2) for q in (K, K + 256)], cols=247 - x), f)
            g = [(3, 4), (K - 30 + x, 7), (a, b - a), (b, 40)]
            yield Case("guide", K, ["-g", "g", "a"], dump(S, [(o, o + s) for o, s in g]), dict(f, g="".join(rec(o, s, b"") for o, s in g)))
        # ---- patch: places, spans, and what follows
        for x, s in itertools.product(D, [0, 1, 3, 70000]):
            a = K + x
            if a + s > S.n:
                continue
            for body in (b"", b"abcde", bytes(range(256)) * 300 if s == 3 else b"q"):
                p = [(2, 1, b"ZZ"), (a, s, body), (a + s + 2, 1, b"+")]
                q = S.patch(p)
                w = [(a - 9, a + 12), (q.n - 30, q.n)]
                yield Case("patch", K, ["-p", "p", "-r", ",".join(r(*i) for i in w), "a"], dump(q, sorted(w)), dict(f, p="".join(rec(*i) for i in p)))
        # a record that takes the stream up to the edge away, and one that begins there
        for x in D:
            p = [(5, K + x - 5, b"!"), (K + x + 3, 2, b"??")]
            q = S.patch(p)
            yield Case("patch away", K, ["-p", "p", "-r", "0..100", "a"], dump(q, [(0, 100)]), dict(f, p="".join(rec(*i) for i in p)))
            # the text of a stream
            p = [(5, 3, b"abc"), (K + x, 4, b"defg"), (K + x + 9, 2, b"hi")]
            q = Stream([(K + x + 11, ("fill", 0))]).patch(p)
            w = [(0, 20), (K - 9, K + 30)]
            yield Case("text", K, ["-F", "x", "-r", ",".join(r(*i) for i in w), "t"], dump(q, clip(q.n, w)), dict(t="".join(rec(*i) for i in p)))
            # a record of the text stands for a long span
            q = Stream([(2, b"ab"), (5, b"\0" * 5), (3, b"xyz")])
            yield Case("text away", K, ["-F", "x", "t"], dump(q, [(0, q.n)], cols=16), dict(t=rec(0, K + x, b"ab") + rec(K + x + 5, 3, b"xyz")))
            # pads
            T = Stream([(3, b"abc")])
            q = Stream([(K + x, ("fill", 7))]).cat(T).cat(Stream([(5, ("fill", 7))]))
            yield Case("pad before", K, ["-a", f"{K + x},5", "--filler", "7", "-r", f"1..3,{r(K - 8, K + 20)}", "t"], dump(q, clip(q.n, [(1, 3), (K - 8, K + 20)])), dict(t="abc"))
            q = T.cat(Stream([(K + x, ("fill", 7))]))
            yield Case("pad after", K, ["-a", f"0,{K + x}", "--filler", "7", "-r", f"1..9,{r(K - 8, K + 20)}", "t"], dump(q, clip(q.n, [(1, 9), (K - 8, K + 20)])), dict(t="abc"))
            # two files
            A = Holes(K + x, edges)
            B = Holes(200, edges)
            for n in (1, 2, 16, 100):
                q = A.stream().round_up(n).cat(B.stream().round_up(n))
                w = [(K - 20, K + 30), (q.n - 9, q.n + 9)]
                yield Case("concatenate", K, ["-c", str(n), "-r", ",".join(r(*i) for i in w), "a", "b"], dump(q, clip(q.n, w)), dict(a=A, b=B))
                q = B.stream().round_up(n).cat(A.stream().round_up(n))
                w = [(K + 100, K + 330), (q.n - 9, q.n + 9)]
                yield Case("concatenate", K, ["-c", str(n), "-r", ",".join(r(*i) for i in w), "b", "a"], dump(q, sorted(clip(q.n, w))), dict(a=A, b=B))
        # ---- zip
        for n in ((4096, 10000) if K >= 1 << 31 else (1, 2, 3, 4096)):
            A = Holes(K // 2 + 200, edges)
            half = K // 2 // n * n
            a = A.stream().round_up(n)
            m = (64 // n + 1) * n
            lo, hi = half - m, half + m
            z = b"".join(a.get(i, i + n) * 2 for i in range(lo, hi, n))
            base, w = 2 * lo, [(K - 40, K + 40)]
            q = Stream([(base, ("fill", 0)), (len(z), z)])
            yield Case("zip", K, ["-z", str(n), "-r", r(*w[0]), "a", "b"], dump(q, clip(min(q.n, 2 * a.n), w)), dict(a=A, b=A), heavy=K >= 1 << 31)
        # ---- slices of equal pitch
        for W in ((4096, 65535, 65536, 65537, 1 << 20, 1000003) if K >= 1 << 24 else (1, 7, 256, 4096)):
            k = K // W
            for x, y in itertools.product(D, D):
                L0, L1 = max(k - 1, 0), k + 2
                all_ = lambda i: (i * W + x, i * W + 5 + y)
                # a slice out of the stream is none: only the first can be
                first = 0 if all_(0)[1] > 0 and max(all_(0)[0], 0) < all_(0)[1] else 1
                n = (S.n + W - 1) // W
                segs = clip(S.n, [all_(i + first) for i in range(L0, L1) if i + first < n])
                if 5 + y <= x or W == 1:
                    continue
                yield Case("pitch", K, ["-w", f"{W},s{x:+d}..s{5 + y:+d}", "-l", f"{L0}..{L1}", "a"], dump(S, segs, cols=5 + y - x), f)
        if K <= 1 << 24 or thorough and K <= 1 << 31:
            for x in D:
                yield Case("lines", K, ["-w", "1", "-l", f"{K + x}..{K + x + 3}", "a"], dump(S, [(i, i + 1) for i in range(K + x, K + x + 3)], cols=1), f)
                yield Case("lines", K, ["-w", "1", "-l", f"1..3,{K + x}..", "a"], dump(S, [(i, i + 1) for i in [1, 2] + list(range(K + x, S.n))], cols=1), f)
                # the slices of the slices that are left are counted as well
                if K <= 1 << 24:
                    yield Case("lines, extend", K, ["-w", "1", "-x", "s..e+2", "-l", f"{K + x}..{K + x + 3}", "a"], dump(S, [(i, i + 3) for i in range(K + x, K + x + 3)], cols=1), f)
        if K <= 1 << 24:
            # whole slices of such lengths, and their lengths in the text
            for x in D:
                n = K + x
                if n <= 1 << 20:
                    yield Case("a long slice", K, ["-w", str(n), "a"], dump(S, [(0, n), (n, S.n)], cols=n), f)
                    yield Case("a long slice", K, ["-r", f"5..{5 + n}", "a"], dump(S, clip(S.n, [(5, 5 + n)])), f)
                yield Case("a long slice", K, ["-f", "b", "-w", str(n), "-l", "1..2", "a"], S.get(n, S.n), f)
                yield Case("a long slice", K, ["-f", "b", "-r", f"5..{5 + n}", "-x", "e-9..e+9", "a"], S.get(n - 4, n + 14), f)
                yield Case("a long slice, inverted", K, ["-r", f"1..3,{n}..{n + 4}", "-v", "s..s+2,e-5..e", "a"],
                           dump(S, sorted([(0, 1), (0, 2), (3, 5), (n - 5, n), (n + 4, n + 6), (S.n - 5, S.n)])), f)
                yield Case("a long slice, merged", K, ["-r", f"1..3,{n}..{n + 4}", "-m", str(n - 3), "-f", "b", "a"], b"", f, how=("sum", S, 1, n + 4))
                yield Case("a long slice, not merged", K, ["-r", f"1..3,{n}..{n + 4}", "-m", str(n - 4), "a"], dump(S, [(1, 3), (n, n + 4)]), f)
        # ---- find
        for x in D:
            for n in (1, 3, 8, 40):
                p = S.get(K + x - n // 2, K + x - n // 2 + n)
                found = []
                for k in H.edges:
                    w = S.get(max(k - 200, 0), k + 200)
                    i = 0
                    while (i := w.find(p, i)) >= 0:
                        found.append((max(k - 200, 0) + i, max(k - 200, 0) + i + n))
                        i += n
                found = sorted(set(found))
                yield Case("find", K, ["-d", " ".join(f"{c:02x}" for c in p), "a"], dump(S, found), f)
                yield Case("find, extend", K, ["-d", " ".join(f"{c:02x}" for c in p), "-x", "s-2..e+2", "a"], dump(S, clip(S.n, [(a - 2, b + 2) for a, b in found])), f)
        # ---- walk: the steps lead over the edge, and the last depends on what is there
        for step in ((65536, 1 << 20) if K >= 1 << 24 else (16, 256)):
            for e, fn in (("b[{}]", lambda w, i: int.from_bytes(w[i:i + 1], "little", signed=True)), ("h[{}]", lambda w, i: int.from_bytes(w[2 * i:2 * i + 2], "little", signed=True)),
                          ("i[{}]", lambda w, i: int.from_bytes(w[4 * i:4 * i + 4], "little", signed=True))):
                for i in (0, 3):
                    pos, segs = 0, []
                    while pos < S.n:
                        v = fn(S.get(pos, pos + 32).ljust(32, b"\0"), i) if pos + 8 * (i + 1) <= S.n else None
                        if v is None:
                            # at the end, elements that aren't there are zeros
                            w = S.get(pos, S.n)
                            z = {"b": 1, "h": 2, "i": 4}[e[0]]
                            v = fn(w.ljust(64, b"\0"), i) if (i + 1) * z <= len(w) else 0
                        d = (v & 0xff) + step
                        segs.append((pos, min(pos + d, S.n)))
                        pos += d
                    lo = max(len(segs) - 4, 0)
                    segs = segs[lo:]
                    t = e.format(i)
                    yield Case("walk", K, ["-k", f"({t}&0xff)+{step}", "-x", "s..s+6", "-l", f"{lo}..", "a"], dump(S, clip(S.n, [(a, a + 6) for a, b in segs])), f)
        if K <= 1 << 24:
            for bits, t in ((32, "i"), (64, "l")):
                for x in D:
                    head = (K + x).to_bytes(bits // 8, "little")
                    q = Stream([(len(head), head)] + S.sub(len(head), S.n))
                    yield Case("walk by a pointer", K, ["-p", "p", "-k", f"{t}[0]", "-x", "e-4..e", "-l", "0..1", "a"], dump(q, [(K + x - 4, K + x)]), dict(f, p=rec(0, len(head), head)))
        # ---- the numbers in file names
        for x in D:
            a = K + x
            ws = [(a, a + 3), (a + 1, a + 9)]
            yield Case("names", K, ["-r", ",".join(r(*i) for i in ws), "-o", "o{n}_{n:x}_{(n%1000)}_{l}", "-f", "b", "a"], b"", f,
                       outs={f"o{i}_{i:x}_{i % 1000}_{k}": S.get(i, j) for k, (i, j) in enumerate(ws)})
            if K == 1 << 16:
                yield Case("names", K, ["-w", "1", "-o", "o{((l+%d)/%d)}" % (5 - x, K), "-f", "b", "a"], b"", f,
                           outs={"o0": S.get(0, K + x - 5), "o1": S.get(K + x - 5, S.n)})
            # what the command of --patch-back is told
            if K <= 1 << 24:
                yield Case("patch-back", K, ["-r", ",".join(r(*i) for i in ws), "-P", "cat > seen", "a"], b"", f, outs={"seen": dump(S, ws)}, how=("sum", S, 0, S.n))
                p = [(2, 3, b"#"), (a, 2, b"0123"), (a + 9, 0, b"=")]
                q = S.patch(p)
                yield Case("patch-back", K, ["-w", "65536", "-P", "cat > /dev/null; cat p", "a"], b"", dict(f, p="".join(rec(*i) for i in p)), how=("sum", q, 0, q.n))
        # ---- numbers of records
        if K <= 1 << 16:
            for x in D:
                n = K + x
                T = Stream([(3 * n + 7, bytes(i * 5 & 255 for i in range(3 * n + 7)))])
                t = {"t": T.get(0, T.n)}
                p = [(3 * i, i % 3, bytes([i & 255] * (i % 4))) for i in range(n)]
                q, out, pos = T.get(0, T.n), [], 0
                for o, s, body in p:
                    out += [q[pos:o], body]
                    pos = o + s
                out = b"".join(out) + q[pos:]
                yield Case("many records", K, ["-f", "b", "-p", "p", "t"], out, dict(t, p="".join(rec(*i) for i in p)))
                yield Case("many records", K, ["-g", "p", "-f", "b", "t"], b"".join(q[o:o + s] for o, s, _ in p), dict(t, p="".join(rec(*i) for i in p)))
                yield Case("many records", K, ["-g", "p", "-l", f"{n - 3}..{n + 3}", "t"], dump(T, [(o, o + s) for o, s, _ in p][n - 3:]), dict(t, p="".join(rec(*i) for i in p)))
                full, pos = [], 0
                for o, s, body in p:
                    full += [b"\0" * (o - pos), body]
                    pos = o + s
                yield Case("many records", K, ["-F", "x", "-f", "b", "p"], b"".join(full), {"p": "".join(rec(*i) for i in p)})
                yield Case("many slices", K, ["-w", "3", "-P", "cat", "t"], q, t)


# ---------------------------------------------------------------- running
def execute(exe, d, args, cap):
    r = subprocess.Popen([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=open(os.path.join(d, ".err"), "wb"),
                         env={"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d, "LC_ALL": "C", "RUST_BACKTRACE": "0"}, start_new_session=True)
    over = []

    def stop():
        over.append("hangs")
        os.killpg(r.pid, 9)
    t = threading.Timer(TIMEOUT, stop)
    t.start()
    h, keep, n = hashlib.sha256(), b"", 0
    while b := r.stdout.read(1 << 20):
        h.update(b)
        n += len(b)
        if len(keep) < 1 << 16:
            keep += b[: 1 << 16]
        if n > cap:
            over.append(f"prints more than {cap} bytes")
            os.killpg(r.pid, 9)
            break
    r.stdout.close()
    r.wait()
    t.cancel()
    with open(os.path.join(d, ".err"), "rb") as f:
        err = f.read(2000)
    os.unlink(os.path.join(d, ".err"))
    return r.returncode, n, h.hexdigest(), keep, err, (over or [None])[0]


def first_difference(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"at byte {i}: {a[max(i - 20, 0):i + 40]!r} for {b[max(i - 20, 0):i + 40]!r}"


def work(job):
    exe, tag, scratch, c = job
    d = tempfile.mkdtemp(prefix="l", dir=scratch)
    bad = []
    try:
        for n, v in c.files.items():
            p = os.path.join(d, n)
            if isinstance(v, Holes):
                v.write(p)
            else:
                with open(p, "wb") as f:
                    f.write(v.encode() if isinstance(v, str) else v)
        if c.how != "text":
            _, s, a, b = c.how
            h, n = hashlib.sha256(), b - a
            for i in range(a, b, 1 << 20):
                h.update(s.get(i, min(i + (1 << 20), b)))
            want, keep = h.hexdigest(), s.get(a, min(b, a + (1 << 16)))
        else:
            want, keep, n = hashlib.sha256(c.out).hexdigest(), c.out[: 1 << 16], len(c.out)
        rc, m, got, part, err, over = execute(exe, d, c.args, n + CAP)
        if over:
            bad.append(over)
        elif rc != 0:
            bad.append(f"exit status {rc}: {err[:300]!r}")
        elif got != want:
            bad.append(f"printed {m} bytes for {n}; {first_difference(part, keep)}")
        else:
            left = sorted(set(os.listdir(d)) - set(c.files))
            if left != sorted(c.outs):
                bad.append(f"files {left} for {sorted(c.outs)}")
            else:
                for k, v in c.outs.items():
                    with open(os.path.join(d, k), "rb") as f:
                        x = f.read()
                    if x != v:
                        bad.append(f"file {k}: {len(x)} bytes for {len(v)}; {first_difference(x, v)}")
        outcome = (rc, got, tuple(sorted(c.outs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return outcome, [{"scenario": f"{c.family} at {c.edge:#x}", "build": tag, "args": c.args, "why": w} for w in bad]


def run(pid, p, tier, scratch, t0):
    thorough = tier == "thorough"
    cpus = C.cpus()
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "exhaustive": True, "rule": p["rule"], "jobs": {}}
    seen, viol = set(), []
    todo = []
    for cpu in cpus if thorough else cpus[-1:]:
        exe = C.build_plain(scratch, cpu, opt=3)
        todo += [(exe, cpu, scratch, c) for c in cases(thorough)]
    for heavy, procs in ((False, 8), (True, 3)):
        part = [t for t in todo if t[3].heavy == heavy]
        part.sort(key=lambda t: -t[3].edge)
        with multiprocessing.Pool(procs) as pool:
            for (o, v), t in zip(pool.imap(work, part), part):
                c = t[3]
                k = c.family
                j = cov["jobs"].setdefault(k, {"runs": 0, "edges": []})
                j["runs"] += 1
                if hex(c.edge) not in j["edges"]:
                    j["edges"].append(hex(c.edge))
                cov["evaluations"] += 1
                seen.add(o)
                viol += v
                if j["runs"] <= 1:
                    cov["samples"].append(f"{k} at {c.edge:#x}: nd {' '.join(c.args)[:200]}: {'as it must be' if not v else v[0]['why']}")
                if len(viol) >= 20:
                    pool.terminate()
                    break
    cov["distinct_nontrivial"] = len(seen)
    cov["builds"] = [f"{c} as shipped, optimized, with debug assertions" for c in (cpus if thorough else cpus[-1:])]
    if viol:
        cov["exhaustive"] = False
    return cov, viol
