"""Whole processes of nd as it is shipped (2 MiB blocks, nothing included in it): every spelling, every order of the options, every
way to deliver the inputs, every choice of a pager, and sizes around the blocks. What a command must give is what a build with
1024-byte blocks gives for its plain form, which the other checks hold to the reference model."""
import errno, fcntl, hashlib, itertools, multiprocessing, os, pty, shutil, stat, struct, subprocess, tempfile, termios, threading, time, tty
from lib import common as C

TIMEOUT = 60
M = 2 << 20


def pat(n, k=0):
    return bytes((i * 7 + 3 + k * 13 + (i >> 8) + (i >> 16) * 5) & 255 for i in range(min(n, 1 << 20))) * (n // (1 << 20) + 1) if n > 1 << 20 else bytes((i * 7 + 3 + k * 13 + (i >> 8)) & 255 for i in range(n))


def data(n, k=0):
    return pat(n, k)[:n]


def text(n):
    return b"".join(b"%012x 0010 | %s \n" % (i * 16, b" ".join(b"%02x" % ((i + k) & 255) for k in range(16))) for i in range(n))


PATCH = b"000000000003 0002 | aa bb cc \n000000000005 0001 | \n"
GUIDE = b"000000000001 0004 | \n000000000004 0003 | \n000000000009 0030 | \n"

# (short, long, value); a value that begins with @ is a file
F = lambda v: ("f", "out-format", v)
PROGRAMS = [
    ("dump", [], 1),
    ("copy", [F("b")], 1),
    ("width", [("w", "width", "5,s-1..e+1"), F("nxx")], 1),
    ("cut", [("n", "cut", "1..4,s+7..e-2"), F("b")], 1),
    ("pad", [("a", "pad", "3,2"), ("", "filler", "7"), F("b")], 1),
    ("patch", [("p", "patch", "@p"), F("b")], 1),
    ("cut, pad and patch", [("n", "cut", "2.."), ("a", "pad", "1,1"), ("p", "patch", "@p"), F("b")], 1),
    ("concatenate", [("c", "cat", "4"), F("b")], 2),
    ("zip", [("z", "zip", "3"), F("b")], 2),
    ("find", [("d", "find", "0a"), ("x", "extend", "s..e+3")], 1),
    ("walk", [("k", "walk", "b[0]+1"), F("nxx")], 1),
    ("slice", [("r", "slice", "1..5,9..30,e-5..e"), F("nnx")], 1),
    ("guide", [("g", "guide", "@g")], 1),
    ("regex", [("w", "width", "40"), ("e", "regex", "[a-z]{2,3}"), F("nxx")], 1),
    ("invert", [("r", "slice", "2..4,8..9"), ("v", "invert", "s..e-1"), F("nxx")], 1),
    ("merge", [("d", "find", "0a"), ("m", "merge", "30"), F("nxx")], 1),
    ("lines", [("w", "width", "7"), ("l", "lines", "1..3,e-2..e"), F("nxx")], 1),
    ("parse", [("F", "in-format", "x"), F("b")], 1),
    ("to a file", [("o", "output", "o"), ("w", "width", "100000"), F("b")], 1),
    ("to files", [("o", "output", "o{l}"), ("w", "width", "700000"), F("b")], 1),
    ("patch back", [("P", "patch-back", "cat"), ("w", "width", "100"), F("nnx")], 1),
    ("patch back with less", [("P", "patch-back", "sed 's/ 0a / 41 42 /'"), ("d", "find", "0a")], 1),
]


def source(name, n, k):
    return text(n // 66) if name == "parse" else data(n, k)


def files_of(prog, n, m=None):
    name, opts, k = prog
    f = {"a": source(name, n, 0)}
    if k > 1:
        f["b"] = source(name, n if m is None else m, 1)
    for _, _, v in opts:
        if v and v[0] == "@":
            f[v[1:]] = PATCH if v == "@p" else GUIDE
    return f


def spell(opt, form):
    s, l, v = opt
    v = v.lstrip("@") if v else v
    if v is None:
        return ["-" + s if s and form < 2 else "--" + l]
    if not s:
        form = form % 2 + 2
    return [["-" + s, v], ["-" + s + v], ["--" + l, v], ["--" + l + "=" + v]][form]


def plain(prog):
    return [x for o in prog[1] for x in spell(o, 2)] + (["a", "b"] if prog[2] > 1 else ["a"])


def listing(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        st = os.lstat(p)
        if stat.S_ISREG(st.st_mode):
            with open(p, "rb") as h:
                out[f] = hashlib.sha256(h.read()).hexdigest()
    return out


class Out:
    pass


def execute(exe, d, args, files, stdin=None, fifos=None, links=(), env=None, on_tty=False, keep=False):
    """stdin: bytes (a file), a list of pieces (a pipe), or None. fifos: name -> pieces"""
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, v in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(v)
    for n, t in links:
        os.symlink(t, os.path.join(d, n))
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d, "LC_ALL": "C", "RUST_BACKTRACE": "0"}
    e.update(env or {})
    feeds = []
    sin = subprocess.DEVNULL
    if isinstance(stdin, bytes):
        with open(d + ".stdin", "wb") as f:
            f.write(stdin)
        sin = open(d + ".stdin", "rb")
    elif stdin is not None:
        sin, w = os.pipe()
        feeds.append((w, stdin))
    for n, pieces in (fifos or {}).items():
        q = os.path.join(d, n)
        os.mkfifo(q)
        feeds.append((q, pieces))
    master = None
    sout = subprocess.PIPE
    if on_tty:
        master, sout = pty.openpty()
        tty.setraw(sout)
    x = Out()
    p = subprocess.Popen([exe] + args, cwd=d, env=e, stdin=sin, stdout=sout, stderr=subprocess.PIPE, start_new_session=True)
    ts = [threading.Thread(target=feeder, args=(w, [q for q in pieces if q], p), daemon=True) for w, pieces in feeds]
    for t in ts:
        t.start()
    if isinstance(sin, int) and sin >= 0:
        os.close(sin)
    got = []
    if on_tty:
        os.close(sout)

        def drain():
            while True:
                try:
                    b = os.read(master, 65536)
                except OSError:
                    break
                if not b:
                    break
                got.append(b)
        t = threading.Thread(target=drain, daemon=True)
        t.start()
    try:
        x.out, x.err = p.communicate(timeout=TIMEOUT)
        x.rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        x.out, x.err = p.communicate()
        x.rc = "hangs"
    for q in ts:
        q.join(TIMEOUT)
    if on_tty:
        t.join(5)
        os.close(master)
        x.out = b"".join(got)
    if isinstance(stdin, bytes):
        sin.close()
    x.files = listing(d)
    x.n, x.sum = len(x.out), hashlib.sha256(x.out).hexdigest()
    if not keep:
        x.out = x.out[:200]
    return x


def feeder(w, pieces, p):
    """writes each piece when the one before it has been taken; `w` is a descriptor, or the path of a FIFO"""
    while isinstance(w, str):
        try:
            w = os.open(w, os.O_WRONLY | os.O_NONBLOCK)
        except OSError as e:  # nobody has opened it for reading yet
            if e.errno != errno.ENXIO or p.poll() is not None:
                return
            time.sleep(0.0002)
    os.set_blocking(w, False)
    try:
        fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, 1 << 20)
        for q in pieces:
            q = memoryview(q)
            while len(q) and p.poll() is None:
                try:
                    q = q[os.write(w, q):]
                except BlockingIOError:
                    time.sleep(0.0002)
            while p.poll() is None and struct.unpack("i", fcntl.ioctl(w, termios.FIONREAD, b"\0\0\0\0"))[0]:
                time.sleep(0.0002)
    except BrokenPipeError:
        pass
    os.close(w)


def compositions(n):
    for cuts in itertools.product([0, 1], repeat=n - 1):
        out, start = [], 0
        for i, c in enumerate(cuts, 1):
            if c:
                out.append((start, i))
                start = i
        yield out + [(start, n)]


class Job:
    def __init__(self, prog, files, variants, what, kind="same"):
        self.prog, self.files, self.variants, self.what, self.kind = prog, files, variants, what, kind


def v(name, args, **kw):
    return dict(name=name, args=args, **kw)


def spellings(prog):
    ins = ["a", "b"][: prog[2]]
    opts = prog[1]
    seen = set()

    def put(name, args):
        if tuple(args) not in seen:
            seen.add(tuple(args))
            yield v(name, args)
    # every combination of the spellings
    for forms in itertools.product(range(4), repeat=len(opts)):
        yield from put(f"spelt {forms}", [x for o, f in zip(opts, forms) for x in spell(o, f)] + ins)
    # every order of the options, and every place for the inputs among them
    for perm in itertools.permutations(range(len(opts))):
        for at in range(len(opts) + 1):
            parts = [spell(opts[i], (i + at) % 4) for i in perm]
            parts.insert(at, ins)
            yield from put(f"in the order {perm}, inputs after {at}", [x for q in parts for x in q])
    yield from put("with --", [x for o in opts for x in spell(o, 2)] + ["--"] + ins)


def deliveries(prog, files, tops):
    base = [x for o in prog[1] for x in spell(o, 2)]
    ins = ["a", "b"][: prog[2]]
    without = lambda n: {k: x for k, x in files.items() if k != n}

    def halves(x):
        return [x[: len(x) // 2], x[len(x) // 2:]]
    for which in range(len(ins)):
        n = ins[which]
        at = lambda name: ins[:which] + [name] + ins[which + 1:]
        yield v(f"{n} as ./{n}", base + at("./" + n))
        yield v(f"{n} by a symbolic link", base + at("l"), links=[("l", n)])
        yield v(f"{n} from standard input, a file", base + at("-"), files=without(n), stdin=files[n])
        yield v(f"{n} from standard input, a pipe", base + at("-"), files=without(n), stdin=halves(files[n]))
        yield v(f"{n} from /dev/stdin, a file", base + at("/dev/stdin"), files=without(n), stdin=files[n])
        yield v(f"{n} from /dev/stdin, a pipe", base + at("/dev/stdin"), files=without(n), stdin=halves(files[n]))
        yield v(f"{n} from a FIFO", base + at(n), files=without(n), fifos={n: halves(files[n])})
        if len(ins) == 1:
            yield v("no input named, standard input a file", base, files=without(n), stdin=files[n])
            yield v("no input named, standard input a pipe", base, files=without(n), stdin=halves(files[n]))
    for i, (s, l, val) in enumerate(prog[1]):
        if val and val[0] == "@":
            n = val[1:]
            to = lambda name: [x for j, o in enumerate(prog[1]) for x in spell((s, l, name) if j == i else o, 2)] + ins
            yield v(f"{n} from a FIFO", to(n), files=without(n), fifos={n: halves(files[n])})
            yield v(f"{n} from standard input, a pipe", to("-"), files=without(n), stdin=halves(files[n]))
            yield v(f"{n} from /dev/stdin, a file", to("/dev/stdin"), files=without(n), stdin=files[n])
    # every way to cut it into pieces
    n = ins[-1]
    for top in tops:
        x = files[n]
        if len(x) != top:
            continue
        for c in compositions(top):
            yield v(f"{n} from a pipe in pieces {[b - a for a, b in c]}", base + ins[:-1] + ["-"], files=without(n), stdin=[x[a:b] for a, b in c])


PAGERS = [None, "", "  ", "pg", " pg  -a   b ", "none-such", "quit", "peek", "slow", "late"]
SCRIPTS = {
    "pg": 'printf "%s\\n" "${0##*/}" "$@" > "$HOME/log"; cat > "$HOME/got"; echo done >> "$HOME/log"',
    "less": 'printf "%s\\n" "${0##*/}" "$@" > "$HOME/log"; cat > "$HOME/got"; echo done >> "$HOME/log"',
    "quit": 'echo quit > "$HOME/log"; exit 1',
    "peek": 'echo peek > "$HOME/log"; head -c 10 > "$HOME/got"; exit 0',
    "slow": 'echo slow > "$HOME/log"; sleep 0.3; cat > "$HOME/got"; echo done >> "$HOME/log"',
    # lets go of the terminal before it is done, so that only the wait for the process itself can see its end
    "late": 'echo late > "$HOME/log"; exec > /dev/null 2>&1; cat > "$HOME/got"; sleep 0.4; echo done >> "$HOME/log"',
}


def pagers(thorough):
    progs = [("dump", [], 1), ("copy", [F("b")], 1), ("to a file", [("o", "output", "o"), ("w", "width", "70000"), F("b")], 1)]
    for prog in progs:
        for n in [0, 5, 100, 300000] + ([5 * M] if thorough else []):
            for opt in PAGERS:
                for var in PAGERS:
                    if opt is not None and var not in (None, "pg", "none-such", ""):
                        continue
                    for t in (False, True):
                        yield prog, n, opt, var, t


def pager_case(exe, oracle, d, prog, n, opt, var, on_tty):
    files = files_of(prog, n)
    base = execute(oracle, d, plain(prog), files)
    want = {k: x for k, x in base.files.items()}
    b = d + ".bin"
    os.makedirs(b, exist_ok=True)
    for name, s in SCRIPTS.items():
        p = os.path.join(b, name)
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write("#!/bin/sh\n" + s + "\n")
            os.chmod(p, 0o755)
    env = {"PATH": b + ":/usr/local/bin:/usr/bin:/bin"}
    if var is not None:
        env["PAGER"] = var
    args = plain(prog)
    if opt is not None:
        args = ["--pager", opt] + args
    r = execute(exe, d, args, files, env=env, on_tty=on_tty)
    cmd = opt if opt is not None else var
    if cmd is None:
        cmd = "less -S -F -X" if on_tty else ""
    words = cmd.split()
    log = []
    if "log" in r.files:
        with open(os.path.join(d, "log")) as f:
            log = f.read().split("\n")[:-1]
    got = r.files.get("got")
    rest = {k: x for k, x in r.files.items() if k not in ("log", "got")}
    bad = []
    empty = hashlib.sha256(b"").hexdigest()
    if base.rc != 0:
        return [f"the plain command fails: {base.rc}"], r
    if words == ["none-such"]:
        if r.rc in (0, "hangs") or r.rc < 0 or not r.err or r.n:
            bad.append(f"a pager that isn't there must be reported, but the exit status is {r.rc}, {r.n} bytes are printed, message {r.err[:100]!r}")
        return bad, r
    if r.rc != 0:
        return [f"exit status {r.rc}: {r.err[:300]!r}"], r
    if rest != want:
        bad.append(f"files differ: {sorted(rest)} for {sorted(want)}")
    if not words:
        if log:
            bad.append(f"ran {log} as a pager, but should run none")
        if r.sum != base.sum:
            bad.append(f"printed {r.n} bytes {r.out[:60]!r} for {base.n} bytes {base.out[:60]!r}")
        return bad, r
    if r.n:
        bad.append(f"printed {r.n} bytes beside the pager")
    same = sorted(log[:1] + log[1:]) if words[0] == "less" else log
    if words[0] in ("quit", "peek"):
        if log != [words[0]]:
            bad.append(f"ran {log} for {words}")
        return bad, r
    full = words + ["done"]
    if same != (sorted(full) if words[0] == "less" else full) or log[:1] != full[:1]:
        bad.append(f"the pager run is {log}, for {full}" + ("; nd did not wait for it" if log == full[:-1] else ""))
    if got != base.sum and "done" in log:
        bad.append(f"the pager got something else than the {base.n} bytes")
    return bad, r


SIZES = [M - 1, M, M + 1, 2 * M + 5, 3 * M + 777]


def jobs(thorough):
    for prog in PROGRAMS:
        f = files_of(prog, 660 if prog[0] == "parse" else 300)
        yield Job(prog, f, "spellings", "small")
        yield Job(prog, f, "deliveries", "small")
        if prog[0] != "parse":
            for n in [1, 2, 3, 4, 5, 6] + ([7, 8, 9] if thorough else []):
                yield Job(prog, files_of(prog, n), "deliveries", f"{n} bytes")
        yield Job(prog, files_of(prog, 0), "deliveries", "empty")
        for n in SIZES + ([5 * M - 3, 8 * M + 1] if thorough else []):
            if prog[2] > 1:
                for m in [0, 10, M - 3, M, n] + ([2 * M + 9] if thorough else []):
                    yield Job(prog, files_of(prog, n, m), "plain", f"{n} and {m} bytes")
            else:
                yield Job(prog, files_of(prog, n), "plain" if not thorough else "big deliveries", f"{n} bytes")
        yield Job(prog, files_of(prog, M + 1), "big deliveries", f"{M + 1} bytes")


def work(job):
    exe, oracle, tag, scratch, kind, payload, thorough = job
    d = tempfile.mkdtemp(prefix="p", dir=scratch)
    n, outcomes, viol, sample = 0, set(), [], []

    def report(what, args, bad, r):
        for w in bad:
            viol.append({"scenario": what, "build": tag, "args": args, "why": w, "stderr": r.err.decode("utf-8", "replace")[:300]})
    try:
        if kind == "pager":
            prog, size, opt, var, t = payload
            bad, r = pager_case(exe, oracle, d, prog, size, opt, var, t)
            n += 1
            outcomes.add((r.rc, r.sum, tuple(sorted(r.files.items()))))
            what = f"{prog[0]} of {size} bytes, --pager {opt!r}, PAGER {var!r}, {'a terminal' if t else 'a pipe'}"
            report(what, plain(prog), bad, r)
            sample.append(f"{what}: exit status {r.rc}, files {sorted(r.files)}")
        else:
            prog, how, name = PROGRAMS[payload[0]], payload[1], payload[2]
            files = payload[3]
            files = files_of(prog, *files)
            base = execute(oracle, d, plain(prog), files)
            what = f"{prog[0]}, {name}"
            if base.rc == "hangs":
                report(what, plain(prog), ["hangs"], base)
            vs = [v("plain", plain(prog))]
            if how == "spellings":
                vs += list(spellings(prog))
            elif how == "deliveries":
                vs += list(deliveries(prog, files, [len(files["b" if prog[2] > 1 else "a"])] if len(files["a"]) <= 9 and len(files["a"]) > 0 else []))
            elif how == "big deliveries":
                vs += list(deliveries(prog, files, []))
            for x in vs:
                r = execute(exe, d, x["args"], x.get("files", files), stdin=x.get("stdin"), fifos=x.get("fifos"), links=x.get("links", ()))
                n += 1
                outcomes.add((r.rc, r.sum, tuple(sorted(r.files.items()))))
                bad = []
                outs = lambda o: {k: s for k, s in o.files.items() if k not in files}
                if (r.rc == 0) != (base.rc == 0) or r.rc == "hangs" or (r.rc != 0 and (r.rc < 0 or not r.err)):
                    bad.append(f"{x['name']}: exit status {r.rc} for {base.rc}: {r.err[:200]!r}")
                elif r.rc == 0 and (r.sum != base.sum or outs(r) != outs(base)):
                    bad.append(f"{x['name']}: {r.n} bytes {r.out[:60]!r} for {base.n} bytes {base.out[:60]!r}; files {sorted(outs(r))} for {sorted(outs(base))}")
                report(what, x["args"], bad, r)
                if len(sample) < 1:
                    sample.append(f"{what}: nd {' '.join(x['args'])}: exit status {r.rc}, {r.n} bytes")
                if len(viol) >= 3:
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".bin", ignore_errors=True)
        if os.path.exists(d + ".stdin"):
            os.unlink(d + ".stdin")
    return n, outcomes, viol, sample


def run(pid, p, tier, scratch, t0):
    thorough = tier == "thorough"
    cpus = C.cpus()
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "exhaustive": True, "rule": p["rule"], "jobs": {}}
    try:
        oracle = C.build(scratch, cpus[0], 1024)
    except C.BuildError:
        oracle = C.build(scratch, cpus[0], 1024, root="nd_ext.rs")
    todo = []
    per = {}
    for cpu in cpus if thorough else cpus[-1:]:
        exe = C.build_plain(scratch, cpu)
        for j in jobs(thorough):
            i = next(k for k, q in enumerate(PROGRAMS) if q is j.prog)
            sizes = (len(j.files["a"]),) if j.prog[0] != "parse" else (len(j.files["a"]),)
            if j.prog[2] > 1:
                sizes += (len(j.files["b"]),)
            todo.append((exe, oracle, cpu, scratch, "run", (i, j.variants, j.what, sizes), thorough))
        for q in pagers(thorough):
            todo.append((exe, oracle, cpu, scratch, "pager", q, thorough))
    todo.sort(key=lambda t: t[4] == "pager")
    outcomes, viol = set(), []
    with multiprocessing.Pool(8) as pool:
        for (n, o, v_, s), t in zip(pool.imap(work, todo, 4), todo):
            k = "pagers" if t[4] == "pager" else t[5][1]
            per.setdefault(k, {"commands": 0, "runs": 0})
            per[k]["commands"] += 1
            per[k]["runs"] += n
            cov["evaluations"] += n
            outcomes |= {hash(x) for x in o}
            viol += v_
            if per[k]["commands"] <= 2:
                cov["samples"] += s
    cov["distinct_nontrivial"] = len(outcomes)
    cov["jobs"] = per
    cov["builds"] = [f"{c} as shipped (2 MiB blocks)" for c in (cpus if thorough else cpus[-1:])] + [f"{cpus[0]} with 1024-byte blocks for what must come out"]
    if viol:
        cov["exhaustive"] = False
    return cov, viol
