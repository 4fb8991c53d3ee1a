"""Determinism: the same commands give the same bytes under changed memory layout, allocator state,
thread timing, environment and working directory."""
import os, re, gzip, hashlib, shutil
from vf import run, build, corpus, work

# what must not matter
CONDS = [
    ("address layout", {}, []),
    ("heap contents", {"MALLOC_PERTURB_": "165"}, []),
    ("allocator", {"MALLOC_ARENA_MAX": "1", "MALLOC_MMAP_THRESHOLD_": "4096", "MALLOC_TOP_PAD_": "1"}, []),
    ("one processor", {}, ["taskset", "-c", "1"]),
    ("environment size", {"ZZ_%d" % k: "x" * (k * 37 % 400) for k in range(40)}, []),
    ("no randomisation", {}, ["setarch", "-R"]),
]


def fst(b):
    """Without the date, which is in the header; the header may be inside a compressed wrapper."""
    if b[:1] == b"\xfe":
        b = gzip.decompress(b[17:])
    return b[:201] + b[330:]


def snapshot(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            b = open(p, "rb").read()
            n = os.path.relpath(p, d)
            if f.endswith(".fst"):
                b = fst(b)
            elif f.endswith(".vcd"):
                b = re.sub(rb"\$date.*?\$end", b"", b, flags=re.S)
            elif f.endswith(".so") or f == "_NVC_LIB" or re.search(r"/vcd\w{6}$", base):   # left after a failure
                continue
            out[n] = b
    return out


def debug(t):
    return re.sub(r"(?m)^\*\* Debug: .*\n(?:\n|   .*\n)*", "", t)


def go(c, d, cmds, cond, std, gl):
    """Run the commands in directory d under a condition."""
    name, env, pre = cond
    out = []
    for args, ev in cmds:
        cmd = pre + [build.nvc_path("plain"), "--std=" + std, "-L", build.LIBS] + gl + args
        r = run.run(cmd, d, env=dict(ev, **env), timeout=run.HANG * 2)
        # code sizes and addresses are for nvc's developers
        out.append((r.rc, debug(r.out), debug(r.err), r.hung))
        if r.rc or r.hung:
            break
    return out


def case(c, what, files, top, std, ao=(), eo=(), ro=(), gl=(), place=None):
    r = c.rng
    eng = r.choice(["interp", "interp", "jit", "jitasync"])
    o, ev = run.ENGINES[eng]
    wave = r.choice([[], ["--wave=w.vcd", "--format=vcd"], ["--wave=w.fst", "--dump-arrays"]])
    ro = [x for x in ro if not x.startswith(("--wave", "--dump-arrays"))] + wave
    if r.random() < .5:
        cmds = [(["-a"] + list(ao) + files + ["-e"] + list(o) + list(eo) + [top, "-r"] + ro, ev)]
    else:
        cmds = [(["-a"] + list(ao) + files, ev), (["-e"] + list(o) + list(eo) + [top], ev), (["-r"] + ro + [top], ev)]
    conds = [("nothing", {}, [])] + r.sample(CONDS, 3)
    ref = None
    for k, cond in enumerate(conds):
        # same path for every run
        d = os.path.join(c.tmp, "run")
        os.mkdir(d)
        if place:
            place(d)
        out = go(c, d, cmds, cond, std, list(gl))
        c.evals += 1
        if any(x[3] for x in out):
            shutil.rmtree(d)
            c.counts["hung"] += 1
            return
        snap = snapshot(d)
        shutil.rmtree(d)
        cur = ([x[:3] for x in out], snap)
        if ref is None:
            ref = cur
            if any("Caught signal" in x[2] for x in out):
                c.counts["crashed"] += 1
                return
            continue
        c.counts["compared under changed " + cond[0]] += 1
        c.counts["files compared"] += len(snap)
        if cur != ref:
            # a design that asks for the time, or for the environment, differs by itself
            kind, det = diff(ref, cur)
            d2 = os.path.join(c.tmp, "run")
            same = []
            for _ in range(2):
                os.mkdir(d2)
                if place:
                    place(d2)
                out = go(c, d2, cmds, ("fixed", {}, ["setarch", "-R"]), std, list(gl))
                same.append(([x[:3] for x in out], snapshot(d2)))
                shutil.rmtree(d2)
            if same[0] != same[1] and kind == "output" and what in CLOCK:
                c.counts["depends on the clock"] += 1
                return
            return c.violate("determinism: %s depends on %s" % (kind, cond[0] if same[0] == same[1] else "the run"),
                             "%s (%s, %s) %s\n%s" % (what, std, eng, wave, det))
    c.digest(hashlib.md5(repr(sorted(ref[1].items())).encode()).hexdigest())


CLOCK = {"stdenv1", "stdenv2", "stdenv3", "stdenv4", "stdenv5", "stdenv7", "stdenv8", "stdenv9", "stdenv10", "stdenv11"}


def diff(a, b):
    for x, y in zip(a[0], b[0]):
        if x != y:
            if x[0] != y[0]:
                return "exit status", "%r / %r\n%s\n%s" % (x[0], y[0], x[2][-400:], y[2][-400:])
            l, m = (x[1] + x[2]).split("\n"), (y[1] + y[2]).split("\n")
            n = next((i for i, (p, q) in enumerate(zip(l, m)) if p != q), min(len(l), len(m)))
            return "output", "line %d\n%s\n--\n%s" % (n, "\n".join(l[n:n + 3]), "\n".join(m[n:n + 3]))
    if len(a[0]) != len(b[0]):
        return "exit status", ""
    n = [f for f in sorted(set(a[1]) | set(b[1])) if a[1].get(f) != b[1].get(f)]
    k = "waveform dump" if n[0].endswith(("fst", "vcd")) else "elaborated design" if n[0].endswith(".elab") else "library" if "work" in n[0] else "file"
    x, y = a[1].get(n[0]), b[1].get(n[0])
    if x is None or y is None:
        return k, "%r present in only one run" % n
    at = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return k, "files %r; %s differs from byte %d (sizes %d, %d)" % (n[:5], n[0], at, len(x), len(y))


def regress(c, i):
    name, std, ao, eo, ro, gl, files = REG[(i * 3) % len(REG)]
    ro = list(ro)
    if not any(x.startswith("--stop-time") for x in ro):
        ro.append("--stop-time=2us")
    case(c, name, files, name, std, ao, eo, ro, gl)


def generated(c, i):
    kind, text, top, std, eo = work.design(c.rng)
    c.counts["generated " + kind] += 1

    def place(d):
        with open(os.path.join(d, "t.vhd"), "wb") as f:
            f.write(text.encode("latin-1"))
        os.utime(os.path.join(d, "t.vhd"), (1e9, 1e9))
    case(c, kind, ["t.vhd"], top, std, eo=eo, ro=["--stop-time=200ns"], place=place)


UNIT = re.compile(r"(?im)^(?=(?:library|use|entity|package|architecture|configuration|context)\b)")


def order(c, i):
    """Units in one file each, analysed in every order the dependencies allow, in directories of any name."""
    r = c.rng
    kind, text, top, std, eo = work.design(r)
    parts = split_units(text)
    if len(parts) < 3:
        c.counts["too few units"] += 1
        return
    n = len(parts)
    deps = depend(parts)
    ref = None
    for k in range(3):
        done, seq = set(), []
        while len(seq) < n:
            ready = [j for j in range(n) if j not in done and deps[j] <= done]
            j = ready[0] if k == 0 else r.choice(ready)
            done.add(j)
            seq.append(j)
        d = os.path.join(c.tmp, r.choice(["a", "long_directory_name", "x y", "d.vhd", "Work"]) + str(k))
        os.mkdir(d)
        for j, p in enumerate(parts):
            with open(os.path.join(d, "p%d.vhd" % j), "wb") as f:
                f.write(p.encode("latin-1"))
        x = run.nvc(["-a"] + ["p%d.vhd" % j for j in seq] + ["-e", "--jit"] + eo + [top, "-r", "--stop-time=200ns", "--wave=w.vcd", "--format=vcd"], d, std=std)
        c.evals += 1
        if run.crash_key(x) or x.hung:
            c.counts["crashed"] += 1
            return
        msgs = re.findall(r"(?m)^\*\* (?:\w+): .*", debug(x.out + x.err))
        try:
            w = re.sub(r"\$date.*?\$end", "", open(os.path.join(d, "w.vcd"), encoding="latin-1").read().replace(d + "/", ""), flags=re.S)
        except OSError:
            w = None
        cur = (x.rc, msgs, w)
        if ref is None:
            ref = cur
        elif cur != ref:
            what = "exit status" if cur[0] != ref[0] else "output" if cur[1] != ref[1] else "waveform dump"
            return c.violate("determinism: %s depends on the order of analysis" % what,
                             "%s order %r\n%r\n%r\n%s" % (kind, seq, [m for m in ref[1] if m not in cur[1]][:3], [m for m in cur[1] if m not in ref[1]][:3], x.err[:600]))
    c.counts["orders of analysis compared"] += 3
    c.digest(ref[1])


def split_units(text):
    """Split after the end of each design unit; context clauses stay with their unit."""
    parts, cur, depth = [], [], None
    for l in text.split("\n"):
        cur.append(l)
        m = re.match(r"(?i)^(entity|package body|package|architecture|configuration)\s", l)
        if m:
            depth = True
            if re.search(r"(?i)\bend\b[^;]*;\s*$", l) and re.search(r"(?i)\bis\b", l):
                parts.append("\n".join(cur) + "\n")
                cur = []
                continue
        if re.match(r"(?i)^end\b.*;", l):
            parts.append("\n".join(cur) + "\n")
            cur = []
    if any(l.strip() for l in cur):
        parts[-1] += "\n".join(cur) + "\n"
    return parts


def depend(parts):
    """Over-approximated: every part depends on the parts before it that declare a name it mentions."""
    decl = []
    for p in parts:
        m = re.search(r"(?im)^(entity|package body|package|architecture|configuration)\s+(\w+)(?:\s+of\s+(\w+))?", p)
        decl.append((m[1].lower(), m[2].lower(), (m[3] or "").lower()) if m else ("?", "", ""))
    out = []
    for j, p in enumerate(parts):
        words = {w.lower() for w in re.findall(r"\w+", p)}
        d = set()
        for k in range(j):
            kd, nm, of = decl[k]
            if kd == "?" or decl[j][0] == "?":
                d.add(k)
            elif kd in ("entity", "package", "configuration") and nm in words:
                d.add(k)
            elif kd == "architecture" and nm in words and of in words:
                d.add(k)
        # two architectures of one entity: the last analysed is the default one
        if decl[j][0] == "architecture":
            d |= {k for k in range(j) if decl[k][0] == "architecture" and decl[k][2] == decl[j][2]}
        out.append(d)
    return out


def main(c):
    global REG
    c.build(["plain"])
    REG = corpus.regress()
    c.rule = "one command line under four conditions each; distinct = distinct sets of files written"
    c.run({"regress": regress, "generated": generated, "order": order},
          [("regress", c.n(350, 3 * len(REG))), ("generated", c.n(140, 4000)), ("order", c.n(100, 3000))])
