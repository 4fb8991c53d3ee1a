"""A design library survives crashes and concurrent use: nvc is ended, or one of its calls fails,
at each call that changes the library; then later commands are judged. Several processes also
use one library at the same time."""
import os, re, shutil, subprocess, threading
from vf import run, build

SHIM = os.path.join(build.BUILD, "faultfs.so")


def design(r, name, ver, pad, uses=None):
    """A package or an entity that prints a version."""
    n = name
    if n[0] == "p":
        t = "package %s is\n  constant ver : integer := %d;\n  function f (x : integer) return integer;\n" % (n, ver)
        t += "".join("  constant c%d : string := \"%s\";\n" % (k, "".join(r.choice("abcdefgh") for _ in range(40))) for k in range(pad))
        t += "end package;\npackage body %s is\n  function f (x : integer) return integer is\n  begin\n" % n
        t += "    return x * 1000 + %d;\n  end;\nend package body;\n" % ver
        return t
    t = "entity %s is end entity;\narchitecture a of %s is\n" % (n, n)
    t += "".join("  signal s%d : integer := %d;\n" % (k, r.randint(0, 10 ** 6)) for k in range(pad))
    t += "begin\n  process begin\n"
    t += "".join("    s%d <= (%d + s%d) mod %d; wait for 1 ns;\n" % (k, r.randint(0, 99), r.randrange(pad), r.randint(2, 9)) for k in range(pad))
    t += "    report \"%s version %d" % (n, ver) + (" with \" & integer'image(work.%s.ver) & \" and \" & integer'image(work.%s.f(%d))" % (uses, uses, ver) if uses else "\"")
    return t + ";\n    wait;\n  end process;\nend architecture;\n"


def scenario(c):
    """Files of both versions; unit -> (file, expected line per version combination)."""
    r = c.rng
    uses = {"e0": "p0", "e1": r.choice(["p0", None]), "e2": None}
    pads = {n: r.choice([0, 1, 5, 30, 120]) for n in ("p0", "e0", "e1", "e2")}
    for v in (1, 2):
        for n in pads:
            # the text may have another length
            c.file("%s_%d.vhd" % (n, v), design(r, n, v, pads[n] + (r.choice([0, 0, 3]) if v == 2 else 0), uses.get(n)))
    return uses


def expect(uses, n, v, pv):
    return "%s version %d" % (n, v) + (" with %d and %d" % (pv, v * 1000 + pv) if uses[n] else "")


def printed(x):
    return re.findall(r"(?m)Note: [\w+]+: (e\d version .*)", x.out + x.err)


def go(c, args, **kw):
    c.evals += 1
    return run.nvc(args, c.tmp, env=kw.pop("env", None), **kw)


def bad(c, what, x, where):
    c.violate("library: " + what, "%s\n%s" % (where, (x.out + x.err)[-1500:]))


def observe(c, uses, was, now, where):
    """What each unit can do now. was/now: unit -> version before and after; returns False after a violation."""
    for n in ("e2", "e1", "e0"):
        touched = now[n] != was[n] or uses[n] and now["p0"] != was["p0"]
        x = go(c, ["-e", "--jit", "--no-save", n, "-r"])
        if run.crash_key(x) or x.hung:
            bad(c, "crash when the unit is used afterwards: " + str(run.crash_key(x)), x, where)
            return False
        ok = {expect(uses, n, v, pv) for v in (was[n], now[n]) if v for pv in (was["p0"], now["p0"]) if pv or not uses[n]}
        p = printed(x)
        if x.rc == 0:
            if len(p) != 1 or p[0] not in ok:
                bad(c, "a unit is neither the old nor the new one", x, "%s: %s printed %r, expected one of %r" % (where, n, p, sorted(ok)))
                return False
            c.counts["units found as before" if p[0] == expect(uses, n, was[n], was["p0"] or 0) else "units found as after"] += 1
            continue
        t = x.out + x.err
        if not touched and was[n]:
            bad(c, "a unit that was not touched is lost", x, "%s: %s" % (where, n))
            return False
        # parts of different versions: a dependency that is out of date must be named
        if was[n] and not re.search(r"depends on|must be reanalysed|out of date|obsolete|has changed|is older|newer than", t):
            bad(c, "a unit is neither the old nor the new one", x, "%s: %s cannot be used" % (where, n))
            return False
        if not re.search(r"(?m)^\*\* (Error|Fatal)", t):
            bad(c, "no message", x, "%s: %s" % (where, n))
            return False
        c.counts["units reported out of date or missing"] += 1
    return True


def saved(c, uses, was, now, old, elab, lib, where):
    """The elaborated design in the library, run without elaborating it again. old: was there one before;
    elab: does the command elaborate it."""
    x = go(c, ["-r", "e0"], lib=lib)
    if run.crash_key(x) or x.hung:
        bad(c, "crash when the elaborated design is used afterwards: " + str(run.crash_key(x)), x, where)
        return False
    ok = {expect(uses, "e0", v, pv) for v in (was["e0"], now["e0"]) if v for pv in (was["p0"], now["p0"]) if pv}
    p = printed(x)
    if x.rc == 0:
        if len(p) != 1 or p[0] not in ok:
            bad(c, "the elaborated design is neither the old nor the new one", x, "%s: printed %r, expected one of %r" % (where, p, sorted(ok)))
            return False
        c.counts["elaborated designs that run"] += 1
        return True
    if not re.search(r"(?m)^\*\* (Error|Fatal)", x.out + x.err):
        bad(c, "no message", x, where)
        return False
    if old and not elab and was == now:
        bad(c, "an elaborated design that was not touched is lost", x, where)
        return False
    c.counts["elaborated designs reported missing or out of date"] += 1
    return True


def inject(c, i):
    r = c.rng
    uses = scenario(c)
    fresh = r.random() < .25           # the library does not exist yet
    units = ["p0", "e0", "e1", "e2"]
    if not fresh:
        x = go(c, ["-a"] + ["%s_1.vhd" % n for n in units])
        if x.rc:
            return bad(c, "set-up failed", x, "")
    kind = r.choice(["package", "entities", "all", "elaborate"]) if not fresh else "all"
    eo = r.choice([["--jit"], ["--jit"], ["-O0"]])
    lib = build.MINI if "-O0" in eo else build.LIBS
    old = not fresh and r.random() < .5
    if old and go(c, ["-e"] + eo + ["e0"], lib=lib).rc:
        return
    base = os.path.join(c.tmp, "base")
    if not fresh:
        os.rename(os.path.join(c.tmp, "work"), base)
    new = {"package": ["p0", "e0"] + (["e1"] if uses["e1"] else []), "entities": r.sample(["e0", "e1"], r.choice([1, 2])), "all": units, "elaborate": []}[kind]
    if kind == "package" and r.random() < .4:
        new = ["p0"]
    args = ["-a"] + ["%s_2.vhd" % n for n in new] if new else []
    if kind == "elaborate" or r.random() < .25 and "e0" in new:
        args += ["-e"] + eo + ["e0"]
    was = {n: 0 if fresh else 1 for n in units}
    now = {n: 2 if n in new else was[n] for n in units}
    work = os.path.join(c.tmp, "work")

    def reset():
        shutil.rmtree(work, ignore_errors=True)
        if not fresh:
            shutil.copytree(base, work)
    reset()
    log = os.path.join(c.tmp, "calls")
    env = {"LD_PRELOAD": SHIM, "FAULT_DIR": work, "FAULT_LOG": log, "FAULT_MODE": "none"}
    x = go(c, args, env=env, lib=lib)
    if x.rc:
        return bad(c, "command failed without a fault", x, repr(args))
    calls = [l.split(" ", 1)[1].strip() for l in open(log)]
    c.counts["calls that change the library"] += len(calls)
    pts = list(range(1, len(calls) + 1))
    r.shuffle(pts)
    for k in pts[:60 if os.environ.get("VERIF_TIER") == "thorough" else 6]:
        mode = r.choice(["before", "after", "flush", "fail"])
        reset()
        env.update(FAULT_AT=str(k), FAULT_MODE=mode, FAULT_LOG="/dev/null")
        x = go(c, args, env=env, lib=lib)
        where = "%s, %s call %d of %d (%s)" % (" ".join(args), mode, k, len(calls), calls[k - 1])
        c.counts["fault %s %s" % (mode, calls[k - 1].split()[0])] += 1
        if mode == "fail":
            key = run.crash_key(x)
            if key or x.hung:
                return bad(c, "crash at a failed call: " + str(key), x, where)
            if x.rc == 0:
                # success was reported: everything must be there
                if not observe(c, uses, now, now, "after reported success: " + where):
                    return
                c.counts["failed calls that do not matter"] += 1
                continue
            if not re.search(r"(?m)^\*\* (Error|Fatal)|^LLVM ERROR: IO failure", x.out + x.err):
                return bad(c, "failure without a message", x, where)
        elif x.rc != -9 and x.rc != 137:
            c.counts["not reached"] += 1
            continue
        if not observe(c, uses, was, now, where):
            return
        if (old or "-e" in args) and not saved(c, uses, was, now, old, "-e" in args, lib, where):
            return
        # the same command again, then everything is new
        y = go(c, args, lib=lib)
        if kind in ("package",) and new == ["p0"] or y.rc == 0:
            pass
        if y.rc:
            return bad(c, "the command cannot be repeated", y, where)
        y = go(c, ["-a"] + ["%s_2.vhd" % n for n in units])
        if y.rc:
            return bad(c, "the library cannot be used any more", y, where)
        if not observe(c, uses, dict.fromkeys(units, 2), dict.fromkeys(units, 2), "after analysing again: " + where):
            return
        c.counts["recoveries"] += 1
        c.digest((kind, fresh, mode, calls[k - 1]))


def together(c, i):
    """Several processes analyse, elaborate and run in one library."""
    r = c.rng
    n = r.choice([2, 3, 4])
    if r.random() < .5:
        c.file("z.vhd", "package z is constant ver : integer := 7; end package;\n")
        if go(c, ["-a", "z.vhd"]).rc:
            return
    jobs = []
    for k in range(n):
        fs = []
        for q in range(r.choice([1, 2, 5])):
            e = "e%d%d" % (k, q)
            t = design(r, "e%d" % k, q, r.choice([0, 3, 30])).replace("e%d" % k, e)
            fs.append(c.file(e + ".vhd", t) or e + ".vhd")
        jobs.append(["e%d%d" % (k, q) for q in range(len(fs))])
    res = {}

    def one(k):
        for e in jobs[k]:
            a = ["-a", e + ".vhd"] + (["-e", "--jit", e] if r0[e] < .4 else []) + (["-r", e] if r0[e] < .2 else [])
            res[e] = (a, run.nvc(a, c.tmp))
    r0 = {e: r.random() for j in jobs for e in j}
    th = [threading.Thread(target=one, args=(k,)) for k in range(n)]
    [t.start() for t in th]
    [t.join() for t in th]
    for e, (a, x) in sorted(res.items()):
        c.evals += 1
        if x.rc or run.crash_key(x):
            return bad(c, "a command fails beside others", x, " ".join(a))
    for e in sorted(res):
        x = go(c, ["-e", "--jit", "--no-save", e, "-r"])
        want = "%s version %s" % (e, e[2:])
        got = re.findall(r"(?m)Note: [\w+]+: (e\d+ version .*)", x.out + x.err)
        if x.rc or got != [want]:
            return bad(c, "a unit analysed beside others is lost", x, "%s %r" % (e, got))
        c.counts["units found after concurrent commands"] += 1
    x = go(c, ["--print-deps"] + [j[0] for j in jobs]) if False else None
    c.digest(sorted(r0))


def main(c):
    c.build(["plain"])
    os.makedirs(os.path.dirname(SHIM), exist_ok=True)
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", SHIM, os.path.join(build.VERIF, "native", "faultfs.c"), "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise SystemExit("cannot build the fault injector\n" + p.stderr)
    c.rule = "one scenario with up to six faults each; distinct = distinct (command, fault, call)"
    c.run({"inject": inject, "together": together}, [("inject", c.n(90, 3000)), ("together", c.n(70, 3000))])
