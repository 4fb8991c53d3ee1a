"""Memory safety and defined behaviour: AddressSanitizer and UndefinedBehaviorSanitizer watch
the real compiler, simulator, interpreter and JIT while every workload of this framework and the
repository's own designs run in many modes."""
import os, re
from vf import run, build, corpus
from checks import c01, c02, c03, c04, c05, c06, c07, c08, c09, c11, c15

def sanitized(r):
    k = run.crash_key(r)
    # failed assertions and other crashes are C19's and the functional checks'
    return k if k and (k.startswith(("asan", "ubsan", "signal 11"))) else None


MODES = ["interp", "interp", "wave", "cover", "jit", "jit", "stress", "shuffle", "waves"]


def regress(c, i):
    name, std, ao, eo, ro, gl, files = REG[i % len(REG)]
    mode = MODES[0] if i < len(REG) else c.rng.choice(MODES)
    eo, ro, engine, env = list(eo), list(ro), "interp", {}
    if mode == "wave":
        ro += ["--wave=w.fst", "--dump-arrays", "--gtkw=w.gtkw"]
    elif mode == "waves":
        ro += ["--wave=w.vcd", "--format=vcd", "--dump-arrays=8"]
    elif mode == "cover":
        eo = [e for e in eo if not e.startswith("--cover")] + ["--cover=all"]
    elif mode == "jit":
        engine = "jit"
    elif mode == "shuffle":
        ro += ["--shuffle"]
    elif mode == "stress":
        env["NVC_GC_STRESS"] = "1"
        if c.rng.random() < .7:
            env = {}
            ro += ["--trace"]
    if not any(x.startswith("--stop-time") for x in ro):
        ro.append("--stop-time=20us" if i % 3 else "--stop-time=2us")
    c.evals += 1
    r = run.simulate(c.tmp, files, name, engine, std, "asan", ao, eo, ro, glob=gl, env=env, timeout=120)
    k = run.crash_key(r)
    c.counts["regress " + mode] += 1
    c.counts["regress exit %s" % ("ok" if r.rc == 0 else "failure" if r.rc == 1 else r.rc)] += 1
    if sanitized(r):
        # an assertion that fails here may be one the tests expect
        c.violate(k, "%s mode %s\n%s" % (name, mode, (r.out + r.err)[-4000:]))
    elif r.hung:
        c.inconclusive = "hung"
    c.digest((name, mode, r.rc, len(r.err)))


def front(c, i):
    f = c.rng.choice(SRCS)
    std = c.rng.choice(["1993", "2000", "2008", "2019", "2008", "2019"])
    opts = c.rng.choice([[], ["--relaxed"], ["--psl"], ["--relaxed", "--psl"], ["--preserve-case"], ["--no-save"], ["--check-synthesis"]])
    opts = [o for o in opts if o != "--no-save" and o != "--preserve-case" and o != "--check-synthesis"]
    c.evals += 1
    r = run.nvc(["-a"] + opts + [f], c.tmp, "asan", std, timeout=120)
    k = sanitized(r)
    if k:
        c.violate(k, "%s --std=%s %s\n%s" % (f, std, opts, (r.out + r.err)[-4000:]))
    c.counts["front exit %s" % r.rc] += 1
    c.digest((os.path.basename(f), std, r.rc, len(r.err)))
    if r.rc == 0 and f.endswith((".vhd", ".vhdl")):
        t = open(f, encoding="latin-1").read()
        us = re.findall(r"(?im)^\s*(?:entity\s+(\w+)\s+is|package\s+(\w+)\s+is)", t)
        for e, p in us[:3]:
            r = run.nvc(["--dump", e or p], c.tmp, "asan", std, timeout=120)
            k = sanitized(r)
            if k:
                return c.violate(k, "dump %s of %s\n%s" % (e or p, f, (r.out + r.err)[-4000:]))
            c.counts["dumps"] += 1
        for e, p in us:
            if e:
                r = run.nvc(["-e", "--jit", e], c.tmp, "asan", std, timeout=120)
                k = sanitized(r)
                if k:
                    return c.violate(k, "elaborate %s of %s\n%s" % (e, f, (r.out + r.err)[-4000:]))
                c.counts["elaborations"] += 1


GEN = [(c01, "flat"), (c02, "net"), (c02, "std"), (c03, "conc"), (c04, "attrs"), (c05, "flat"), (c06, "small"),
       (c07, "small"), (c07, "jit"), (c08, "interp"), (c09, "calls"), (c09, "jit"), (c11, "numeric"), (c11, "synopsys"),
       (c15, "net"), (c15, "flat")]


def gen(c, i):
    """A workload of another check; what it computes is decided there, here only the sanitizers count."""
    m, f = GEN[i % len(GEN)]
    os.environ["VERIF_VARIANT"] = "asan"
    try:
        getattr(m, f)(c, i)
    finally:
        del os.environ["VERIF_VARIANT"]
    c.viol = [(k, d) for k, d in c.viol if re.search(r"\b(asan|ubsan)\b", k)]
    if c.inconclusive and not c.inconclusive.startswith("harness"):
        c.inconclusive = None
    c.counts["generated " + m.__name__[-3:] + " " + f] += 1


REG = SRCS = None


def main(c):
    global REG, SRCS
    c.build(["plain", "asan"])
    c15.TOOL = build.fst2vcd()
    REG, SRCS = corpus.regress(), corpus.sources()
    c.rule = "the repository's designs and generated ones, under AddressSanitizer and UBSan; distinct = distinct (design, mode, outcome)"
    c.assumptions = ["alignment, nonnull-attribute and vla-bound checks of UBSan are off: zero-length copies and unaligned stores are deliberate",
                     "code that the JIT itself emits is not instrumented"]
    c.run({"regress": regress, "front": front, "gen": gen},
          [("regress", c.n(700, 8000)), ("front", c.n(300, 5000)), ("gen", c.n(400, 20000))])
