"""Elaboration: generated hierarchies report every region they consist of; compared with a model."""
import re
from collections import Counter
from vf import run, hier


def tree(c, i, engine="interp"):
    for _ in range(20):
        g = hier.design(c.rng)
        over = {}
        for n, k, d in g.ents[-1].gens:
            if c.rng.random() < .4:
                over[n] = {"i": c.rng.randint(-3, 6), "b": c.rng.random() < .5, "s": c.rng.choice(["x", "cmd", "a b", "Q_9"])}[k]
        try:
            exp = g.expect(over)
            break
        except OverflowError:
            continue
    else:
        return
    c.file("t.vhd", g.emit())
    eo = ["-g%s=%s" % (n, v if isinstance(v, str) else str(v).lower()) for n, v in over.items()]
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", engine, g.std, eopts=eo)
    k = run.crash_key(r)
    if k or r.hung:
        return c.violate("elaboration: " + (k or "does not terminate"), r.err[-1500:])
    if r.rc != 0:
        return c.violate("elaboration: legal design rejected: " + re.sub(r"\d+|'[^']*'", "N", (re.findall(r"(?:Error|Fatal|Failure): (.*)", r.err) or ["?"])[0])[:90], " ".join(eo) + "\n" + r.err[:1500])
    got = Counter(re.findall(r"Note: \S+: (@.*)", r.err))
    want = Counter(exp)
    c.counts["regions"] += len(exp)
    for l in exp:
        c.counts["for iterations"] += l.split()[0].count("(")
    c.counts["instances"] += sum(l.split()[1].count("@") > 0 for l in exp)
    if got != want:
        norm = lambda d: Counter(re.sub(r"\((%s)\)" % "|".join(hier.COL), lambda m: "(%d)" % hier.COL.index(m[1]), x) for x in d.elements())
        if norm(got) == norm(want):
            a, b = sorted((want - got).elements()), sorted((got - want).elements())
            return c.violate("elaboration: name of a generate over an enumeration has the position of its index", "\n".join(a[:4] + b[:4]))
        got, want = norm(got), norm(want)
        a, b = sorted((want - got).elements()), sorted((got - want).elements())
        pa, pb = {x.split()[0] for x in a}, {x.split()[0] for x in b}
        kind = "region missing" if pa - pb else "region that should not exist" if pb - pa else \
            "wrong instance name" if {x.split()[1] for x in a} != {x.split()[1] for x in b} else "wrong generic or constant value"
        return c.violate("elaboration: " + kind, "options %s\nmissing:\n%s\nextra:\n%s" % (eo, "\n".join(a[:8]), "\n".join(b[:8])))
    c.digest(sorted(exp))


def jit(c, i):
    tree(c, i, "jit")


def main(c):
    c.build(["plain"])
    c.rule = "random hierarchies; distinct = distinct sets of elaborated regions with their values"
    c.run({"tree": tree, "jit": jit}, [("tree", c.n(700, 20000)), ("jit", c.n(100, 2000))])
