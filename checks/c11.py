"""IEEE packages: reference in Python, and built-in replacements against the VHDL source."""
import re
from vf import run, ieee


def notes(err):
    """[(text)] of notes and warnings in order."""
    return [m.group(2) for m in re.finditer(r"^\*\* (Note|Warning): (?:\S+: )?(.*)$", err, re.M)]


MODES = [("default", "interp", {}), ("no built-ins", "interp", {"NVC_JIT_INTRINSICS": "0"}),
         ("no vector built-ins", "interp", {"NVC_VECTOR_INTRINSICS": "0"}), ("compiled", "jit", {})]


RES = re.compile(r"(\d+) (-?\d+) (-?\d+) (true|false):(.*)$")


def normalised(base, other):
    """Do the logs differ only in bounds that the built-in made (length - 1 downto 0)?"""
    if len(base) != len(other):
        return False
    for p, q in zip(base, other):
        if p == q:
            continue
        a, b = RES.match(p), RES.match(q)
        if not a or not b or a.group(1, 5) != b.group(1, 5):
            return False
        if (int(a.group(2)), int(a.group(3)), a.group(4)) != (len(a.group(5)) - 1, 0, "false"):
            return False
    return True


def judge(c, text, exp, std, modes, aopts=()):
    c.file("t.vhd", text)
    logs = {}
    for name, eng, env in modes:
        c.evals += 1
        r = run.simulate(c.tmp, ["t.vhd"], "top", eng, std=std, env=env, aopts=aopts)
        k = run.crash_key(r)
        if k or r.hung:
            return c.violate("ieee: %s" % (k or "does not terminate"), name + "\n" + r.err[-1500:])
        if r.rc != 0:
            return c.violate("ieee: legal design failed", name + "\n" + "\n".join(
                l for l in r.err.splitlines() if "Note" not in l and "Warning" not in l)[:1500])
        l = notes(r.err)
        logs[name] = l
        got = [x for x in l if re.match(r"\d+ ", x)]
        for j, (t, want) in enumerate(exp):
            g = got[j] if j < len(got) else "nothing"
            v = g.split(" ", 1)[1] if " " in g else g
            v = v.split(":", 1)[1] if ":" in v else v
            if want is None:
                continue
            if v != want:
                return c.violate("ieee: wrong value", "%s: %s\n got %s\nwant %s" % (name, t, v, want))
            c.counts["values"] += 1
        c.digests.update([hash(x) for x in got][:0])
        c.digest(got)
    base = logs[modes[0][0]]
    for name in logs:
        if logs[name] != base:
            if "--relaxed" in aopts and normalised(base, logs[name]):
                c.violate("ieee: std_logic_unsigned built-in result has other bounds", name)
                continue
            d = next((i for i, (p, q) in enumerate(zip(base, logs[name])) if p != q), min(len(base), len(logs[name])))
            return c.violate("ieee: built-in differs from source", "%s:\n%s\n%s:\n%s" % (
                modes[0][0], "\n".join(base[d:d + 3]), name, "\n".join(logs[name][d:d + 3])))


def numeric(c, i):
    std = c.rng.choice(["2008", "2008", "1993", "2019"])
    g = ieee.Gen(c.rng, std)
    g.bitpk = c.rng.random() < .15
    g.program(40)
    judge(c, g.text(), g.exp, std, MODES[:3] + (MODES[3:] if i % 15 == 0 else []))


def synopsys(c, i):
    std = c.rng.choice(["2008", "1993"])
    g = ieee.Syn(c.rng, std)
    g.program(40)
    judge(c, g.text(), g.exp, std, MODES[:3] + (MODES[3:] if i % 15 == 0 else []), aopts=["--relaxed"])


def math(c, i):
    std = c.rng.choice(["2008", "1993"])
    g = ieee.Math(c.rng)
    c.file("t.vhd", g.text())
    for name, eng, env in MODES[:2]:
        c.evals += 1
        r = run.simulate(c.tmp, ["t.vhd"], "top", eng, std=std, env=env)
        if run.crash_key(r) or r.rc != 0:
            return c.violate("ieee: math_real design failed", name + "\n" + r.err[-1500:])
        got = [x for x in notes(r.err) if re.match(r"\d+ ", x)]
        for (t, want, exact), g1 in zip(g.exp, got):
            v = float(g1.split(" ")[1])
            # the packages promise no more than this; the source uses CORDIC and series
            tol = 1e-14 * abs(want) if exact else 3e-8 * (1 + abs(want))
            if abs(v - want) > tol:
                return c.violate("ieee: wrong real value", "%s: %s\n got %r\nwant %r" % (name, t, v, want))
            c.counts["values"] += 1
        c.digest(got)


def main(c):
    c.build(["plain"])
    c.rule = ("random calls (seeded) with random operands: lengths 0 to 130, both directions, slices, constants and "
              "variables, metavalues; distinct = distinct sets of results")
    c.assumptions = ["the references in vf/ieee.py state IEEE 1076 clause 16.8 and the Synopsys packages",
                     "real functions are required to be right within 3e-8"]
    c.run({"numeric": numeric, "synopsys": synopsys, "math": math},
          [("numeric", c.n(300, 10000)), ("synopsys", c.n(100, 4000)), ("math", c.n(40, 1000))])
