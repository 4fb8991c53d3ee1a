"""Heap objects: random programs over linked structures whose every observation the reference heap
predicts, under small heaps, collection at every allocation, every engine and several processes."""
import re
from vf import run, heapgen


def case(c, i):
    r = c.rng
    stress = r.random() < .3
    text, exp, bad = heapgen.program(r, stress)
    c.file("t.vhd", text)
    eng = r.choice(["interp", "jit", "jit", "jitasync"])
    heap = r.choice([["-H", "1m"], ["-H", "1m"], ["-H", "2m"], []])
    env = {"NVC_GC_STRESS": "1"} if stress else {}
    if stress:
        c.counts["runs that collect at every allocation"] += 1
    env["NVC_GC_VERBOSE"] = "1"
    c.evals += 1
    x = run.simulate(c.tmp, ["t.vhd"], "top", eng, "2019", glob=heap, env=env)
    t = x.out + x.err
    if "out of memory" in t and heap:
        # what a conservative collector keeps by accident is bounded
        c.counts["out of memory, run again with twice the heap"] += 1
        x = run.simulate(c.tmp, ["t.vhd"], "top", eng, "2019", glob=["-H", "4m"], env=env)
        t = x.out + x.err
    k = run.crash_key(x)
    if k:
        return c.violate("heap: " + k, "%s %s stress=%s\n%s" % (eng, heap, stress, t[-3000:]))
    if x.hung:
        return c.violate("heap: no end", "%s %s stress=%s" % (eng, heap, stress))
    c.counts["collections"] += len(re.findall(r"GC: ", t))
    c.counts["engine " + eng] += 1
    got = {p: [] for p in exp}
    for m in re.findall(r"(?m)^\*\* Note: \S+: (P(\d+)[ .].*)", t):
        got[int(m[1])].append(m[0])
    for p, e in exp.items():
        if got[p] != e:
            n = next((q for q, (a, b) in enumerate(zip(got[p], e)) if a != b), min(len(got[p]), len(e)))
            g = got[p][n] if n < len(got[p]) else None
            err = re.findall(r"(?m)^\*\* (?:Error|Fatal): .*", t)
            if g is None and err:
                return c.violate("heap: " + re.sub(r"\d+\w*\+?\d*:? ?|\(.*?\)", "", err[0])[:70], "%s %s stress=%s\nafter %r\n%s" % (eng, heap, stress, got[p][-1:], "\n".join(err[:3])))
            w = e[n] if n < len(e) else None
            return c.violate("heap: wrong value", "%s %s stress=%s: P%d expected %r got %r" % (eng, heap, stress, p, w, g))
        c.counts["observations"] += len(e)
    if bad:
        c.counts["null dereferences"] += 1
        if x.rc != 1 or "null access dereference" not in t:
            return c.violate("heap: null dereference not reported", "%s rc=%s\n%s" % (eng, x.rc, t[-600:]))
    elif x.rc != 0:
        return c.violate("heap: exit status", "rc=%s\n%s" % (x.rc, t[-1500:]))
    c.digest(sorted(exp.items()))


def main(c):
    c.build(["plain"])
    c.rule = "one random program each; distinct = distinct sets of values observed"
    c.run({"case": case}, [("case", c.n(800, 30000))])
