"""Coverage: counts in the exported database against a reference interpreter that counts; merges
against addition; the covered simulation against the uncovered one."""
import re, os, itertools
import xml.etree.ElementTree as ET
from collections import Counter
from vf import run, build, covgen, work


def export(c, db, name="o.xml"):
    r = run.nvc(["--cover-export", "--format=xml", "-o", name, db], c.tmp)
    if r.rc or run.crash_key(r):
        return None, r
    return ET.parse(os.path.join(c.tmp, name)).getroot(), r


def read(root):
    """instance path -> {key: count} in the reference's terms; expressions as multisets."""
    out = {}

    def bin_of(e):
        return e.get("hier").rsplit("BIN_", 1)[1], int(e.get("data"))

    def gather(scope, st, line=None):
        """Branches and expressions of one statement: its own and those of its branches."""
        line = scope.get("line") or line
        for e in scope:
            if e.tag == "branch":
                b, n = bin_of(e)
                if b == "CHOICE":
                    st["c"].append((int(line), n))
                else:
                    st["b"].append((b, n))
            elif e.tag == "expression":
                st["e"].append(bin_of(e))
            elif e.tag == "scope" and e.get("name").startswith("_B"):
                gather(e, st, line)

    def walk(scope, path, line, inst):
        line = scope.get("line") or line
        if scope.get("block_name"):
            inst = path
            out.setdefault(inst, {})
        ss = [e for e in scope if e.tag == "statement"]
        if ss:
            st = {"s": int(ss[0].get("data")), "b": [], "e": [], "c": []}
            gather(scope, st, line)
            out[inst].setdefault(int(line), []).append(st)
        for e in scope:
            if e.tag == "scope":
                walk(e, path + [e.get("name")] if False else path + (e.get("name"),), line, inst)
            elif e.tag == "toggle":
                n = e.get("hier").split(".")
                out[inst][n[-2].lower(), {"BIN_0_TO_1": "0_1", "BIN_1_TO_0": "1_0"}[n[-1]]] = int(e.get("data"))
            elif e.tag == "state":
                out[inst]["st", "ABCDE".index(e.get("hier")[-1])] = int(e.get("data"))
    walk(root, (), None, None)
    return out


AGAIN = "coverage: toggle of an element counted again at an event on another element"


def judge(c, got, exp):
    """First difference, or None."""
    for path, (u, cov, x0, stale, seed) in exp.items():
        g = next((v for k, v in got.items() if k and ".".join(k).endswith("TOP." + path)), None)
        if g is None:
            return "instance missing", path
        want = {}
        for key, n in cov.items():
            if isinstance(key[0], str):
                if g.get(key) != n and key in stale and g.get(key) == stale[key]:
                    c.again = "%s %r expected %d got %r" % (path, key, n, g.get(key))
                    c.counts["counts with repeated transitions (known finding)"] += 1
                    continue
                if g.get(key) != n:
                    return ("toggle count" if key[0] != "st" else "state count"), "%s %r expected %d got %r" % (path, key, n, g.get(key))
                c.counts["toggle and state counts"] += 1
                continue
            w = want.setdefault(key[0], {"s": 0, "b": {}, "e": [], "c": []})
            if key[1] == "s":
                w["s"] = n
            elif key[1] == "b":
                w["b"][key[2:]] = n
            elif key[1] == "c":
                w["c"].append((key[2], n))
            else:
                w["e"].append((key[3], n))
        skip = covgen.count_b2s(cov, u)
        lines = {l for l in g if isinstance(l, int)} - skip
        for l in sorted(set(want) | lines):
            if l not in g:
                if u.uncalled(l):
                    c.counts["lines of subprograms nobody calls, without data"] += 1
                    continue
                return "statement without data", "%s line %d" % (path, l)
            if l not in want:
                return "data without statement", "%s line %d" % (path, l)
            if len(g[l]) != 1:
                return "statement counted twice", "%s line %d" % (path, l)
            a, w = g[l][0], want[l]
            if a["s"] != w["s"]:
                return "statement count", "%s line %d expected %d got %d" % (path, l, w["s"], a["s"])
            wb = []
            for k in sorted(w["b"], key=lambda k: (k[0], k[1] != "TRUE")):
                wb.append((k[1], w["b"][k]))
            if a["b"] != wb:
                return "branch count", "%s line %d expected %r got %r" % (path, l, wb, a["b"])
            if sorted(a["c"]) != sorted(w["c"]):
                return "choice count", "%s line %d expected %r got %r" % (path, l, sorted(w["c"]), sorted(a["c"]))
            if Counter(a["e"]) != Counter(w["e"]):
                return "expression count", "%s line %d expected %r got %r" % (path, l, sorted(w["e"]), sorted(a["e"]))
            c.counts["statement counts"] += 1
            c.counts["branch counts"] += len(wb) + len(w["c"])
            c.counts["expression counts"] += len(a["e"])
    return None


def totals(c, root):
    return {e.get("hier"): int(e.get("data")) for e in root.iter() if e.get("hier")}


def count(c, i):
    r = c.rng
    for _ in range(50):
        try:
            d = covgen.Design(r)
            bases = [r.randint(0, 40) for _ in range(r.choice([1, 2, 3]))]
            exps = [d.expect(b) for b in bases]
            break
        except (OverflowError, covgen.Exit, covgen.Next, covgen.Ret):
            pass
    else:
        return
    c.file("t.vhd", d.text)
    # coverage always compiles ahead of time
    eng = r.choice(["-O0", "-O1", "-O2"])
    c.again = None
    kinds = r.choice(["--cover", "--cover=all", "--cover=statement,branch,expression,toggle,fsm-state"])
    tots = []
    for k, (b, e) in enumerate(zip(bases, exps)):
        c.evals += 1
        x = run.nvc(["-a", "t.vhd", "-e", eng, kinds, "--cover-file=d%d.db" % k, "-gbase=%d" % b, "top", "-r", "--stop-time=1ms"], c.tmp, lib=build.MINI)
        if run.crash_key(x) or x.rc or x.hung:
            return c.violate("coverage: run failed " + str(run.crash_key(x)), "%s\n%s" % (eng, (x.out + x.err)[-2000:]))
        said = Counter(re.findall(r"(?m)^\*\* Note: \S+: (end .*)", x.out + x.err))
        want = Counter("end %s %d %d" % (u.name, seed, x0) for u, cov, x0, stale, seed in e.values())
        if said != want:
            c.inconclusive = "the designs differ, which other checks judge: %r %r" % (said, want)
            return
        root, x = export(c, "d%d.db" % k)
        if root is None:
            return c.violate("coverage: export failed", (x.out + x.err)[-1500:])
        v = judge(c, read(root), e)
        if v:
            return c.violate("coverage: " + v[0], "%s %s -gbase=%d: %s" % (eng, kinds, b, v[1]))
        tots.append(totals(c, root))
    c.digest([sorted(t.items()) for t in tots])
    if c.again:
        c.violate(AGAIN, c.again)
    # merges
    n = len(bases)
    perms = list(itertools.permutations(range(n)))
    r.shuffle(perms)
    for p in perms[:3]:
        p = list(p)
        mult = Counter(p)
        if r.random() < .3:
            p.append(p[0])          # the same run twice
            mult[p[0]] += 1
        step = r.random() < .4 and len(p) > 2
        dbs = ["d%d.db" % k for k in p]
        if step:
            x = run.nvc(["--cover-merge", "-o", "m0.db"] + dbs[:2], c.tmp)
            dbs = [dbs[2], "m0.db"] + dbs[3:] if r.random() < .5 else ["m0.db"] + dbs[2:]
        x = run.nvc(["--cover-merge", "-o", "m.db"] + dbs, c.tmp)
        c.evals += 1
        if x.rc or run.crash_key(x):
            return c.violate("coverage: merge failed", "%r\n%s" % (p, (x.out + x.err)[-1500:]))
        root, x = export(c, "m.db")
        if root is None:
            return c.violate("coverage: export of merge failed", (x.out + x.err)[-1500:])
        m = totals(c, root)
        w = Counter()
        for k, q in mult.items():
            for h, v in tots[k].items():
                w[h] += v * q
        c.counts["merges"] += 1
        if m != dict(w):
            h = next(h for h in sorted(set(m) | set(w)) if m.get(h) != w.get(h))
            return c.violate("coverage: merge is not addition", "runs %r: %s expected %r got %r" % (p, h, w.get(h), m.get(h)))


def union(c, i):
    """Databases of designs that share only some instances."""
    r = c.rng
    for _ in range(50):
        try:
            d = covgen.Design(r)
            d.expect(0)
            break
        except (OverflowError, covgen.Exit, covgen.Next, covgen.Ret):
            pass
    else:
        return
    c.file("t.vhd", d.text)
    tots = []
    for k in range(2):
        top = "top%d" % k
        t = ["entity x is end entity;", "architecture a of x is", "begin"]
        for u, n, g, sd in d.inst:
            if r.random() < .7:
                t.append("  i%d : entity work.%s generic map (seed => %d);" % (n, u.name, r.randint(0, 9)))
        t += ["end architecture;"]
        c.file("x%d.vhd" % k, "\n".join(t) + "\n")
        x = run.nvc(["-a", "t.vhd", "x%d.vhd" % k, "-e", "-O0", "--cover", "--cover-file=d%d.db" % k, "x", "-r", "--stop-time=1ms"], c.tmp, lib=build.MINI)
        if run.crash_key(x) or x.rc:
            return c.violate("coverage: run failed " + str(run.crash_key(x)), (x.out + x.err)[-2000:])
        root, x = export(c, "d%d.db" % k)
        tots.append(totals(c, root))
    ms = []
    for p in ((0, 1), (1, 0)):
        x = run.nvc(["--cover-merge", "-o", "m.db"] + ["d%d.db" % k for k in p], c.tmp)
        c.evals += 1
        root, x = export(c, "m.db") if x.rc == 0 else (None, x)
        if root is None:
            return c.violate("coverage: merge failed", (x.out + x.err)[-1500:])
        ms.append(totals(c, root))
    w = Counter()
    for t in tots:
        for h, v in t.items():
            w[h] += v
    for m, p in zip(ms, ("first, second", "second, first")):
        if m != dict(w):
            h = next(h for h in sorted(set(m) | set(w)) if m.get(h) != w.get(h))
            return c.violate("coverage: merge is not addition", "%s: %s expected %r got %r" % (p, h, w.get(h), m.get(h)))
    c.counts["merges of different designs"] += 1
    c.digest(sorted(w.items()))


def neutral(c, i):
    """The same output and waveforms with and without coverage."""
    r = c.rng
    kind, text, top, std, eo = work.design(r)
    c.file("t.vhd", text)
    lv = eng = r.choice([0, 1, 2])
    ref = None
    for cov in ([], [r.choice(["--cover", "--cover=all", "--cover=toggle,include-mems,count-from-undefined", "--cover=branch", "--cover=expression"])]):
        x = run.nvc(["-a", "t.vhd", "-e", "-O%d" % lv] + list(eo) + cov + [top, "-r", "--stop-time=200ns", "--wave=w.vcd", "--format=vcd"], c.tmp, std=std, lib=build.MINI)
        c.evals += 1
        if run.crash_key(x) and cov:
            return c.violate("coverage: " + run.crash_key(x), "%s %s\n%s" % (kind, cov, (x.out + x.err)[-2500:]))
        if x.hung or run.crash_key(x):
            return
        try:
            w = open(os.path.join(c.tmp, "w.vcd"), encoding="latin-1").read()
            w = re.sub(r"\$date.*?\$end", "", w, flags=re.S)
        except OSError:
            w = None
        cur = (x.rc, re.findall(r"(?m)^\*\* (?!Debug)\w+: .*", x.out + x.err), w)
        if ref is None:
            ref = cur
        elif cur != ref:
            what = "exit status" if cur[0] != ref[0] else "output" if cur[1] != ref[1] else "waveform dump"
            return c.violate("coverage: changes the " + what, "%s -O%s %s\n%r\n%r" % (kind, eng, cov, [m for m in ref[1] if m not in cur[1]][:3], [m for m in cur[1] if m not in ref[1]][:3]))
    c.counts["runs with and without coverage compared"] += 1
    c.digest(ref[1])


def main(c):
    c.build(["plain"])
    c.rule = "one random design each, with up to three runs; distinct = distinct sets of counts"
    c.run({"count": count, "union": union, "neutral": neutral}, [("count", c.n(150, 20000)), ("union", c.n(40, 4000)), ("neutral", c.n(60, 8000))])
