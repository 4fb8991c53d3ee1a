"""Library round trip: what a unit means does not depend on whether it is used in the process that
analysed it or read back from the library; re-analysis invalidates exactly the dependents."""
import os, re, itertools
from collections import Counter
from vf import run, build, corpus, work

LINE = re.compile(r"^\*\* (\w+): (.*)")


def notes(r):
    out = []
    for l in (r.out + r.err).splitlines():
        m = LINE.match(l)
        if m and m[1] != "Debug" and "should be reanalysed" not in l:
            out.append((m[1], re.sub(r"/(one|two)\b", "/run", m[2])))
    return out


def engine(c, eng, eo, extra=None):
    o, ev = run.ENGINES[eng]
    return list(o) + list(eo), dict(ev, **(extra or {}))


def split(c, what, files, top, std, ao=(), eo=(), ro=(), gl=(), eng="interp", sep=False):
    """Run once in one process and once in three or more; compare."""
    eo2, env = engine(c, eng, eo)
    d1, d2 = os.path.join(c.tmp, "one"), os.path.join(c.tmp, "two")
    for d in (d1, d2):
        os.mkdir(d)
    one = run.nvc(["-a"] + list(ao) + files + ["-e"] + eo2 + [top, "-r"] + list(ro), d1, std=std, glob=gl, env=env)
    c.evals += 1
    if run.crash_key(one) or one.hung:
        c.counts["single process run crashed"] += 1    # other checks judge that
        return None
    rs = []
    for f in ([[f] for f in files] if sep else [files]):
        r = run.nvc(["-a"] + list(ao) + f, d2, std=std, glob=gl, env=env)
        rs.append(r)
        if r.rc:
            break
    if not rs[-1].rc:
        rs.append(run.nvc(["-e"] + eo2 + [top], d2, std=std, glob=gl, env=env))
    if not rs[-1].rc:
        rs.append(run.nvc(["-r"] + list(ro) + [top], d2, std=std, glob=gl, env=env))
    for r in rs:
        k = run.crash_key(r)
        if k or r.hung:
            c.violate("library: split run: " + (k or "hangs"), what + "\n" + r.err[-2000:])
            return None
    a, b = notes(one), [x for r in rs for x in notes(r)]
    # packages are initialised once more in each process
    init = lambda l: {x for x in l if x[1].startswith("(init)")}
    ia, ib = init(a), init(b)
    if ia == ib:
        a, b = [x for x in a if x not in ia], [x for x in b if x not in ib]
    if a != b or one.rc != rs[-1].rc:
        again = run.nvc(["-a"] + list(ao) + files + ["-e"] + eo2 + [top, "-r"] + list(ro), d1, std=std, glob=gl, env=env)
        if notes(again) != notes(one):
            c.counts["not reproducible (clock, random)"] += 1
            return None
        ca, cb = Counter(a), Counter(b)
        key = "library: unit read back behaves differently" if ca != cb else "library: message order differs after reading back"
        c.violate(key, "%s (%s, %s)\nrc %d / %d\nonly single: %r\nonly split: %r" % (
            what, std, eng, one.rc, rs[-1].rc, list((ca - cb).elements())[:4], list((cb - ca).elements())[:4]))
        return None
    c.counts["messages compared"] += len(a)
    c.counts["runs compared"] += 1
    c.digest(a)
    return d1, d2


def units(f, std):
    t = open(f, encoding="latin-1").read()
    t = re.sub(r"--.*", "", t)
    us = []
    for m in re.finditer(r"(?im)^\s*(entity|package(?:\s+body)?|architecture|configuration|context)\s+(\w+)\s+(?:of\s+(\w+)\s+)?is\b(?!\s*new)", t):
        k = re.sub(r"\s+", " ", m[1].lower())
        u = m[2].lower()
        us.append({"architecture": "%s-%s" % ((m[3] or "x").lower(), u), "package body": u + "-body"}.get(k, u))
    return list(dict.fromkeys(us))


def dumps(c, what, files, us, std, ao=(), gl=()):
    """The dump of a unit is the same before it is stored and after it is read."""
    d = os.path.join(c.tmp, "d%d" % c.evals)
    os.mkdir(d)
    c.evals += 1
    for u in us:
        du = ["--dump", "-b", u[:-5]] if u.endswith("-body") else ["--dump", u]
        one = run.nvc(["-a"] + list(ao) + files + du, d, std=std, glob=gl)
        if run.crash_key(one) or one.hung or one.rc:
            c.counts["unit not dumped"] += 1
            continue
        two = run.nvc(du, d, std=std, glob=gl)
        k = run.crash_key(two)
        if k or two.hung:
            c.violate("library: dump of stored unit: " + (k or "hangs"), "%s unit %s\n%s" % (what, u, two.err[-1500:]))
            continue
        if one.out != two.out:
            a, b = one.out.split("\n"), two.out.split("\n")
            n = next((i for i, (x, y) in enumerate(itertools.zip_longest(a, b)) if x != y))
            c.violate("library: stored unit differs from the analysed one", "%s unit %s (%s) line %d\n%s\n%s\n%s" % (
                what, u, std, n, "\n".join(a[n:n + 3]), "\n".join(b[n:n + 3]), two.err[:500]))
            continue
        c.counts["units dumped twice"] += 1
        c.counts["dump lines compared"] += one.out.count("\n")
        c.digest(one.out[:4000])


def regress(c, i):
    name, std, ao, eo, ro, gl, files = REG[i % len(REG)]
    ro = list(ro)
    if not any(x.startswith("--stop-time") for x in ro):
        ro.append("--stop-time=5us")
    split(c, name, files, name, std, ao, eo, ro, gl, eng=c.rng.choice(["interp", "interp", "jit"]))


def regdump(c, i):
    name, std, ao, eo, ro, gl, files = REG[i % len(REG)]
    us = [u for f in files for u in units(f, std)]
    c.rng.shuffle(us)
    dumps(c, name, files, us[:3], std, ao, gl)


def srcdump(c, i):
    f = SRC[(i * 7) % len(SRC)]
    us = units(f, "2008")
    c.rng.shuffle(us)
    for std in c.rng.sample(["1993", "2008", "2019"], 1 if not THOROUGH else 3):
        dumps(c, os.path.basename(f), [f], us[:2], std, c.rng.choice([[], ["--relaxed"], ["--psl"]]))


def generated(c, i):
    kind, text, top, std, eo = work.design(c.rng)
    c.counts["generated " + kind] += 1
    p = c.file("t.vhd", text)
    ro = ["--stop-time=200ns"]
    split(c, kind, ["../t.vhd"], top, std, eo=eo, ro=ro, eng=c.rng.choice(["interp", "interp", "jit"]))
    us = units(p, std)
    dumps(c, kind, ["../t.vhd"], c.rng.sample(us, min(3, len(us))), std)


def deps(c, i):
    """A random graph of units, changed and re-analysed in a random history."""
    r = c.rng
    n = r.randint(3, 7)
    std = r.choice(["1993", "2008", "2019"])
    kinds, uses, val, loc = [], [], [], []
    for k in range(n):
        kinds.append(r.choice(["pack", "pack", "body", "ent"]))
        cand = [j for j in range(k) if kinds[j] in ("pack", "body")]
        uses.append(sorted(r.sample(cand, min(len(cand), r.randint(0, 3)))))
        val.append(r.randint(0, 9))
    bval = [r.randint(0, 9) for _ in range(n)]
    pad = [0] * n
    ents = [k for k in range(n) if kinds[k] == "ent"]
    # what each unit stored in the library was built from: its own content and its dependencies' version
    ver = [0] * n

    def source(k):
        u = "".join("use work.u%d.all;\n" % j for j in uses[k])
        s = "%d" % val[k] + "".join(" + k%d" % j for j in uses[k])
        f = "".join(" + f%d(z)" % j for j in uses[k] if kinds[j] == "body")
        cm = "-- comment\n" * pad[k]
        if kinds[k] == "pack":
            return cm + u + "package u%d is\n  constant k%d : integer := %s;\nend;\n" % (k, k, s)
        if kinds[k] == "body":
            return cm + u + "package u%d is\n  constant k%d : integer := %s;\n  function f%d(z : integer) return integer;\nend;\n" % (k, k, s, k)
        return cm + u + "entity u%d is end;\narchitecture a of u%d is\nbegin\n  process\n    variable z : integer := 1;\n  begin\n    report \"u%d=\" & integer'image(%s%s);\n    wait;\n  end process;\nend;\n" % (k, k, k, s, f)

    def body(k):
        f = "".join(" + f%d(z)" % j for j in uses[k] if kinds[j] == "body")
        u = "".join("use work.u%d.all;\n" % j for j in uses[k])
        return u + "package body u%d is\n  function f%d(z : integer) return integer is begin return k%d + %d%s; end;\nend;\n" % (k, k, k, bval[k], f)

    def K(k):
        return val[k] + sum(K(j) for j in uses[k])

    def F(k):
        return K(k) + bval[k] + sum(F(j) for j in uses[k] if kinds[j] == "body")

    def value(k):
        return K(k) + sum(F(j) for j in uses[k] if kinds[j] == "body")

    built = {}    # unit -> (its own text, {dep: built version}) as stored in the library
    bbuilt = {}
    log = []

    def analyse(k, what="spec"):
        t = source(k) if what == "spec" else body(k)
        name = "u%d%s.vhd" % (k, "" if what == "spec" else "b")
        c.file(name, t)
        x = run.nvc(["-a", name], c.tmp, std=std, glob=["--ignore-time"])
        log.append("%s -> %s" % (name, x.rc))
        if run.crash_key(x) or x.hung:
            c.violate("library: re-analysis: " + (run.crash_key(x) or "hangs"), "\n".join(log) + x.err[-1500:])
            return None
        ok = all(fresh(j) for j in uses[k]) if what == "spec" else fresh(k) and all(fresh(j) for j in uses[k])
        if ok and x.rc:
            c.violate("library: legal re-analysis rejected", "\n".join(log) + "\n" + x.err[:1500])
            return None
        if not ok and not x.rc:
            c.violate("library: analysis accepted with an obsolete dependency", "\n".join(log))
            return None
        c.counts["analyses"] += 1
        if x.rc:
            c.counts["analyses refused for obsolete dependencies"] += 1
            return True
        if what == "spec":
            nv = (t, tuple((j, built[j]) for j in uses[k]), val[k])
            built[k] = nv
        else:
            bbuilt[k] = (t, built[k], tuple((j, built[j]) for j in uses[k]), bval[k])
        return True

    def fresh(k):
        """The stored unit and everything it depends on are those it was built from."""
        if k not in built:
            return False
        return all(built.get(j) == v and fresh(j) for j, v in built[k][1])

    def bfresh(k):
        return k in bbuilt and bbuilt[k][1] == built[k] and all(built[j] == v and fresh(j) for j, v in bbuilt[k][2])

    def needs_bodies(k):
        s = set()
        st = list(uses[k])
        while st:
            j = st.pop()
            if j not in s:
                s.add(j)
                st += uses[j]
        return [j for j in s if kinds[j] == "body"]

    for k in range(n):
        if not analyse(k):
            return
        if kinds[k] == "body" and not analyse(k, "body"):
            return
    for step in range(r.randint(3, 8)):
        a = r.random()
        k = r.randrange(n)
        if a < .3:
            val[k] = r.randint(0, 9)
            if not analyse(k):
                return
        elif a < .42:
            if not analyse(k):     # identical text
                return
        elif a < .55 and kinds[k] == "body":
            bval[k] = r.randint(0, 9)
            if not analyse(k, "body"):
                return
        elif a < .75:
            # bring everything up to date, in order
            for j in range(n):
                if not fresh(j) and not analyse(j):
                    return
                if kinds[j] == "body" and not bfresh(j) and not analyse(j, "body"):
                    return
        for k in ents:
            x = run.nvc(["-e", "--jit", "u%d" % k, "-r"], c.tmp, std=std, glob=["--ignore-time"])
            c.evals += 1
            if run.crash_key(x) or x.hung:
                return c.violate("library: elaboration after re-analysis: " + (run.crash_key(x) or "hangs"), "\n".join(log) + x.err[-1500:])
            good = fresh(k) and all(fresh(j) and bfresh(j) for j in needs_bodies(k))
            m = re.search(r"u%d=(-?\d+)" % k, x.err)
            log.append("run u%d -> %s %s" % (k, x.rc, m and m[1]))
            if good:
                if x.rc or not m:
                    return c.violate("library: up-to-date unit rejected", "\n".join(log) + "\n" + x.err[:1500])
                c.counts["up-to-date designs run"] += 1
            elif x.rc == 0 and m:
                # a value computed from consistent units only is acceptable; a mixture is not
                c.counts["stale designs that ran"] += 1
            else:
                c.counts["stale designs refused"] += 1
            if m and good and int(m[1]) != value_built(k, built, bbuilt, uses, kinds):
                return c.violate("library: wrong value after re-analysis", "\n".join(log) + "\nexpected %d" % value_built(k, built, bbuilt, uses, kinds))
            if m and not good and not fresh(k):
                return c.violate("library: unit with an obsolete dependency was used", "\n".join(log))
    c.digest([l for l in log])


def value_built(k, built, bbuilt, uses, kinds):
    def K(j):
        return built[j][2] + sum(K(q) for q in uses[j])

    def F(j):
        return K(j) + bbuilt[j][3] + sum(F(q) for q in uses[j] if kinds[q] == "body")
    return K(k) + sum(F(j) for j in uses[k] if kinds[j] == "body")


def main(c):
    global REG, SRC, THOROUGH
    THOROUGH = c.n(0, 1)
    c.build(["plain"])
    REG = corpus.regress()
    SRC = [f for f in corpus.sources() if f.endswith((".vhd", ".vhdl"))]
    c.rule = "every regression design, every unit-test source, generated designs and histories; distinct = distinct logs and dumps"
    c.run({"regress": regress, "regdump": regdump, "srcdump": srcdump, "generated": generated, "deps": deps},
          [("regress", len(REG)), ("regdump", len(REG)), ("srcdump", c.n(450, len(SRC))), ("generated", c.n(160, 5000)), ("deps", c.n(160, 5000))])
