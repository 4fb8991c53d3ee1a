"""Waveform dumps record exactly the simulated history."""
import os
from vf import netgen, kernel, run, waves, build


def sim(c, s, sigs, engine="interp"):
    rng = c.rng
    exp = s.run()
    c.file("t.vhd", s.text())
    fmt = "vcd" if c.rng.random() < .45 else "fst"
    limit = rng.choice([0, 0, 3, 1000])
    ro = ["--wave=w.out", "--format=" + fmt]
    if limit:
        ro.append("--dump-arrays" + ("=%d" % limit if limit < 1000 or rng.random() < .5 else ""))
        if not ro[-1].endswith(str(limit)):
            limit = 4294967295
    eo = ["--no-collapse"] if rng.random() < .4 else []
    inc, exc = [], []
    names = [":" + ":".join(p) + ":" + x.name for p, x in sigs]
    for l, o, pr in ((inc, "--include=", .3), (exc, "--exclude=", .3)):
        if rng.random() < pr:
            for _ in range(rng.randint(1, 2)):
                n = rng.choice(names)
                k = rng.random()
                if k < .3:
                    g = n
                elif k < .55:
                    g = n[:n.rindex(":")] + ":*"
                elif k < .75:
                    g = "*" + n[n.rindex(":"):]
                else:
                    i, j = sorted(rng.randint(0, len(n)) for _ in range(2))
                    g = n[:i] + "*" + n[j:]
                l.append(g)
    if (inc or exc) and rng.random() < .3:
        # the same in files beside the library
        if inc:
            c.file("top.include", "# comment\n" + "\n".join(inc) + "\n")
        if exc:
            c.file("top.exclude", "\n".join(exc) + "\n  # end\n")
        c.counts["selection from files"] += 1
    else:
        ro += ["--include=" + g for g in inc] + ["--exclude=" + g for g in exc]
    stop = None
    if rng.random() < .3:
        stop = rng.randint(0, 12) * 500
        ro.append("--stop-time=%dps" % stop)
        c.counts["stop time"] += 1
    if rng.random() < .3:
        ro.append("--gtkw=w.gtkw")
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", engine, eopts=eo, ropts=ro)
    k = run.crash_key(r)
    if k or r.hung:
        return c.violate("waves: " + (k or "does not terminate"), r.err[-1500:])
    if r.rc != 0:
        return c.violate("waves: legal design failed", "\n".join(l for l in r.err.splitlines() if "Note" not in l)[:1500])
    got = kernel.parse_notes(r.err)
    if kernel.compare(got, exp) and stop is None:
        c.inconclusive = "trace differs (C01-C03)"     # decided by other checks; but a dump must not change it
        c.file("exp.txt", "\n".join(map(str, exp)))
        r2 = run.simulate(c.tmp, ["t.vhd"], "top", engine, eopts=eo)
        if kernel.compare(got, kernel.parse_notes(r2.err)):
            c.inconclusive = None
            c.violate("waves: dumping changes the simulation", "")
        return
    p = os.path.join(c.tmp, "w.out")
    if not any(waves.selected(n, inc, exc) and waves.wanted(x.t, x.name, q, limit) for n, (q, x) in zip(names, sigs)):
        c.counts["nothing selected"] += 1
        return
    if fmt == "fst":
        q = run.run([TOOL, p], c.tmp)
        text = q.out
        if q.rc != 0:
            # a file without any variable has nothing to read: fine when nothing had to be there
            d = waves.compare(sigs, "$enddefinitions $end\n", limit, stop, inc, exc, not eo, count=c.counts)
            if d:
                return c.violate("waves: unreadable FST file", q.err[-500:])
            c.counts["nothing selected"] += 1
            return
    else:
        text = open(p, encoding="latin-1").read()
    d = waves.compare(sigs, text, limit, stop, inc, exc, not eo, count=c.counts)
    if d:
        c.file("w.vcd", text)
        return c.violate("waves: " + d[0], "%s %s\n%s" % (fmt, " ".join(eo + ro), d[1]))
    c.counts[fmt] += 1
    c.digest(exp)


F = {"wfor": .6, "nacts": [0, 1, 1, 2, 3]}


def net(c, i):
    n = netgen.network(c.rng, c.rng.choice([1, 1, 2]), F, ncomp=c.rng.choice([2, 4]))
    sim(c, n, [(waves.path_of(s.scope), s) for s in n.sigs if not s.name.startswith("anon")], "jit" if i % 20 == 0 else "interp")


def flat(c, i):
    s = kernel.simple(c.rng, nsig=c.rng.choice([4, 8]), ncomp=4)
    sim(c, s, [(("top",), x) for x in s.sigs])


PROBE = """entity sub is port (p : in work.pk.r); end;
architecture a of sub is begin process begin wait on p; report integer'image(p.a); end process; end;
entity top is end;
architecture a of top is signal s : work.pk.r := (1, 2); begin
  u : entity work.sub port map (p => s);
  s <= (3, 4) after 1 ns;
end;
"""


def probe(c, i):
    """The recorded finding."""
    c.file("t.vhd", "package pk is type r is record a, b : integer; end record; end;\n" + PROBE)
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp", ropts=["--wave=w.vcd", "--format=vcd"])
    if r.rc != 0:
        return c.violate("waves: probe failed", r.err[-500:])
    vs, ch, _ = waves.parse(open(os.path.join(c.tmp, "w.vcd"), encoding="latin-1").read())
    if ("top", "u", "p") not in {v.path for v in vs}:
        c.violate("waves: record port that is collapsed is not dumped", "")


TOOL = None


def main(c):
    global TOOL
    c.build(["plain"])
    TOOL = build.fst2vcd()
    c.rule = "random designs, dump formats and selections; distinct = distinct event logs"
    c.assumptions = ["FST files are read with the tree's own copy of fstapi.c",
                     "the histories in vf/kernel.py are those the design has (decided by C01 to C05)"]
    c.run({"net": net, "flat": flat, "probe": probe}, [("probe", 1), ("net", c.n(700, 10000)), ("flat", c.n(700, 10000))])
