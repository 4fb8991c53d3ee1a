"""Force and release: a forced part has the forced value, the rest what its drivers say."""
from vf import run, kernel
from vf.kjudge import judge

FEATS = {"wfor": .75, "nacts": [1, 1, 2, 3, 4], "forces": .4}


def flat(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 4), nproc=c.rng.randint(1, 4), budget=14,
                           feats=FEATS), "jit" if i % 20 == 0 else "interp", what="force")


def conc(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 3), nproc=c.rng.randint(1, 3), budget=14,
                           feats=FEATS, autos=c.rng.randint(1, 6)), "jit" if i % 20 == 0 else "interp", what="force")


def attrs(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 3), nproc=c.rng.randint(1, 3), budget=14,
                           feats=dict(FEATS, attrs=.3, forces=.35)), what="force")


def long(c, i):
    judge(c, kernel.simple(c.rng, nsig=1, nproc=c.rng.randint(1, 3), budget=60,
                           feats=dict(FEATS, wfor=.95)), what="force")


PROBE = """entity sub is port (p : in integer); end;
architecture a of sub is begin
  process begin wait for 3 ns; p <= force in 9; wait for 1 ns; report "p " & integer'image(p); wait; end process;
end;
entity top is end;
architecture a of top is
  signal s : integer := 7;
  signal u : integer := 4;
  signal q : integer := 1;
begin
  process begin %s wait; s <= 0; end process;
  uu : if %s generate i : entity work.sub port map (q); process begin wait for 4 ns; report "q " & integer'image(q); wait; end process; end generate;
end;
"""
PROBES = [
    ("force does not make a signal active", "s <= force 1; wait for 0 ns; report boolean'image(s'active);", 0, ["true"]),
    ("driver with a preempted zero delay assignment after release",
     "s <= 8; s <= 9 after 5 ns; wait for 1 ns; s <= release; wait for 1 ns; report integer'image(s);", 0, ["7"]),
    ("effective value force of a port changes the actual", "null;", 1, ["p 9", "q 1"]),
    ("release of an undriven signal with an implicit signal",
     "report boolean'image(u'stable(1 ns)); u <= force 5; wait for 1 ns; u <= release; wait for 1 ns; "
     "report integer'image(u);", 0, ["true", "4"]),
    ("release of an undriven signal",
     "u <= force 5; wait for 1 ns; u <= release; wait for 1 ns; report integer'image(u);", 0, ["4"]),
]


def probe(c, i):
    what, stmt, gen, want = PROBES[i]
    c.file("t.vhd", PROBE % (stmt, "true" if gen else "false"))
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp")
    got = sorted(x[2] for x in kernel.parse_notes(r.err)) if gen else [x[2] for x in kernel.parse_notes(r.err)]
    if run.crash_key(r) or got != want:
        c.violate("force: " + what, "got %s, expected %s\n%s" % (got, want, r.err[:800]))
    else:
        c.counts["probe"] += 1


def main(c):
    c.build(["plain"])
    c.rule = ("random interleavings (seeded) of force, release and driver assignments on whole signals, elements, "
              "slices and fields; distinct = distinct event traces")
    c.assumptions = ["a driving-value and an effective-value force are not mixed on one signal"]
    c.run({"flat": flat, "conc": conc, "long": long, "attrs": attrs, "probe": probe},
          [("flat", c.n(900, 30000)), ("conc", c.n(500, 20000)), ("attrs", c.n(300, 10000)), ("long", c.n(150, 5000)), ("probe", len(PROBES))])
