"""The simulation cycle: every process resumes exactly when it must."""
from vf import kernel, run
from vf.kjudge import judge

F = {"wfor": .4, "nacts": [0, 0, 1, 1, 2], "trace": True, "wproc": .3}


def waits(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(2, 5), nproc=c.rng.randint(2, 7), budget=14, feats=F),
          "jit" if i % 20 == 0 else "interp", "cycle")


def postponed(c, i):
    f = dict(F, postponed=.4)
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(2, 5), nproc=c.rng.randint(2, 6), budget=14, feats=f,
                           autos=c.rng.choice([0, 0, 2])), "interp", "cycle")


def conc(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 4), nproc=c.rng.randint(1, 4), budget=14, feats=F,
                           autos=c.rng.randint(2, 10)), "jit" if i % 20 == 0 else "interp", "cycle")


def wide(c, i):
    """Many processes on the same few signals and instants."""
    f = dict(F, nacts=[0, 1], wfor=.3)
    judge(c, kernel.simple(c.rng, nsig=2, nproc=c.rng.randint(12, 30), budget=6, feats=f,
                           scal=["bit", "std_logic", "e5"], ncomp=1), "interp", "cycle")


PROBE = """entity top is end;
architecture a of top is
  signal s : integer := 0;
begin
  process begin wait for 1 ns; wait for 0 ns; s <= 1; wait for 0 ns; wait for 0 ns; s <= 2; wait; end process;
  process begin wait for 1 ns; wait for 0 ns; wait; end process;
  p : postponed process
  begin
    %s
    report "s is " & integer'image(s);
    wait;
  end process;
end;
"""


def probe(c, i):
    """A postponed process resumes in the last delta cycle of its instant."""
    what, stmt = [("timeout", "wait for 1 ns;"), ("event", "wait on s;"),
                  ("event with a timeout", "wait on s for 2 ns;")][i]
    c.file("t.vhd", PROBE % stmt)
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp")
    if "s is 2" in r.err:
        c.counts["probe"] += 1
    elif "s is" in r.err:
        c.violate("cycle: postponed process resumed before the last delta cycle: " + what, r.err[:800])
    else:
        c.violate("cycle: postponed probe failed: " + what, r.err[:800])


def main(c):
    c.build(["plain"])
    c.rule = ("random networks of processes; every resumption of every process and every event is logged with "
              "its time and delta cycle; distinct = distinct logs")
    c.assumptions = ["the reference simulation cycle in vf/kernel.py states LRM 14.7.5"]
    c.run({"waits": waits, "postponed": postponed, "conc": conc, "wide": wide, "probe": probe},
          [("waits", c.n(900, 20000)), ("postponed", c.n(600, 10000)), ("conc", c.n(600, 10000)), ("wide", c.n(100, 2000)),
           ("probe", 3)])
