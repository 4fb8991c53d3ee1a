"""Projected output waveforms: what the drivers of a signal are told is what it does."""
from vf import run, kernel
from vf.kjudge import judge

FEATS = {"wfor": .75, "nacts": [1, 1, 2, 3, 4]}


def flat(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 5), nproc=c.rng.randint(1, 4), budget=14,
                           feats=FEATS), "jit" if i % 20 == 0 else "interp")


def conc(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 4), nproc=c.rng.randint(1, 3), budget=14,
                           feats=FEATS, autos=c.rng.randint(1, 6)), "jit" if i % 20 == 0 else "interp")


def long(c, i):
    """Few signals, long histories."""
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 2), nproc=c.rng.randint(1, 3), budget=60,
                           feats={"wfor": .95, "nacts": [1, 2, 3, 4]}))


ARRAY = """entity top is end;
architecture a of top is
  signal v : bit_vector(1 to 2);
begin
  process begin
    v <= transport "11" after 1 ns;
    v <= "10" after 4 ns;      -- 10.5.2.2: '1' for v(1) at 1 ns precedes an equal value
    wait;
  end process;
  process begin wait on v; report "v=" & bit'image(v(1)) & bit'image(v(2)); end process;
end;
"""


def probe(c, i):
    c.file("t.vhd", ARRAY)
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp")
    if kernel.parse_notes(r.err) != [(1000, 0, "v='1''0'")]:
        c.violate("waveforms: array driver is not edited per element", r.err[:600])


def main(c):
    c.build(["plain"])
    c.rule = ("random assignment histories (seeded) on random types, executed by processes and concurrent "
              "statements; distinct = distinct event traces")
    c.assumptions = ["the reference driver model in vf/kernel.py states LRM 10.5.2.2 and 14.7",
                     "inertial assignments to arrays that would edit the drivers of the elements differently "
                     "are not generated (known finding)"]
    c.run({"flat": flat, "conc": conc, "long": long, "probe": probe},
          [("flat", c.n(1400, 30000)), ("conc", c.n(900, 20000)), ("long", c.n(200, 5000)), ("probe", 1)])
