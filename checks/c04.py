"""Signal attributes against the recorded history."""
from vf import kernel, run
from vf.kjudge import judge

F = {"wfor": .6, "nacts": [1, 2, 3, 4], "attrs": .55}


def attrs(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 5), nproc=c.rng.randint(1, 4), budget=16, feats=F),
          "jit" if i % 20 == 0 else "interp", "attributes")


def conc(c, i):
    judge(c, kernel.simple(c.rng, nsig=c.rng.randint(1, 4), nproc=c.rng.randint(1, 3), budget=16, feats=F,
                           autos=c.rng.randint(1, 5)), "interp", "attributes")


PROBE = """entity top is end;
architecture a of top is
  type t_ints is array (natural range <>) of integer;
  function f_sum(x : t_ints) return integer is
    variable r : integer := 0;
  begin
    for i in x'range loop r := r + x(i); end loop;
    return r;
  end;
  signal s : integer := 7;
  signal u : bit_vector(0 to 1) := "00";
  signal r : f_sum integer := 3;
begin
  process
    variable k : integer := 0;
  begin
    %s
    wait;
    s <= 0; u <= "00"; r <= 0;
  end process;
  process begin r <= 3; wait; end process;
end;
"""
# (what, statements, expected report)
PROBES = [
    ("last_event of a part not referenced before its first event",
     "wait for 1 ns; u <= \"10\"; wait for 1 ns; u <= \"11\"; wait for 2 ns; "
     "report integer'image(u(k)'last_event / 1 ns);", "3"),
    ("last_value of a part not referenced before its first event",
     "wait for 1 ns; u <= \"10\"; wait for 1 ns; u <= \"11\"; wait for 2 ns; "
     "report bit'image(u(k)'last_value);", "'0'"),
    ("last_value of a composite is taken per part",
     "u(0) <= '1'; wait for 1 ns; u(1) <= '1'; wait for 1 ns; u(0) <= '0'; wait for 1 ns; "
     "report bit'image(u'last_value(0)) & bit'image(u'last_value(1));", "'1''1'"),
    ("last_active after a zero delay assignment in the same cycle",
     "wait for 1 ns; s <= 1; report boolean'image(s'last_active = time'high);", "true"),
    ("driving_value after a zero delay assignment in the same cycle",
     "wait for 1 ns; s <= 1; report integer'image(s'driving_value);", "7"),
    ("driving_value after a zero delay assignment that is preempted",
     "wait for 1 ns; s <= 1; s <= 2 after 1 ns; wait for 1 fs; report integer'image(s'driving_value);", "7"),
    ("delayed of a resolved signal before its first transaction",
     "report integer'image(r'delayed(1 ns));", "6"),
    ("transaction has an event during initialisation",
     "report boolean'image(s'transaction'event);", "false"),
    ("last_event of a referenced part",
     "k := u(0)'last_event / 1 sec; k := 0; wait for 1 ns; u <= \"10\"; wait for 1 ns; u <= \"11\"; wait for 2 ns; "
     "report integer'image(u(k)'last_event / 1 ns);", "3"),
    ("event of a part", "wait for 1 ns; u <= \"01\"; wait for 0 ns; report boolean'image(u(k)'event);", "false"),
    ("last_event after initialisation", "wait for 1 ns; report boolean'image(r'last_event = time'high);", "true"),
]


def probe(c, i):
    what, stmt, want = PROBES[i]
    c.file("t.vhd", PROBE % stmt)
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp")
    got = [x[2] for x in kernel.parse_notes(r.err)]
    if run.crash_key(r) or len(got) != 1:
        c.violate("attributes: probe failed: " + what, r.err[:800])
    elif got[0] != want:
        c.violate("attributes: " + what, "got %s, expected %s" % (got[0], want))
    else:
        c.counts["probe"] += 1


def main(c):
    c.build(["plain"])
    c.rule = ("random histories; processes print attributes of random parts of signals at random instants; "
              "distinct = distinct logs")
    c.assumptions = ["the reference history in vf/kernel.py states LRM 16.2"]
    c.run({"attrs": attrs, "conc": conc, "probe": probe}, [("attrs", c.n(1500, 20000)), ("conc", c.n(500, 10000)), ("probe", len(PROBES))])
