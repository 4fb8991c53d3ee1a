"""Resolution and port connections."""
from vf import netgen, kernel
from vf.kjudge import judge

F = {"wfor": .6, "nacts": [0, 1, 1, 2, 3]}


def net(c, i):
    n = netgen.network(c.rng, c.rng.choice([1, 1, 2, 3]), F)
    judge(c, n, "jit" if i % 20 == 0 else "interp", "network", eopts=["--no-collapse"] if c.rng.random() < .4 else [])


def std(c, i):
    """Only types with resolved and unresolved forms."""
    n = netgen.network(c.rng, c.rng.choice([1, 2, 3]), F, ["std_logic", "std_logic", "std_ulogic", "bit", "e5"], 2)
    judge(c, n, "interp", "network", eopts=["--no-collapse"] if c.rng.random() < .4 else [])


S = dict(F, nports=[1], nsigs=[0], nsigs2=[0], nkids=[1], budget=3, nacts=[1])


def small(c, i):
    """One instance with one port: many of them."""
    n = netgen.network(c.rng, 1, S if c.rng.random() < .5 else dict(S, nports=[2]), None, 2)
    judge(c, n, "interp", "network", eopts=["--no-collapse"] if c.rng.random() < .4 else [])


def main(c):
    c.build(["plain"])
    c.rule = "random hierarchies, drivers and conversions; distinct = distinct event logs"
    c.assumptions = ["the reference propagation in vf/kernel.py states LRM 14.7.3"]
    c.run({"net": net, "std": std, "small": small}, [("net", c.n(700, 20000)), ("std", c.n(500, 12000)), ("small", c.n(1200, 12000))])
