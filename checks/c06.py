"""Scalar arithmetic, relations, logic, conversions and attributes against exact integers/IEEE doubles."""
from vf.gen import Program
from vf.progs import diff_program

SC = {"int": 45, "sub": 25, "enum": 30}


def small(c, i):
    p = Program(c.rng, ntypes=4, nvars=6, nstmts=12, nfuncs=0, nprocs=0, depth=1, mix=SC,
                feats={"noarr": 1, "edepth": 4})
    diff_program(c, p, ["interp"], "scalar")


def folded(c, i):
    """Few variables, many literals: constant folding in the front end."""
    p = Program(c.rng, ntypes=3, nvars=2, nstmts=8, nfuncs=1, nprocs=0, depth=1, mix=SC,
                feats={"noarr": 1, "edepth": 5})
    diff_program(c, p, ["interp"], "scalar")


def jit(c, i):
    p = Program(c.rng, ntypes=4, nvars=6, nstmts=25, nfuncs=2, nprocs=1, depth=1, mix=SC,
                feats={"noarr": 1, "edepth": 4})
    diff_program(c, p, ["jit"], "scalar")


def main(c):
    c.build(["plain"])
    c.rule = ("random scalar programs whose values are all known to the reference; every printed value "
              "is compared; distinct = distinct reference outputs")
    c.assumptions = ["the reference (vf/lang.py) states the LRM semantics"]
    c.run({"small": small, "folded": folded, "jit": jit},
          [("small", c.n(1600, 30000)), ("folded", c.n(800, 15000)), ("jit", c.n(60, 1000))])
