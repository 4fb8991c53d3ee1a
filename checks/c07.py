"""Arrays and records: aggregates, slices, concatenation, element-wise and predefined operators."""
from vf.gen import Program
from vf.progs import diff_program

DEEP = {"int": 8, "sub": 10, "enum": 12, "arr": 45, "rec": 25}


def small(c, i):
    p = Program(c.rng, ntypes=6, nvars=6, nstmts=12, nfuncs=0, nprocs=0, depth=1, mix=DEEP)
    diff_program(c, p, ["interp"], "composite")


def traced(c, i):
    """Values printed after each assignment, so that a transient error cannot be overwritten."""
    p = Program(c.rng, ntypes=7, nvars=5, nstmts=14, nfuncs=1, nprocs=1, depth=2, mix=DEEP,
                feats={"trace": 1})
    diff_program(c, p, ["interp"], "composite")


def jit(c, i):
    p = Program(c.rng, ntypes=7, nvars=6, nstmts=20, nfuncs=2, nprocs=1, depth=2, mix=DEEP)
    diff_program(c, p, ["jit"], "composite")


def main(c):
    c.build(["plain"])
    c.rule = ("random programs over nested array and record types (descending, negative, null and "
              "enumerated index ranges); every printed value is compared with the reference; "
              "distinct = distinct reference outputs")
    c.assumptions = ["the reference (vf/lang.py) states the LRM semantics"]
    c.run({"small": small, "traced": traced, "jit": jit},
          [("small", c.n(1500, 30000)), ("traced", c.n(1000, 15000)), ("jit", c.n(80, 1000))])
