"""Control flow, subprograms, parameter passing, case and loops."""
from vf import cases
from vf.gen import Program
from vf.progs import diff_program

MIX = {"int": 20, "sub": 20, "enum": 25, "arr": 20, "rec": 15}


def deep(c, i):
    p = Program(c.rng, ntypes=4, nvars=5, nstmts=10, nfuncs=1, nprocs=1, depth=5, mix=MIX,
                feats={"edepth": 2})
    diff_program(c, p, ["interp"], "control")


def calls(c, i):
    p = Program(c.rng, ntypes=5, nvars=5, nstmts=12, nfuncs=5, nprocs=5, depth=3, mix=MIX,
                feats={"edepth": 2, "trace": 1})
    diff_program(c, p, ["interp"], "control")


def jit(c, i):
    p = Program(c.rng, ntypes=4, nvars=6, nstmts=14, nfuncs=4, nprocs=4, depth=4, mix=MIX,
                feats={"edepth": 2})
    diff_program(c, p, ["jit"], "control")


def case(c, i):
    cases.one(c, "interp" if i % 8 else "jit")


def main(c):
    c.build(["plain"])
    c.rule = ("random programs of nested loops, case, exit/next/return and calls; every printed value "
              "is compared with the reference; distinct = distinct reference outputs")
    c.assumptions = ["the reference (vf/lang.py) states the LRM semantics"]
    c.run({"deep": deep, "calls": calls, "jit": jit, "case": case},
          [("deep", c.n(1100, 20000)), ("calls", c.n(900, 15000)), ("jit", c.n(70, 1000)),
           ("case", c.n(400, 6000))])
