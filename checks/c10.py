"""Every execution engine gives what the language defines: interpreter, LLVM JIT, ahead-of-time at
every optimisation level, with the collector running at every allocation."""
from vf import arith
from vf.gen import Program
from vf.progs import diff_program


def prog(c, n=16):
    return Program(c.rng, ntypes=7, nvars=7, nstmts=n, nfuncs=3, nprocs=3, depth=3,
                   feats={"trace": 1} if c.rng.random() < .5 else {})


def aot(c, i):
    lv = ["aot0", "aot1", "aot2", "aot3"]
    diff_program(c, prog(c), [lv[i % 4], "interp"], "engine")


def jit(c, i):
    diff_program(c, prog(c), ["jit"], "engine")


def tiered(c, i):
    """Functions move from the interpreter to compiled code while the program runs."""
    diff_program(c, prog(c, 10), ["jitasync"], "engine")


def gc(c, i):
    diff_program(c, prog(c, 30), ["interp"], "engine gc-stress", env={"NVC_GC_STRESS": "1"})


def table(c, i):
    arith.one(c, [["jit"], ["aot0"], ["aot2"]][i % 3] + ["interp"], "arithmetic")


def main(c):
    c.build(["plain"], mini=True)
    c.rule = ("random programs over all sequential features, run by each engine and compared line by "
              "line with the reference; distinct = distinct reference outputs")
    c.assumptions = ["LLVM itself is correct"]
    c.run({"aot": aot, "jit": jit, "tiered": tiered, "gc": gc, "table": table},
          [("aot", c.n(150, 2500)), ("jit", c.n(90, 1500)), ("tiered", c.n(60, 1000)),
           ("gc", c.n(250, 4000)), ("table", c.n(90, 3000))])
