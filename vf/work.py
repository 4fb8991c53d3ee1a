"""Designs of every kind for the checks that compare nvc with itself under different conditions."""
from . import kernel, netgen, hier, gen, textio


def design(rng):
    """-> (kind, text, top, std, eopts)"""
    k = rng.choice(["kernel", "kernel", "net", "hier", "prog", "prog", "text"])
    for _ in range(30):
        try:
            if k == "kernel":
                return k, kernel.simple(rng, nsig=rng.randint(2, 5), nproc=rng.randint(1, 4), budget=14, ncomp=3).text(), "top", "2008", []
            if k == "net":
                n = netgen.network(rng, rng.choice([1, 2, 3]))
                return k, n.text(), "top", "2008", []
            if k == "hier":
                g = hier.design(rng)
                return k, g.emit(), "top", g.std, []
            if k == "text":
                p = textio.Prog(rng)
                for _ in range(10):
                    rng.choice([textio.images, textio.lines, textio.hostile])(p)
                return k, p.text(), "top", "2008", []
            p = gen.Program(rng, nstmts=rng.choice([15, 30]))
            return k, p.text(), "top", "2008", []
        except (OverflowError, kernel.Limit):
            pass
    return design(rng)
