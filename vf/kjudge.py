"""Run a kernel design and compare what nvc printed with the reference."""
from . import run, kernel


def judge(c, s, engine="interp", what="waveforms", ropts=(), eopts=()):
    exp = s.run()
    c.file("t.vhd", s.text())
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", engine, ropts=ropts, eopts=eopts)
    k = run.crash_key(r)
    if r.hung:
        return c.violate(what + ": does not terminate", "")
    if k:
        return c.violate(what + ": " + k, r.err[-1500:])
    if r.rc != 0:
        return c.violate(what + ": legal design failed", "\n".join(
            l for l in r.err.splitlines() if "Note" not in l)[:1500])
    got = kernel.parse_notes(r.err)
    if s.ignore:
        ig = tuple(s.ignore)
        got, exp = ([x for x in l if not x[2].startswith(ig)] for l in (got, exp))
    post = tuple(p.name + "." for p in s.procs if p.postponed)
    if post:
        # a transaction preempted in the cycle that scheduled it may leave an empty delta cycle behind:
        # only the instant and the values seen by a postponed process are specified
        got, exp = ([(t, 0 if x.startswith(post) else d, x) for t, d, x in l] for l in (got, exp))
    d = kernel.compare(got, exp)
    if d:
        return c.violate(what + ": wrong trace", d)
    c.counts.update(s.stats)
    c.digest(exp)
    c.sample = ["%d ps+%d %s" % x for x in exp[:12]]
