"""Run-time constraint checks: an error exactly where the language requires one, and nowhere else."""
import re
from vf import run, arith
from vf.gen import Program
from vf.progs import norm, first_diff

CAT = {"range": r"value (.+?) outside of", "index": r"index (.+?) outside of",
       "length": r"length \d+.* does not match", "div0": r"division by zero",
       "negexp": r"negative exponent (\S+) only", "overflow": r"result of .* cannot be represented|value (.+?) outside of INTEGER",
       "loglen": r"arguments have different lengths"}


def judge(c, p, engine, std="2008"):
    lines, err = p.reference()
    text = p.text()
    c.file("t.vhd", text)
    src = text.split("\n")
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", engine, std=std)
    k = run.crash_key(r)
    if r.hung:
        return c.violate("checks: does not terminate", "")
    if k:
        return c.violate("checks: " + k, r.err[-1500:])
    fm = re.search(r"\*\* (?:Fatal|Failure): (?:\(\S+\): )?(?:[\w.]+\+\d+: )?(.*)\n(?:\s*(?:>|Function|Procedure).*?t\.vhd:(\d+))?", r.err)
    if r.rc != 0 and not fm:
        if re.search(r"\*\* Error: (value|index|division|argument|result|length|left|right|array|type|invalid|expected)", r.err):
            c.counts["rejected before the simulation"] += 1
            return
        return c.violate("checks: legal program rejected", r.err[:1500])
    got = norm(r.out).splitlines()
    exp = norm("\n".join(lines)).split("\n") if lines else []
    if err is None:
        if fm:
            return c.violate("checks: false error on %s" % engine, r.err[:1200])
        d = first_diff(got, exp)
        if d:
            c.violate("checks: wrong value on %s" % engine, d)
        c.counts["runs without error"] += 1
        c.digest(exp)
        return
    kind = err.tag.lstrip("U0123456789") if err.tag else "?"
    want = next((i + 1 for i, l in enumerate(src) if l.endswith("-- " + str(err.tag))), None)
    at = "%s in statement %s, line %s: %s" % (err.kind, err.tag, want,
                                              src[want - 1].strip()[:300] if want else "")
    if not fm:
        return c.violate("checks: missed %s error (%s) on %s" % (err.kind, kind, engine),
                         "expected " + at + "\nafter " + repr(exp[-2:]))
    m = re.search(CAT[err.kind], fm.group(1))
    if not m:
        return c.violate("checks: wrong kind of error on %s" % engine, "expected %s\n%s" % (at, r.err[:800]))
    if err.kind in ("range", "index") and err.val is not None and m.group(1).lstrip("-").isdigit() and \
            int(m.group(1)) != err.val:
        return c.violate("checks: wrong value reported on %s" % engine,
                         "expected %s with value %s\n%s" % (at, err.val, r.err[:800]))
    if err.kind != "loglen" and want != int(fm.group(2) or 0):
        return c.violate("checks: error at the wrong place on %s" % engine, "expected %s\n%s" % (at, r.err[:800]))
    d = first_diff(got, exp)
    if d:
        return c.violate("checks: wrong value before the error on %s" % engine, d)
    c.counts["error %s by %s" % (err.kind, kind)] += 1
    c.digest((err.kind, err.tag, exp))
    c.sample = {"error": at, "printed_before": exp[-3:]}


MIX = {"int": 15, "sub": 30, "enum": 15, "arr": 30, "rec": 10}


def interp(c, i):
    judge(c, Program(c.rng, ntypes=5, nvars=8, nstmts=14, nfuncs=1, nprocs=1, depth=2, mix=MIX,
                     feats={"unsafe": .22, "edepth": 2}), "interp")


def jit(c, i):
    judge(c, Program(c.rng, ntypes=5, nvars=8, nstmts=14, nfuncs=2, nprocs=1, depth=2, mix=MIX,
                     feats={"unsafe": .22, "edepth": 2}), "jit")


def aot(c, i):
    judge(c, Program(c.rng, ntypes=5, nvars=8, nstmts=14, nfuncs=2, nprocs=1, depth=2, mix=MIX,
                     feats={"unsafe": .22, "edepth": 2}), ["aot0", "aot2"][i % 2])


PROBE = """entity top is end;
architecture a of top is
  type i64 is range -9223372036854775807 to 9223372036854775807;
  type te is (aa, bb, cc); subtype sb is integer range 3 to 10;
  type ar is array (integer range <>) of sb;
  type r5 is array (1 to 5) of integer; subtype s37 is ar(3 to 7);
  function fr(x : integer) return sb is begin return x; end;
  procedure uo(x : out integer; y : integer) is begin x := y; end;
  impure function side(x : integer) return integer is begin return x; end;
begin
  process
    variable x : integer := 2; variable e : te := cc; variable s : sb; variable m : integer := integer'low;
    variable a, b : ar(1 to 5); variable mo : integer := -1;
    variable l : i64 := 9223372036854775807;
  begin
    wait for 1 ns;
    %s
    report "END " & integer'image(x) & integer'image(s) & integer'image(a(3)) & integer'image(m) & i64'image(l);
    wait;
  end process;
end;
"""
# each of these must end in an error
PROBES = [
    ("copy back of an out parameter", "uo(s, x);"),
    ("function result", "x := fr(x);"),
    ("qualified expression", "x := sb'(x);"),
    ("others element of an aggregate", "a := (others => x);"),
    ("range choice element of an aggregate", "a := (1 => 3, 2 => 4, 3 to 5 => x);"),
    ("abs integer'low", "m := abs m;"),
    ("integer'low divided by -1", "m := m / mo;"),
    ("qualified array length", "a(1 to x + 2) := s37'(a(1 to x + 2));"),
    ("64-bit addition", "l := l + l;"),
    ("64-bit subtraction", "l := (-l) - l - 2;"),
    ("64-bit multiplication", "l := l * l;"),
    # these are checked today
    ("positional element of an aggregate", "a := (3, 4, 5, 6, x);"),
    ("named element of an aggregate", "a := (1 => x, others => 5);"),
    ("assignment of a function result", "s := side(x);"),
    ("succ", "e := te'succ(e);"),
    ("negation of integer'low", "m := -m;"),
    ("conversion", "x := integer(real(m) * 2.0);"),
    ("slice", "a(x - 2 to 3) := b(x - 2 to 3);"),
    ("length", "a(x to 4) := b(x to 5);"),
    ("mod by zero", "x := x mod (x - 2);"),
    ("rem by zero", "x := x rem (x - 2);"),
    ("exponent", "x := x ** (x - 3);"),
]


def probe(c, i):
    what, stmt = PROBES[i]
    c.file("t.vhd", PROBE % stmt)
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp")
    k = run.crash_key(r)
    if k:
        c.violate("checks: probe %s: %s" % (what, k), r.err[-800:])
    elif "** Fatal" not in r.err:
        c.violate("checks: no error from probe: " + what, r.err[:800])
    else:
        c.counts["probe"] += 1


def table(c, i):
    arith.one(c, [["interp"], ["interp"], ["interp"], ["jit"], ["aot1"]][i % 5], "arithmetic")


def main(c):
    c.build(["plain"], mini=True)
    c.rule = ("random programs in which a fifth of the statements may violate a constraint; the reference "
              "decides whether, where and how the run must end; distinct = distinct (error, place, "
              "printed values)")
    c.assumptions = ["the reference (vf/lang.py) states the LRM semantics"]
    c.run({"interp": interp, "jit": jit, "aot": aot, "probe": probe, "table": table},
          [("interp", c.n(1800, 30000)), ("jit", c.n(60, 1000)), ("aot", c.n(40, 600)), ("probe", len(PROBES)),
           ("table", c.n(300, 5000))])
