"""Differential execution of generated sequential programs against the reference interpreter."""
import re
from . import run
from .gen import Program
from .lang import VErr

_NZ = re.compile(r"(?<![\d.e])-0(?![\d.])")


def norm(text):
    """-0.0 and 0.0 are the same VHDL value."""
    return _NZ.sub("0", text)


def first_diff(got, exp):
    for i in range(max(len(got), len(exp))):
        g = got[i] if i < len(got) else "<nothing>"
        e = exp[i] if i < len(exp) else "<nothing>"
        if g != e:
            return "line %d: nvc printed %r, the reference expects %r" % (i + 1, g[:300], e[:300])
    return None


def stmt_kinds(text):
    out = set()
    for m in re.finditer(r"'(\w+)|\b(and|or|xor|nand|nor|xnor|sll|srl|sla|sra|rol|ror|mod|rem|abs|not|"
                         r"if|case|for|while|loop|exit|next|return|others)\b|(\*\*|<=|>=|/=|[&*/<>+-])", text):
        out.add(m.group(0))
    return out


def diff_program(c, prog, engines, tag, std="2008", env=None):
    """Run prog on every engine; every printed value must be the reference's."""
    exp = norm("\n".join(prog.expected())).split("\n")
    text = prog.text()
    c.file("t.vhd", text)
    for k in stmt_kinds(text.split("begin\n  process", 1)[-1]):
        c.counts["construct " + k] += 1
    c.counts["values compared"] += len(exp) * len(engines)
    for eng in engines:
        c.evals += 1
        r = run.simulate(c.tmp, ["t.vhd"], "top", eng, std=std, env=env)
        c.counts["runs on " + eng] += 1
        k = run.crash_key(r)
        if r.hung:
            c.violate("%s: %s does not terminate" % (tag, eng), "")
        elif k:
            c.violate("%s: %s" % (tag, k), r.err[-1500:])
        elif r.rc != 0 and "Fatal" not in r.err:
            c.violate("%s: legal program rejected" % tag, r.err[:1500])
        elif r.rc != 0:
            c.violate("%s: false run-time error on %s" % (tag, eng), r.err[:1500])
        else:
            d = first_diff(norm(r.out).splitlines(), exp)
            if d:
                c.violate("%s: wrong value on %s" % (tag, eng), d)
    c.digest(exp)
    c.sample = {"program_lines": len(text.splitlines()), "printed": exp[:6],
                "statements": [x.strip()[:120] for x in text.split("  begin\n")[-1].splitlines()[:4]]}
