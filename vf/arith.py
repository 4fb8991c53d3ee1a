"""Tables of single arithmetic operations on boundary operands, the last of which may overflow."""
import re
from . import run
from .lang import tdiv, fmod_, trem

# declared range -> values that the base type holds; nvc represents a type by the smallest machine
# integer that holds its declared range and reports an overflow when a result leaves that
TYPES = [("integer", None, -2**31, 2**31 - 1),
         ("i64", "-9223372036854775807 to 9223372036854775807", -2**63, 2**63 - 1),
         ("i8", "-128 to 127", -2**7, 2**7 - 1), ("i16", "-32768 to 32767", -2**15, 2**15 - 1),
         ("u8", "0 to 255", 0, 2**8 - 1), ("u16", "0 to 65535", 0, 2**16 - 1)]


def apply(op, x, y):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        return tdiv(x, y)
    if op == "mod":
        return fmod_(x, y)
    if op == "rem":
        return trem(x, y)
    if op == "**":
        return x ** y
    raise AssertionError(op)


def value(r, lo, hi):
    k = r.random()
    if k < .3:
        v = r.choice([lo, hi, lo + 1, hi - 1, hi // 2, hi // 2 + 1, lo // 2, lo // 2 - 1])
    elif k < .6:
        v = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, -1, -2, -3, -7])
    elif k < .8:
        v = r.choice([1, -1]) * ((1 << r.randrange(0, 63)) + r.choice([-1, 0, 0, 1]))
    elif k < .9:
        n = int(abs(hi) ** .5)
        v = r.choice([1, -1]) * (n + r.randrange(-3, 4))
    else:
        v = r.randint(lo, hi)
    return min(max(v, lo), hi)


def case(r):
    name, decl, lo, hi = r.choice(TYPES)
    llo = lo if decl is None or not decl.startswith("-9") else lo + 1
    rows, bad = [], None
    while len(rows) < 25:
        op = r.choice(["+", "-", "*", "/", "mod", "rem", "**", "**"])
        a = value(r, llo, hi)
        if op == "**":
            k = r.random()
            if k < .5:
                a = min(max(r.choice([0, 1, -1, 2, -2, 3, 4, 8, 10, 16, 256, 65536, 46341, 215]), llo), hi)
            b = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 20, 30, 31, 32, 33, 62, 63, 64, 65, 96, 100, 128, 127])
        else:
            b = value(r, llo, hi)
        if op in ("/", "mod", "rem") and (b == 0 or (b == -1 and a == lo)):
            continue
        v = apply(op, a, b)
        ok = lo <= v <= hi
        if not ok:
            if name == "i64" and op in "+-*":
                continue        # a known finding, probed by C08
            if bad is None or r.random() < .3:
                bad = (op, a, b)
            continue
        if v == lo and lo == -2**63:
            continue
        rows.append((op, a, b, v))
    if r.random() < .2:
        bad = None
    return name, decl, rows, bad


def text(name, decl, rows, bad, how):
    """how: 'var' (in loops over tables) or 'const' (literal operands) per row"""
    o = ["entity top is end;", "architecture a of top is"]
    if decl:
        o.append("  type %s is range %s;" % (name, decl))
    o.append("begin\n  process")
    o.append("    variable a, x : %s; variable b : %s; variable n : natural;" % (name, name))
    o.append("  begin\n    wait for 1 ns;")
    n = 0
    for i, (op, a, b, *_) in enumerate(rows + ([bad] if bad else [])):
        e = "n" if op == "**" else "b"
        o.append("    a := %d; %s := %d;" % (a, e, b))
        k = how[i % len(how)]
        la = "(%d)" % a if k == "ca" else "a"
        le = "(%d)" % b if k == "cb" else e
        o.append("    x := %s %s %s; report to_string(x);" % (la, op, le))
    o.append('    report "end"; wait;\n  end process;\nend;')
    return "\n".join(o)


def one(c, engines, tag):
    r = c.rng
    name, decl, rows, bad = case(r)
    how = [r.choice(["v", "v", "ca", "cb"]) for _ in range(7)]
    c.file("t.vhd", text(name, decl, rows, bad, how))
    exp = [str(x[3]) for x in rows]
    if not bad:
        exp.append("end")
    for eng in engines:
        c.evals += len(rows) + bool(bad)
        res = run.simulate(c.tmp, ["t.vhd"], "top", eng, ropts=["--format=%s" % "x"][:0])
        k = run.crash_key(res)
        if k or res.hung:
            c.violate("%s: %s" % (tag, k or "does not terminate"), res.err[-1200:])
            continue
        got = [m.group(1) for m in re.finditer(r"\*\* Note: 1ns\+0: (.*)", res.out + res.err)]
        fatal = re.search(r"\*\* Fatal: (.*)", res.err)
        over = re.search(r"result of .* cannot be represented|value (.+?) outside of", res.err)
        what = "%s table of %s" % (name, [x[:3] for x in rows[-3:]])
        if got[:len(exp)] != exp:
            j = next(i for i in range(len(exp)) if i >= len(got) or got[i] != exp[i])
            c.violate("%s: wrong result on %s" % (tag, eng), "row %s: got %s, expected %s\n%s" % (
                rows[j] if j < len(rows) else "end", got[j:j + 1], exp[j], res.err[-600:]))
        elif bad and (len(got) > len(exp) or not fatal):
            c.violate("%s: missed overflow on %s" % (tag, eng), "%s of type %s printed %s" % (bad, name, got[len(exp):]))
        elif bad and not over:
            c.violate("%s: wrong kind of error on %s" % (tag, eng), res.err[-600:])
        elif not bad and (fatal or res.rc != 0):
            c.violate("%s: false error on %s" % (tag, eng), res.err[-600:])
        else:
            c.counts["arithmetic rows on " + eng] += len(rows)
            c.counts["overflow %s on %s" % (bad[0] if bad else "none", eng)] += 1
    c.digest((name, rows, bad))
    c.sample = {"type": name, "rows": rows[:3], "overflows": bad}
