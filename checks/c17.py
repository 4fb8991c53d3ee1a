"""PSL directives report exactly at the cycles the trace semantics says: random properties of the
supported kinds on random traces, compared with a direct evaluation."""
import re
from vf import run, build

SIG = "abcdefgh"


def bexpr(r, depth=0):
    q = r.random()
    if depth > 1 or q < .6:
        return ("v", r.choice(SIG))
    if q < .72:
        return ("not", bexpr(r, depth + 1))
    return (r.choice(["and", "or", "xor"]), bexpr(r, depth + 1), bexpr(r, depth + 1))


def bt(e):
    if e[0] == "v":
        return e[1]
    if e[0] == "not":
        return "(not %s)" % bt(e[1])
    return "(%s %s %s)" % (bt(e[1]), e[0], bt(e[2]))


def bv(e, tr, t):
    if e[0] == "v":
        return tr[e[1]][t]
    if e[0] == "not":
        return not bv(e[1], tr, t)
    a, b = bv(e[1], tr, t), bv(e[2], tr, t)
    return {"and": a and b, "or": a or b, "xor": a != b}[e[0]]


# sequences: list of items; an item is (bool expr, kind, low, high); high None = no limit
def seq(r, n, repeats=True):
    out = []
    for k in range(n):
        q = r.random()
        e = bexpr(r, 1)
        if not repeats or q < .55:
            out.append((e, "", 1, 1))
        elif q < .7:
            m = r.randint(1, 3)
            out.append((e, "*", m, m))
        elif q < .8:
            m = r.randint(1, 2)
            out.append((e, "*", m, m + r.randint(1, 2)))
        elif q < .9:
            out.append((e, "+", 1, None))
        else:
            m = r.randint(1, 3)
            out.append((e, "->", m, m))
    if len(out) == 1 and out[0][1] == "":
        out[0] = (out[0][0], "*", 1, 1)         # a single Boolean is not accepted as a sequence
    return out


def more(s):
    """Can the sequence go on after a match?"""
    return s[-1][1] in ("+", "*") and s[-1][2] != s[-1][3]


def st(s):
    def one(i):
        e, k, lo, hi = i
        if k == "":
            return bt(e)
        if k == "+":
            return bt(e) + "[+]"
        return "%s[%s%s]" % (bt(e), k, lo if lo == hi else "%d to %d" % (lo, hi))
    return "{" + "; ".join(one(i) for i in s) + "}"


def ends(s, tr, t, n):
    """The last cycles of matches of s that begin in cycle t."""
    starts = {t}
    last = set()
    for e, k, lo, hi in s:
        last = set()
        for b in starts:
            if k == "->":
                cnt = 0
                for x in range(b, n):
                    if bv(e, tr, x):
                        cnt += 1
                        if cnt == lo:
                            last.add(x)
                            break
            else:
                x = b
                cnt = 0
                while x < n and bv(e, tr, x):
                    cnt += 1
                    if cnt >= lo:
                        last.add(x)
                    if cnt == hi:
                        break
                    x += 1
        starts = {x + 1 for x in last}
    return last


def dead(s, tr, t, n):
    """The first cycle at which no match of s beginning in t is possible any more; None if there is none
    or s matched before."""
    states = {(0, 0)}               # (item, repetitions done)
    for x in range(t, n):
        nxt = set()
        done = False
        for i, c in states:
            e, k, lo, hi = s[i]
            v = bv(e, tr, x)
            if k == "->":
                d = c + v
                if d == lo and v:
                    if i + 1 == len(s):
                        done = True
                    else:
                        nxt.add((i + 1, 0))
                else:
                    nxt.add((i, d))
            elif v:
                d = c + 1
                if d >= lo:
                    if i + 1 == len(s):
                        done = True
                    else:
                        nxt.add((i + 1, 0))
                if hi is None or d < hi:
                    nxt.add((i, min(d, lo)) if hi is None else (i, d))
        if done:
            return None
        if not nxt:
            return x
        states = nxt
    return None


def prop(r):
    """text, function (trace, n) -> set of cycles with a failure (or a match, for cover)"""
    b, c, d = bexpr(r), bexpr(r), bexpr(r)
    B = lambda e: (lambda tr, t: bv(e, tr, t))
    k = r.randrange(15)
    n1 = r.randint(1, 4)
    if k == 0:
        return "always", "assert always %s;" % bt(b), lambda tr, n: {t for t in range(n) if not bv(b, tr, t)}
    if k == 1:
        return "never", "assert never %s;" % bt(b), lambda tr, n: {t for t in range(n) if bv(b, tr, t)}
    if k == 2:
        return "implication", "assert always (%s -> %s);" % (bt(b), bt(c)), lambda tr, n: {t for t in range(n) if bv(b, tr, t) and not bv(c, tr, t)}
    if k == 3:
        return "next", "assert always (%s -> next (%s));" % (bt(b), bt(c)), lambda tr, n: {t + 1 for t in range(n - 1) if bv(b, tr, t) and not bv(c, tr, t + 1)}
    if k == 4:
        return "next[n]", "assert always (%s -> next[%d] (%s));" % (bt(b), n1, bt(c)), lambda tr, n: {t + n1 for t in range(n - n1) if bv(b, tr, t) and not bv(c, tr, t + n1)}
    if k == 5:
        return "nested next", "assert always (%s -> next (%s -> next[%d] (%s)));" % (bt(b), bt(c), n1, bt(d)), \
            lambda tr, n: {t + 1 + n1 for t in range(n - 1 - n1) if bv(b, tr, t) and bv(c, tr, t + 1) and not bv(d, tr, t + 1 + n1)}
    if k in (6, 7):
        inc = k == 7

        def f(tr, n):
            out = set()
            for t in range(n - 1):
                if bv(b, tr, t):
                    for x in range(t + 1, n):
                        if inc:
                            if not bv(c, tr, x):
                                out.add(x)
                                break
                            if bv(d, tr, x):
                                break
                        else:
                            if bv(d, tr, x):
                                break
                            if not bv(c, tr, x):
                                out.add(x)
                                break
            return out
        return ("until_" if inc else "until"), "assert always (%s -> next (%s until%s %s));" % (bt(b), bt(c), "_" if inc else "", bt(d)), f
    if k in (8, 9):
        inc = k == 9

        def f(tr, n):
            # c before d: c happens strictly before d (or with it)
            out = set()
            for t in range(n - 1):
                if bv(b, tr, t):
                    for x in range(t + 1, n):
                        if inc:
                            if bv(c, tr, x):
                                break
                            if bv(d, tr, x):
                                out.add(x)
                                break
                        else:
                            if bv(d, tr, x):
                                out.add(x)
                                break
                            if bv(c, tr, x):
                                break
            return out
        return ("before_" if inc else "before"), "assert always (%s -> next (%s before%s %s));" % (bt(b), bt(c), "_" if inc else "", bt(d)), f
    if k in (10, 11):
        s = seq(r, r.choice([2, 2, 3]))
        ov = k == 10

        def f(tr, n):
            out = set()
            for t in range(n):
                for x in ends(s, tr, t, n):
                    y = x if ov else x + 1
                    if y < n and not bv(d, tr, y):
                        out.add(y)
            return out
        return ("|-> after a sequence that can go on" if ov and more(s) else "|->" if ov else "|=>"), "assert always %s %s %s;" % (st(s), "|->" if ov else "|=>", bt(d)), f
    if k == 12:
        s, q = seq(r, r.choice([2, 2, 3])), seq(r, r.choice([2, 3]), False)
        ov = r.random() < .5

        def f(tr, n):
            out = set()
            for t in range(n):
                for x in ends(s, tr, t, n):
                    y = dead(q, tr, x if ov else x + 1, n)
                    if y is not None:
                        out.add(y)
            return out
        return ("|-> after a sequence that can go on" if ov and more(s) else "sequence implies sequence"), "assert always %s %s %s;" % (st(s), "|->" if ov else "|=>", st(q)), f
    s = seq(r, r.choice([2, 2, 3, 4]))
    f = lambda tr, n: {x for t in range(n) for x in ends(s, tr, t, n)}
    if k == 13:
        return "never sequence", "assert never %s;" % st(s), f
    return "cover", "cover %s" % st(s), f


def case(c, i):
    r = c.rng
    n = r.choice([6, 12, 25, 40])
    dens = {s: r.choice([.15, .3, .5, .7, .85]) for s in SIG}
    tr = {s: [r.random() < dens[s] for _ in range(n)] for s in SIG}
    ps = [prop(r) for _ in range(r.choice([1, 3, 8]))]
    std = "2008"
    pre = "" if std != "1993" else "-- psl "
    t = ["entity top is end entity;", "architecture a of top is"]
    t.append("  signal clk : bit := '0';")
    t.append("  signal %s : boolean := false;" % ", ".join(SIG))
    for s in SIG:
        t.append("  constant t%s : string := \"%s\";" % (s, "".join("01"[v] for v in tr[s])))
    t.append("  %sdefault clock is (clk'event and clk = '1');" % pre if r.random() < .5 else "  %sdefault clock is clk'event and clk = '1';" % pre)
    t.append("begin")
    t.append("  process begin\n    for k in 1 to %d loop" % n)
    for s in SIG:
        t.append("      %s <= t%s(k) = '1';" % (s, s))
    # values change after the previous edge
    t.append("      wait for 5 ns; clk <= '1'; wait for 5 ns; clk <= '0';")
    t.append("    end loop;\n    wait;\n  end process;")
    lines = []
    for k, (kind, text, f) in enumerate(ps):
        if text.startswith("cover"):
            text += " report \"cover hit %d\";" % k
        t.append("  %sl%d : %s" % (pre, k, text))
        lines.append("\n".join(t).count("\n") + 1)
    t.append("end architecture;")
    c.file("t.vhd", "\n".join(t) + "\n")
    eng = r.choice(["interp", "interp", "jit", "aot1"])
    x = run.simulate(c.tmp, ["t.vhd"], "top", eng, std, aopts=["--psl"] if std == "1993" else ["--psl"], eopts=["--cover=functional"] if False else [], ropts=["--exit-severity=failure"])
    c.evals += 1
    if x.hung or run.crash_key(x):
        return c.violate("psl: " + str(run.crash_key(x) or "hangs"), "%s\n%s" % ([p[1] for p in ps], (x.out + x.err)[-1500:]))
    got = {}
    t = x.out + x.err
    other = []
    for m in re.finditer(r"(?ms)^\*\* (\w+): (?:(\d+)(ns|ms)\+\d+: )?(.*?)(?=^\*\* |\Z)", t):
        line = re.findall(r"t\.vhd:(\d+)|^ *> .*?:(\d+)", m.group(4))
        msg = m.group(4).split("\n")[0]
        h = re.match(r"cover hit (\d+)", msg)
        if h:
            got.setdefault(int(h.group(1)), []).append(int(m.group(2)))
        elif "PSL assertion failed" in msg:
            ln = next((int(q) for p in line for q in p if q), None)
            if ln in lines:
                got.setdefault(lines.index(ln), []).append(int(m.group(2)))
            else:
                other.append(msg)
        else:
            other.append(m.group(1) + " " + msg)
    bad = [o for o in other if o.startswith(("Error", "Fatal"))]
    if bad:
        return c.violate("psl: rejected or failed", "%r\n%s" % (bad[:3], t[:1500]))
    for k, (kind, text, f) in enumerate(ps):
        want = {5 + 10 * q if not (5 + 10 * q) % 10 else 5 + 10 * q for q in f(tr, n)}
        g = set(got.get(k, []))
        c.counts[kind] += 1
        c.counts["reports"] += len(g)
        c.counts["cycles"] += n
        if g != want:
            return c.violate("psl: " + kind, "%s: %s\nexpected cycles %r\n     got cycles %r\n%s" % (eng, text, sorted(q // 10 for q in want), sorted(q // 10 for q in g),
                             "\n".join("%s %s" % (s, "".join("01"[v] for v in tr[s])) for s in SIG)))
    c.digest([(p[0], sorted(got.get(k, []))) for k, p in enumerate(ps)])


def main(c):
    c.build(["plain"])
    c.rule = "one random trace with one to eight directives; distinct = distinct (kind, report times)"
    c.run({"case": case}, [("case", c.n(600, 20000))])
