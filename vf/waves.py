"""Reading VCD and comparing it with the history of signals."""
import re
from .kernel import Sc, Arr, Rec


class Var:
    __slots__ = ("path", "name", "width", "kind", "id")


def parse(text):
    """(variables, {id: [(time, value text)]}, list of times)"""
    scope, vs, ch, times = [], [], {}, []
    now = None
    lines = iter(text.split("\n"))
    pend = []
    for l in lines:
        w = l.split()
        if not w:
            continue
        if w[0] == "$scope":
            scope.append(" ".join(w[2:-1]))
        elif w[0] == "$upscope":
            scope.pop()
        elif w[0] == "$var":
            v = Var()
            v.path, v.kind, v.width, v.id, v.name = tuple(scope), w[1], int(w[2]), w[3], " ".join(w[4:-1])
            vs.append(v)
        elif w[0][0] == "$":
            if w[0] in ("$comment", "$attrbegin", "$date", "$version", "$timescale") and "$end" not in w:
                for l in lines:
                    if "$end" in l:
                        break
        elif w[0][0] == "#":
            if w[0] == "#END":
                break
            now = int(w[0][1:])
            times.append(now)
        elif w[0][0] in "bBrRs":
            m = re.match(r"(\S)(.*) (\S+)$", l)
            ch.setdefault(m.group(3), []).append((now, m.group(2), m.group(1)))
        else:
            ch.setdefault(l[1:].strip(), []).append((now, l[0], "1"))
    return vs, ch, times


def bits_for(lo, hi):
    """Fewest bits of a binary representation."""
    n = 1
    if lo < 0:
        while not (-(1 << (n - 1)) <= lo and hi < (1 << (n - 1))):
            n += 1
    else:
        while hi >= (1 << n):
            n += 1
    return n


LOGIC = ("std_ulogic", "std_logic", "bit", "rorr")


def logic(t):
    return t.base in ("std_ulogic", "bit")


UNITS = {"fs": 1, "ps": 10**3, "ns": 10**6, "us": 10**9, "ms": 10**12, "sec": 10**15, "min": 60 * 10**15, "hr": 3600 * 10**15}


def same(t, v, val, tag, width):
    """Does the text show the value v of scalar type t?"""
    if logic(t):
        return tag in "1b" and val.upper() == t.lits[v][1]
    if t.lits:
        return tag == "s" and val == t.lits[v]
    if t.base == "real":
        return tag == "r" and float(val) == v / 2.0
    if t.base == "time":
        m = re.match(r"(-?\d+)(?:\\040| |\\x20|\\s)(\w+)$", val)
        return tag == "s" and bool(m) and int(m.group(1)) * UNITS[m.group(2).lower()] == v * 1000
    if tag not in "b1" or not re.match(r"[01]+$", val):
        return False
    lo, hi = (t.lo, t.hi) if t.base == t.name else (-2**31, 2**31 - 1)
    if width < bits_for(lo, hi) or len(val) > width:
        return False
    x = int(val.rjust(width, "0"), 2)
    return x == v % (1 << width)


def outer(t):
    """Number of sub-records of an array of (arrays of) records, else the outer length."""
    n, e = t.len, t.elem
    while isinstance(e, Arr):
        n, e = n * e.len, e.elem
    return n if isinstance(e, Rec) else t.len


def wanted(t, pre, path, limit):
    """[(path, name, leaves, element type, may be missing from a collapsed port)] of one signal."""
    out = []

    def arr(t, name, path, lv, many):
        m = t.elem.n
        idx = list(t.idx())
        if isinstance(t.elem, Sc) and logic(t.elem):
            out.append((path, "%s[%d:%d]" % (name, t.l, t.r), lv, t.elem, many))
            return
        for k, i in enumerate(idx):
            sub(t.elem, "%s[%d]" % (name, i), path, lv[k * m:(k + 1) * m], True, True)

    def sub(t, name, path, lv, many, nested):
        if isinstance(t, Sc):
            out.append((path, name, lv, t, many))
        elif isinstance(t, Rec):
            for f, ft, o in t.parts():
                sub(ft, f, path + (name,), lv[o:o + ft.n], False, False)
        elif nested or isinstance(t.elem, Sc) and t.elem.lits or limit and outer(t) <= limit:
            arr(t, name, path, lv, many)

    sub(t, pre, path, list(range(t.n)), False, False)
    return out


def has_record(t):
    return isinstance(t, Rec) or isinstance(t, Arr) and has_record(t.elem)


def path_of(sc):
    return ("top",) if sc.parent is None else path_of(sc.parent) + ("u" + sc.name,)


def glob(g, s):
    import re
    return re.match("".join(".*" if c == "*" else re.escape(c) for c in g) + "$", s) is not None


def selected(p, inc, exc):
    return not any(glob(g, p) for g in exc) and (not inc or any(glob(g, p) for g in inc))


def compare(sigs, text, limit, stop=None, inc=(), exc=(), collapsed=True, unit=1000, count=None):
    """sigs: [(path, Sig)]. Returns None or (key, detail)."""
    vs, ch, times = parse(text)
    if times != sorted(set(times)):
        return "times of the dump are not increasing", repr(times[:40])
    have = {}
    for v in vs:
        if (v.path, v.name) in have:
            return "two variables of one name", "%s %s" % (v.path, v.name)
        have[v.path, v.name] = v
    seen = set()
    for path, s in sigs:
        if not selected(":" + ":".join(path) + ":" + s.name, inc, exc):
            continue
        for pth, name, lv, t, many in wanted(s.t, s.name, path, limit):
            v = have.get((pth, name))
            if v is None:
                if collapsed and s.mode == "in" and has_record(s.t):
                    # recorded finding: a record port that is collapsed is not dumped
                    count["collapsed record port not dumped"] += 1
                    continue
                return "signal missing from the dump", "%s %s\nhave %s" % (pth, name, sorted(n for p, n in have if p == pth))
            seen.add((pth, name))
            c = ch.get(v.id, [])
            got = []
            for i, (tm, val, tag) in enumerate(c):
                if i + 1 < len(c) and c[i + 1][0] == tm:
                    continue
                if not got or got[-1][1:] != (val, tag):
                    got.append((tm, val, tag))
            ts = sorted({max(u, 0) for i in lv for u, x in s.hist[i] if stop is None or u <= stop})
            exp = []
            for u in ts:
                x = [s.at(i, u) for i in lv]
                if not exp or exp[-1][1] != x:
                    exp.append((u, x))
            if isinstance(t, Sc) and logic(t) and len(lv) >= 1:
                ok = len(got) == len(exp) and all(
                    g[0] == u * unit and len(g[1]) == len(x) and all(same(t, y, d, "1", 1) for y, d in zip(x, g[1]))
                    for g, (u, x) in zip(got, exp))
                if v.width != len(lv):
                    return "wrong width of a variable", "%s %s: %d" % (pth, name, v.width)
            else:
                ok = len(got) == len(exp) and all(
                    g[0] == u * unit and same(t, x[0], g[1], g[2], v.width) for g, (u, x) in zip(got, exp))
            if not ok:
                return "wrong changes", "%s %s\n got: %s\nwant: %s" % (
                    pth, name, [(a // unit if a is not None else a, b) for a, b, _ in got][:20],
                    [(u, [t.show([y]) for y in x]) for u, x in exp][:20])
            if count is not None:
                count["variables"] += 1
                count["changes"] += len(exp)
    extra = [k for k in have if k not in seen]
    if extra:
        return "a variable that was not selected", repr(extra[:5])
    return None
