"""Run control: generated designs that report, wait, stop and fail; the log and the exit status are
compared with a model of when the run must end."""
import re
from vf import run

SEV = ["note", "warning", "error", "failure"]


class Prog:
    """One process: statements and their meaning side by side."""
    def __init__(s, rng, std, api, tag):
        s.r, s.std, s.api, s.tag, s.n, s.procs = rng, std, api, tag, 0, []
        s.rich = False

    def msg(s):
        s.n += 1
        return "%s_%d" % (s.tag, s.n)

    def stmts(s, depth, wait=True):
        return [s.stmt(depth, wait) for _ in range(s.r.randint(1, 5 if depth else 7))]

    def stmt(s, depth, wait):
        r = s.r
        k = r.random()
        if k < .34:
            return ("rep", r.choices(range(4), s.w)[0], s.msg(), r.choice(["plain", "fn", "assert", "default"]))
        if k < .42:
            return ("ok", s.msg())
        if k < .70 and wait:
            k = r.random()
            if k < .3:
                return ("delta",)
            return ("wait", r.choice([1, 2, 3, 5, 10, 10, 20]), r.choice(["ns", "ns", "ns", "ps"]))
        if k < .76 and depth < 3:
            return ("loop", r.randint(0, 4), s.stmts(depth + 1, wait), s.msg())
        if k < .82 and depth < 3:
            return ("if", r.random() < .5, s.stmts(depth + 1, wait), s.stmts(depth + 1, wait))
        if k < .88 and depth < 3:
            b = s.stmts(depth + 1, wait)
            s.procs.append(b)
            return ("call", len(s.procs) - 1, s.tag)
        if k < .905 and s.std != "1993":
            st = r.choice([None, None, 0, 1, 2, 3, 17, 255])
            return ("stop", r.choice(["stop", "finish"]), st)
        if k < .92:
            return ("die", r.choice(["div", "index", "range", "null"]), s.msg())
        if k < .93:
            return ("event", s.msg())
        if s.api:
            k = r.random()
            if k < .5:
                return ("enable", r.randrange(3), r.random() < .4)
            if k < .9:
                return ("count", r.randrange(4), s.msg())
            return ("clear",)
        return ("rep", 0, s.msg(), "plain")

    def design(s):
        r = s.r
        s.w = r.choice([[20, 3, 1, .3], [5, 5, 5, .2], [9, 4, 0, 0], [5, 1, 0, .1], [3, 3, 3, 3]])
        s.body = s.stmts(0)
        s.forever = r.random() < .35
        if s.forever:
            s.body.append(("wait", r.choice([1, 4, 7]), "ns"))
        return s

    # --- text
    def text(s, ss, ind):
        o, p = [], "  " * ind
        for x in ss:
            k = x[0]
            if k == "rep":
                sv, m, how = x[1:]
                if how == "default":
                    if sv == 0:
                        o.append('%sreport "%s";' % (p, m))
                    elif sv == 2:
                        o.append('%sassert one > 1 report "%s";' % (p, m))
                    else:
                        how = "plain"
                if how == "plain":
                    o.append('%sreport "%s" severity %s;' % (p, m, SEV[sv]))
                elif how == "fn":
                    o.append('%sreport mk("%s", one) severity sev(%d * one);' % (p, m[:-1], sv) if False else
                             '%sreport mk("%s") severity sev(%d * one);' % (p, m, sv))
                elif how == "assert":
                    o.append('%sassert one = 0 report "%s" severity %s;' % (p, m, SEV[sv]))
            elif k == "ok":
                o.append('%sassert one = 1 report "%s" severity failure;' % (p, x[1]))
            elif k == "delta":
                o.append(p + "wait for 0 ns;")
            elif k == "wait":
                o.append("%swait for %d %s;" % (p, x[1], x[2]))
            elif k == "loop":
                v = "i" + x[3]
                o.append("%sfor %s in 1 to %d * one loop" % (p, v, x[1]))
                o += s.text(x[2], ind + 1) + [p + "end loop;"]
            elif k == "if":
                o.append("%sif one = %d then" % (p, 1 if x[1] else 2))
                o += s.text(x[2], ind + 1) + [p + "else"] + s.text(x[3], ind + 1) + [p + "end if;"]
            elif k == "call":
                o.append("%sp%s%d;" % (p, x[2], x[1]))
            elif k == "stop":
                o.append("%sstd.env.%s%s;" % (p, x[1], "" if x[2] is None else "(%d)" % x[2]))
            elif k == "die":
                o.append(p + {"div": 'report integer\'image(1 / (one - 1));',
                              "index": "tab(one + 9) := 1;",
                              "range": "small := one + 40;",
                              "null": "ptr.all := 1;"}[x[1]])
            elif k == "event":
                o.append("%sact <= not act after 2 ns;" % p)
                o.append("%swait on act;" % p)
            elif k == "enable":
                o.append("%sstd.env.SetVhdlAssertEnable(Level => %s, Enable => %s);" % (p, SEV[x[1]], str(x[2]).lower()))
            elif k == "clear":
                o.append(p + "std.env.ClearVhdlAssert;")
            elif k == "count":
                o.append('%sreport "%s " & integer\'image(std.env.GetVhdlAssertCount(%s));' % (p, x[2], SEV[x[1]]))
        return o

    def process(s):
        o = ["  signal act : bit;" if False else "", "begin", "  process",
             "    variable one : integer := 1;", "    type arr is array (1 to 4) of integer;",
             "    variable tab : arr;", "    variable small : integer range 0 to 9;",
             "    type ip is access integer;", "    variable ptr : ip;",
             "    function mk(s : string) return string is begin return s; end function;",
             "    function sev(n : integer) return severity_level is begin return severity_level'val(n); end function;"]
        for i, b in enumerate(s.procs):
            o += ["    procedure p%s%d is" % (s.tag, i), "    begin"] + s.text(b, 3) + ["    end procedure;"]
        o += ["  begin"] + s.text(s.body, 2)
        if not s.forever:
            o.append("    wait;")
        return o + ["  end process;"]

    # --- meaning: a coroutine yielding ("say", sev, text) | ("wait", fs) | ("stop"|...)
    def go(s, ss, g):
        for x in ss:
            k = x[0]
            if k == "rep":
                yield ("say", x[1], x[2])
            elif k == "delta":
                yield ("wait", 0)
            elif k == "wait":
                yield ("wait", x[1] * (1000000 if x[2] == "ns" else 1000))
            elif k == "loop":
                for _ in range(x[1]):
                    yield from s.go(x[2], g)
            elif k == "if":
                yield from s.go(x[2] if x[1] else x[3], g)
            elif k == "call":
                yield from s.go(s.procs[x[1]], g)
            elif k == "stop":
                yield ("stop", x[1], x[2])
            elif k == "die":
                yield ("die", x[1])
            elif k == "event":
                yield ("wait", 2000000)
            elif k == "enable":
                g["en"][x[1]] = x[2]
            elif k == "clear":
                g["cnt"] = [0] * 4
            elif k == "count":
                yield ("say", 0, "%s %d" % (x[2], g["cnt"][x[1]]))

    def run(s, g):
        while True:
            yield from s.go(s.body, g)
            if not s.forever:
                return


def model(progs, exit_sev, stop_fs, stop_delta, g, limit):
    """-> (events, end) where events are (t, d, proc, kind, sev, text) and end = (t, d) of the last delta or None."""
    act = [(0, 0, i, p.run(g)) for i, p in enumerate(progs)]
    ev, n = [], 0
    ends = []
    while act:
        act.sort(key=lambda a: a[:3])
        t, d = act[0][:2]
        if t > stop_fs:
            return ev, ends, (t, d), "time"
        nxt = []
        for a in act:
            if a[:2] != (t, d):
                nxt.append(a)
                continue
            i, co = a[2:]
            for x in co:
                n += 1
                if n > limit:
                    return None
                if x[0] == "say":
                    if not g["en"][x[1]]:
                        continue
                    ev.append((t, d, i, SEV[x[1]], x[2]))
                    g["cnt"][x[1]] += 1
                    if x[1] >= exit_sev:
                        ends.append((i, 1))
                        break
                elif x[0] == "wait":
                    nxt.append((t, d + 1, i, co) if x[1] == 0 else (t + x[1], 0, i, co))
                    break
                elif x[0] == "stop":
                    ev.append((t, d, i, "note", x[1].upper() + " called" + ("" if x[2] is None else " with status %d" % x[2])))
                    ends.append((i, x[2]))
                    break
                else:
                    ev.append((t, d, i, "fatal", x[1]))
                    ends.append((i, 1))
                    break
        if ends:
            return ev, ends, (t, d), "end"
        act = nxt
        if stop_delta and d == stop_delta and any(a[:2] == (t, d + 1) for a in act):
            ev.append((t, d, -1, "fatal", "limit"))
            ends.append((-1, 1))
            return ev, ends, (t, d), "delta"
    return ev, ends, None, "idle"


UNIT = {"fs": 1, "ps": 10**3, "ns": 10**6, "us": 10**9, "ms": 10**12, "sec": 10**15}
FATAL = {"div": "division by zero", "index": "index 10 outside", "range": "value 41 outside", "null": "null access dereference", "limit": "delta cycles reached"}


def one(c, i, engine="interp"):
    r = c.rng
    std = r.choice(["1993", "2008", "2008", "2019"])
    api = std == "2019" and r.random() < .6
    np = 1 if api else r.choice([1, 2, 2, 3, 4])
    while True:
        ps = [Prog(r, std, api, "abcd"[k]).design() for k in range(np)]
        sev = r.choice([None, None, 3, 2, 1, 0])
        est = sev if sev is not None else 3
        sd = r.choice([10000, 10000, 10000, 2, 3, 6])
        if any(p.forever for p in ps) or r.random() < .3:
            stop = r.choice([(0, "ns"), (5, "ns"), (17, "ns"), (40, "ns"), (12500, "ps"), (100, "ns")])
        else:
            stop = None
        g = {"cnt": [0] * 4, "en": [True] * 4}
        m = model(ps, est, stop[0] * UNIT[stop[1]] if stop else 1 << 62, sd, g, 3000)
        if m:
            break
    ev, ends, endk, why = m
    txt, subs = [], []
    depth = 0
    for p in ps:
        txt += ["entity e%s is end;" % p.tag, "architecture a of e%s is" % p.tag, "  signal act : bit;"] + p.process() + ["end;"]
    txt += ["entity top is end;", "architecture a of top is", "begin"] + ["  u%s: entity work.e%s;" % (p.tag, p.tag) for p in ps] + ["end;"]
    c.file("t.vhd", "\n".join(txt) + "\n")
    ro = (["--exit-severity=" + SEV[sev]] if sev is not None else []) + (["--stop-time=%d%s" % stop] if stop else []) \
        + (["--stop-delta=%d" % sd] if sd != 10000 or r.random() < .5 else [])
    glob = []
    lvl = None
    if r.random() < .3:
        lvl = r.randrange(4)
        glob = ["--stderr=" + SEV[lvl]]
    c.evals += 1
    x = run.simulate(c.tmp, ["t.vhd"], "top", engine, std, ropts=ro, glob=glob)
    info = "options %s\n" % " ".join(glob + ro)
    k = run.crash_key(x) if x.rc != 255 else None
    if k or x.hung:
        return c.violate("run control: " + (k or "does not end"), info + x.err[-1500:])
    got = []
    for stream, s in ((1, x.out), (2, x.err)):
        for l in s.splitlines():
            m = re.match(r"\*\* (\w+): (?:(\d+)(\w+)\+(\d+): )?(.*)", l)
            if m and m[2]:
                if m[1] == "Error" and False:
                    continue
                got.append((int(m[2]) * UNIT[m[3]], int(m[4]), m[1].lower(), m[5], stream))
            elif m and m[1] not in ("Debug",):
                got.append((-1, -1, m[1].lower(), m[5], stream))
    if any(a[0] == -1 and a[2] in ("fatal", "error") for a in got):
        return c.violate("run control: legal design rejected", info + x.err[:1500])
    lev = {"note": 0, "warning": 1, "error": 2, "failure": 3, "fatal": 4}
    if lvl is not None:
        for a in got:
            if a[0] >= 0 and (a[4] == 2) != (lev[a[2]] >= lvl):
                c.violate("run control: message on the wrong stream", info + repr(a))
    # attribute every line to a process
    per = {}
    last = (-1, -1)
    for a in got:
        if a[0] < 0:
            continue
        if lvl is None and (a[0], a[1]) < last:
            c.violate("run control: messages out of order", info + repr(a))
        last = (a[0], a[1])
    want = [(t, d, s, tx) for t, d, _, s, tx in ev]

    def norm(t, d, s, tx):
        if s == "fatal" or s == "error":
            for kk, pat in FATAL.items():
                if pat in tx:
                    return (t, d, "fatal", kk)
        return (t, d, s, tx)
    have = [norm(*a[:4]) for a in got if a[0] >= 0]
    if lvl is not None:
        have.sort(key=lambda a: a[:2])
    before = lambda l: [e for e in l if endk is None or why == "time" or e[:2] < endk]
    from collections import Counter
    if Counter(before(want)) != Counter(before(have)):
        a, b = list((Counter(before(want)) - Counter(before(have))).elements()), list((Counter(before(have)) - Counter(before(want))).elements())
        return c.violate("run control: message %s" % ("lost" if a and not b else "from a statement that should not run" if b and not a else "wrong"),
                         info + "missing %r\nextra %r\n" % (a[:5], b[:5]))
    codes = set()
    if ends:
        # within the last delta any order of the processes is possible and a process may not run at all
        tail = [e for e in have if e[:2] >= endk]
        if any(e[:2] > endk for e in tail):
            return c.violate("run control: executed after the end of the run", info + "end %r\n%r" % (endk, tail[:6]))
        if why == "end" and endk[1] == sd:   # the limit is reached in the very delta that ends the run
            tail = [e for e in tail if e[2:] != ("fatal", "limit")]
        fin = Counter(tail)
        seqs = {}
        for t, d, p, s, tx in ev:
            if (t, d) == endk:
                seqs.setdefault(p, []).append((t, d, s, tx))
        match = False
        for n in range(1 << len(seqs)):
            sub = [p for k, p in enumerate(seqs) if n >> k & 1]
            if sum((Counter(seqs[p]) for p in sub), Counter()) == fin:
                match = True
                codes |= {st for q, st in ends if q in sub}
        if not match:
            return c.violate("run control: wrong messages in the last delta", info + "log %r\nmodel %r\n" % (tail, seqs))
        if not codes:
            return c.violate("run control: the event that ends the run did not happen", info + "end %r %r" % (endk, ends))
        c.counts["runs ended by statement" if why == "end" else "runs ended by the delta limit"] += 1
    else:
        c.counts["runs ended by stop time" if why == "time" else "runs ended idle"] += 1
    # order inside each process
    for p in ps:
        order = [e for e in have if re.match(p.tag + r"_\d", e[3])]
        worder = [(t, d, s, tx) for t, d, q, s, tx in ev if ps[q] is p and q >= 0 and re.match(p.tag + r"_\d", tx)]
        if lvl is None and order != worder[:len(order)]:
            return c.violate("run control: messages of a process out of order", info + "%r\n%r" % (order[:6], worder[:6]))
    base = 1 if any(n > 0 for n in g["cnt"][(sev if sev is not None else 2):]) else 0
    exp = {(base if s is None else s) for s in codes} or {base}
    if x.rc not in exp:
        return c.violate("run control: wrong exit status" + (" after the delta limit was just reached" if sd and not ends and x.rc == 1 else ""),
                         info + "status %r, expected %r (%s, ends %r)\n%s" % (x.rc, exp, why, ends, x.err[-600:]))
    c.counts["messages"] += len(have)
    c.counts["exit status %s" % ("0" if x.rc == 0 else "1" if x.rc == 1 else "other")] += 1
    c.digest((why, x.rc, have))


def jit(c, i):
    one(c, i, "jit")


def main(c):
    c.build(["plain"])
    c.rule = "random designs ended in every way; distinct = distinct logs with exit status"
    c.run({"one": one, "jit": jit}, [("one", c.n(4000, 60000)), ("jit", c.n(400, 6000))])
