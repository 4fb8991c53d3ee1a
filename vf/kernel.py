"""Random signal-level designs and a reference for the LRM simulation cycle.

A design is generated while the reference simulates it: each time a process resumes, its next
statements are chosen (so constructs whose behaviour is a recorded finding can be avoided with full
knowledge of the state), and the text of the process grows by those statements.
All state is kept per scalar subelement ("leaf").
"""
import random, re

# ------------------------------------------------------------------ types

STD = "UX01ZWLH-"
RES = ["UUUUUUUUU", "UXXXXXXXX", "UX0X0000X", "UXX11111X", "UX01ZWLHX",
       "UX01WWWWX", "UX01LWLWX", "UX01HWWHX", "UXXXXXXXX"]


def res_std(vals):
    if len(vals) == 1:
        return vals[0]
    r = 4          # 'Z'
    for v in vals:
        r = STD.index(RES[r][v])
    return r


class Sc:
    """Scalar type. Values are Python ints."""
    n = 1

    def __init__(self, name, lits=None, lo=0, hi=0, decl=None, base=None, image=None, res=None,
                 show=None, resname=None):
        self.name, self.lits, self.lo, self.hi, self.decl = name, lits, lo, hi, decl
        self.base = base or name
        self.res = res
        if lits:
            self.lo, self.hi = 0, len(lits) - 1
        self.image = image or (self.base + "'image(%s)")
        self._show = show

    def lit(self, v):
        v = v[0]
        if self.lits:
            return self.lits[v]
        if self.base == "real":
            return "%d.%d" % (v // 2, (v % 2) * 5) if v >= 0 else "(-%d.%d)" % ((-v) // 2, ((-v) % 2) * 5)
        if self.base == "time":
            return "%d ps" % v if v >= 0 else "(-%d ps)" % -v
        return str(v) if v >= 0 else "(%d)" % v

    def show(self, v):
        v = v[0]
        if self.lits:
            s = self.lits[v]
            return s if s.startswith("'") else s.lower()
        return str(v)

    def rand(self, rng):
        if self.lits:
            return [rng.randrange(len(self.lits))]
        if rng.random() < .1:
            return [rng.choice([self.lo, self.hi])]
        if rng.random() < .6:
            return [max(self.lo, min(self.hi, rng.randint(0, 3)))]
        return [rng.randint(self.lo, self.hi)]

    def left(self):
        return [self.lo]

    def ress(self):
        return [self.res]

    def imgexpr(self, e):
        return self.image % e

    def same(self, o):
        return isinstance(o, Sc) and o.base == self.base and (o.lo, o.hi) == (self.lo, self.hi)


class Arr:
    def __init__(self, name, base, elem, l, r, string=False, index="natural"):
        self.name, self.base, self.elem, self.l, self.r = name, base, elem, l, r
        self.down = l > r
        self.len = abs(l - r) + 1
        self.n = self.len * elem.n
        self.string = string
        self.index = index

    def idx(self):
        return list(range(self.l, self.r - 1, -1) if self.down else range(self.l, self.r + 1))

    def sub(self, l, r):
        return Arr(None, self.base, self.elem, l, r, self.string, self.index)

    def lit(self, v):
        m = self.elem.n
        if self.string:
            return '"' + "".join(self.elem.lits[x][1] for x in v) + '"'
        es = [self.elem.lit(v[i * m:(i + 1) * m]) for i in range(self.len)]
        if self.len == 1:
            return "(%d => %s)" % (self.l, es[0])
        return "(" + ", ".join(es) + ")"

    def show(self, v):
        m = self.elem.n
        return "[" + ",".join(self.elem.show(v[i * m:(i + 1) * m]) for i in range(self.len)) + "]"

    def rand(self, rng):
        if rng.random() < .25:
            e = self.elem.rand(rng)
            return e * self.len
        return [x for i in range(self.len) for x in self.elem.rand(rng)]

    def left(self):
        return self.elem.left() * self.len

    def ress(self):
        return self.elem.ress() * self.len

    def imgexpr(self, e):
        return "img(%s)" % e

    def same(self, o):
        return isinstance(o, Arr) and o.base == self.base and o.len == self.len


class Rec:
    def __init__(self, name, fields):
        self.name = self.base = name
        self.fields = fields
        self.n = sum(t.n for _, t in fields)

    def parts(self):
        o = 0
        for f, t in self.fields:
            yield f, t, o
            o += t.n

    def lit(self, v):
        if len(self.fields) == 1:
            return "(%s => %s)" % (self.fields[0][0], self.fields[0][1].lit(v))
        return "(" + ", ".join(t.lit(v[o:o + t.n]) for f, t, o in self.parts()) + ")"

    def show(self, v):
        return "{" + ",".join(t.show(v[o:o + t.n]) for f, t, o in self.parts()) + "}"

    def rand(self, rng):
        return [x for f, t in self.fields for x in t.rand(rng)]

    def left(self):
        return [x for f, t in self.fields for x in t.left()]

    def ress(self):
        return [x for f, t in self.fields for x in t.ress()]

    def imgexpr(self, e):
        return "img(%s)" % e

    def same(self, o):
        return o is self


def scalars():
    return {
        "bit": Sc("bit", ["'0'", "'1'"]),
        "boolean": Sc("boolean", ["false", "true"]),
        "std_ulogic": Sc("std_ulogic", ["'%s'" % c for c in STD]),
        "std_logic": Sc("std_logic", ["'%s'" % c for c in STD], base="std_ulogic", res=res_std),
        "integer": Sc("integer", lo=-2**31, hi=2**31 - 1),
        "e5": Sc("e5", ["ea", "eb", "ec", "ed", "ee"], decl="type e5 is (ea, eb, ec, ed, ee);"),
        "i8": Sc("i8", lo=-5, hi=100, decl="type i8 is range -5 to 100;"),
        "i16": Sc("i16", lo=0, hi=40000, decl="type i16 is range 0 to 40000;"),
        "i64": Sc("i64", lo=-2**60, hi=2**60, decl="type i64 is range -1152921504606846976 to 1152921504606846976;"),
        "real": Sc("rr", base="real", decl="subtype rr is real range -25.0 to 25.0;", lo=-50, hi=50, image="integer'image(integer(%s * 2.0))"),
        "time": Sc("tt", base="time", decl="subtype tt is time range 0 ps to 1099511627776 ps;", lo=0, hi=2**40, image="i64'image(%s / 1 ps)"),
        # custom resolved types
        "rsum": Sc("rsum", lo=-1000, hi=1000, base="integer",
                   res=lambda vs: sum(vs),
                   decl="""function f_sum(x : t_ints) return integer;
  subtype rsum is f_sum integer;"""),
        "rorr": Sc("rorr", ["'0'", "'1'"], base="bit", res=lambda vs: int(any(vs)),
                  decl="""function f_or(x : bit_vector) return bit;
  subtype rorr is f_or bit;"""),
        "rmax": Sc("rmax", ["ea", "eb", "ec", "ed", "ee"], base="e5", res=lambda vs: max(vs),
                   decl="""type t_e5s is array (natural range <>) of e5;
  function f_max(x : t_e5s) return e5;
  subtype rmax is f_max e5;"""),
    }


BODIES = """  function f_sum(x : t_ints) return integer is
    variable r : integer := 0;
  begin
    for i in x'range loop r := r + x(i); end loop;
    return r;
  end;
  function f_or(x : bit_vector) return bit is
    variable r : bit := '0';
  begin
    for i in x'range loop r := r or x(i); end loop;
    return r;
  end;
  function f_max(x : t_e5s) return e5 is
    variable r : e5 := ea;
  begin
    for i in x'range loop if x(i) > r then r := x(i); end if; end loop;
    return r;
  end;
"""


class Types:
    """The types of one design, and the package declaring them."""
    def __init__(self, rng, ncomp=3, scal=None, unit="pk"):
        self.rng = rng
        self.sc = scalars()
        self.scal = [self.sc[x] for x in (scal or
                     ["bit", "std_logic", "std_logic", "std_ulogic", "integer", "e5", "i8", "i16",
                      "i64", "real", "time", "boolean"])]
        self.comp = []
        self.decls = ["type t_ints is array (natural range <>) of integer;"]
        self.imgs = []
        self.unit = unit
        for k in ("e5", "i8", "i16", "i64", "real", "time", "rsum", "rorr", "rmax"):
            self.decls += self.sc[k].decl.split("\n")
        self.k = 0
        self.bases = {}
        for i in range(ncomp):
            self.comp.append(self.composite())

    def array_of(self, elem, length=None):
        rng = self.rng
        self.k += 1
        n = length or rng.choice([1, 2, 2, 3, 4, 5, 7, 8, 9, 12] if elem.n == 1 else [1, 2, 2, 3])
        lo = rng.choice([0, 0, 1, 3])
        l, r = (lo, lo + n - 1) if rng.random() < .5 else (lo + n - 1, lo)
        if n == 1:
            l = r
        if elem.name in ("bit", "std_logic", "std_ulogic") and rng.random() < .8:
            base = {"bit": "bit_vector", "std_logic": "std_logic_vector", "std_ulogic": "std_ulogic_vector"}[elem.name]
        elif elem.name in self.bases and rng.random() < .7:
            base = self.bases[elem.name]
        else:
            base = "b%d" % self.k
            self.decls.append("type %s is array (natural range <>) of %s;" % (base, elem.name))
            self.bases[elem.name] = base
        nm = "a%d" % self.k
        st = isinstance(elem, Sc) and elem.lits and elem.lits[0][0] == "'"
        t = Arr(nm, base, elem, l, r, bool(st))
        if n == 1 and rng.random() < .5:
            t.down = True
        self.decls.append("subtype %s is %s(%d %s %d);" % (nm, base, l, "downto" if t.down else "to", r))
        self.imgs.append((t, " & \",\" & ".join(elem.imgexpr("x(%d)" % i) for i in t.idx())))
        return t

    def record_of(self, fts):
        self.k += 1
        nm = "r%d" % self.k
        t = Rec(nm, [("f%d" % i, ft) for i, ft in enumerate(fts)])
        self.decls.append("type %s is record %s end record;" % (
            nm, " ".join("%s : %s;" % (f, x.name) for f, x in t.fields)))
        self.imgs.append((t, " & \",\" & ".join(x.imgexpr("x." + f) for f, x in t.fields)))
        return t

    def composite(self, depth=0):
        rng = self.rng
        k = rng.random()
        if k < .55 or depth >= 2:
            return self.array_of(rng.choice(self.scal))
        if k < .8:
            return self.record_of([rng.choice(self.scal) if rng.random() < .7 or depth
                                   else self.composite(depth + 1) for _ in range(rng.randint(1, 4))])
        e = self.composite(depth + 1)
        if e.n > 8:
            return e
        return self.array_of(e)

    def named(self, t):
        """t, or a named subtype for a slice."""
        if t.name:
            return t
        self.k += 1
        n = Arr("a%d" % self.k, t.base, t.elem, t.l, t.r, t.string)
        n.down = t.down
        self.decls.append("subtype %s is %s(%d %s %d);" % (n.name, n.base, n.l, "downto" if n.down else "to", n.r))
        self.imgs.append((n, " & \",\" & ".join(n.elem.imgexpr("x(%d)" % i) for i in n.idx())))
        return n

    def pick(self):
        rng = self.rng
        if self.comp and rng.random() < .55:
            return rng.choice(self.comp)
        return rng.choice(self.scal)

    def text(self):
        o = ["library ieee; use ieee.std_logic_1164.all;", "package %s is" % self.unit]
        o += ["  " + d for d in self.decls]
        for t, e in self.imgs:
            o.append("  function img(x : %s) return string;" % t.base if isinstance(t, Rec) else
                     "  function img_%s(x : %s) return string;" % (t.name, t.name))
        o.append("  function tim(t : time) return string;")
        o += ["end;", "package body %s is" % self.unit, BODIES.rstrip("\n")]
        o.append("  function tim(t : time) return string is begin if t = time'high then return \"inf\"; end if; "
                 "return i64'image(t / 1 ps); end;")
        for t, e in self.imgs:
            e = self.fix(e)
            if isinstance(t, Rec):
                o.append("  function img(x : %s) return string is begin return \"{\" & %s & \"}\"; end;" % (t.name, e))
            else:
                o.append("  function img_%s(x : %s) return string is begin return \"[\" & %s & \"]\"; end;" % (
                    t.name, t.name, e))
        o.append("end;")
        return "\n".join(o) + "\n"

    def fix(self, e):
        return e


# imgexpr of a named array type must select the function by the subtype name
def _arr_img(self, e):
    return "img_%s(%s)" % (self.name, e)


Arr.imgexpr = _arr_img


# ------------------------------------------------------------------ names

class Name:
    """Part of a signal: text, type, leaves (list of indices), static prefix flag."""
    __slots__ = ("text", "t", "leaves", "sig", "pre")

    def __init__(self, sig, text, t, leaves, pre=()):
        self.sig, self.text, self.t, self.leaves, self.pre = sig, text, t, leaves, pre


def whole(sig):
    return Name(sig, sig.name, sig.t, list(range(sig.t.n)))


def descend(rng, nm, stop=.4, dyn=False, slices=True):
    """A random part of nm."""
    while True:
        if isinstance(nm.t, Sc) or rng.random() < stop:
            return nm
        nm = step(rng, nm, dyn, slices)


def step(rng, nm, dyn=False, slices=True):
    t = nm.t
    if isinstance(t, Rec):
        f, ft, o = rng.choice(list(t.parts()))
        return Name(nm.sig, nm.text + "." + f, ft, nm.leaves[o:o + ft.n], nm.pre)
    m = t.elem.n
    ids = t.idx()
    if rng.random() < .5 or not slices:
        k = rng.randrange(t.len)
        i = str(ids[k])
        pre = nm.pre
        if dyn and len(pre) < 8 and rng.random() < .5:
            v = "vi%d" % len(pre)
            pre = pre + ("%s := %s;" % (v, i),)
            i = v
        return Name(nm.sig, "%s(%s)" % (nm.text, i), t.elem, nm.leaves[k * m:(k + 1) * m], pre)
    a = rng.randrange(t.len)
    b = rng.randrange(a, t.len)
    l, r = str(ids[a]), str(ids[b])
    pre = nm.pre
    if dyn and len(pre) < 8 and rng.random() < .4:
        v = "vi%d" % len(pre)
        if rng.random() < .5:
            pre = pre + ("%s := %s;" % (v, l),)
            l = v
        else:
            pre = pre + ("%s := %s;" % (v, r),)
            r = v
    s = t.sub(ids[a], ids[b])
    s.down = t.down
    base = nm.text
    return Name(nm.sig, "%s(%s %s %s)" % (base, l, "downto" if t.down else "to", r), s,
                nm.leaves[a * m:(b + 1) * m], pre)


def partition(rng, nm, depth=0):
    """Cut a name into disjoint parts covering it (each one a static name)."""
    t = nm.t
    if isinstance(t, Sc) or rng.random() < (.45 if depth == 0 else .6):
        return [nm]
    out = []
    if isinstance(t, Rec):
        for f, ft, o in t.parts():
            out += partition(rng, Name(nm.sig, nm.text + "." + f, ft, nm.leaves[o:o + ft.n]), depth + 1)
        return out
    ids, m, i = t.idx(), t.elem.n, 0
    while i < t.len:
        j = min(t.len, i + rng.choice([1, 1, 2, 3, 4, 8]))
        if j - i == t.len:
            return [nm]
        if j - i == 1 and rng.random() < .7:
            out += partition(rng, Name(nm.sig, "%s(%d)" % (nm.text, ids[i]), t.elem,
                                       nm.leaves[i * m:j * m]), depth + 1)
        else:
            s = t.sub(ids[i], ids[j - 1])
            s.down = t.down
            out.append(Name(nm.sig, "%s(%d %s %d)" % (nm.text, ids[i], "downto" if t.down else "to", ids[j - 1]),
                            s, nm.leaves[i * m:j * m]))
        i = j
    return out


# ------------------------------------------------------------------ state

class Driver:
    __slots__ = ("cur", "wave", "last_tx", "proc", "active", "clob")

    def __init__(self, proc, v):
        self.proc, self.cur, self.wave = proc, v, []
        self.active = self.clob = False


class Sig:
    def __init__(self, name, t, init, mode=None):
        self.name, self.t, self.init = name, t, list(init)
        self.n = t.n
        self.res = t.ress()
        self.mode = mode                 # None for a signal, else in/out/inout/buffer
        self.drivers = [[] for _ in range(self.n)]     # per leaf: Driver or ("port", Sig, leaf, conv)
        self.conn = [None] * self.n                    # per leaf of a port: (actual Sig, leaf, conv_in)
        self.driving = list(init)
        self.cur = list(init)
        self.force = [None] * self.n
        self.dforce = [None] * self.n
        self.last_val = list(init)
        self.last_ev = [None] * self.n
        self.last_cyc = [None] * self.n
        self.last_act = [None] * self.n
        self.event = [False] * self.n
        self.hist = [[] for _ in range(self.n)]
        self.active = [False] * self.n
        self.undriven_default = True
        self.owned = set()
        self.depth = 0
        self.scope = None
        self.composite_res = None    # function on list of whole values

    def vals(self, nm):
        return [self.cur[i] for i in nm.leaves]

    def at(self, i, t):
        """Value at the end of time t."""
        v = self.hist[i][0][1]
        for u, x in self.hist[i]:
            if u <= t:
                v = x
        return v


class Proc:
    def __init__(self, name, budget):
        self.name, self.budget = name, budget
        self.lines = []
        self.pieces = []
        self.sens = None        # set of (sig, leaf)
        self.cond = None
        self.timeout = None
        self.done = False
        self.postponed = False
        self.scope = None
        self.seq = 0
        self.visible = []
        self.runs = 0


def project(wave, new, now, mech, reject):
    """LRM 10.5.2.2: edit the projected waveform. new: [(time, value)]."""
    first = new[0][0]
    old = [w for w in wave if w[0] < first]
    if mech == "transport":
        return old + new
    keep = []
    mark_prev = True
    nxt = new[0]
    for w in reversed(old):
        if w[0] < first - reject:
            keep.append(w)
        elif mark_prev and w[1] == nxt[1]:
            keep.append(w)
            nxt = w
        else:
            mark_prev = False
    return list(reversed(keep)) + new


class Auto:
    """A concurrent statement or clocked process: the same body at every resumption."""
    budget = 0
    postponed = False

    def __init__(self, name, sens, body, text):
        self.name, self.sensitivity, self.body, self.text = name, sens, body, text
        self.sens = self.cond = self.timeout = None
        self.done = False
        self.postponed_pending = False
        self.runs = 0


class Limit(Exception):
    pass


class Sim:
    def __init__(self, rng, types, feats=None):
        self.rng, self.types = rng, types
        self.feats = feats or {}
        self.sigs, self.procs, self.mons = [], [], []
        self.conc = []
        self.now, self.delta = 0, 0
        self.log = []
        self.stats = {}
        self.maxcycles = 500
        self.cycle = 0
        self.helpers = set()
        self.tentative, self.ignore = [], []
        self.warm = set() if rng.random() < .6 else None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -------------------------------------------------------- reference cycle
    def emit(self, text):
        self.log.append((self.now, self.delta, text))

    def resolve(self, s, i):
        src = []
        for d in s.drivers[i]:
            if isinstance(d, Driver):
                src.append(d.cur)
            else:
                _, p, j, conv = d
                v = p.driving[j]
                src.append(conv(v) if conv else v)
        if not src:
            return None
        if s.res[i]:
            return s.res[i](src)
        return src[0]

    def propagate(self, initial=False):
        """Driving values bottom-up, then effective values top-down; set active/event."""
        for s in self.byDepth:
            for i in range(s.n):
                act = False
                for d in s.drivers[i]:
                    if isinstance(d, Driver):
                        act |= d.active
                    else:
                        act |= d[1].active[d[2]]
                s.active[i] = act
                if s.dforce[i] is not None:
                    s.driving[i] = s.dforce[i]
                else:
                    v = self.resolve(s, i)
                    if v is not None:
                        s.driving[i] = v
                    else:
                        s.driving[i] = s.init[i]
        for s in reversed(self.byDepth):
            for i in range(s.n):
                if s.mode in ("in", "inout") and s.conn[i] is not None:
                    a, j, conv = s.conn[i]
                    v = a.cur[j]
                    v = conv(v) if conv else v
                    s.active[i] = s.active[i] or a.active[j]
                else:
                    v = s.driving[i]
                if s.force[i] is not None:
                    v = s.force[i]
                if (s, i) in self.fpend:
                    s.active[i] = True
                s.event[i] = False
                if s.active[i]:
                    s.last_act[i] = self.now
                if initial:
                    s.cur[i] = s.last_val[i] = v
                    s.hist[i] = [(-1, v)]
                elif v != s.cur[i]:
                    s.event[i] = True
                    s.last_val[i] = s.cur[i]
                    s.cur[i] = v
                    s.last_ev[i] = self.now
                    s.last_cyc[i] = self.cycle
                    s.hist[i].append((self.now, v))
                    self.count("events")
                s.active[i] and self.count("active")

    def run(self):
        self.byDepth = sorted(self.sigs, key=lambda s: -s.depth)
        self.fpend = set()
        self.fops, self.fdone, self.fmode = [], set(), {}
        self.init_hook()
        for s in self.sigs:
            for l in s.drivers:
                for d in l:
                    if isinstance(d, Driver):
                        d.active = False
        self.propagate(True)
        order = list(self.procs)
        for p in order:
            self.resume(p)
        for p in [p for p in self.procs if p.postponed_pending]:
            pass
        self.after_cycle()
        while True:
            t = self.next_time()
            if t is None:
                break
            if t > self.now:
                self.now, self.delta = t, 0
            else:
                self.delta += 1
            self.cycle += 1
            if self.cycle > self.maxcycles:
                for p in self.procs:
                    p.budget = 0
            if self.cycle > self.maxcycles * 3:
                raise Limit()
            self.one_cycle()
        return self.log

    def init_hook(self):
        for p in self.procs:
            p.postponed_pending = False

    def drivers(self):
        for s in self.sigs:
            for i, l in enumerate(s.drivers):
                for d in l:
                    if isinstance(d, Driver):
                        yield s, i, d

    def next_time(self):
        ts = [d.wave[0][0] for s, i, d in self.drivers() if d.wave]
        ts += [p.timeout for p in self.procs if p.timeout is not None]
        if self.fops:
            ts.append(self.now)
        return min(ts) if ts else None

    def one_cycle(self):
        for s, i, d in self.drivers():
            d.active = bool(d.wave and d.wave[0][0] == self.now)
            if d.active:
                d.cur = d.wave.pop(0)[1]
                d.clob = False
        self.apply_forces()
        self.propagate()
        self.fpend = set()
        for s in self.sigs:
            if any(s.event):
                for m in s.monitors:
                    if any(s.event[i] for i in m.leaves):
                        self.emit("%s=%s" % (m.text, m.t.show(s.vals(m))))
                        self.count("observed")
        run = []
        for p in self.procs:
            if p.done:
                continue
            w = False
            if p.sens and any(s.event[i] for s, i in p.sens):
                w = p.cond is None or p.cond()
            if p.timeout is not None and p.timeout == self.now:
                w = True
            if w:
                run.append(p)
        self.rng.shuffle(run)
        for p in run:
            p.sens, p.cond, p.timeout = None, None, None
            if p.postponed:
                p.postponed_pending = True
            else:
                self.resume(p)
        self.after_cycle()

    def after_cycle(self):
        for tag, s, lv in self.tentative:
            if any(isinstance(d, Driver) and (d.clob or d.wave and d.wave[0][0] == self.now)
                   for i in lv for d in s.drivers[i]):
                self.ignore.append(tag)     # another process made a zero-delay assignment in the same cycle
        self.tentative = []
        pend = [p for p in self.procs if p.postponed_pending]
        if pend:
            t = self.next_time()
            if t is None or t > self.now:
                self.rng.shuffle(pend)
                for p in pend:
                    p.postponed_pending = False
                    self.resume(p)

    def apply_forces(self):
        for kind, s, i, v in self.fops:
            if kind == "force":
                s.force[i] = v
            elif kind == "release":
                s.force[i] = None
            elif kind == "dforce":
                s.dforce[i] = v
            elif kind == "drelease":
                s.dforce[i] = None
            self.fpend.add((s, i))
        self.fops, self.fdone = [], set()

    # -------------------------------------------------------- generation
    def add_driver(self, p, s, leaves):
        for i in leaves:
            if not any(isinstance(d, Driver) and d.proc is p for d in s.drivers[i]):
                s.drivers[i].append(Driver(p, s.init[i]))

    def own(self, p, nm):
        p.pieces.append(nm)
        self.add_driver(p, nm.sig, nm.leaves)

    def driver(self, p, s, i):
        return next(d for d in s.drivers[i] if isinstance(d, Driver) and d.proc is p)

    def time(self, ps):
        if ps % 1000 == 0 and self.rng.random() < .8:
            return "%d ns" % (ps // 1000)
        return "%d ps" % ps

    def rdelay(self):
        r = self.rng
        return r.choice([0, 0, 1000, 1000, 2000, 2000, 3000, 4000, 5000, 1500, 500])

    def rand_name(self, pool, stop=.4, dyn=False, slices=True):
        return descend(self.rng, whole(self.rng.choice(pool)), stop, dyn, slices)

    def rand_value(self, p, t):
        """(text, values, pre) of type t."""
        rng = self.rng
        if rng.random() < .25:
            c = []
            for _ in range(6):
                nm = self.rand_name(p.visible or self.sigs, .3, True)
                if nm.sig.mode == "out":
                    continue
                if nm.t.same(t) and all(t2 for t2 in [1]) and self.inrange(t, nm):
                    c.append(nm)
            if c:
                nm = rng.choice(c)
                return nm.text, nm.sig.vals(nm), nm.pre
        v = t.rand(rng)
        return t.lit(v), v, ()

    def inrange(self, t, nm):
        return True

    def waveform(self, p, nm):
        """Generate one assignment to nm (whose leaves p drives)."""
        rng = self.rng
        n = rng.choice([1, 1, 1, 1, 2, 3])
        ds = sorted(set(self.rdelay() for _ in range(n)))
        if p.postponed:
            ds = sorted(set(d or 1000 for d in ds))
        mech = rng.choice(["inertial", "inertial", "transport", "reject"])
        vals = [self.rand_value(p, nm.t) for _ in ds]
        if len(set(len(v[2]) for v in vals)) > 1 or sum(1 for v in vals if v[2]) > 1 or (nm.pre and any(v[2] for v in vals)):
            vs = [nm.t.rand(rng) for _ in ds]
            vals = [(nm.t.lit(v), v, ()) for v in vs]
        rej = ds[0]
        if mech == "reject":
            if ds[0] == 0:
                mech = "inertial"
            else:
                rej = rng.choice([0, 500, 1000, 1500, 2000, 3000])
                rej = min(rej, ds[0])
        new = [[(self.now + d, v[1][k]) for d, v in zip(ds, vals)] for k in range(len(nm.leaves))]
        s = nm.sig
        if mech != "transport" and len(nm.leaves) > 1 and not self.uniform(p, nm, new, rej):
            mech = "transport"
        for k, i in enumerate(nm.leaves):
            d = self.driver(p, s, i)
            before = len(d.wave)
            self.clobber(d, ds[0])
            d.wave = project(d.wave, new[k], self.now, mech, rej)
            if before + len(ds) != len(d.wave):
                self.count("preempted", before + len(ds) - len(d.wave))
        self.count("transactions", len(ds) * len(nm.leaves))
        m = {"inertial": rng.choice(["", "", "inertial "]), "transport": "transport "}.get(mech) \
            if mech != "reject" else "reject %s inertial " % self.time(rej)
        els = []
        for d, v in zip(ds, vals):
            els.append(v[0] + ("" if d == 0 and (len(ds) == 1 or rng.random() < .5) else " after " + self.time(d)))
        pre = list(nm.pre) + [x for v in vals for x in v[2]]
        return pre, m, els, mech, ds, vals

    def clobber(self, d, delay):
        """A zero-delay transaction is about to be preempted (see act_attr)."""
        if delay and d.wave and d.wave[0][0] == self.now:
            d.clob = True

    def uniform(self, p, nm, new, rej):
        """Inertial deletion is the same for every leaf (see known findings: array drivers)."""
        seen = {}
        for k, i in enumerate(nm.leaves):
            d = self.driver(p, nm.sig, i)
            kept = project(d.wave, new[k], self.now, "inertial", rej)
            kt = {w[0] for w in kept[:len(kept) - len(new[k])]}
            for w in d.wave:
                if w[0] < new[k][0][0] and seen.setdefault(w[0], w[0] in kt) != (w[0] in kt):
                    return False
        return True

    def act_assign(self, p, rng_piece=None):
        rng = self.rng
        piece = rng.choice(rng_piece or p.pieces)
        w = whole(piece.sig)
        dyn = isinstance(piece.t, Arr) and piece.leaves == w.leaves and piece.text == w.text
        nm = descend(rng, piece, .45, False) if not dyn else self.descend_dyn(piece)
        pre, m, els, mech, ds, vals = self.waveform(p, nm)
        for x in pre:
            p.lines.append(x)
        if mech == "inertial" and len(ds) == 1 and not pre and rng.random() < .15 and m == "" \
                and self.proc_type(nm.t):
            p.lines.append("drv(%s, %s, %s);" % (nm.text, self.qual(nm.t, vals[0][0]), self.time(ds[0])))
            self.count("via procedure")
        else:
            p.lines.append("%s <= %s%s;" % (nm.text, m, ", ".join(els)))

    def proc_type(self, t):
        if isinstance(t, Arr):
            if isinstance(t.elem, Sc):
                b = {"std_ulogic_vector": "std_logic_vector"}.get(t.base, t.base)
                self.helpers.add(("arr", b, b))
                return True
            return False
        if isinstance(t, Sc):
            self.helpers.add(("sc", t.base, t.base))
        else:
            self.helpers.add(("rec", t.name, t.name))
        return True

    def qual(self, t, e):
        if isinstance(t, Arr) and t.len == 1:
            return "%s'(%s)" % (t.base, e)
        return e

    def descend_dyn(self, nm):
        """May use variable indices at the first level only: the static prefix is the whole."""
        rng = self.rng
        if rng.random() < .4:
            return nm
        nm = step(rng, nm, True)
        return descend(rng, nm, .6, False)

    def act_wait(self, p):
        rng = self.rng
        k = rng.random()
        pool = p.visible or self.sigs
        pool = [s for s in pool if s.mode != "out" or True]
        f = self.feats
        # a postponed process whose wait times out runs too early (recorded finding): no timeouts there
        if k < f.get("wfor", .5) and not p.postponed:
            d = self.rdelay()
            p.timeout = self.now + d
            if rng.random() < f.get("wproc", 0):
                if p.visible:
                    return "wait for %s;" % self.time(d)
                self.count("suspended in a procedure")
                return rng.choice(["wf(%s);", "wf2(%s);"]) % self.time(d)
            return "wait for %s;" % self.time(d)
        names = [self.rand_name(pool, .5) for _ in range(rng.choice([1, 1, 2, 3]))]
        sens = {(n.sig, i) for n in names for i in n.leaves}
        cond, ctext = None, ""
        tm, ttext = None, ""
        on = "on " + ", ".join(n.text for n in names)
        # nvc evaluates the condition of a postponed process when the process runs, not at the event:
        # LRM 10.2 can be read either way, so postponed processes wait without a condition
        if rng.random() < .45 and not p.postponed:
            cn = []
            for _ in range(rng.choice([1, 1, 2])):
                n = self.rand_name(pool, .2)
                v = n.t.rand(rng)
                if rng.random() < .3:
                    v = n.sig.vals(n)
                op = rng.choice(["=", "=", "/="])
                cn.append((n, v, op))
            j = rng.choice(["and", "or"])
            def cond(cn=cn, j=j):
                r = [(n.sig.vals(n) == v) == (op == "=") for n, v, op in cn]
                return all(r) if j == "and" else any(r)
            ctext = " until " + (" %s " % j).join("%s %s %s" % (n.text, op, self.qlit(n.t, v)) for n, v, op in cn)
            if rng.random() < .6:
                sens = {(n.sig, i) for n, v, op in cn for i in n.leaves}
                on = ""
        if rng.random() < .7 and not p.postponed:
            d = rng.choice([0, 1000, 2000, 3000, 5000, 8000, 500])
            tm = self.now + d
            ttext = " for " + self.time(d)
        p.sens, p.cond, p.timeout = sens, cond, tm
        return "wait " + (on + ctext + ttext).strip() + ";"

    def qlit(self, t, v):
        """A literal usable as an operand of = (needs no context)."""
        if isinstance(t, Arr):
            return "%s'(%s)" % (t.name if t.name else t.base, t.lit(v))
        if isinstance(t, Rec):
            return "%s'%s" % (t.name, t.lit(v))
        return t.lit(v)

    def resume(self, p):
        rng = self.rng
        p.runs += 1
        self.count("resumptions")
        if isinstance(p, Auto):
            p.sens = p.sensitivity
            p.body(p)
            return
        p.timeout = p.sens = p.cond = None
        if p.budget <= 0:
            p.done = True
            p.lines.append("wait;")
            return
        p.budget -= 1
        if self.feats.get("trace"):
            p.seq += 1
            p.lines.append('report "%s.%d";' % (p.name, p.seq))
            self.emit("%s.%d" % (p.name, p.seq))
        for _ in range(rng.choice(self.feats.get("nacts", [0, 1, 1, 2, 3]))):
            self.action(p)
        p.lines.append(self.act_wait(p))

    def action(self, p):
        if self.rng.random() < self.feats.get("attrs", 0):
            return self.act_attr(p)
        if self.rng.random() < self.feats.get("forces", 0) and self.act_force(p):
            return
        if p.pieces:
            rel = {s for k, s, i, v in self.fops if k == "release"}
            pieces = [x for x in p.pieces if x.sig not in rel]    # see act_force
            if pieces:
                self.act_assign(p, rng_piece=pieces)

    # attributes
    ATTRS = ["event", "event", "active", "last_event", "last_event", "last_active", "last_value", "last_value",
             "stable", "quiet", "delayed", "transaction", "driving_value", "driving"]

    def act_attr(self, p):
        rng = self.rng
        nm = self.rand_name(p.visible or self.sigs, .5)
        s, lv = nm.sig, nm.leaves
        k = rng.choice(self.ATTRS)
        T = rng.choice([0, 0, 1000, 2000, 3000, 5000])
        arg = "(%s)" % self.time(T) if T or rng.random() < .3 else ""
        e = nm.text + "'" + k
        boo = lambda v: "true" if v else "false"
        if k in ("driving_value", "driving"):
            if not p.pieces:
                return
            nm = rng.choice(p.pieces)
            nm = descend(rng, nm, .6, False)
            s, lv = nm.sig, nm.leaves
            e = nm.text + "'" + k
        if k in ("last_event", "last_value"):
            # the history of a part starts when it is first referenced (recorded finding): either
            # reference it before the first event, or look at whole signals only
            if self.warm is not None:
                self.warm.add(nm.text)
            elif nm.text != s.name or not isinstance(nm.t, Sc):
                return
        if k in ("active", "last_active", "quiet", "transaction") and s in self.fmode:
            return    # recorded finding: force and release do not make a signal active
        if k in ("last_active", "driving_value", "active") and any(
                isinstance(d, Driver) and (d.clob or d.wave and d.wave[0][0] == self.now)
                for i in lv for d in s.drivers[i]):
            # recorded finding: a zero-delay assignment is visible to these before the next cycle
            return
        if k == "delayed" and any(s.hist[i][0][1] != s.init[i] for i in lv):
            return    # recorded finding: 'delayed starts with the value before resolution
        if k == "event":
            v, x = boo(any(s.event[i] for i in lv)), "boolean'image(%s)" % e
        elif k == "active":
            v, x = boo(any(s.active[i] for i in lv)), "boolean'image(%s)" % e
        elif k in ("last_event", "last_active"):
            h = s.last_ev if k == "last_event" else s.last_act
            ts = [h[i] for i in lv if h[i] is not None]
            v = str(self.now - max(ts)) if ts else "inf"
            x = "tim(%s)" % e
        elif k in ("last_value", "delayed", "driving_value"):
            if k == "last_value":
                # recorded finding: of a composite, nvc takes the last value of each part separately
                ts = {s.last_cyc[i] for i in lv if s.last_ev[i] is not None}
                if len(ts) > 1:
                    return
                vals = [s.last_val[i] for i in lv]
            elif k == "driving_value":
                vals = [self.driver(p, s, i).cur for i in lv]
            elif T == 0:
                vals = [s.last_val[i] if s.event[i] else s.cur[i] for i in lv]
                e += arg
            else:
                vals = [s.at(i, self.now - T) for i in lv]
                e += arg
            if isinstance(nm.t, Arr) and nm.t.name is None:
                ok = [x for x in self.types.comp if isinstance(x, Arr) and x.base == nm.t.base and x.len == nm.t.len]
                t = ok[0] if ok else self.types.named(nm.t)
                v, x = t.show(vals), "img_%s(%s)" % (t.name, e)
            else:
                v, x = nm.t.show(vals), nm.t.imgexpr(e)
        elif k == "stable":
            ts = [s.last_ev[i] for i in lv if s.last_ev[i] is not None]
            ok = not any(s.event[i] for i in lv) and (not ts or self.now - max(ts) >= T)
            v, x = boo(ok), "boolean'image(%s%s)" % (e, arg)
        elif k == "quiet":
            ts = [s.last_act[i] for i in lv if s.last_act[i] is not None]
            ok = not any(s.active[i] for i in lv) and (not ts or self.now - max(ts) >= T)
            v, x = boo(ok), "boolean'image(%s%s)" % (e, arg)
        elif k == "transaction":
            if self.cycle == 0:
                return    # nvc updates 'transaction once during initialisation (its test implicit2 wants that)
            v, x = boo(any(s.active[i] for i in lv)), "boolean'image(%s'event)" % e
        else:
            v, x = "true", "boolean'image(%s)" % e
        p.seq += 1
        tag = "%s.%d %s " % (p.name, p.seq, k)
        if k in ("last_active", "driving_value", "active"):
            self.tentative.append((tag, s, lv))
        p.lines.append('report "%s" & %s;' % (tag, x))
        self.emit(tag + v)
        self.count("attribute " + k)

    def act_force(self, p):
        """Force or release (a part of) any visible signal; one operation a cycle for each element."""
        rng = self.rng
        s = rng.choice(p.visible or self.sigs)
        if s.mode is not None:
            return False
        nm = descend(rng, whole(s), .5, False)
        if any((s, i) in self.fdone for i in nm.leaves):
            return False
        self.fdone |= {(s, i) for i in nm.leaves}
        # plain signals have one value: both kinds of force mean the same as long as they are not mixed
        if not all(any(isinstance(d, Driver) for d in s.drivers[i]) for i in nm.leaves) and self.feats.get("attrs"):
            return False    # recorded finding: implicit signals overwrite the default value a release restores
        m = self.fmode.setdefault(s, rng.choice(["", "", " in", " out"]))
        if rng.random() < (.6 if any(s.force[i] is not None for i in nm.leaves) else .15):
            # recorded finding: a driver whose zero-delay transaction was preempted has lost its value
            if any(isinstance(d, Driver) and (d.clob or d.wave and d.wave[0][0] == self.now)
                   for i in nm.leaves for d in s.drivers[i]):
                return False
            p.lines.append("%s <= release%s;" % (nm.text, m))
            self.fops += [("release", s, i, None) for i in nm.leaves]
            self.count("release")
        else:
            vals = nm.t.rand(rng)
            p.lines.append("%s <= force%s %s;" % (nm.text, m, self.qlit(nm.t, vals) if nm.t.name else nm.t.lit(vals)))
            self.fops += [("force", s, i, v) for i, v in zip(nm.leaves, vals)]
            self.count("force")
        return True

    # -------------------------------------------------------- concurrent statements
    def put(self, p, nm, vals, delay, mech, rej):
        for k, i in enumerate(nm.leaves):
            d = self.driver(p, nm.sig, i)
            self.clobber(d, delay)
            d.wave = project(d.wave, [(self.now + delay, vals[k])], self.now, mech, rej)

    def leaves_of(self, *names):
        return {(n.sig, i) for n in names for i in n.leaves}

    def add_auto(self, k):
        """A concurrent assignment or clocked process reading existing signals, driving a new one."""
        rng = self.rng
        pool = list(self.sigs)
        src = self.rand_name(pool, .5)
        t = self.types.named(src.t)
        init = t.rand(rng) if rng.random() < .6 or t.name == "rsum" else None
        kind = rng.choice(["copy", "copy", "copy", "cond", "sel", "ff", "ff", "comb"])
        dst = self.new_sig("c%d" % k, t, init)
        d = whole(dst)
        self.monitor(dst)
        delay = rng.choice([0, 0, 0, 1000, 2000, 1500])
        mech = rng.choice(["inertial", "inertial", "transport"])
        if delay and len(d.leaves) > 1:
            mech = "transport"
        rej, m = delay, {"inertial": "", "transport": "transport "}[mech]
        if mech == "inertial" and delay and rng.random() < .4:
            rej = rng.choice([0, 500, 1000])
            m = "reject %s inertial " % self.time(rej)
        aft = " after " + self.time(delay) if delay or rng.random() < .1 else ""
        name = "q%d" % k
        alts = [src]
        for _ in range(8):
            n = self.rand_name(pool, .4)
            if n.t.same(t) and n.text != src.text and len(alts) < 3:
                alts.append(n)
        cn = self.rand_name(pool, .2)
        while kind in ("sel", "comb", "cond") and not isinstance(cn.t, (Sc,)):
            cn = descend(rng, cn, .2)
        if kind == "copy":
            if rng.random() < .35 and not isinstance(t, Sc):
                # only a part is driven
                part = step(rng, d)
                if len(part.leaves) == len(d.leaves):
                    part = d
                d, off = part, [d.leaves.index(x) for x in part.leaves]
                if isinstance(part.t, Arr):
                    srcs = [x for x in [src] if 0]
                x = Name(src.sig, src.text + d.text[len(dst.name):], part.t, [src.leaves[o] for o in off])
                if isinstance(src.t, Rec) or "(" not in d.text[len(dst.name):] or True:
                    src = x
            def body(p, src=src, d=d):
                self.put(p, d, src.sig.vals(src), delay, mech, rej)
            text = "  %s : %s <= %s%s%s;" % (name, d.text, m, src.text, aft)
            if rng.random() < .3:
                text = "  %s : process (%s) begin %s <= %s%s%s; end process;" % (
                    name, src.text, d.text, m, src.text, aft)
            sens = self.leaves_of(src)
        elif kind in ("cond", "comb"):
            v = cn.t.rand(rng)
            lit = t.rand(rng)
            b = alts[1] if len(alts) > 1 else None
            def body(p):
                if cn.sig.vals(cn) == v:
                    x = src.sig.vals(src)
                else:
                    x = b.sig.vals(b) if b else lit
                self.put(p, d, x, delay, mech, rej)
            sens = self.leaves_of(src, cn, *([b] if b else []))
            e2 = b.text if b else t.lit(lit)
            if kind == "cond":
                text = "  %s : %s <= %s%s%s when %s = %s else %s%s;" % (
                    name, d.text, m, src.text, aft, cn.text, self.qlit(cn.t, v), e2, aft)
            else:
                text = "  %s : process (all) begin if %s = %s then %s <= %s%s%s; else %s <= %s%s%s; end if; end process;" % (
                    name, cn.text, self.qlit(cn.t, v), d.text, m, src.text, aft, d.text, m, e2, aft)
        elif kind == "sel":
            vs = []
            for _ in range(2):
                v = cn.t.rand(rng)
                if v not in vs and cn.t.lit(v) != "-":
                    vs.append(v)
            if isinstance(cn.t, Sc) and cn.t.base in ("real", "time"):
                return self.sigs.remove(dst) or self.add_auto(k)
            lit = t.rand(rng)
            b = alts[-1]
            def body(p):
                x = cn.sig.vals(cn)
                r = src.sig.vals(src) if x == vs[0] else b.sig.vals(b) if len(vs) > 1 and x == vs[1] else lit
                self.put(p, d, r, delay, mech, rej)
            sens = self.leaves_of(src, cn, *([b] if len(vs) > 1 else []))
            opts = ["%s%s when %s" % (src.text, aft, cn.t.lit(vs[0]))]
            if len(vs) > 1:
                opts.append("%s%s when %s" % (b.text, aft, cn.t.lit(vs[1])))
            opts.append("%s%s when others" % (t.lit(lit), aft))
            text = "  %s : with %s select %s <= %s%s;" % (name, cn.text, d.text, m, ", ".join(opts))
        else:
            cl = [n for n in (self.rand_name(pool, .1) for _ in range(25))
                  if isinstance(n.t, Sc) and n.t.base in ("bit", "std_ulogic", "boolean")]
            if not cl:
                return self.sigs.remove(dst) or self.add_auto(k)
            clk = cl[0]
            rst = cl[-1]
            rv, lit = rst.t.rand(rng), t.rand(rng)
            std = clk.t.base == "std_ulogic"
            form = rng.choice(["edge", "event", "edge", "event2"])
            lv = clk.t.rand(rng)
            up = rng.random() < .5

            def hit():
                i = clk.leaves[0]
                s = clk.sig
                if form == "edge":
                    if not s.event[i]:
                        return False
                    c, l = s.cur[i], s.last_val[i]
                    if std:
                        z = "XX01XX01X"
                        c, l = z[c], z[l]
                        return (c, l) == (("1", "0") if up else ("0", "1"))
                    return c == (1 if up else 0)
                return s.event[i] and s.cur[i] == lv[0]
            arst = rng.random() < .5
            def body(p):
                if arst and rst.sig.vals(rst) == rv:
                    self.put(p, d, lit, delay, mech, rej)
                elif hit():
                    self.put(p, d, src.sig.vals(src), delay, mech, rej)
            cond = "%s(%s)" % ("rising_edge" if up else "falling_edge", clk.text) if form == "edge" else \
                "%s'event and %s = %s" % (clk.text, clk.text, clk.t.lit(lv)) if form == "event" else \
                "%s = %s and %s'event" % (clk.text, clk.t.lit(lv), clk.text)
            asg = "%s <= %s%s%s;" % (d.text, m, src.text, aft)
            if arst:
                text = "  %s : process (%s) begin if %s = %s then %s <= %s%s%s; elsif %s then %s end if; end process;" % (
                    name, clk.text if clk.text == rst.text else clk.text + ", " + rst.text, rst.text,
                    rst.t.lit(rv), d.text, m, t.lit(lit), aft, cond, asg)
                sens = self.leaves_of(clk, rst)
            else:
                text = "  %s : process (%s) begin if %s then %s end if; end process;" % (name, clk.text, cond, asg)
                sens = self.leaves_of(clk)
                if rng.random() < .3:
                    # without a sensitivity list
                    text = "  %s : process begin wait until %s; %s end process;" % (name, cond, asg)
                    p = Auto(name, sens, None, text)
                    st = {"first": True}
                    def body(p):
                        if st["first"]:
                            st["first"] = False
                        elif hit():
                            self.put(p, d, src.sig.vals(src), delay, mech, rej)
        p = Auto(name, sens, body, text)
        self.procs.append(p)
        self.add_driver(p, dst, d.leaves)
        self.count("concurrent " + kind)

    # -------------------------------------------------------- design text
    def new_sig(self, name, t, init=None, mode=None):
        s = Sig(name, t, t.left() if init is None else init, mode)
        s.monitors = []
        s.has_init = init is not None
        self.sigs.append(s)
        return s

    def monitor(self, s, name=None):
        nm = name or whole(s)
        s.monitors.append(nm)

    def mon_text(self, nm):
        return "  process begin wait on %s; report \"%s=\" & %s; end process;" % (
            nm.text, nm.text, self.img_of(nm))

    def img_of(self, nm):
        t = nm.t
        if isinstance(t, Arr) and t.name is None:
            m = t.elem
            base, rng_ = re.match(r"(.*)\((\S+) (?:downto|to) \S+\)$", nm.text).groups()
            return "\"[\" & " + " & \",\" & ".join(m.imgexpr("%s(%d)" % (base, i)) for i in t.idx()) + " & \"]\""
        return t.imgexpr(nm.text)

    def sig_decl(self, s):
        return "  signal %s : %s%s;" % (s.name, s.t.name, " := " + s.t.lit(s.init) if s.has_init else "")

    def proc_text(self, p):
        o = ["  %s : %sprocess" % (p.name, "postponed " if p.postponed else ""),
             "    variable vi0, vi1, vi2, vi3, vi4, vi5, vi6, vi7 : integer;", "  begin"]
        o += ["    " + l for l in p.lines]
        if not p.done:
            o.append("    wait;")
        # drivers the script never used still exist
        for nm in p.pieces:
            o.append("    %s <= %s;" % (nm.text, nm.t.lit([nm.sig.init[i] for i in nm.leaves])))
        o += ["  end process;"]
        return "\n".join(o)

    def helper_text(self):
        o = ["  procedure wf(d : delay_length) is begin wait for d; end;",
             "  procedure wf2(d : delay_length) is variable t : time := d; begin "
             "if t > 2 ns then wait for 1 ns; t := t - 1 ns; end if; wait for t; end;"] if self.feats.get("wproc") else []
        for kind, base, nm in sorted(self.helpers):
            o.append("  procedure drv(signal s : out %s; v : %s; d : delay_length) is begin s <= v after d; end;" % (
                base, base))
        return "\n".join(o)

    def text(self):
        o = [self.types.text(), "library ieee; use ieee.std_logic_1164.all; use work.pk.all;",
             "entity top is end;", "architecture a of top is"]
        o += [self.sig_decl(s) for s in self.sigs]
        h = self.helper_text()
        if h:
            o.append(h)
        o.append("begin")
        body = [p.text if isinstance(p, Auto) else self.proc_text(p) for p in self.procs]
        for s in self.sigs:
            body += [self.mon_text(m) for m in s.monitors]
        body += self.conc
        if self.warm:
            body.append("  process begin assert not (%s); wait; end process;" % " or ".join(
                "%s'event" % w for w in sorted(self.warm)))
        random.Random(len(body)).shuffle(body)
        o += body + ["end;"]
        return "\n".join(o) + "\n"


def simple(rng, nsig=5, nproc=4, budget=12, feats=None, multi=True, scal=None, ncomp=3, cls=Sim, autos=0):
    """A flat design: signals partitioned among processes, all scripts random."""
    ty = Types(rng, ncomp, scal)
    s = cls(rng, ty, feats)
    for i in range(nsig):
        t = ty.pick()
        if multi and rng.random() < .1:
            t = ty.sc[rng.choice(["rsum", "rorr", "rmax"])]
        sg = s.new_sig("s%d" % i, t, t.rand(rng) if rng.random() < .6 else None)
        if t.name == "rsum":
            sg.init = [rng.randint(-5, 5)]
            sg.has_init = True
        s.monitor(sg)
        if not isinstance(t, Sc) and rng.random() < .4:
            nm = step(rng, whole(sg))
            if rng.random() < .5 and not isinstance(nm.t, Sc):
                nm = step(rng, nm)
            if nm.text != sg.name:
                s.monitor(sg, nm)
    for i in range(nproc):
        s.procs.append(Proc("p%d" % i, rng.randint(2, budget)))
        if rng.random() < (feats or {}).get("postponed", 0):
            s.procs[-1].postponed = True
    for sg in s.sigs:
        for pc in partition(rng, whole(sg)):
            resd = all(sg.res[i] for i in pc.leaves)
            k = rng.choice([0, 1, 1, 1]) if not resd or not multi else rng.choice([0, 1, 1, 2, 2, 3])
            for p in rng.sample(s.procs, min(k, nproc)):
                s.own(p, pc)
    for k in range(autos):
        s.add_auto(k)
    return s


NOTE = re.compile(r"^\*\* (\w+): (\d+)(fs|ps|ns|us|ms|sec|min|hr)\+(\d+): (.*)$")
UNIT = {"fs": .001, "ps": 1, "ns": 10**3, "us": 10**6, "ms": 10**9, "sec": 10**12, "min": 60 * 10**12, "hr": 3600 * 10**12}


def parse_notes(err):
    out = []
    for l in err.splitlines():
        m = NOTE.match(l)
        if m and m.group(1) == "Note":
            out.append((int(int(m.group(2)) * UNIT[m.group(3)]), int(m.group(4)), m.group(5)))
    return out


def compare(got, exp):
    """First difference between two logs as sorted lists, or None."""
    g, e = sorted(got), sorted(exp)
    if g == e:
        return None
    i = 0
    while i < len(g) and i < len(e) and g[i] == e[i]:
        i += 1
    return "first difference: got %r, expected %r\n got: %s\n exp: %s" % (
        g[i] if i < len(g) else None, e[i] if i < len(e) else None,
        "\n      ".join("%d ps+%d %s" % x for x in g[max(0, i - 3):i + 5]),
        "\n      ".join("%d ps+%d %s" % x for x in e[max(0, i - 3):i + 5]))
