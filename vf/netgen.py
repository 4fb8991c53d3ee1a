"""Random hierarchies: signals, ports and conversions; processes on every level (see kernel.Sim)."""
import random
from .kernel import *
from . import kernel


def code(t):
    """(Python, VHDL with %s) from a value to an integer in 0 .. 1008."""
    if t.lits:
        return (lambda v: v), t.base + "'pos(%s)"
    if t.base == "real":
        return (lambda v: v + 50), "(integer(%s * 2.0) + 50)"
    if t.base == "time":
        return (lambda v: v % 1009), "integer((%s / 1 ps) mod 1009)"
    if t.hi > 2**31:
        return (lambda v: v % 1009), "integer(%s mod 1009)"
    return (lambda v: v % 1009), "(integer(%s) mod 1009)"


def decode(t):
    if t.lits:
        n = len(t.lits)
        return (lambda c: c % n), t.base + "'val((%%s) mod %d)" % n
    if t.base == "real":
        return (lambda c: c % 50), "real((%s) mod 50) / 2.0"
    if t.base == "time":
        return (lambda c: c % 1000), "((%s) mod 1000) * 1 ps"
    return (lambda c: c % 90), t.base + "((%s) mod 90)"


def sconv(a, b, k, j):
    """Scalar conversion from a to b: (Python, VHDL with %s)."""
    cp, cv = code(a)
    dp, dv = decode(b)
    return (lambda v: dp(cp(v) * k + j)), dv % ("%s * %d + %d" % (cv, k, j))


def leaves(t, pre):
    """[(text, scalar type)] in order."""
    if isinstance(t, Sc):
        return [(pre, t)]
    if isinstance(t, Rec):
        return [x for f, ft in t.fields for x in leaves(ft, pre + "." + f)]
    return [x for i in t.idx() for x in leaves(t.elem, "%s(%d)" % (pre, i))]


def nat(t):
    return t.base if isinstance(t, Arr) else t.name


VEC = ("std_logic_vector", "std_ulogic_vector")


def compat(a, b):
    """The same type, perhaps resolved differently."""
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.len == b.len and (a.base == b.base or a.base in VEC and b.base in VEC)
    return a.same(b)


class Scope:
    def __init__(self, name, parent, kind):
        self.name, self.parent, self.kind = name, parent, kind
        self.depth = parent.depth + 1 if parent else 0
        self.ports, self.sigs, self.procs, self.children = [], [], [], []
        self.maps = []          # text of the association elements
        self.conc = []

    def all(self):
        return self.ports + self.sigs


class Net(Sim):
    def __init__(self, rng, types, feats=None):
        super().__init__(rng, types, feats)
        self.convs = []         # (declaration, body)
        self.nsig = 0
        self.scopes = []

    # ------------------------------------------------------------ building
    def mk_sig(self, sc, t, mode=None, prefix="s"):
        rng = self.rng
        self.nsig += 1
        s = self.new_sig("%s%d" % (prefix, self.nsig), t, t.rand(rng) if rng.random() < .6 else None, mode)
        if isinstance(t, Sc) and t.name == "rsum" or isinstance(t, Arr) and isinstance(t.elem, Sc) and t.elem.name == "rsum":
            s.init = [rng.randint(-5, 5) for _ in range(t.n)]
            s.has_init = True
        s.depth, s.scope = sc.depth, sc
        s.unc = False
        s.isopen = False
        (sc.ports if mode else sc.sigs).append(s)
        self.monitor(s)
        if not isinstance(t, Sc) and rng.random() < .4:
            nm = step(rng, whole(s))
            if nm.text != s.name:
                self.monitor(s, nm)
        return s

    def free(self, nm):
        """May another source be added to every leaf?"""
        return all(nm.sig.res[i] or i not in nm.sig.owned for i in nm.leaves)

    def can(self, mode, s):
        if s.mode is None:
            return True
        if mode == "in":
            return True
        if mode == "inout":
            return s.mode == "inout"
        if mode == "buffer":
            return s.mode == "buffer"
        return s.mode in ("out", "inout")

    def pick_type(self):
        rng, ty = self.rng, self.types
        if rng.random() < .12:
            return ty.sc[rng.choice(["rsum", "rorr", "rmax"])]
        return ty.pick()

    def actual(self, sc, mode, t=None, tries=25):
        """A static name in sc that a port of this mode may be connected to."""
        rng = self.rng
        pool = [s for s in sc.all() if self.can(mode, s)]
        for _ in range(tries if pool else 0):
            nm = self.rand_name(pool, .5 if t is None else .3)
            if t is not None and not compat(nm.t, t):
                continue
            if mode != "in" and not self.free(nm):
                continue
            return nm
        t = t or self.pick_type()
        return whole(self.mk_sig(sc, self.types.named(t)))

    def variant(self, t):
        """Another subtype of the same type for a port."""
        rng = self.rng
        k = rng.random()
        if isinstance(t, Sc):
            alt = {"std_logic": "std_ulogic", "std_ulogic": "std_logic", "bit": "rorr", "rorr": "bit", "e5": "rmax",
                   "rmax": "e5"}.get(t.name)
            return self.types.sc[alt] if alt and k < .3 else t
        if isinstance(t, Arr):
            base, elem = t.base, t.elem
            if base in VEC and k < .3:
                base = VEC[1 - VEC.index(base)]
                elem = self.types.sc["std_logic" if base == VEC[0] else "std_ulogic"]
            if k > .5 or base != t.base or not t.name:
                lo = rng.choice([0, 0, 1, 2, 5])
                l, r = lo, lo + t.len - 1
                down = rng.random() < .5
                if down:
                    l, r = r, l
                u = Arr(None, base, elem, l, r, t.string)
                u.down = down
                return self.types.named(u)
        return t

    def conv(self, a, b):
        """A conversion function from type a to type b: (name, [(leaf of a, function)] per leaf of b)."""
        rng = self.rng
        la, lb = leaves(a, "x"), leaves(b, "r")
        perm = list(range(len(la)))
        if rng.random() < .5:
            perm.reverse()
        k, j = rng.choice([1, 1, 1, 2, 4]), rng.choice([0, 1, 1, 2, 5])
        nm = "cv%d" % len(self.convs)
        fs, st = [], []
        for i, (tx, t) in enumerate(lb):
            py, vh = sconv(la[perm[i]][1], t, k, j)
            fs.append((perm[i], py))
            st.append("%s := %s;" % (tx, vh % la[perm[i]][0]))
        hd = "function %s(x : %s) return %s" % (nm, a.name, b.name)
        self.convs.append((hd + ";", "%s is variable r : %s; begin %s return r; end;" % (hd, b.name, " ".join(st))))
        self.count("conversion functions")
        return nm, fs

    def other(self, t):
        """A type with as many leaves as t."""
        rng, ty = self.rng, self.types
        if isinstance(t, Sc):
            return rng.choice(ty.scal)
        if isinstance(t, Rec) or not isinstance(t.elem, Sc):
            return t
        return ty.array_of(rng.choice(ty.scal), t.len)

    def link(self, p, pn, nm, mode, cin=None, cout=None):
        """Connect the leaves of port name pn to those of nm. cin/cout: [(leaf index, function)]."""
        s = nm.sig
        if mode in ("in", "inout"):
            for k, i in enumerate(pn.leaves):
                j, f = cin[k] if cin else (k, None)
                p.conn[i] = (s, nm.leaves[j], f)
        if mode != "in":
            for k, i in enumerate(nm.leaves):
                j, f = cout[k] if cout else (k, None)
                s.drivers[i].append(("port", p, pn.leaves[j], f))
            s.owned.update(nm.leaves)

    def add_port(self, sc, ch):
        rng, ty = self.rng, self.types
        mode = rng.choice(["in", "in", "out", "out", "inout", "buffer"])
        k = rng.random()
        self.count("port " + mode)
        if k < .06:
            # unconnected
            p = self.mk_sig(ch, self.pick_type(), mode, "p")
            if mode == "in":
                p.has_init = True
                if rng.random() < .5:
                    v = p.t.rand(rng)
                    p.init = v
                    t = p.t
                    ch.maps.append("%s => %s" % (p.name, self.qual(t, t.lit(v))))
                    p.has_init = rng.random() < .5
                    # the default of the port is not used
                    if p.has_init:
                        p.decl_init = t.rand(rng)
                    self.count("constant actual")
                    return
            if rng.random() < .5:
                ch.maps.append("%s => open" % p.name)
            self.count("open port")
            return
        if k < .3 and ty.comp:
            # individual association
            t = rng.choice(ty.comp)
            p = self.mk_sig(ch, t, mode, "p")
            parts = partition(rng, whole(p))
            if len(parts) == 1 and not isinstance(t, Sc):
                parts = self.split(whole(p))
            rng.shuffle(parts) if not any(".." in x.text for x in parts) else None
            for pn in parts:
                if mode == "in" and rng.random() < .1:
                    v = pn.t.rand(rng)
                    for x, i in zip(v, pn.leaves):
                        p.init[i] = x
                    p.has_init = False
                    ch.maps.append("%s => %s" % (pn.text, self.qual(pn.t, pn.t.lit(v))))
                    continue
                nm = self.actual(sc, mode, pn.t)
                self.link(p, pn, nm, mode)
                ch.maps.append("%s => %s" % (pn.text, nm.text))
            self.count("individual association", len(parts))
            return
        nm = self.actual(sc, mode)
        at = ty.named(nm.t)
        if k < .5:
            # conversion functions
            pt = self.other(at)
            p = self.mk_sig(ch, pt, mode, "p")
            cin = cout = None
            f, a = p.name, nm.text
            if mode in ("in", "inout"):
                fn, cin = self.conv(at, pt)
                a = "%s(%s)" % (fn, a)
            if mode != "in":
                fn, cout = self.conv(pt, at)
                f = "%s(%s)" % (fn, f)
            self.link(p, whole(p), nm, mode, cin, cout)
            ch.maps.append("%s => %s" % (f, a))
            return
        if k < .55 and mode == "in" and isinstance(at, Sc) and at.base in ("bit", "boolean"):
            # an expression: an implicit signal and a concurrent assignment
            m2 = self.actual(sc, "in", at)
            anon = kernel.Sig("anon%d" % self.nsig, at, at.left())
            anon.monitors, anon.has_init, anon.depth, anon.scope = [], False, sc.depth, sc
            self.sigs.append(anon)
            op, fn = rng.choice([("and", lambda x, y: x & y), ("xor", lambda x, y: x ^ y), ("nor", lambda x, y: 1 - (x | y))])
            an = whole(anon)

            def body(p, m1=nm, m2=m2, fn=fn, an=an):
                self.put(p, an, [fn(m1.sig.vals(m1)[0], m2.sig.vals(m2)[0])], 0, "inertial", 0)
            au = Auto(anon.name, self.leaves_of(nm, m2), body, "")
            self.procs.append(au)
            self.add_driver(au, anon, [0])
            # nvc drives the port itself, from the port's default: no default here
            p = self.mk_sig(ch, at, "in", "p")
            p.has_init, p.init = False, at.left()
            self.link(p, whole(p), an, "in")
            ch.maps.append("%s => %s %s %s" % (p.name, nm.text, op, m2.text))
            self.count("expression actual")
            return
        if isinstance(at, Arr) and k < .7:
            # unconstrained port: the bounds of the actual
            u = Arr(None, at.base, at.elem, nm.t.l, nm.t.r, at.string)
            u.down = nm.t.down
            p = self.mk_sig(ch, ty.named(u), mode, "p")
            p.unc = True
            if p.has_init and mode == "in":
                p.has_init = False
            self.count("unconstrained port")
        else:
            p = self.mk_sig(ch, self.variant(at), mode, "p")
        self.link(p, whole(p), nm, mode)
        ch.maps.append("%s => %s" % (p.name, nm.text))

    def split(self, nm):
        t = nm.t
        if isinstance(t, Rec):
            return [Name(nm.sig, nm.text + "." + f, ft, nm.leaves[o:o + ft.n]) for f, ft, o in t.parts()]
        m = t.elem.n
        return [Name(nm.sig, "%s(%d)" % (nm.text, x), t.elem, nm.leaves[i * m:(i + 1) * m])
                for i, x in enumerate(t.idx())]

    def scope(self, name, parent, kind, maxdepth):
        rng = self.rng
        sc = Scope(name, parent, kind)
        self.scopes.append(sc)
        if parent:
            for _ in range(rng.choice(self.feats.get("nports", [1, 2, 3, 4]))):
                self.add_port(parent, sc)
        for _ in range(rng.choice(self.feats.get("nsigs", [1, 2, 3])) if parent is None else rng.choice(self.feats.get("nsigs2", [0, 0, 1, 2]))):
            self.mk_sig(sc, self.pick_type())
        if sc.depth < maxdepth:
            for _ in range(rng.choice(self.feats.get("nkids", [1, 2, 3])) if parent is None else rng.choice([0, 1, 1, 2])):
                k = rng.choice(["entity", "entity", "component", "block"])
                self.scope("%s_%d" % (name, len(sc.children)), sc, k, maxdepth)
                sc.children.append(self.last)
        if not sc.all():
            self.mk_sig(sc, self.pick_type())
        for i in range(rng.choice([1, 1, 2, 3])):
            p = Proc("q%d" % len(self.procs), rng.randint(2, self.feats.get("budget", 7)))
            p.scope = sc
            sc.procs.append(p)
            self.procs.append(p)
        self.last = sc
        return sc

    def populate(self):
        rng = self.rng
        for sc in self.scopes:
            for s in sc.all():
                if s.mode == "in":
                    continue
                for pc in partition(rng, whole(s)):
                    if not self.free(pc):
                        continue
                    resd = all(s.res[i] for i in pc.leaves)
                    k = rng.choice([0, 1, 1, 1]) if not resd else rng.choice([0, 1, 1, 2, 2])
                    for p in rng.sample(sc.procs, min(k, len(sc.procs))):
                        self.own(p, pc)
                    if k:
                        s.owned.update(pc.leaves)
            for p in sc.procs:
                p.visible = [s for s in sc.all()]

    # ------------------------------------------------------------ text
    def decls(self, sc):
        return [self.sig_decl(s) for s in sc.sigs]

    def port_clause(self, sc):
        o = []
        for s in sc.ports:
            v = getattr(s, "decl_init", s.init)
            o.append("%s : %s %s%s" % (s.name, s.mode, s.t.base if s.unc else s.t.name,
                                       " := " + (self.qlit(s.t, v) if s.unc else s.t.lit(v)) if s.has_init else ""))
        return "port (%s);" % "; ".join(o) if o else ""

    def body(self, sc):
        rng = random.Random(len(sc.name) + len(sc.ports))
        o = [self.proc_text(p) for p in sc.procs]
        for s in sc.all():
            o += [self.mon_text(m) for m in s.monitors]
        for ch in sc.children:
            pm = "port map (%s)" % ", ".join(ch.maps) if ch.maps else ""
            if ch.kind == "block":
                t = ["  u%s : block" % ch.name, "    " + self.port_clause(ch)]
                if ch.ports and pm:
                    t.append("    " + pm + ";")
                t += self.inner(ch) + ["  begin"] + self.body(ch) + ["  end block;"]
                o.append("\n".join(t))
            else:
                o.append("  u%s : %s %s;" % (ch.name, ("entity work." if ch.kind == "entity" else "component ") + "e" + ch.name, pm))
        rng.shuffle(o)
        return o

    def inner(self, sc):
        o = self.decls(sc)
        for ch in sc.children:
            if ch.kind == "component":
                o.append("  component e%s is %s end component;" % (ch.name, self.port_clause(ch)))
        return o

    def text(self):
        bodies = {sc.name: self.body(sc) for sc in self.scopes if sc.kind != "block"}
        o = [self.types.text(), "library ieee; use ieee.std_logic_1164.all; use work.pk.all;", "package pc is"]
        o += ["  " + d for d, b in self.convs] + ["end;", "package body pc is"] + ["  " + b for d, b in self.convs] + ["end;"]
        h = self.helper_text()
        for sc in reversed(self.scopes):
            if sc.kind == "block":
                continue
            o += ["library ieee; use ieee.std_logic_1164.all; use work.pk.all; use work.pc.all;",
                  "entity %s is" % ("top" if sc.parent is None else "e" + sc.name), "  " + self.port_clause(sc), "end;",
                  "architecture a of %s is" % ("top" if sc.parent is None else "e" + sc.name)]
            o += self.inner(sc)
            if h:
                o.append(h)
            o += ["begin"] + bodies[sc.name] + ["end;"]
        return "\n".join(o) + "\n"


def network(rng, depth=2, feats=None, scal=None, ncomp=3):
    ty = Types(rng, ncomp, scal)
    n = Net(rng, ty, feats)
    n.warm = None
    n.scope("t", None, "entity", depth)
    n.populate()
    return n
