"""Hierarchies for C14: a generated design tree and what its elaboration must create."""


class X:
    """An integer or boolean expression: VHDL text and value under an environment."""
    def __init__(self, text, fn):
        self.text, self.fn = text, fn


def lit(v):
    return X(str(v) if v >= 0 else "(%d)" % v, lambda e: v)


def iexpr(r, names, d=0):
    k = r.random()
    if d > 2 or k < .3 or not names:
        if names and r.random() < .75:
            n = r.choice(names)
            return X(n, lambda e: e[n])
        return lit(r.randint(-3, 6))
    a, b = iexpr(r, names, d + 1), iexpr(r, names, d + 1)
    o = r.choice(["+", "-", "*", "mod", "inc", "pick"])
    if o == "+":
        return X("(%s + %s)" % (a.text, b.text), lambda e: a.fn(e) + b.fn(e))
    if o == "-":
        return X("(%s - %s)" % (a.text, b.text), lambda e: a.fn(e) - b.fn(e))
    if o == "*":
        return X("(%s * %s)" % (a.text, b.text), lambda e: a.fn(e) * b.fn(e))
    if o == "mod":
        m = r.randint(2, 5)
        return X("(%s mod %d)" % (a.text, m), lambda e: a.fn(e) % m)
    if o == "inc":
        return X("inc(%s)" % a.text, lambda e: a.fn(e) + 1)
    if o == "pick":
        return X("tab(%s mod 4)" % a.text, lambda e: (3, 1, 0, 2)[a.fn(e) % 4])
    raise AssertionError


def bexpr(r, ints, bools, d=0):
    k = r.random()
    if k < .2 and bools:
        n = r.choice(bools)
        return X(n, lambda e: e[n])
    if k < .75 or d > 1:
        a, b = iexpr(r, ints, 1), iexpr(r, ints, 1)
        o, f = r.choice([("=", lambda x, y: x == y), ("/=", lambda x, y: x != y), ("<", lambda x, y: x < y), (">=", lambda x, y: x >= y)])
        return X("(%s %s %s)" % (a.text, o, b.text), lambda e: f(a.fn(e), b.fn(e)))
    a, b = bexpr(r, ints, bools, d + 1), bexpr(r, ints, bools, d + 1)
    if k < .85:
        return X("(not %s)" % a.text, lambda e: not a.fn(e))
    o, f = r.choice([("and", lambda x, y: x and y), ("or", lambda x, y: x or y), ("xor", lambda x, y: x != y)])
    return X("(%s %s %s)" % (a.text, o, b.text), lambda e: f(a.fn(e), b.fn(e)))


PKG = """package hp is
  type ivec is array (natural range <>) of integer;
  constant tab : ivec(0 to 3) := (3, 1, 0, 2);
  type color is (red, green, blue, black);
  function inc(x : integer) return integer;
end package;
package body hp is
  function inc(x : integer) return integer is begin return x + 1; end;
end package body;
"""
COL = ["red", "green", "blue", "black"]


class Entity:
    def __init__(self, name):
        self.name = name
        self.gens = []           # (name, kind, default or None)
        self.archs = {}          # name -> Region
        self.order = []
        self.rec = False


class Region:
    def __init__(self):
        self.consts, self.stmts, self.comps, self.specs = [], [], [], []


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ents = []
        self.n = 0
        self.std = rng.choice(["2008", "2008", "1993", "2019"])
        self.lines = []
        self.cfg = {}

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # -- construction --------------------------------------------------------
    def entity(self, level, top=False):
        r = self.r
        e = Entity("top" if top else self.uid("e"))
        for _ in range(r.randint(1, 3)):
            k = r.choice(["i", "i", "b", "s"])
            dv = {"i": r.randint(-2, 5), "b": r.random() < .5, "s": "".join(r.choice("abcXYZ 019") for _ in range(r.randint(0, 5)))}[k]
            e.gens.append((self.uid("g"), k, dv if top or r.random() < .7 else None))
        for _ in range(1 if top else r.choice([1, 1, 2, 2])):
            a = self.uid("a")
            e.order.append(a)
            ints = [n for n, k, d in e.gens if k == "i"]
            bools = [n for n, k, d in e.gens if k == "b"]
            e.archs[a] = self.region(level, ints, bools, e, 0)
        self.ents.append(e)
        return e

    def region(self, level, ints, bools, ent, depth):
        r = self.r
        g = Region()
        ints, bools = list(ints), list(bools)
        for _ in range(r.randint(0, 2)):
            n = self.uid("c")
            x = iexpr(r, ints)
            # keep values small whatever the nesting
            x = X("(%s mod 7)" % x.text, (lambda f: lambda e: f(e) % 7)(x.fn))
            g.consts.append((n, x))
            ints.append(n)
        g.ints, g.bools = ints, bools
        g.probe = self.uid("k")
        below = [e for e in self.ents if e.level < level] if level else []
        for _ in range(r.randint(1, 3) if depth < 2 else 1):
            k = r.random()
            if depth < 3 and k < .45:
                g.stmts.append(self.generate(level, ints, bools, ent, depth))
            elif depth < 3 and k < .52:
                g.stmts.append(("block", self.uid("bl"), self.region(level, ints, bools, ent, depth + 1)))
            elif below and k < .95:
                g.stmts.append(self.instance(g, r.choice(below), ints, bools, depth == 0))
        return g

    def generate(self, level, ints, bools, ent, depth):
        r = self.r
        lab = self.uid("g")
        k = r.random()
        if k < .5:
            v = self.uid("i")
            if r.random() < .15:
                a, b = sorted(r.sample(range(4), 2))
                d = r.random() < .5
                rg = "color range %s %s %s" % ((COL[b], "downto", COL[a]) if d else (COL[a], "to", COL[b]))
                seq = list(range(b, a - 1, -1)) if d else list(range(a, b + 1))
                return ("for", lab, v, rg, (lambda s: lambda e: s)(seq), self.region(level, ints, bools, ent, depth + 1), True)
            x, n = iexpr(r, ints, 1), r.randint(-1, 3)
            up = r.random() < .6
            # a bounded range: (x mod 4) to (x mod 4) + n
            f = (lambda f, n, up: lambda e: list(range(f(e) % 4, f(e) % 4 + n + 1)) if up else list(range(f(e) % 4, f(e) % 4 - n - 1, -1)))(x.fn, n, up)
            t = "(%s mod 4)" % x.text
            rg = "%s %s %s %s %d" % (t, "to" if up else "downto", t, "+" if up else "-", n) if n >= 0 else "%s %s %s %s 1" % (t, "to" if up else "downto", t, "-" if up else "+")
            return ("for", lab, v, rg, f, self.region(level, ints + [v], bools, ent, depth + 1), False)
        if k < .8 or self.std == "1993":
            alts = []
            for _ in range(1 if self.std == "1993" else r.choice([1, 2, 3])):
                alts.append((bexpr(r, ints, bools), self.region(level, ints, bools, ent, depth + 1)))
            els = self.region(level, ints, bools, ent, depth + 1) if self.std != "1993" and r.random() < .6 else None
            return ("if", lab, alts, els)
        x = iexpr(r, ints, 1)
        x = X("(%s mod 5)" % x.text, (lambda f: lambda e: f(e) % 5)(x.fn))
        ch = list(range(5))
        r.shuffle(ch)
        cut = r.randint(1, 4)
        alts = [(ch[:cut], self.region(level, ints, bools, ent, depth + 1))]
        if r.random() < .5 and cut < 4:
            alts.append((ch[cut:cut + 1], self.region(level, ints, bools, ent, depth + 1)))
        return ("case", lab, x, alts, self.region(level, ints, bools, ent, depth + 1))

    def actual(self, k, ints, bools):
        r = self.r
        if k == "i":
            x = iexpr(r, ints, 1)
            return X("(%s mod 9) - 2" % x.text, lambda e: x.fn(e) % 9 - 2)
        if k == "b":
            return bexpr(r, ints, bools, 1)
        s = "".join(r.choice("pqrs_7") for _ in range(r.randint(0, 4)))
        return X('"%s"' % s, lambda e: s)

    def gmap(self, ent, ints, bools):
        """{generic: X} with those that have no default always there."""
        r = self.r
        return {n: self.actual(k, ints, bools) for n, k, d in ent.gens if d is None or r.random() < .5}

    def instance(self, reg, ent, ints, bools, outer):
        r = self.r
        lab = self.uid("u")
        k = r.random()
        if k < .45 or not reg_ok(reg):
            arch = r.choice(ent.order + [None])
            return ("inst", lab, ent, arch, self.gmap(ent, ints, bools), "entity work.%s%s" % (ent.name, "(%s)" % arch if arch else ""))
        if k < .75:
            # a component with the entity's name: default binding takes the latest architecture
            if ent.name not in [c[0] for c in reg.comps]:
                # the component may give other defaults, but not drop the entity's need for a value
                gens = [(n, kk, d if d is None or r.random() < .6 else {"i": 1, "b": True, "s": "comp"}[kk]) for n, kk, d in ent.gens]
                reg.comps.append((ent.name, gens))
            gens = [c[1] for c in reg.comps if c[0] == ent.name][0]
            m = {n: self.actual(kk, ints, bools) for n, kk, d in gens if d is None or r.random() < .5}
            return ("comp", lab, ent, None, m, ent.name, gens, {n: X(n, None) for n, kk, d in gens})
        cn = self.uid("comp")
        # other names for the generics, bound in the specification
        gens = [(self.uid("h"), kk, d) for n, kk, d in ent.gens]
        reg.comps.append((cn, gens))
        m = {n: self.actual(kk, ints, bools) for n, kk, d in gens if d is None or r.random() < .6}
        arch = r.choice(ent.order + [None])
        bind = {}
        for (n, kk, d), (h, _, _) in zip(ent.gens, gens):
            if d is None or r.random() < .7:
                bind[n] = (h, kk) if kk != "i" or r.random() < .7 else (h, "i+")
        if not bind:
            bind[ent.gens[0][0]] = (gens[0][0], gens[0][1])
        reg.specs.append((r.choice(["all", lab, "all", "others"]), cn, ent, arch, bind))
        return ("comp", lab, ent, arch, m, cn, gens, bind)

    # -- text ----------------------------------------------------------------
    def gentext(self, gens):
        l = []
        for n, k, d in gens:
            t = {"i": "integer", "b": "boolean", "s": "string"}[k]
            l.append("%s : %s%s" % (n, t, "" if d is None else " := " + val(k, d)))
        return "generic (%s);" % "; ".join(l)

    def emit(self):
        out = [PKG]
        units = []
        for e in self.ents:
            units.append("use work.hp.all;\nentity %s is %s end entity;" % (e.name, self.gentext(e.gens)))
            for a in e.order:
                b = []
                self.rtext(e.archs[a], b, 1, e)
                d = []
                self.dtext(e.archs[a], d, 1)
                units.append("use work.hp.all;\narchitecture %s of %s is\n%s\nbegin\n%s\nend architecture;" % (a, e.name, "\n".join(d), "\n".join(b)))
        return "\n".join(out + units) + "\n"

    def dtext(self, g, out, n):
        p = "  " * n
        out.append(p + "constant %s : integer := 0;" % g.probe)
        for c, x in g.consts:
            out.append(p + "constant %s : integer := %s;" % (c, x.text))
        for c, gens in g.comps:
            out.append(p + "component %s is %s end component;" % (c, self.gentext(gens)))
        for who, cn, ent, arch, bind in g.specs:
            m = ", ".join("%s => %s" % (n, h + (" + 1" if kk == "i+" else "")) for n, (h, kk) in bind.items())
            out.append(p + "for %s : %s use entity work.%s%s%s;" % (who, cn, ent.name, "(%s)" % arch if arch else "", " generic map (%s)" % m if m else ""))

    def rtext(self, g, out, n, ent):
        p = "  " * n
        vis = " & ".join(['" %s=" & integer\'image(%s)' % (i, i) for i in g.ints])
        vis += "".join(' & " %s=" & boolean\'image(%s)' % (b, b) for b in g.bools)
        vis += "".join(' & " %s=[" & %s & "]"' % (s, s) for s in [x for x, k, d in ent.gens if k == "s"])
        vis = vis.lstrip(" &") or '""'
        out.append(p + "process begin report \"@\" & %s'path_name & \" \" & %s'instance_name & %s; wait; end process;" % (g.probe, g.probe, vis))
        for s in g.stmts:
            self.stext(s, out, n, ent)

    def body(self, g, out, n, ent):
        d = []
        self.dtext(g, d, n + 1)
        out.append("\n".join(d))
        out.append("  " * n + "begin")
        self.rtext(g, out, n + 1, ent)

    def stext(self, s, out, n, ent):
        p = "  " * n
        k, lab = s[0], s[1]
        if k == "block":
            out.append(p + "%s: block is" % lab)
            self.body(s[2], out, n, ent)
            out.append(p + "end block;")
        elif k == "for":
            out.append(p + "%s: for %s in %s generate" % (lab, s[2], s[3]))
            self.body(s[5], out, n, ent)
            out.append(p + "end generate;")
        elif k == "if":
            for i, (x, g) in enumerate(s[2]):
                out.append(p + ("%s: if" % lab if i == 0 else "elsif") + " %s generate" % x.text)
                self.body(g, out, n, ent)
                if self.std != "1993":
                    out.append(p + "end;")
            if s[3]:
                out.append(p + "else generate")
                self.body(s[3], out, n, ent)
                out.append(p + "end;")
            out.append(p + "end generate;")
        elif k == "case":
            out.append(p + "%s: case %s generate" % (lab, s[2].text))
            for ch, g in s[3]:
                out.append(p + "when %s =>" % " | ".join(map(str, ch)))
                self.body(g, out, n, ent)
                out.append(p + "end;")
            out.append(p + "when others =>")
            self.body(s[4], out, n, ent)
            out.append(p + "end;")
            out.append(p + "end generate;")
        else:
            m = ", ".join("%s => %s" % (a, x.text) for a, x in s[4].items())
            out.append(p + "%s: %s%s;" % (lab, s[5], " generic map (%s)" % m if m else ""))

    # -- reference -----------------------------------------------------------
    def expect(self, override):
        top = self.ents[-1]
        env = {n: override.get(n, d) for n, k, d in top.gens}
        self.lines, self.count = [], 0
        a = top.order[-1]
        self.walk(top.archs[a], dict(env), ":top", ":top(%s)" % a, top)
        return self.lines

    def walk(self, g, env, path, inst, ent):
        self.count += 1
        if self.count > 3000:
            raise OverflowError
        for c, x in g.consts:
            env[c] = x.fn(env)
        t = "@%s:%s %s:%s" % (path, g.probe, inst, g.probe)
        t += "".join(" %s=%d" % (i, env[i]) for i in g.ints)
        t = t if not g.ints else t.replace(":%s " % g.ints[0], ":%s " % g.ints[0])
        t += "".join(" %s=%s" % (b, "true" if env[b] else "false") for b in g.bools)
        t += "".join(" %s=[%s]" % (s, env[s]) for s, k, d in ent.gens if k == "s")
        self.lines.append(t)
        for s in g.stmts:
            k, lab = s[0], s[1]
            if k == "block":
                self.walk(s[2], dict(env), "%s:%s" % (path, lab), "%s:%s" % (inst, lab), ent)
            elif k == "for":
                for v in s[4](env):
                    e = dict(env)
                    e[s[2]] = v
                    q = "%s(%s)" % (lab, COL[v] if s[6] else v)
                    self.walk(s[5], e, "%s:%s" % (path, q), "%s:%s" % (inst, q), ent)
            elif k == "if":
                for x, b in s[2]:
                    if x.fn(env):
                        break
                else:
                    b = s[3]
                if b:
                    self.walk(b, dict(env), "%s:%s" % (path, lab), "%s:%s" % (inst, lab), ent)
            elif k == "case":
                v = s[2].fn(env)
                for ch, b in s[3]:
                    if v in ch:
                        break
                else:
                    b = s[4]
                self.walk(b, dict(env), "%s:%s" % (path, lab), "%s:%s" % (inst, lab), ent)
            else:
                e, arch = s[2], s[3] or s[2].order[-1]
                if k == "inst":
                    ne = {n: s[4][n].fn(env) if n in s[4] else d for n, kk, d in e.gens}
                else:
                    ce = {n: s[4][n].fn(env) if n in s[4] else d for n, kk, d in s[6]}
                    if s[5] == e.name:
                        ne = ce
                    else:
                        ne = {n: (ce[s[7][n][0]] + 1 if s[7][n][1] == "i+" else ce[s[7][n][0]]) if n in s[7] else d for n, kk, d in e.gens}
                self.walk(e.archs[arch], ne, "%s:%s" % (path, lab), "%s:%s@%s(%s)" % (inst, lab, e.name, arch), e)


def reg_ok(reg):
    return True


def val(k, d):
    return str(d) if k == "i" else ("true" if d else "false") if k == "b" else '"%s"' % d


def design(rng):
    g = Gen(rng)
    for lv in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 2)):
            e = g.entity(lv)
            e.level = lv
    e = g.entity(9, top=True)
    e.level = 9
    return g
