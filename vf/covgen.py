"""Random designs with one statement to a line, executed by a reference interpreter that counts."""
from collections import Counter

NV = 4


class Ret(Exception):
    pass


class Exit(Exception):
    pass


class Next(Exception):
    pass


def idiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Gen:
    """One process or subprogram body: a list of statements."""
    def __init__(self, rng, d, unit, subs, proc):
        self.r, self.d, self.unit, self.subs, self.proc = rng, d, unit, subs, proc
        self.names = ["x%d" % k for k in range(NV)] + ([] if proc else ["n"])
        self.loops = []

    def num(self):
        r = self.r
        if self.loops and r.random() < .35:
            return ("var", r.choice(self.loops))
        if r.random() < .65:
            return ("var", r.choice(self.names))
        return ("int", r.randint(-3, 9))

    def arith(self):
        r = self.r
        q = r.random()
        if q < .35:
            return self.num()
        if q < .75:
            return ("arith", r.choice("+-"), self.num(), self.num())
        if q < .85 and self.subs["f"]:
            return ("call", r.choice(self.subs["f"]), self.num())
        return ("mod", self.num(), r.randint(2, 7))

    def cmp(self):
        r = self.r
        a = ("var", r.choice(self.names + self.loops))
        b = self.num() if r.random() < .5 else ("int", r.randint(-2, 8))
        return ("cmp", r.choice(["=", "/=", "<", "<=", ">", ">="]), a, ("int", 4) if a == b else b)

    def cond(self, depth=0):
        r = self.r
        if depth > 2 or r.random() < .4:
            return self.cmp()
        q = r.random()
        if q < .1:
            return ("not", self.cond(depth + 1))
        if q < .2:
            v = ("var", r.choice(self.names))
            # guarded division
            return ("log", "and", ("cmp", "/=", v, ("int", 0)), ("cmp", r.choice("<>"), ("div", 10, v), ("int", r.randint(-1, 5))))
        return ("log", r.choice(["and", "or", "xor", "nand", "nor", "xnor", "and", "or"]), self.cond(depth + 1), self.cond(depth + 1))

    def block(self, depth, n):
        return [s for s in (self.stmt(depth) for _ in range(n)) if s]

    def stmt(self, depth=0):
        r = self.r
        q = r.random()
        body = lambda: self.block(depth + 1, r.choice([1, 1, 2]))
        if depth < 3:
            if q < .18:
                arms = [(self.cond(), body()) for _ in range(r.choice([1, 1, 2, 3]))]
                return ["if", arms, body() if r.random() < .5 else None]
            if q < .26:
                vals = r.sample(range(-2, 8), 5)
                arms = []
                while vals and len(arms) < 3:
                    n = r.choice([1, 1, 2])
                    arms.append((vals[:n], body()))
                    vals = vals[n:]
                rg = (20, 40) if r.random() < .3 else None
                if rg:
                    arms.append((rg, body()))
                return ["case", ("mod", ("var", r.choice(self.names)), 11) if r.random() < .6 else ("var", r.choice(self.names)), arms, body()]
            if q < .36:
                v = "i%d" % len(self.loops)
                self.loops.append(v)
                x = ["for", v, r.randint(-1, 1), r.randint(2, 5), r.random() < .3, body()]
                self.loops.pop()
                return x
            if q < .42:
                return ["while", self.cond(), body(), r.randint(1, 6)]
            if q < .46:
                return ["loop", body(), r.randint(1, 5)]
        if q < .52 and self.loops:
            return [r.choice(["exitwhen", "nextwhen"]), self.cond()]
        if q < .54 and self.loops:
            return [r.choice(["exit", "next"])]
        if q < .60 and self.subs["p"]:
            return ["pcall", r.choice(self.subs["p"]), r.choice(["x%d" % k for k in range(NV)])]
        if q < .64:
            return ["assert", self.cond()]
        if q < .68 and self.proc:
            return ["wait"]
        if q < .76 and self.proc:
            return ["sig", r.choice(self.proc.sigs), self.cond()]
        if q < .80 and self.proc:
            return ["state", self.num()]
        if q < .83 and not self.proc:
            return ["retif", self.cond()]
        if q < .90:
            return ["bassign", r.randrange(2), self.cond()]
        return ["assign", r.choice(["x%d" % k for k in range(NV)]), self.arith()]


def etext(e):
    k = e[0]
    if k == "var":
        return e[1]
    if k == "int":
        return str(e[1]) if e[1] >= 0 else "(%d)" % e[1]
    if k == "arith":
        return "(%s %s %s)" % (etext(e[2]), e[1], etext(e[3]))
    if k == "mod":
        return "(%s mod %d)" % (etext(e[1]), e[2])
    if k == "div":
        return "(%d / %s)" % (e[1], etext(e[2]))
    if k == "call":
        return "%s(%s)" % (e[1].name, etext(e[2]))
    if k == "cmp":
        return "(%s %s %s)" % (etext(e[2]), e[1], etext(e[3]))
    if k == "not":
        return "(not %s)" % etext(e[1])
    return "(%s %s %s)" % (etext(e[2]), e[1], etext(e[3]))


def unsafe(e):
    return e[0] in ("div", "mod", "call") or any(isinstance(x, tuple) and unsafe(x) for x in e)


class Emit:
    def __init__(self):
        self.lines = []

    def add(self, t):
        self.lines.append(t)
        return len(self.lines)


def emit(em, stmts, ind):
    """Writes the statements and notes the line of each."""
    s = "  " * ind
    for x in stmts:
        k = x[0]
        if k == "if":
            n = em.add("%sif %s then" % (s, etext(x[1][0][0])))
            emit(em, x[1][0][1], ind + 1)
            for c, b in x[1][1:]:
                em.add("%selsif %s then" % (s, etext(c)))
                emit(em, b, ind + 1)
            if x[2] is not None:
                em.add(s + "else")
                emit(em, x[2], ind + 1)
            em.add(s + "end if;")
        elif k == "case":
            n = em.add("%scase %s is" % (s, etext(x[1])))
            ls = []
            for c, b in x[2]:
                ls.append(em.add("%swhen %s =>" % (s, "%d to %d" % c if isinstance(c, tuple) else " | ".join(map(str, c)))))
                emit(em, b, ind + 1)
            ls.append(em.add(s + "when others =>"))
            emit(em, x[3], ind + 1)
            em.add(s + "end case;")
            x.append(ls)
        elif k == "for":
            n = em.add("%sfor %s in %s loop" % (s, x[1], "%d downto %d" % (x[3], x[2]) if x[4] else "%d to %d" % (x[2], x[3])))
            emit(em, x[5], ind + 1)
            em.add(s + "end loop;")
        elif k == "while":
            # a counter bounds it
            x.append(em.add("%sw := 0;" % s))
            n = em.add("%swhile w < %d and %s loop" % (s, x[3], etext(x[1])))
            x.append(em.add("%s  w := w + 1;" % s))
            x.append(em.add("%s  wx := wx + w;" % s))
            emit(em, [["raw"]] if False else flat(x[2]), ind + 1)
            em.add(s + "end loop;")
        elif k == "loop":
            x.append(em.add("%sv := 0;" % s))
            n = em.add("%sloop" % s)
            x.append(em.add("%s  v := v + 1;" % s))
            x.append(em.add("%s  exit when v > %d;" % (s, x[2])))
            emit(em, flat(x[1]), ind + 1)
            em.add(s + "end loop;")
        elif k in ("exitwhen", "nextwhen"):
            n = em.add("%s%s when %s;" % (s, k[:4], etext(x[1])))
        elif k in ("exit", "next"):
            n = em.add("%s%s;" % (s, k))
        elif k == "pcall":
            n = em.add("%s%s(%s);" % (s, x[1].name, x[2]))
        elif k == "assert":
            n = em.add('%sassert %s report "no" severity note;' % (s, etext(x[1])))
        elif k == "wait":
            n = em.add("%swait for 1 ns;" % s)
        elif k == "sig":
            n = em.add("%s%s <= b2s(%s);" % (s, x[1], etext(x[2])))
        elif k == "state":
            n = em.add("%sst <= fsm'val(%s mod 5);" % (s, etext(x[1])))
        elif k == "retif":
            n = em.add("%sif %s then" % (s, etext(x[1])))
            x.append(em.add("%s  return%s;" % (s, em.ret)))
            em.add(s + "end if;")
        elif k == "bassign":
            n = em.add("%sq%d := %s;" % (s, x[1], etext(x[2])))
        elif k == "assign":
            n = em.add("%s%s := (%s + %s + %s) mod 1000 - 10;" % (s, x[1], etext(x[2]), em.free, x[1][1]))
        x.insert(1, n)


def flat(stmts):
    """Bodies of counted loops: without loops that use the same counter."""
    out = []
    for x in stmts:
        if x[0] in ("while", "loop", "exit", "next", "exitwhen", "nextwhen"):
            continue
        if x[0] == "if":
            x[1] = [(c, flat(b)) for c, b in x[1]]
            if x[2] is not None:
                x[2] = flat(x[2])
        elif x[0] == "case":
            x[2] = [(c, flat(b)) for c, b in x[2]]
            x[3] = flat(x[3])
        elif x[0] == "for":
            x[5] = flat(x[5])
        out.append(x)
    stmts[:] = out
    return stmts


class Run:
    """Executes statements, counting into cov: (line, what...) -> count."""
    def __init__(self, cov, budget):
        self.cov, self.left = cov, budget

    def expr(self, e, env, line, path):
        """Value, with the bins of e and its operands counted under path."""
        k = e[0]
        cov = self.cov
        if k == "var":
            return env[e[1]]
        if k == "int":
            return e[1]
        if k == "arith":
            a, b = self.expr(e[2], env, line, path + "l"), self.expr(e[3], env, line, path + "r")
            return a + b if e[1] == "+" else a - b
        if k == "mod":
            return self.expr(e[1], env, line, path) % e[2]
        if k == "div":
            return idiv(e[1], self.expr(e[2], env, line, path))
        if k == "call":
            return e[1].run(self, self.expr(e[2], env, line, path + "l"))
        if k == "cmp":
            a, b = self.expr(e[2], env, line, path + "l"), self.expr(e[3], env, line, path + "r")
            v = {"=": a == b, "/=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]]
            cov[line, "e", path, "TRUE" if v else "FALSE"] += 1
            return v
        if k == "not":
            v = not self.expr(e[1], env, line, path + "n")
            cov[line, "e", path, "TRUE" if v else "FALSE"] += 1
            return v
        op = e[1]
        a = self.expr(e[2], env, line, path + "l")
        if unsafe(e[3]):
            if op in ("and", "nand") and not a or op in ("or", "nor") and a:
                return a if op in ("and", "or") else not a
        b = self.expr(e[3], env, line, path + "r")
        bin = "%d_%d" % (a, b)
        if bin in BINS[op]:
            cov[line, "e", path, bin] += 1
        return {"and": a and b, "or": a or b, "xor": a != b, "nand": not (a and b), "nor": not (a or b), "xnor": a == b}[op]

    def block(self, stmts, env):
        for x in stmts:
            k, line = x[0], x[1]
            self.left -= 1
            if self.left < 0:
                raise OverflowError
            cov = self.cov
            E = lambda e, p="": self.expr(e, env, line, p)
            if k == "while":
                cov[x[5], "s"] += 1
                env["w"] = 0
                cov[line, "s"] += 1
                # operand of the counter's own condition
                while True:
                    a = env["w"] < x[4]
                    cov[line, "e", "l", "TRUE" if a else "FALSE"] += 1
                    if unsafe(x[2]) and not a:
                        v = False
                    else:
                        b = E(x[2], "r")
                        v = a and b
                        if a or b:
                            cov[line, "e", "", "%d_%d" % (a, b)] += 1
                    cov[line, "b", 0, "TRUE" if v else "FALSE"] += 1
                    if not v:
                        break
                    cov[x[6], "s"] += 1
                    env["w"] += 1
                    cov[x[7], "s"] += 1
                    env["wx"] += env["w"]
                    self.block(x[3], env)
                continue
            if k == "loop":
                cov[x[4], "s"] += 1
                cov[line, "s"] += 1
                env["v"] = 0
                while True:
                    cov[x[5], "s"] += 1
                    env["v"] += 1
                    cov[x[6], "s"] += 1
                    v = env["v"] > x[3]
                    cov[x[6], "e", "", "TRUE" if v else "FALSE"] += 1
                    cov[x[6], "b", 0, "TRUE" if v else "FALSE"] += 1
                    if v:
                        break
                    self.block(x[2], env)
                continue
            cov[line, "s"] += 1
            if k == "if":
                for n, (c, b) in enumerate(x[2]):
                    v = E(c, "a%d." % n)
                    cov[line, "b", n, "TRUE" if v else "FALSE"] += 1
                    if v:
                        self.block(b, env)
                        break
                else:
                    if x[3] is not None:
                        self.block(x[3], env)
            elif k == "case":
                v = E(x[2])
                for (c, b), l in zip(x[3], x[5]):
                    if isinstance(c, tuple):
                        hit = 0 if c[0] <= v <= c[1] else None
                    else:
                        hit = c.index(v) if v in c else None
                    if hit is not None:
                        cov[line, "c", l, hit] += 1
                        self.block(b, env)
                        break
                else:
                    cov[line, "c", x[5][-1], 0] += 1
                    self.block(x[4], env)
            elif k == "for":
                rg = range(x[3], x[4] + 1)
                try:
                    for i in (reversed(rg) if x[5] else rg):
                        env[x[2]] = i
                        try:
                            self.block(x[6], env)
                        except Next:
                            pass
                except Exit:
                    pass
            elif k in ("exitwhen", "nextwhen"):
                v = E(x[2])
                cov[line, "b", 0, "TRUE" if v else "FALSE"] += 1
                if v:
                    raise Exit if k == "exitwhen" else Next
            elif k == "exit":
                raise Exit
            elif k == "next":
                raise Next
            elif k == "pcall":
                x[2].run(self, env, x[3])
            elif k == "assert":
                E(x[2])
            elif k == "wait":
                env["proc"].tick()
            elif k == "sig":
                env["proc"].drive[x[2]] = E(x[3])
            elif k == "state":
                env["proc"].drive["st"] = E(x[2]) % 5
            elif k == "retif":
                v = E(x[2], "a0.")
                cov[line, "b", 0, "TRUE" if v else "FALSE"] += 1
                if v:
                    cov[x[3], "s"] += 1
                    raise Ret
            elif k == "bassign":
                env["q%d" % x[2]] = E(x[3])
            elif k == "assign":
                env[x[2]] = (E(x[3]) + env["n"] + int(x[2][1])) % 1000 - 10


BINS = {"and": ("0_1", "1_0", "1_1"), "nand": ("0_1", "1_0", "1_1"), "or": ("0_0", "0_1", "1_0"), "nor": ("0_0", "0_1", "1_0"),
        "xor": ("0_0", "0_1", "1_0", "1_1"), "xnor": ("0_0", "0_1", "1_0", "1_1")}


def zeros(cov, stmts, path_if=True):
    """Every bin there is, counted or not."""
    def ex(e, line, path):
        k = e[0]
        if k in ("arith",):
            ex(e[2], line, path + "l"), ex(e[3], line, path + "r")
        elif k in ("cmp",):
            ex(e[2], line, path + "l"), ex(e[3], line, path + "r")
            for b in ("TRUE", "FALSE"):
                cov[line, "e", path, b] += 0
        elif k == "not":
            ex(e[1], line, path + "n")
            for b in ("TRUE", "FALSE"):
                cov[line, "e", path, b] += 0
        elif k == "log":
            ex(e[2], line, path + "l"), ex(e[3], line, path + "r")
            for b in BINS[e[1]]:
                cov[line, "e", path, b] += 0

    def tf(line, n=0):
        for b in ("TRUE", "FALSE"):
            cov[line, "b", n, b] += 0
    for x in stmts:
        k, line = x[0], x[1]
        cov[line, "s"] += 0
        if k == "if":
            for n, (c, b) in enumerate(x[2]):
                ex(c, line, "a%d." % n)
                tf(line, n)
                zeros(cov, b)
            if x[3] is not None:
                zeros(cov, x[3])
        elif k == "case":
            ex(x[2], line, "")
            for (c, b), l in zip(x[3], x[5]):
                for n in range(1 if isinstance(c, tuple) else len(c)):
                    cov[line, "c", l, n] += 0
                zeros(cov, b)
            cov[line, "c", x[5][-1], 0] += 0
            zeros(cov, x[4])
        elif k == "for":
            zeros(cov, x[6])
        elif k == "while":
            for l in (x[5], x[6], x[7]):
                cov[l, "s"] += 0
            tf(line)
            for b in ("TRUE", "FALSE"):
                cov[line, "e", "l", b] += 0
            for b in BINS["and"]:
                cov[line, "e", "", b] += 0
            ex(x[2], line, "r")
            zeros(cov, x[3])
        elif k == "loop":
            for l in (x[4], x[5], x[6]):
                cov[l, "s"] += 0
            tf(x[6])
            for b in ("TRUE", "FALSE"):
                cov[x[6], "e", "", b] += 0
            zeros(cov, x[2])
        elif k in ("exitwhen", "nextwhen"):
            tf(line)
            ex(x[2], line, "")
        elif k in ("sig", "bassign"):
            ex(x[3], line, "")
        elif k in ("assert",):
            ex(x[2], line, "")
        elif k == "retif":
            tf(line)
            cov[x[3], "s"] += 0
            ex(x[2], line, "a0.")


class Sub:
    """A procedure (inout integer) or a function of one integer."""
    def __init__(self, rng, name, func, subs, d):
        self.name, self.func = name, func
        self.g = Gen(rng, d, None, subs, None)
        self.body = self.g.block(1, rng.choice([1, 2, 3]))

    def emit(self, em):
        self.first = em.add("  function %s (a : integer) return integer is" % self.name if self.func else "  procedure %s (variable a : inout integer) is" % self.name)
        em.add("    variable n : integer := a;")
        for k in range(NV):
            em.add("    variable x%d : integer := (a + %d) mod 17 - 5;" % (k, k))
        em.add("    variable w, v, wx : integer := 0;")
        em.add("    variable q0, q1 : boolean;")
        em.add("  begin")
        em.free = "n"
        em.ret = " x0" if self.func else ""
        emit(em, self.body, 2)
        self.last = em.add("    return x0;" if self.func else "    a := x1;")
        em.add("  end;")

    def env(self, a):
        e = {"n": a, "w": 0, "v": 0, "wx": 0, "q0": False, "q1": False}
        for k in range(NV):
            e["x%d" % k] = (a + k) % 17 - 5
        return e

    def run(self, rn, a, var=None):
        env = self.env(a if self.func else a[var])
        try:
            rn.block(self.body, env)
        except Ret:
            return env["x0"]
        rn.cov[self.last, "s"] += 1
        if not self.func:
            a[var] = env["x1"]
        return env["x0"]


class Unit:
    """An entity with subprograms and one process."""
    def __init__(self, rng, name, d):
        self.name, self.r = name, rng
        self.subs = {"p": [], "f": []}
        self.all = []
        for k in range(rng.choice([0, 1, 2])):
            f = rng.random() < .5
            s = Sub(rng, "%s%d" % ("f" if f else "p", k), f, {"p": list(self.subs["p"]) if not f else [], "f": list(self.subs["f"])}, d)
            self.subs["f" if f else "p"].append(s)
            self.all.append(s)
        self.sigs = ["s0", "s1", "s2(0)", "s2(1)"]
        self.g = Gen(rng, d, self, self.subs, self)
        self.body = self.g.block(0, rng.choice([4, 8, 12]))

    def emit(self, em, seeds):
        n = self.name
        em.add("library ieee; use ieee.std_logic_1164.all;")
        em.add("entity %s is" % n)
        em.add("  generic (seed : integer);")
        em.add("end entity;")
        em.add("architecture a of %s is" % n)
        em.add("  type fsm is (sa, sb, sc, sd, se);")
        em.add("  signal st : fsm;")
        em.add("  signal dyn : integer := seed;")
        em.add("  signal s0, s1 : std_logic := '0';")
        em.add("  signal s2 : std_logic_vector(1 downto 0) := \"00\";")
        em.add("  impure function b2s (b : boolean) return std_logic is")
        em.add("  begin")
        self.b2s_if = em.add("    if b then")
        self.b2s_t = em.add("      return '1';")
        em.add("    else")
        self.b2s_f = em.add("      return '0';")
        em.add("    end if;")
        em.add("  end;")
        for s in self.all:
            s.emit(em)
        em.add("begin")
        em.add("  process")
        em.add("    variable %s : integer := 0;" % ", ".join("x%d" % k for k in range(NV)))
        em.add("    variable w, v, wx : integer := 0;")
        em.add("    variable q0, q1 : boolean;")
        em.add("  begin")
        em.free = "dyn"
        em.ret = ""
        self.init = [em.add("    x%d := (dyn * %d + %d) mod 17 - 5;" % (k, k + 3, k)) for k in range(NV)]
        emit(em, self.body, 2)
        self.last = em.add('    report "end %s " & integer\'image(seed) & " " & integer\'image(x0);' % n)
        self.wait = em.add("    wait;")
        em.add("  end process;")
        em.add("end architecture;")

    def uncalled(self, line):
        """Does the line belong to a subprogram that the process does not mention, directly or indirectly?"""
        used = set()

        def look(x):
            if isinstance(x, Sub):
                if x not in used:
                    used.add(x)
                    look(x.body)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    look(y)
        look(self.body)
        return any(s.first < line <= s.last for s in self.all if s not in used)

    def execute(self, seed, budget):
        cov = Counter()
        self.cov = cov
        rn = Run(cov, budget)
        self.drive = {}
        self.val = {s: 0 for s in self.sigs}
        self.state = 0
        self.before = dict(self.val)
        self.stale = Counter()
        for s in self.sigs:
            cov[s, "0_1"] += 0
            cov[s, "1_0"] += 0
        for k in range(5):
            cov["st", k] += 0
        cov["st", 0] += 1
        env = {"w": 0, "v": 0, "wx": 0, "q0": False, "q1": False, "proc": self, "n": seed}
        zeros(cov, self.body)
        for s in self.all:
            zeros(cov, s.body)
            cov[s.last, "s"] += 0
        nb = Counter()
        for k in range(NV):
            env["x%d" % k] = (seed * (k + 3) + k) % 17 - 5
            cov[self.init[k], "s"] += 1
        self.b = [0, 0]
        rn.block(self.body, env)
        cov[self.last, "s"] += 1
        cov[self.wait, "s"] += 1
        self.tick()
        return cov, env["x0"], dict(self.stale)

    def tick(self):
        ev = False
        for s, v in self.drive.items():
            if s != "st" and v != self.val[s]:
                self.before[s] = self.val[s]
                ev |= s[:2] == "s2"
            if s == "st":
                if v != self.state:
                    self.state = v
                    self.cov["st", v] += 1
            elif v != self.val[s]:
                self.cov[s, "0_1" if v else "1_0"] += 1
                self.val[s] = int(v)
        self.drive = {}
        if ev:
            # what is counted if the last transition of every element is taken for a new one
            for s in ("s2(0)", "s2(1)"):
                if self.before[s] != self.val[s]:
                    self.stale[s, "0_1" if self.val[s] else "1_0"] += 1


def count_b2s(cov, unit):
    """The helper's own lines, from the statements that call it."""
    # value of the condition: not recorded separately, so these lines are not judged
    return {unit.b2s_if, unit.b2s_t, unit.b2s_f}


class Design:
    def __init__(self, rng):
        self.units = [Unit(rng, "u%d" % k, self) for k in range(rng.choice([1, 2]))]
        self.inst = []
        for k in range(rng.choice([1, 2, 3])):
            u = rng.choice(self.units)
            g = rng.choice([1, 1, 2, 3])
            self.inst.append((u, k, g, rng.randint(0, 30)))
        em = Emit()
        for u in self.units:
            u.emit(em, None)
        em.add("entity top is generic (base : integer := 0); end entity;")
        em.add("architecture a of top is")
        em.add("begin")
        for u, k, g, sd in self.inst:
            if g == 1:
                em.add("  i%d : entity work.%s generic map (seed => base + %d);" % (k, u.name, sd))
            else:
                em.add("  g%d : for j in 1 to %d generate" % (k, g))
                em.add("    i%d : entity work.%s generic map (seed => base + %d + j);" % (k, u.name, sd))
                em.add("  end generate;")
        em.add("end architecture;")
        self.text = "\n".join(em.lines) + "\n"

    def expect(self, base):
        """path -> counter"""
        out = {}
        for u, k, g, sd in self.inst:
            if g == 1:
                out["I%d" % k] = (u, *u.execute(base + sd, 30000), base + sd)
            else:
                for j in range(1, g + 1):
                    out["G%d(%d).I%d" % (k, j, k)] = (u, *u.execute(base + sd + j, 30000), base + sd + j)
        return out
