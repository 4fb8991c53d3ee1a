"""Random programs over linked structures, with the reference result of every observation.

The generator runs the program while it writes it: Python's own objects are the reference heap."""

HELP = '''use std.textio.all;
package hp is
  type node;
  type np is access node;
  type iv is array (natural range <>) of integer;
  type iap is access iv;
  type node is record
    val : integer;
    l, r : np;
    s : line;
    a : iap;
  end record;
  type nv is array (natural range <>) of np;
  type nap is access nv;
  type npp is access np;
  type bag is protected
    procedure push (variable p : inout np);
    procedure pop (variable p : inout np);
    procedure churn (n : integer);
    impure function total (d : natural) return integer;
    impure function size return natural;
  end protected;
  procedure mk_list (n, seed : integer; variable p : inout np);
  procedure mk_tree (d, seed : integer; variable p : inout np);
  procedure visit (variable p : in np; d : natural; variable res : out integer);
  procedure sum_list (variable p : in np; n : natural; variable res : out integer);
  procedure garbage (n, k : natural);
  procedure sum_vec (x : in iv; variable res : out integer);
end package;
package body hp is
  procedure mk_list (n, seed : integer; variable p : inout np) is
    variable q : np;
  begin
    q := null;
    for i in 1 to n loop
      q := new node'((seed * 31 + i * 17) mod 9973, null, q, null, null);
      if i mod 3 = 0 then
        q.s := new string'(integer'image(i));
      end if;
    end loop;
    p := q;
  end procedure;
  procedure mk_tree (d, seed : integer; variable p : inout np) is
    variable a, b : np;
  begin
    if d > 0 then
      mk_tree(d - 1, (seed * 2 + 1) mod 9973, a);
      mk_tree(d - 1, (seed * 3 + 2) mod 9973, b);
      p := new node'(seed, a, b, null, new iv'(seed, d, 7));
    else
      p := null;
    end if;
  end procedure;
  procedure visit (variable p : in np; d : natural; variable res : out integer) is
    variable x, y, t : integer;
  begin
    res := 0;
    if p /= null and d > 0 then
      visit(p.l, d - 1, x);
      visit(p.r, d - 1, y);
      t := p.val + 3 * x + 7 * y;
      if p.s /= null then
        t := t + p.s'length * 5;
        for i in p.s'range loop
          t := t + character'pos(p.s(i)) * i;
        end loop;
      end if;
      if p.a /= null then
        for i in p.a'range loop
          t := (t + p.a(i) * (i + 1)) mod 10007;
        end loop;
      end if;
      res := t mod 10007;
    end if;
  end procedure;
  procedure sum_list (variable p : in np; n : natural; variable res : out integer) is
    variable q : np := p;
    variable t : integer := 0;
  begin
    for i in 1 to n loop
      exit when q = null;
      t := (t * 3 + q.val) mod 10007;
      q := q.r;
    end loop;
    res := t;
  end procedure;
  procedure garbage (n, k : natural) is
    variable a : iap;
    variable p : np;
  begin
    for i in 1 to n loop
      a := new iv'(1 to k => -1 - i);
      p := new node'(-7777, p, null, new string'("garbage"), a);
      if i mod 5 = 0 then
        p := null;
      end if;
    end loop;
  end procedure;
  procedure sum_vec (x : in iv; variable res : out integer) is
    variable t : integer := 0;
  begin
    for i in x'range loop
      t := (t * 5 + x(i)) mod 10007;
    end loop;
    res := t;
  end procedure;
  type bag is protected body
    variable top : np;
    variable n : natural := 0;
    variable keep : nap := new nv(0 to 3);
    procedure push (variable p : inout np) is
    begin
      top := new node'(n, p, top, null, null);
      keep(n mod 4) := p;
      n := n + 1;
    end procedure;
    procedure pop (variable p : inout np) is
      variable d : np := top;
    begin
      if top /= null then
        p := top.l;
        top := top.r;
        deallocate(d);
      end if;
    end procedure;
    procedure churn (n : integer) is
    begin
      garbage(n, 9);
    end procedure;
    impure function total (d : natural) return integer is
      variable r, t : integer;
    begin
      visit(top, d, t);
      for i in keep'range loop
        visit(keep(i), d, r);
        t := (t + r) mod 10007;
      end loop;
      return t;
    end function;
    impure function size return natural is
    begin
      return n;
    end function;
  end protected body;
end package body;
'''


class Node:
    __slots__ = ("val", "l", "r", "s", "a")

    def __init__(self, val, l=None, r=None, s=None, a=None):
        self.val, self.l, self.r, self.s, self.a = val, l, r, s, a


class Str:
    def __init__(self, t, left=1):
        self.t, self.left = t, left


class Vec:
    def __init__(self, x, left=1):
        self.x, self.left = x, left


class Bag:
    def __init__(self):
        self.top, self.n, self.keep = None, 0, [None] * 4


def visit(p, d):
    if p is None or d == 0:
        return 0
    t = p.val + 3 * visit(p.l, d - 1) + 7 * visit(p.r, d - 1)
    if p.s is not None:
        t += len(p.s.t) * 5 + sum(ord(ch) * (i + p.s.left) for i, ch in enumerate(p.s.t))
    if p.a is not None:
        for i, x in enumerate(p.a.x):
            t = (t + x * (i + p.a.left + 1)) % 10007
    return t % 10007


def sum_list(p, n):
    t = 0
    for _ in range(n):
        if p is None:
            break
        t = (t * 3 + p.val) % 10007
        p = p.r
    return t


def mk_list(n, seed):
    q = None
    for i in range(1, n + 1):
        q = Node((seed * 31 + i * 17) % 9973, None, q)
        if i % 3 == 0:
            q.s = Str(str(i))
    return q


def mk_tree(d, seed):
    if d == 0:
        return None
    return Node(seed, mk_tree(d - 1, (seed * 2 + 1) % 9973), mk_tree(d - 1, (seed * 3 + 2) % 9973), None, Vec([seed, d, 7], 0))


def sum_vec(v):
    t = 0
    for x in v:
        t = (t * 5 + x) % 10007
    return t


class Proc:
    NP, NS, NA = 5, 3, 3

    def __init__(self, rng, idx, stress):
        self.r, self.i = rng, idx
        self.p = [None] * self.NP
        self.s = [None] * self.NS
        self.a = [None] * self.NA
        self.arr = [None] * 4       # the array arr points to
        self.pp = None              # npp: a one-element list
        self.bag = Bag()
        self.code, self.out = [], []
        self.k = 0
        self.stress = stress
        self.ended = False

    def say(self, vhdl, val):
        self.k += 1
        t = "P%d.%d " % (self.i, self.k)
        self.code.append('report "%s" & %s;' % (t, vhdl))
        self.out.append(t + val)

    def obs(self, call, val):
        self.code.append(call)
        self.say("integer'image(res)", str(val))

    def junk(self):
        return self.r.choice([3, 10]) if self.stress else self.r.choice([20, 300, 2000, 6000])

    def live(self):
        """How many nodes are reachable."""
        seen, todo = set(), [x for x in self.p + self.arr + [self.bag.top] + self.bag.keep + (self.pp or [])]
        while todo:
            x = todo.pop()
            if x is not None and id(x) not in seen:
                seen.add(id(x))
                todo += [x.l, x.r]
        return seen

    def step(self):
        r = self.r
        i, j, k = (r.randrange(self.NP) for _ in range(3))
        P = self.p
        op = r.choice(OPS)
        getattr(self, "o_" + op)(i, j, k)

    def o_new(self, i, j, k):
        v = self.r.randint(0, 9999)
        P = self.p
        P[i] = Node(v, P[j], P[k])
        self.code.append("p(%d) := new node'(%d, p(%d), p(%d), null, null);" % (i, v, j, k))

    def o_get(self, i, j, k):
        P = self.p
        if P[j]:
            f = self.r.choice("lr")
            P[i] = getattr(P[j], f)
            self.code.append("p(%d) := p(%d).%s;" % (i, j, f))

    def o_set(self, i, j, k):
        P = self.p
        if P[i]:
            f = self.r.choice("lr")
            setattr(P[i], f, P[j])
            self.code.append("p(%d).%s := p(%d);" % (i, f, j))

    def o_deep(self, i, j, k):
        P = self.p
        x, path = P[i], "p(%d)" % i
        for _ in range(3):
            f = self.r.choice("lr")
            if getattr(x, f, None) is None:
                break
            x, path = getattr(x, f), path + "." + f
        if x:
            v = self.r.randint(0, 9999)
            x.val = v
            f = self.r.choice("lr")
            setattr(x, f, P[j])
            self.code += ["%s.val := %d;" % (path, v), "%s.%s := p(%d);" % (path, f, j)]

    def o_null(self, i, j, k):
        self.p[i] = None
        self.code.append("p(%d) := null;" % i)

    def o_list(self, i, j, k):
        n, sd = self.r.choice([3, 40, 400] if not self.stress else [3, 20]), self.r.randint(1, 999)
        self.p[i] = mk_list(n, sd)
        self.code.append("mk_list(%d, %d, p(%d));" % (n, sd, i))

    def o_tree(self, i, j, k):
        d, sd = self.r.choice([2, 4, 7] if not self.stress else [2, 3]), self.r.randint(1, 999)
        self.p[i] = mk_tree(d, sd)
        self.code.append("mk_tree(%d, %d, p(%d));" % (d, sd, i))

    def o_visit(self, i, j, k):
        d = self.r.choice([1, 3, 6, 7])
        self.obs("visit(p(%d), %d, res);" % (i, d), visit(self.p[i], d))

    def o_sum(self, i, j, k):
        n = self.r.choice([5, 50, 450])
        self.obs("sum_list(p(%d), %d, res);" % (i, n), sum_list(self.p[i], n))

    def o_eq(self, i, j, k):
        self.say("boolean'image(p(%d) = p(%d))" % (i, j), "true" if self.p[i] is self.p[j] else "false")

    def o_junk(self, i, j, k):
        self.code.append(self.r.choice(["garbage(%d, 10);", "b%d.churn(%%d);" % self.i]) % self.junk())

    def o_wait(self, i, j, k):
        self.code.append("wait for %d ns;" % self.r.randint(1, 3))

    def o_str(self, i, j, k):
        j %= self.NS
        t = "".join(self.r.choice("abcdefgh 0123") for _ in range(self.r.choice([0, 1, 5, 30])))
        self.s[j] = Str(t)
        self.code.append('s(%d) := new string\'("%s");' % (j, t))
        if self.p[i] and self.r.random() < .6:
            self.p[i].s = self.s[j]
            self.code.append("p(%d).s := s(%d);" % (i, j))

    def o_strget(self, i, j, k):
        j %= self.NS
        if self.p[i] and self.p[i].s and all(x.s is not self.p[i].s for x in ()):
            self.s[j] = self.p[i].s
            self.code.append("s(%d) := p(%d).s;" % (j, i))
            self.say("s(%d).all & '|'" % j, self.s[j].t + "|")

    def o_strsub(self, i, j, k):
        j, k = j % self.NS, k % self.NS
        x = self.s[j]
        if x and len(x.t) > 2:
            a = self.r.randint(1, len(x.t))
            b = self.r.randint(a, len(x.t))
            o = x.left - 1
            self.s[k] = Str(x.t[a - 1:b], a + o)
            self.code.append("s(%d) := new string'(s(%d)(%d to %d));" % (k, j, a + o, b + o))
            self.say("s(%d).all & '|'" % k, self.s[k].t + "|")

    def o_strput(self, i, j, k):
        j %= self.NS
        x = self.s[j]
        if x and x.t:
            n = self.r.randrange(len(x.t))
            x.t = x.t[:n] + "Z" + x.t[n + 1:]
            self.code.append("s(%d)(%d) := 'Z';" % (j, n + x.left))

    def o_write(self, i, j, k):
        # write makes a new string; other references to the old one are left alone here
        j %= self.NS
        x = self.s[j]
        if self.refs_str(x) <= 1 and (x is None or x.left == 1):
            n = self.r.randint(0, 99999)
            self.s[j] = Str((x.t if x else "") + str(n))
            self.code.append("write(s(%d), integer'(%d));" % (j, n))
            self.say("s(%d).all & '|'" % j, self.s[j].t + "|")

    def nodes(self):
        seen, todo = {}, [x for x in self.p + self.arr + [self.bag.top] + self.bag.keep + (self.pp or [])]
        while todo:
            x = todo.pop()
            if x is not None and id(x) not in seen:
                seen[id(x)] = x
                todo += [x.l, x.r]
        return seen.values()

    def refs_str(self, x):
        if x is None:
            return 0
        return sum(y is x for y in self.s) + sum(n.s is x for n in self.nodes())

    def refs_node(self, x):
        ns = list(self.nodes())
        return (sum(y is x for y in self.p + self.arr + [self.bag.top] + self.bag.keep + (self.pp or []))
                + sum((n.l is x) + (n.r is x) for n in ns))

    def o_vec(self, i, j, k):
        j %= self.NA
        n, v = self.r.choice([0, 1, 7, 60]), self.r.randint(0, 9999)
        self.a[j] = Vec([v] * n)
        self.code.append("a(%d) := new iv'(1 to %d => %d);" % (j, n, v))
        if self.p[i] and self.r.random() < .6:
            self.p[i].a = self.a[j]
            self.code.append("p(%d).a := a(%d);" % (i, j))

    def o_vecput(self, i, j, k):
        j %= self.NA
        x = self.a[j]
        if x and x.x:
            n, v = self.r.randrange(len(x.x)), self.r.randint(0, 9999)
            x.x[n] = v
            self.code.append("a(%d)(%d) := %d;" % (j, n + 1, v))
            self.obs("sum_vec(a(%d).all, res);" % j, sum_vec(x.x))

    def o_vectouch(self, i, j, k):
        """The only reference to an array goes away while a procedure works on it."""
        j %= self.NA
        x = self.a[j]
        if x and x.x:
            n = self.junk()
            x.x[0] += 1
            tot = sum_vec(x.x)
            self.a[j] = None
            self.code.append("atouch(a(%d).all, %d, %d);" % (j, j, n))
            self.say("integer'image(res)", str(tot))

    def o_bagpush(self, i, j, k):
        b = self.bag
        b.top = Node(b.n, self.p[i], b.top)
        b.keep[b.n % 4] = self.p[i]
        b.n += 1
        self.code.append("b%d.push(p(%d));" % (self.i, i))

    def o_bagpop(self, i, j, k):
        b = self.bag
        if b.top:
            self.p[i] = b.top.l
            b.top = b.top.r
        self.code.append("b%d.pop(p(%d));" % (self.i, i))

    def o_bagsum(self, i, j, k):
        d = self.r.choice([2, 5])
        b = self.bag
        t = visit(b.top, d)
        for x in b.keep:
            t = (t + visit(x, d)) % 10007
        self.say("integer'image(b%d.total(%d)) & \" \" & integer'image(b%d.size)" % (self.i, d, self.i), "%d %d" % (t, b.n))

    def o_slow(self, i, j, k):
        n, v = self.junk(), self.r.randint(0, 9999)
        self.p[j] = Node(v, self.p[i], None, Str("slow"))
        self.code.append("slow(p(%d), p(%d), %d, %d);" % (i, j, v, n))

    def o_nest(self, i, j, k):
        v, d, sd = self.r.randint(0, 9999), self.r.randint(1, 4), self.r.randint(1, 999)
        n = self.junk()
        self.code.append("nest(%d, p(%d), %d, %d, %d);" % (v, i, d, sd, n))
        self.say("integer'image(res)", str(visit(Node(v, self.p[i], mk_tree(d, sd)), 5)))

    def o_copy(self, i, j, k):
        x = self.p[j]
        if x:
            if self.p[i] and self.r.random() < .5:
                y = self.p[i]
                y.val, y.l, y.r, y.s, y.a = x.val, x.l, x.r, x.s, x.a
                self.code.append("p(%d).all := p(%d).all;" % (i, j))
            else:
                self.p[i] = Node(x.val, x.l, x.r, x.s, x.a)
                self.code.append("p(%d) := new node'(p(%d).all);" % (i, j))

    def o_arr(self, i, j, k):
        n = self.r.randrange(4)
        q = self.r.random()
        if q < .3:
            self.arr = [self.p[i]] * 4
            self.code.append("arr := new nv'(0 to 3 => p(%d));" % i)
        elif q < .6:
            self.arr[n] = self.p[i]
            self.code.append("arr(%d) := p(%d);" % (n, i))
        elif q < .8:
            self.p[i] = self.arr[n]
            self.code.append("p(%d) := arr(%d);" % (i, n))
        else:
            self.arr[1:3] = self.arr[2:4]
            self.code.append("arr(1 to 2) := arr(2 to 3);")

    def o_pp(self, i, j, k):
        if self.pp is None or self.r.random() < .3:
            self.pp = [self.p[i]]
            self.code.append("pp := new np'(p(%d));" % i)
        elif self.r.random() < .5:
            self.pp[0] = self.p[i]
            self.code.append("pp.all := p(%d);" % i)
        else:
            self.p[i] = self.pp[0]
            self.code.append("p(%d) := pp.all;" % i)

    def o_free(self, i, j, k):
        x = self.p[i]
        if x is None or self.refs_node(x) == 1:
            self.p[i] = None
            self.code.append("deallocate(p(%d));" % i)
            self.say("boolean'image(p(%d) = null)" % i, "true")

    def o_swap(self, i, j, k):
        self.p[i], self.p[j] = self.p[j], self.p[i]
        if i != j:
            self.code.append("swap(p(%d), p(%d), %d);" % (i, j, self.junk()))

    def crash(self):
        """End with a dereference of null."""
        r = self.r
        c = r.randrange(7)
        i = r.randrange(self.NP)
        self.code.append("p(%d) := null; s(0) := null; a(0) := null; pp := null; arr := null;" % i)
        self.code.append(["res := p(%d).val;" % i, "p(%d).val := 4;" % i, "p(%d).l := p(%d);" % (i, i), "res := s(0)'length; report s(0).all;",
                          "res := a(0)(1);", "p(%d) := pp.all;" % i, "arr(0) := null;"][c])
        self.code.append('report "P%d survived";' % self.i)

    def text(self):
        return ['P%d : process' % self.i,
                '  variable p : nv(0 to %d);' % (self.NP - 1),
                '  type lv is array (natural range <>) of line;',
                '  type av is array (natural range <>) of iap;',
                '  variable s : lv(0 to %d);' % (self.NS - 1),
                '  variable a : av(0 to %d);' % (self.NA - 1),
                '  variable arr : nap := new nv(0 to 3);',
                '  variable pp : npp;',
                '  variable res : integer;',
                '  procedure atouch (variable x : inout iv; j, n : natural) is',
                '  begin',
                '    a(j) := null;',
                '    garbage(n, x\'length);',
                '    x(x\'left) := x(x\'left) + 1;',
                '    garbage(n, x\'length);',
                '    sum_vec(x, res);',
                '  end procedure;',
                '  procedure slow (variable x, y : inout np; v, n : natural) is',
                '    variable q : np := new node\'(v, x, null, null, null);',
                '    variable t : line := new string\'("slow");',
                '  begin',
                '    garbage(n, 4);',
                '    wait for 1 ns;',
                '    garbage(n, 4);',
                '    q.s := t;',
                '    t := null;',
                '    wait for 1 ns;',
                '    y := q;',
                '  end procedure;',
                '  procedure nest (v : integer; variable x : in np; d, sd, n : natural) is',
                '    variable t, q : np;',
                '  begin',
                '    mk_tree(d, sd, t);',
                '    q := new node\'(v, x, t, null, null);',
                '    t := null;',
                '    garbage(n, 3);',
                '    visit(q, 5, res);',
                '  end procedure;',
                '  procedure swap (variable x, y : inout np; n : natural) is',
                '    variable t : np := x;',
                '  begin',
                '    x := null;',
                '    garbage(n, 5);',
                '    x := y;',
                '    y := null;',
                '    garbage(n, 5);',
                '    y := t;',
                '  end procedure;',
                'begin'] + ["  " + x for x in self.code] + ['  report "P%d end";' % self.i, '  wait;', 'end process;']


OPS = ["new"] * 4 + ["get", "get", "set", "set", "deep", "deep", "null", "list", "tree", "visit", "visit", "visit", "sum", "eq", "eq", "junk", "junk",
       "wait", "str", "str", "strget", "strget", "strsub", "strput", "write", "vec", "vec", "vecput", "vectouch", "vectouch", "bagpush", "bagpush",
       "bagpop", "bagsum", "slow", "nest", "copy", "arr", "arr", "arr", "pp", "pp", "free", "swap"]


def program(rng, stress):
    """-> (text, {process: expected lines}, does process 0 end with a null dereference)"""
    n = rng.choice([1, 1, 2, 3])
    procs = [Proc(rng, k, stress) for k in range(n)]
    for p in procs:
        for _ in range(rng.choice([15, 40, 80])):
            if len(p.live()) > 1500:
                p.o_null(rng.randrange(p.NP), 0, 0)
                p.code.append("arr := new nv(0 to 3);")
                p.arr = [None] * 4
            else:
                p.step()
        for k in range(p.NP):
            p.o_visit(k, 0, 0)
            p.o_sum(k, 0, 0)
        p.o_bagsum(0, 0, 0)
        p.out.append("P%d end" % p.i)
    bad = n == 1 and rng.random() < .35
    if bad:
        procs[0].crash()
        procs[0].out.pop()
    t = [HELP, "use std.textio.all;", "use work.hp.all;", "entity top is end entity;", "architecture a of top is"]
    t += ["shared variable b%d : bag;" % k for k in range(n)]
    t += ["begin"]
    for p in procs:
        t += p.text()
    t += ["end architecture;", ""]
    return "\n".join(t), {p.i: p.out for p in procs}, bad
