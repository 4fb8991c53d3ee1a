"""Case statements over arrays: every choice, near misses, and matching case statements."""
import re
from . import run

ALPH = {"string": "abcdef", "bit_vector": "01", "std_logic_vector": "01UXZWLH-", "tern": None}


def one(c, eng):
    r = c.rng
    kind = r.choice(["string", "string", "string", "bit_vector", "std_logic_vector", "tern"])
    match = kind == "std_logic_vector" and r.random() < .5
    al = ALPH[kind] or "pqs"
    if match:
        al = "01"
    big = r.random() < .75
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 21, 31, 32, 33, 63, 64, 65, 70, 80]) if not big else \
        {"string": r.randint(9, 14), "bit_vector": r.randint(65, 80), "std_logic_vector": r.randint(17, 24),
         "tern": r.randint(33, 40)}[kind]
    nch = min(len(al) ** min(n, 10), r.choice([1, 2, 5, 12, 30, 60, 110]))
    ch = set()
    base = "".join(r.choice(al) for _ in range(n))
    while len(ch) < nch:
        if r.random() < .5 and n > 1:
            k = r.randrange(n)
            s = base[:k] + r.choice(al) + base[k + 1:]
            if r.random() < .5:
                k = r.randrange(n)
                s = s[:k] + r.choice(al) + s[k + 1:]
        else:
            s = "".join(r.choice(al) for _ in range(n))
        ch.add(s)
    ch = sorted(ch)
    r.shuffle(ch)
    tname = {"tern": "tv"}.get(kind, kind)
    alts = {}
    for s in ch:
        alts.setdefault(r.randrange(1, max(2, len(ch) // 2 * 2)), []).append(s)
    tests = ch + [None] * 0
    for s in r.sample(ch, min(len(ch), 25)):
        k = r.randrange(n)
        tests.append(s[:k] + r.choice(al) + s[k + 1:])
        if match:
            tests.append(s.replace("0", "L").replace("1", "H"))
    tests += ["".join(r.choice(al) for _ in range(n)) for _ in range(5)]

    def ref(s):
        if match:
            s = s.replace("L", "0").replace("H", "1")
        for k, v in alts.items():
            if s in v:
                return k
        return 0
    exp = [ref(s) for s in tests]
    o = ["library ieee; use ieee.std_logic_1164.all;", "entity top is end;", "architecture a of top is",
         "  type tern is ('p', 'q', 's');", "  type tv is array (natural range <>) of tern;"]
    lo = r.choice([0, 1, 5])
    rng = ("%d to %d" % (lo, lo + n - 1)) if kind == "string" and lo or kind != "string" and r.random() < .5 else \
        ("%d downto %d" % (lo + n - 1, lo))
    if kind == "string" and lo == 0:
        rng = "1 to %d" % n
    o += ["  subtype st is %s(%s);" % (tname, rng),
          "  type tab is array (natural range <>) of st;",
          "  constant t : tab(0 to %d) := (%s);" % (len(tests) - 1,
                                                  ", ".join('%d => "%s"' % (i, s) for i, s in enumerate(tests)))]
    style = r.choice(["func", "func", "inline", "rep"])
    case = ["case%s s is" % ("?" if match else "")]
    for k, v in alts.items():
        case.append("  when %s => x := %d;" % (" | ".join('"%s"' % s for s in v), k))
    case.append("  when others => x := 0;")
    case.append("end case%s;" % ("?" if match else ""))
    if style == "func":
        o += ["  function f (s : %s) return integer is" % r.choice(["st", "st", tname]), "    variable x : integer;",
              "  begin"] + ["    " + l for l in case] + ["    return x;", "  end;"]
        if o[-len(case) - 5].endswith("(s : %s) return integer is" % tname):
            c.counts["unconstrained selector"] += 1
    o += ["begin", "  process", "    variable s : st; variable x : integer;", "  begin", "    wait for 1 ns;",
          "    for i in t'range loop", "      s := t(i);"]
    if style == "func":
        o.append("      x := f(s);")
    else:
        o += ["      " + l for l in case]
    o += ["      report to_string(x);", "    end loop;", "    wait;", "  end process;", "end;"]
    c.file("t.vhd", "\n".join(o))
    c.evals += len(tests)
    res = run.simulate(c.tmp, ["t.vhd"], "top", eng)
    k = run.crash_key(res)
    if k or res.hung:
        return c.violate("case: %s" % (k or "does not terminate"), res.err[-1200:])
    got = [int(m.group(1)) for m in re.finditer(r"\*\* Note: 1ns\+0: (\d+)", res.out + res.err)]
    if res.rc != 0 and not got:
        return c.violate("case: legal program rejected", res.err[:1200])
    if got != exp:
        j = next((i for i in range(len(exp)) if i >= len(got) or got[i] != exp[i]), -1)
        return c.violate("case: wrong alternative on %s" % eng, "selector %r: alternative %s, expected %s" % (
            tests[j], got[j:j + 1], exp[j]))
    c.counts["case selectors %s" % ("matching" if match else kind)] += len(tests)
    c.counts["case choices"] += len(ch)
    c.digest((kind, n, ch))
