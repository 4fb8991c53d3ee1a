"""Designs for C13 with their expected reports: 'image, 'value, to_string, textio and file operations."""
import struct, math

NUL = None


def vstr(s):
    """A VHDL string expression of any characters."""
    out, cur = [], ""
    for ch in s:
        if " " <= ch <= "~" or "\xa1" <= ch <= "\xff":
            cur += '""' if ch == '"' else ch
        else:
            if cur:
                out.append('"%s"' % cur)
                cur = ""
            out.append("character'val(%d)" % ord(ch))
    if cur or not out:
        out.append('"%s"' % cur)
    if len(out) == 1 and not out[0].startswith('"'):
        out.append('""')
    return "string'(%s)" % " & ".join(out)


def show(s):
    """How the designs report a string: printable characters as they are, others as <n>."""
    return "".join(ch if " " < ch <= "~" and ch not in "<>" else "<%d>" % ord(ch) for ch in s)


PRELUDE = """use std.textio.all;
package p is
  type color is (red, Green, BLUE, '0', 'a', 'A', \\Foo Bar\\, \\x\\, crimson, dark_red);
  type small is range -100 to 100;
  type word is range -2147483647 - 1 to 2147483647;
  type long is range -9223372036854775807 - 1 to 9223372036854775807;
  type dist is range -1000000000 to 1000000000 units um; mm = 1000 um; cm = 10 mm; m = 100 cm; inch = 25400 um; end units;
  type re is range -1.0e30 to 1.0e30;
  subtype pos3 is integer range 3 downto -3;
  type int_file is file of integer;
  type char_file is file of character;
  type col_file is file of color;
  type real_file is file of real;
  type time_file is file of time;
  type long_file is file of long;
  type ivec is array (natural range <>) of integer;
  type ivec_file is file of ivec;
  type rec is record a : integer; b : character; c : real; d : bit_vector(1 to 3); end record;
  type rec_file is file of rec;
  type fix is array (1 to 3) of small;
  type fix_file is file of fix;
  type bv_file is file of bit_vector;
  function show(s : string) return string;
  function tail(l : string) return string;
end package;
package body p is
  function show(s : string) return string is
    variable l : line; variable n : integer;
  begin
    l := new string'("");
    for i in s'range loop
      if s(i) > ' ' and s(i) <= '~' and s(i) /= '<' and s(i) /= '>' then
        write(l, s(i));
      else
        write(l, "<" & integer'image(character'pos(s(i))) & ">");
      end if;
    end loop;
    return l.all;
  end;
  function tail(l : string) return string is
  begin
    return integer'image(l'length) & ":" & l;
  end;
end package body;
use std.textio.all; use work.p.all;
entity top is end;
architecture a of top is
begin
process
  variable l : line; variable g : boolean; variable i : integer; variable r : real; variable b : bit;
  variable bo : boolean; variable c : character; variable t : time; variable n : natural;
  variable st : file_open_status;
%s
begin
%s
  report "end";
  wait;
end process;
end;
"""
COLORS = ["red", "green", "blue", "'0'", "'a'", "'A'", "\\Foo Bar\\", "\\x\\", "crimson", "dark_red"]
LITS = ["red", "green", "blue", "'0'", "'a'", "'A'", "\\Foo Bar\\", "\\x\\", "crimson", "dark_red"]
CTRL = ("nul soh stx etx eot enq ack bel bs ht lf vt ff cr so si dle dc1 dc2 dc3 dc4 nak syn etb can em sub esc "
        "fsp gsp rsp usp").split()
TU = [("fs", 1), ("ps", 10**3), ("ns", 10**6), ("us", 10**9), ("ms", 10**12), ("sec", 10**15), ("min", 60 * 10**15), ("hr", 3600 * 10**15)]


def charname(n):
    if n < 32:
        return CTRL[n]
    if n == 127:
        return "del"
    if 128 <= n < 160:
        return "c%d" % n
    return "'%s'" % chr(n)


class Prog:
    def __init__(self, rng):
        self.rng = rng
        self.decl, self.body, self.exp, self.n = [], [], [], 0
        self.files = {}

    def uid(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ln(self, s):
        self.body.append("  " + s)

    def out(self, expr, want, kind):
        """Reports a string expression; want is the text or a predicate."""
        self.exp.append((len(self.exp), want, kind))
        self.ln('report "#%d " & show(%s);' % (len(self.exp) - 1, expr))

    def var(self, typ, init):
        v = self.uid()
        self.decl.append("  variable %s : %s := %s;" % (v, typ, init))
        return v

    def text(self):
        return PRELUDE % ("\n".join(self.decl), "\n".join(self.body))


def rint(r, lo=-2**31, hi=2**31 - 1):
    k = r.random()
    if k < .25:
        v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1, 9, 10, -10, 99, 100])
    elif k < .6:
        v = r.randint(-1000, 1000)
    else:
        v = r.choice([1, -1]) * (r.getrandbits(r.randint(1, 63)))
    return max(lo, min(hi, v))


def rreal(r):
    k = r.random()
    if k < .2:
        return r.choice([0.0, 1.0, -1.0, 0.5, 0.1, 1e10, 1e-10, 123456.789, 1e15, 1e16, 1e17, 2.0**53, 1e300, 1e-300, 3.0])
    if k < .6:
        return float(r.randint(-10**6, 10**6)) / r.choice([1, 2, 4, 10, 100, 1000, 7])
    return r.uniform(-1, 1) * 10.0 ** r.randint(-20, 20)


def vreal(x):
    s = "%.17e" % x
    return s if x >= 0 else "(%s)" % s


def vint(v, typ="integer"):
    if v == -2**31 and typ == "integer":
        return "(-2147483647 - 1)"
    if v == -2**31 and typ == "word":
        return "%s'low" % typ
    if v == -2**63:
        return "%s'low" % typ
    return str(v) if v >= 0 else "(%d)" % v


def near(x, rel):
    def f(got):
        try:
            y = float(got)
        except ValueError:
            return False
        return y == x or abs(x - y) <= rel * abs(x)
    return f


def cfmt(x, spec):
    return spec % x


def images(p):
    r = p.rng
    k = r.randrange(11)
    if k == 0:
        t, lo, hi = r.choice([("integer", -2**31, 2**31 - 1), ("small", -100, 100), ("word", -2**31, 2**31 - 1), ("long", -2**63, 2**63 - 1), ("pos3", -3, 3), ("natural", 0, 2**31 - 1)])
        x = rint(r, lo, hi)
        v = p.var(t, vint(x, t))
        p.out("%s'image(%s)" % (t, v), str(x), "integer'image")
        p.out("to_string(%s)" % v, str(x), "to_string(integer)")
        s = r.choice(["%d", " %d", "%d ", "  %d\t"]) % x
        if abs(x) >= 1000 and r.random() < .5:
            q = str(abs(x))
            s = ("-" if x < 0 else "") + q[0] + "_" + q[1:]
        sv = p.var("line", "new string'(%s)" % vstr(s))
        p.out("%s'image(%s'value(%s.all))" % (t, t, sv), str(x), "integer'value of %s" % ("a decimal literal" if s.strip() == str(x) else "a literal with _"))
    elif k == 1:
        i = r.randrange(len(LITS))
        v = p.var("color", LITS[i])
        p.out("color'image(%s)" % v, COLORS[i], "enumeration'image")
        p.out("to_string(%s)" % v, (COLORS[i][1:-1] if COLORS[i][0] == "'" else COLORS[i]), "to_string(enumeration)")
        s = COLORS[i]
        if s[0] not in "'\\":
            s = r.choice([s, s.upper(), s.capitalize()])
        s = r.choice(["", " "]) + s + r.choice(["", "  "])
        sv = p.var("line", "new string'(%s)" % vstr(s))
        p.out("integer'image(color'pos(color'value(%s.all)))" % sv, str(i), "enumeration'value")
    elif k == 2:
        n = r.randrange(256)
        v = p.var("character", "character'val(%d)" % n)
        p.out("character'image(%s)" % v, charname(n), "character'image")
        p.out("to_string(%s)" % v, chr(n), "to_string(character)")
        sv = p.var("line", "new string'(%s)" % vstr(charname(n)))
        p.out("integer'image(character'pos(character'value(%s.all)))" % sv, str(n), "character'value")
    elif k == 3:
        x = rint(r, -10**9, 10**9)
        v = p.var("dist", "%d um" % x if x >= 0 else "-%d um" % -x)
        p.out("dist'image(%s)" % v, "%d um" % x, "physical'image")
        u, m = r.choice([("um", 1), ("mm", 1000), ("cm", 10**4), ("m", 10**6), ("inch", 25400)])
        y = rint(r, -(10**9 // m), 10**9 // m)
        s = "%d%s%s" % (y, r.choice([" ", "  ", "\t"]), r.choice([u, u.upper()]))
        sv = p.var("line", "new string'(%s)" % vstr(s))
        p.out("dist'image(dist'value(%s.all))" % sv, "%d um" % (y * m), "physical'value")
    elif k == 4:
        x = rint(r, -2**63, 2**63 - 1)
        lim = r.choice([10**6, 10**12, 2**63 - 1])
        x = max(-lim, min(lim, x))
        a = abs(x)
        v = p.var("time", ("" if x >= 0 else "-") + "(%d sec + %d fs)" % (a // 10**15, a % 10**15))
        p.out("time'image(%s)" % v, "%d fs" % x, "time'image")
        p.out("to_string(%s)" % v, "%d fs" % x, "to_string(time)")
    elif k == 5:
        x = rreal(r)
        v = p.var("real", vreal(x))
        p.out("real'image(%s)" % v, near(x, 1e-12), "real'image")
        p.out("real'image(real'value(real'image(%s)))" % v, near(x, 1e-12), "real'value of real'image")
        p.out("to_string(%s)" % v, near(x, 1e-12), "to_string(real)")
        d = r.randint(1, 12)
        if 1:
            p.out("to_string(%s, %d)" % (v, d), "%.*f" % (d, x), "to_string(real, digits)")
        f = r.choice(["%.3f", "%10.4f", "%e", "%.7e", "%-12.3e", "%g", "%.10g", "%+.2f", "%012.3f", "%E", "%G"])
        if 1:
            p.out('to_string(%s, "%s")' % (v, f), f % x, "to_string(real, format)")
    elif k == 6:
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 31, 32, 33, 64, 65])
        bits = "".join(r.choice("01") for _ in range(n))
        rg = r.choice(["1 to %d" % n, "%d downto 0" % (n - 1), "%d to %d" % (5, n + 4), "%d downto 3" % (n + 2)])
        v = p.var("bit_vector(%s)" % rg, '"%s"' % bits)
        p.out("to_string(%s)" % v, bits, "to_string(bit_vector)")
        p.out(r.choice(["to_bstring", "to_binary_string"]) + "(%s)" % v, bits, "to_bstring")
        h = "%0*X" % ((n + 3) // 4, int(bits, 2)) if n else ""
        o = "%0*o" % ((n + 2) // 3, int(bits, 2)) if n else ""
        p.out("to_hstring(%s)" % v, h, "to_hstring")
        p.out(r.choice(["to_ostring", "to_octal_string"]) + "(%s)" % v, o, "to_ostring")
    elif k == 7:
        s = "".join(chr(r.randrange(256)) for _ in range(r.randrange(12)))
        w = r.randrange(0, 20)
        sd = r.choice(["left", "right"])
        v = p.var("line", "new string'(%s)" % vstr(s))
        p.out("justify(%s.all, %s, %d)" % (v, sd, w), s.ljust(w) if sd == "left" else s.rjust(w), "justify")
    elif k == 8:
        x = r.random() < .5
        v = p.var("boolean", "true" if x else "false")
        p.out("boolean'image(%s)" % v, "true" if x else "false", "boolean'image")
        sv = p.var("line", "new string'(%s)" % vstr(r.choice(["true", "TRUE", "True", " true "] if x else ["false", "FALSE", " False"])))
        p.out("boolean'image(boolean'value(%s.all))" % sv, "true" if x else "false", "boolean'value")
    elif k == 9:
        x = rreal(r)
        if abs(x) > 1e29:
            x = 1.5
        v = p.var("re", vreal(x))
        p.out("re'image(%s)" % v, near(x, 1e-12), "real'image")
        s = r.choice(["%.6f" % x if abs(x) < 1e9 else "%.5e" % x, "%.9e" % x, "%.9E" % x, " %.3e " % x])
        sv = p.var("line", "new string'(%s)" % vstr(s))
        p.out("real'image(real'value(%s.all))" % sv, near(float(s), 1e-12), "real'value")
    else:
        x = rint(r, -10**6, 10**6)
        u, m = r.choice(TU[:6])
        sv = p.var("line", "new string'(%s)" % vstr("%d %s" % (x, u)))
        if abs(x * m) < 2**63:
            p.out("time'image(time'value(%s.all))" % sv, "%d fs" % (x * m), "time'value")


def just(s, sd, w):
    return s.ljust(w) if sd == "left" else s.rjust(w)


def item(p):
    """One value to write: (statement, text, kind, reader) with reader a function of Prog or None."""
    r = p.rng
    k = r.randrange(9)
    sd, w = r.choice(["left", "right"]), r.choice([0, 0, 1, 5, 12, 20])
    if k == 0:
        x = rint(r)
        v = p.var("integer", vint(x))
        return "write(l, %s, %s, %d);" % (v, sd, w), just(str(x), sd, w), "integer", ("i", x)
    if k == 1:
        x = r.random() < .5
        return "write(l, boolean'(%s), %s, %d);" % ("true" if x else "false", sd, w), just("true" if x else "false", sd, w), "boolean", ("bo", x)
    if k == 2:
        x = r.choice("01")
        return "write(l, bit'('%s'), %s, %d);" % (x, sd, w), just(x, sd, w), "bit", ("b", x)
    if k == 3:
        n = r.choice([1, 2, 3, 4, 7, 8, 9, 16, 33])
        x = "".join(r.choice("01") for _ in range(n))
        f, t, kd = r.choice([("write", x, "bv"), ("hwrite", "%0*X" % ((n + 3) // 4, int(x, 2)), "hv"), ("owrite", "%0*o" % ((n + 2) // 3, int(x, 2)), "ov")])
        v = p.var("bit_vector(%s)" % r.choice(["1 to %d" % n, "%d downto 0" % (n - 1)]), '"%s"' % x)
        return "%s(l, %s, %s, %d);" % (f, v, sd, w), just(t, sd, w), "bit_vector " + f, (kd, x)
    if k == 4:
        n = r.randrange(33, 127)
        return "write(l, character'val(%d), %s, %d);" % (n, sd, w), just(chr(n), sd, w), "character", ("c", chr(n))
    if k == 5:
        s = "".join(chr(r.randrange(33, 127)) for _ in range(r.randrange(1, 10)))
        return "write(l, %s, %s, %d);" % (vstr(s), sd, w), just(s, sd, w), "string", ("s", s)
    if k == 6:
        x = rreal(r)
        if abs(x) > 1e14:
            x = float(r.randint(-10**6, 10**6)) / 8
        d = r.randint(1, 6)
        v = p.var("real", vreal(x))
        return "write(l, %s, %s, %d, %d);" % (v, sd, w, d), just("%.*f" % (d, x), sd, w), "real", ("r", float("%.*f" % (d, x)))
    if k == 7:
        x = rreal(r)
        v = p.var("real", vreal(x))
        return "write(l, %s, %s, %d);" % (v, sd, w), just("%e" % x, sd, w), "real", ("r", float("%e" % x))
    u, m = r.choice(TU[:6])
    x = rint(r, -10**6, 10**6) // (1000 if m > 10**12 else 1)
    v = p.var("time", ("" if x >= 0 else "-") + "%d %s" % (abs(x), u))
    if r.random() < .5:
        # any number of fs, written exactly in the unit
        fs = rint(r, -10**r.randint(1, 15), 10**r.randint(1, 15))
        u, m = r.choice(TU[:6])
        v = p.var("time", ("" if fs >= 0 else "-") + "(%d ps + %d fs)" % (abs(fs) // 1000, abs(fs) % 1000))
        q, f = divmod(abs(fs), m)
        if q >= 2**31 and fs >= 0:
            return "write(l, %s, %s, %d, fs);" % (v, sd, w), just("%d fs" % fs, sd, w), "time", ("t", fs)
        s = ("-" if fs < 0 else "") + str(q) + (("." + "%0*d" % (len(str(m)) - 1, f)).rstrip("0") if f else "")
        if len(s) <= 22:
            return "write(l, %s, %s, %d, %s);" % (v, sd, w, u), just("%s %s" % (s, u), sd, w), "time", ("t", fs)
    return "write(l, %s, %s, %d, %s);" % (v, sd, w, u), just("%d %s" % (x, u), sd, w), "time", ("t", x * m)


def reader(p, it, rest):
    """Reads one written item back; rest is the text left, checked too. Returns the new rest."""
    kind, x = it
    r = p.rng
    good = r.random() < .6
    g = ", g" if good else ""
    ok = "boolean'image(g) & " if good else '"true" & '
    s = rest
    if kind == "c":
        # a character read takes the very next one
        x = s[0]
        p.ln("read(l, c%s);" % g)
        p.out(ok + '" " & c', "true " + x, "read(character)")
        s = s[1:]
    elif kind == "s":
        n = r.randint(0, min(len(s), 12))
        v = p.var("string(%s)" % r.choice(["1 to %d" % n, "%d downto 1" % n, "%d to %d" % (n + 1, n + n)]), "(others => '?')")
        if r.random() < .3:
            p.ln("sread(l, %s, n);" % v)
            t = s.lstrip(" \t\r\n\xa0")
            k = 0
            while k < len(t) and k < n and t[k] not in " \t\r\n\xa0":
                k += 1
            want = t[:k] + "?" * (n - k)
            # elements beyond strlen keep an unspecified value
            p.out("integer'image(n)", str(k), "sread length")
            if k == n:
                p.out(v, want, "sread")
            s = t[k:]
        else:
            p.ln("read(l, %s%s);" % (v, g))
            p.out(ok + '" " & %s' % v, "true " + s[:n], "read(string)")
            s = s[n:]
    else:
        s = s.lstrip(" ")
        if kind == "i":
            p.ln("read(l, i%s);" % g)
            p.out(ok + "integer'image(i)", "true" + str(x), "read(integer)")
            s = s[len(str(x)):]
        elif kind == "bo":
            p.ln("read(l, bo%s);" % g)
            p.out(ok + "boolean'image(bo)", "true" + ("true" if x else "false"), "read(boolean)")
            s = s[4 if x else 5:]
        elif kind == "b":
            p.ln("read(l, b%s);" % g)
            p.out(ok + "bit'image(b)", "true'%s'" % x, "read(bit)")
            s = s[1:]
        elif kind in ("bv", "hv", "ov"):
            n = len(x)
            f = {"bv": "read", "hv": "hread", "ov": "oread"}[kind]
            v = p.var("bit_vector(%s)" % r.choice(["1 to %d" % n, "%d downto 0" % (n - 1), "%d to %d" % (7, n + 6)]), "(others => '0')")
            p.ln("%s(l, %s%s);" % (f, v, g))
            p.out(ok + "to_string(%s)" % v, "true" + x, f + "(bit_vector)")
            s = s[{"bv": n, "hv": (n + 3) // 4, "ov": (n + 2) // 3}[kind]:]
        elif kind == "r":
            p.ln("read(l, r%s);" % g)
            p.out('real\'image(r)', near(x, 1e-11), "read(real)")
            return None
        elif kind == "t":
            p.ln("read(l, t%s);" % g)
            p.out(ok + "time'image(t)", "true%d fs" % x, "read(time)")
            return None
    return s


def lines(p):
    """Writes lines to a file, checks the file, reads the values back."""
    r = p.rng
    name = p.uid("f") + ".txt"
    fv = p.uid("fv")
    p.decl.append("  file %s : text;" % fv)
    rows, txt = [], ""
    p.ln("deallocate(l);")
    p.ln('file_open(%s, "%s", write_mode);' % (fv, name))
    for _ in range(r.randint(1, 5)):
        row, s = [], ""
        for _ in range(r.randint(1, 5)):
            st, t, kind, it = item(p)
            p.ln(st)
            s += t
            # a separator that no reader takes for a part of the value
            p.ln("write(l, character'(' '));")
            s += " "
            row.append((kind, t, it))
        if r.random() < .2:
            # longer than the reader's buffer
            n = r.choice([100, 126, 127, 128, 129, 254, 255, 256, 400])
            p.ln("for k in 1 to %d loop write(l, character'val(97 + k mod 26)); end loop;" % n)
            s += "".join(chr(97 + k % 26) for k in range(1, n + 1))
        p.out("tail(l.all)", "%d:%s" % (len(s), s), "line after writes: " + row[-1][0])
        p.ln("writeline(%s, l);" % fv)
        if r.random() < .3:
            p.out("tail(l.all)", "0:", "line after writeline")
        rows.append((row, s))
        txt += s + "\n"
    if r.random() < .2:
        p.ln("flush(%s);" % fv)
    p.ln("file_close(%s);" % fv)
    p.files[name] = txt
    if r.random() < .3:
        s = "appended"
        p.ln('file_open(%s, "%s", append_mode); write(l, string\'("%s")); writeline(%s, l); file_close(%s);' % (fv, name, s, fv, fv))
        p.files[name] = txt + s + "\n"
        rows.append(([("string", s, ("s", s))], s))
    p.ln('file_open(st, %s, "%s", read_mode);' % (fv, name))
    p.out("file_open_status'image(st)", "open_ok", "file_open")
    for row, s in rows:
        p.out("boolean'image(endfile(%s))" % fv, "false", "endfile")
        p.ln("readline(%s, l);" % fv)
        p.out("tail(l.all)", "%d:%s" % (len(s), s), "readline")
        rest = s
        for kind, t, it in row:
            nr = reader(p, it, rest)
            if nr is None:
                # what follows a real or time: only their end is known
                k = len(rest.lstrip(" ")) - 0
                break
            rest = nr
            if it[0] in ("c", "s"):
                break
            p.out("tail(l.all)", "%d:%s" % (len(rest), rest), "line after read(%s)" % kind)
    p.out("boolean'image(endfile(%s))" % fv, "true", "endfile at the end")
    p.ln("file_close(%s);" % fv)


def setline(p, s):
    p.ln("deallocate(l); l := new string'(%s);" % vstr(s))


JUNK = ["", "x", "-", "+", ".", "--1", "+-2", "e5", "_1", "tru", "fals", "true1", "falsetto", "2", "0x", "1_0", "g", " ", "\t", "TRUE", "FaLsE"]


def hostile(p):
    """Reads from text that may not hold a value."""
    import re
    r = p.rng
    base = r.choice(JUNK + ["%d" % rint(r), "+%d" % r.randint(0, 999), "12abc", "01x10", "0 1", "7F", "1.5", "1.", "1.5e", "3 ns", "3ns", "3 xs", "3", "4 fs5", "10 hr", "7 MIN", "3 Sec"])
    s = r.choice(["", "", " ", "\t "]) + base + r.choice(["", "", " z", "!"])
    k = r.randrange(7)
    t = s.lstrip(" \t\r\n\xa0")
    setline(p, s)
    p.ln("g := false;")
    if k == 0:
        m = re.match(r"[+-]?\d+", t)
        if m and not -2**31 <= int(m.group()) < 2**31:
            return
        p.ln("read(l, i, g);")
        p.out("boolean'image(g)", "true" if m else "false", "read(integer) good of %s" % ("a value" if m else "malformed text"))
        if m:
            p.out("integer'image(i)", str(int(m.group())), "read(integer)")
            p.out("tail(l.all)", "%d:%s" % (len(t[m.end():]), t[m.end():]), "line after read(integer)")
    elif k == 1:
        m = re.match(r"true|false", t, re.I)
        p.ln("read(l, bo, g);")
        p.out("boolean'image(g)", "true" if m else "false", "read(boolean) good")
        if m:
            p.out("boolean'image(bo)", m.group().lower(), "read(boolean)")
            p.out("tail(l.all)", "%d:%s" % (len(t[m.end():]), t[m.end():]), "line after read(boolean)")
    elif k == 2:
        m = re.match(r"[01]", t)
        p.ln("read(l, b, g);")
        p.out("boolean'image(g)", "true" if m else "false", "read(bit) good")
        if m:
            p.out("tail(l.all)", "%d:%s" % (len(t[1:]), t[1:]), "line after read(bit)")
    elif k == 3:
        n = r.randint(1, 5)
        v = p.var("bit_vector(1 to %d)" % n, "(others => '0')")
        m = re.match(r"[01]{%d}" % n, t)
        if not m and re.match(r"\s*".join(["[01]"] * n), t):
            return                                   # white space between elements
        p.ln("read(l, %s, g);" % v)
        p.out("boolean'image(g)", "true" if m else "false", "read(bit_vector) good")
        if m:
            p.out("to_string(%s)" % v, m.group(), "read(bit_vector)")
            p.out("tail(l.all)", "%d:%s" % (len(t[n:]), t[n:]), "line after read(bit_vector)")
    elif k == 4:
        m = re.match(r"[+-]?\d+(\.\d+)?([eE][+-]?\d+)?", t)
        full = re.match(r"[+-]?\d+\.\d+([eE][+-]?\d+)?(?![\w.])", t)
        if m and not full:
            return                                   # a form the standard leaves open
        if full and abs(float(full.group())) > 1e300:
            return
        p.ln("read(l, r, g);")
        p.out("boolean'image(g)", "true" if m else "false", "read(real) good of %s" % ("a value" if m else "malformed text"))
        if full:
            p.out("real'image(r)", near(float(full.group()), 1e-11), "read(real)")
            p.out("tail(l.all)", "%d:%s" % (len(t[full.end():]), t[full.end():]), "line after read(real)")
    elif k == 5:
        n = r.choice([1, 3, 4, 5, 8, 9, 12])
        f, pat, base, w = r.choice([("hread", r"[0-9a-fA-F](_?[0-9a-fA-F]){%d}", 16, 4), ("oread", r"[0-7](_?[0-7]){%d}", 8, 3)])
        q = (n + w - 1) // w
        if r.random() < .6:
            x = r.getrandbits(n)
            t = s = r.choice(["%0*X", "%0*x"]) % (q, x) if base == 16 else "%0*o" % (q, x)
            if r.random() < .3 and q > 1:
                t = s = t[0] + "_" + t[1:]
            if r.random() < .3:
                s = s + "zz"
                t = s
            setline(p, s)
        m = re.match(pat % (q - 1), t)
        val = int(m.group().replace("_", ""), base) if m else 0
        v = p.var("bit_vector(1 to %d)" % n, "(others => '0')")
        ok = bool(m) and val < 2**n
        p.ln("%s(l, %s, g);" % (f, v))
        p.out("boolean'image(g)", "true" if ok else "false", f + " good")
        if ok:
            p.out("to_string(%s)" % v, format(val, "0%db" % n), f)
            p.out("tail(l.all)", "%d:%s" % (len(t[m.end():]), t[m.end():]), "line after " + f)
    else:
        m = re.match(r"([+-]?\d+)[ \t]+(fs|ps|ns|us|ms|sec|min|hr)(?!\w)", t, re.I)
        bad = not re.match(r"[+-]?\d", t) or re.match(r"[+-]?\d+[ \t]*($|[!zx])", t)
        if not m and not bad:
            return
        if m and abs(int(m.group(1)) * dict(TU)[m.group(2).lower()]) >= 2**63 or not m and re.match(r"[+-]?\d{10}", t):
            return
        p.ln("read(l, t, g);")
        p.out("boolean'image(g)", "true" if m else "false", "read(time) good of %s" % ("a value" if m else "malformed text"))
        if m:
            p.out("time'image(t)", "%d fs" % (int(m.group(1)) * dict(TU)[m.group(2).lower()]), "read(time)")
            p.out("tail(l.all)", "%d:%s" % (len(t[m.end():]), t[m.end():]), "line after read(time)")


def binary(p):
    """A typed file: written, sized, appended, read back; a second object on the same name."""
    r = p.rng
    kind = r.choice(["int", "char", "col", "real", "time", "long", "ivec", "rec", "fix", "bv"])
    fv, name = p.uid("fv"), p.uid("f") + ".bin"
    p.decl.append("  file %s : %s_file;" % (fv, kind))
    typ = {"int": "integer", "char": "character", "col": "color", "real": "real", "time": "time", "long": "long", "rec": "rec", "fix": "fix"}.get(kind)
    show_ = {"int": "integer'image(%s)", "char": "integer'image(character'pos(%s))", "col": "integer'image(color'pos(%s))",
             "real": "real'image(%s)", "time": "time'image(%s)", "long": "long'image(%s)",
             "rec": "integer'image(%s.a) & integer'image(character'pos(%s.b)) & to_string(%s.d)",
             "fix": "small'image(%s(1)) & small'image(%s(2)) & small'image(%s(3))"}.get(kind)
    vals = []

    def value():
        if kind == "int":
            x = rint(r)
            return vint(x), str(x)
        if kind == "char":
            x = r.randrange(256)
            return "character'val(%d)" % x, str(x)
        if kind == "col":
            x = r.randrange(len(LITS))
            return LITS[x], str(x)
        if kind == "real":
            x = rreal(r)
            return vreal(x), near(x, 1e-12)
        if kind == "time":
            x = r.randint(-10**12, 10**12)
            return "%d fs" % x if x >= 0 else "-%d fs" % -x, "%d fs" % x
        if kind == "long":
            x = rint(r, -2**63, 2**63 - 1)
            return vint(x, "long"), str(x)
        if kind == "rec":
            a, b, d = rint(r), r.randrange(256), "".join(r.choice("01") for _ in range(3))
            return '(%s, character\'val(%d), %s, "%s")' % (vint(a), b, vreal(rreal(r)), d), "%d%d%s" % (a, b, d)
        if kind == "fix":
            x = [r.randint(-100, 100) for _ in range(3)]
            return "(%s)" % ", ".join(vint(v) for v in x), "".join(map(str, x))
        if kind == "ivec":
            x = [rint(r) for _ in range(r.randint(2, 6))]
            return "(%s)" % ", ".join(vint(v) for v in x), x
        x = [r.choice("01") for _ in range(r.randint(1, 9))]
        return '"%s"' % "".join(x), x

    for ap in range(r.choice([1, 1, 2])):
        p.ln('file_open(st, %s, "%s", %s);' % (fv, name, "write_mode" if not ap else "append_mode"))
        p.out("file_open_status'image(st)", "open_ok", "file_open")
        if r.random() < .3:
            p.ln('file_open(st, %s, "%s", %s);' % (fv, name, r.choice(["read_mode", "write_mode"])))
            p.out("file_open_status'image(st)", "status_error", "file_open of an open file")
        for _ in range(r.randint(0, 6)):
            e, x = value()
            if kind in ("ivec", "bv"):
                v = p.var("%s(%s)" % ("ivec" if kind == "ivec" else "bit_vector", r.choice(["0 to %d" % (len(x) - 1), "%d downto 1" % len(x)])), e)
            else:
                v = p.var(typ, e)
            p.ln("write(%s, %s);" % (fv, v))
            vals.append(x)
        p.ln("file_close(%s);" % fv)
        if r.random() < .3:
            p.ln("file_close(%s);" % fv)              # closing a closed file has no effect
    other = None
    if r.random() < .3:
        other = p.uid("fv")
        p.decl.append("  file %s : %s_file;" % (other, kind))
        p.ln('file_open(%s, "%s", read_mode);' % (other, name))
    p.ln('file_open(%s, "%s", read_mode);' % (fv, name))
    if kind in ("ivec", "bv"):
        for x in vals:
            n = r.choice([len(x), len(x), len(x) + 2])
            v = p.var("%s(%s)" % ("ivec" if kind == "ivec" else "bit_vector", r.choice(["0 to %d" % (n - 1), "%d downto 1" % n])), "(others => %s)" % ("0" if kind == "ivec" else "'0'"))
            if n > len(x):
                break                                 # the length of a stored array is not recorded: see design notes
            p.ln("read(%s, %s, n);" % (fv, v))
            p.out("integer'image(n)", str(len(x)), "length from read of an array")
            if kind == "bv":
                p.out("to_string(%s)" % v, "".join(x), "read of an array from a file")
            else:
                p.out("integer'image(%s(%s'left))" % (v, v), str(x[0]), "read of an array from a file")
                p.out("integer'image(%s(%s'right))" % (v, v), str(x[-1]), "read of an array from a file")
    else:
        v = p.uid()
        p.decl.append("  variable %s : %s;" % (v, typ))
        for x in vals:
            p.out("boolean'image(endfile(%s))" % fv, "false", "endfile of a typed file")
            p.ln("read(%s, %s);" % (fv, v))
            p.out(show_.replace("%s", v), x, "value from a file of " + kind)
            if other and r.random() < .5:
                p.out("boolean'image(endfile(%s))" % other, "false", "endfile of a second file object")
        p.out("boolean'image(endfile(%s))" % fv, "true", "endfile at the end of a typed file")
        if other and vals:
            p.ln("read(%s, %s);" % (other, v))
            p.out(show_.replace("%s", v), vals[0], "value from a second file object")
    p.ln("file_close(%s);" % fv)
    if other:
        p.ln("file_close(%s);" % other)
    if r.random() < .3:
        p.ln('file_open(st, %s, "does_not_exist_%d", read_mode);' % (fv, p.n))
        p.out("file_open_status'image(st)", "name_error", "file_open of a missing file")
        p.ln('file_open(st, %s, "", read_mode);' % fv)
        p.out("file_open_status'image(st)", "name_error", "file_open with an empty name")


def positions(p):
    """VHDL-2019 file positions against a byte array."""
    r = p.rng
    fv, name = p.uid("fv"), p.uid("f") + ".pos"
    p.decl.append("  file %s : char_file;" % fv)
    data = bytearray()
    p.out("file_open_state'image(file_state(%s))" % fv, "state_closed", "file_state")
    p.ln('file_open(%s, "%s", write_mode);' % (fv, name))
    for _ in range(r.randint(1, 12)):
        b = r.randrange(256)
        p.ln("write(%s, character'val(%d));" % (fv, b))
        data.append(b)
    p.ln("file_close(%s);" % fv)
    mode = r.choice(["read_mode", "read_write_mode", "read_write_mode"])
    p.ln('file_open(%s, "%s", %s);' % (fv, name, mode))
    p.out("file_open_state'image(file_state(%s))" % fv, "state_open", "file_state")
    p.out("file_open_kind'image(file_mode(%s))" % fv, mode, "file_mode")
    pos, last, cut = 0, None, ""
    for _ in range(r.randint(3, 14)):
        k = r.randrange(8)
        if k == 0:
            o = r.choice(["file_origin_begin", "file_origin_current", "file_origin_end"])
            to = r.randint(0, len(data))
            off = to - {"b": 0, "c": pos, "e": len(data)}[o[12]]
            p.ln("file_seek(%s, %s, %s);" % (fv, vint(off), o))
            pos, last = to, None
        elif k == 1:
            p.ln("file_rewind(%s);" % fv)
            pos, last = 0, None
        elif k == 2:
            p.out("to_string(file_position(%s))" % fv, str(pos), "file_position")
        elif k == 3:
            p.out("to_string(file_size(%s))" % fv, str(len(data)), "file_size")
        elif k == 4 and pos < len(data) and last != "w":
            p.ln("read(%s, c);" % fv)
            p.out("integer'image(character'pos(c))", str(data[pos]), "read after file_seek" + cut)
            pos += 1
            last = "r"
        elif k == 5 and mode != "read_mode" and last != "r":
            b = r.randrange(256)
            p.ln("write(%s, character'val(%d));" % (fv, b))
            data[pos:pos + 1] = bytes([b])
            pos += 1
            last = "w"
        elif k == 7 and mode != "read_mode":
            o = r.choice(["file_origin_begin", "file_origin_current", "file_origin_end"])
            base = {"b": 0, "c": pos, "e": len(data)}[o[12]]
            to = r.randint(0, len(data))
            p.ln("file_truncate(%s, %s, %s);" % (fv, vint(to - base), o))
            del data[to:]
            cut = " and file_truncate"
            pos = r.randint(0, to)
            p.ln("file_seek(%s, %d);" % (fv, pos))
            last = None
        elif k == 6 and last != "w":
            p.out("boolean'image(endfile(%s))" % fv, "true" if pos >= len(data) else "false", "endfile after file_seek" + cut)
            last = "r"
    p.ln("file_close(%s);" % fv)
    p.files[name] = bytes(data).decode("latin-1")
