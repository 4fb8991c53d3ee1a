"""Text and files: every value written, converted and read is compared with a model in Python."""
import os, re
from vf import run, textio


def judge(c, p, engine, std):
    c.file("t.vhd", p.text())
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", engine, std, ropts=["--stop-time=1ns"])
    k = run.crash_key(r)
    if k or r.hung:
        return c.violate("text: " + (k or "does not terminate"), r.err[-1500:])
    got = {int(m.group(1)): m.group(2) for m in re.finditer(r"Note: (?:0ms\+0|\S+): #(\d+) (.*)", r.err)}
    if "Note: 0ms+0: end" not in r.err:
        m = re.search(r"(?:Fatal|Error|Failure|Warning): (.*)", r.err)
        msg = m.group(1) if m else r.err[-300:]
        n = max(got) + 1 if got else 0
        kind = p.exp[n][2] if n < len(p.exp) else "?"
        if re.search(r"\.vhd:\d", r.err) and not got:
            kind = "analysis"
        return c.violate("text: run ended early at %s: %s" % (kind, re.sub(r'"[^"]*"|-?\d+', "N", msg)[:80]), r.err[-1500:])
    for i, want, kind in p.exp:
        g = got.get(i)
        if g is None:
            c.violate("text: %s: no report" % kind, "#%d" % i)
            return
        c.counts[kind] += 1
        if callable(want):
            if not want(g):
                return c.violate("text: wrong " + kind, "#%d got %s want %r" % (i, g, want.__defaults__ or want.__closure__[-1].cell_contents))
        elif g != textio.show(want):
            return c.violate("text: wrong " + kind, "#%d got  %s\nwant %s" % (i, g, textio.show(want)))
    for name, txt in p.files.items():
        g = open(os.path.join(c.tmp, name), encoding="latin-1", newline="").read()
        c.counts["files compared"] += 1
        if g != txt:
            return c.violate("text: file contents differ", "%s\n%r\nwant\n%r" % (name, g[:1500], txt[:1500]))
    c.digest(sorted(got.items()))


def mixed(c, i, engine="interp"):
    p = textio.Prog(c.rng)
    std = c.rng.choice(["2008", "2019"])
    f = [textio.images, textio.images, textio.lines, textio.hostile, textio.hostile, textio.binary]
    if std == "2019":
        f.append(textio.positions)
    for _ in range(14):
        c.rng.choice(f)(p)
    judge(c, p, engine, std)


def jit(c, i):
    mixed(c, i, "jit")


PROBES = [("a based literal", "16#1F#", "31"), ("a literal with exponent", "12e2", "1200")]


def probe(c, i):
    """The recorded findings."""
    name, s, want = PROBES[i]
    p = textio.Prog(c.rng)
    v = p.var("line", 'new string\'("%s")' % s)
    p.out("integer'image(integer'value(%s.all))" % v, want, "x")
    c.file("t.vhd", p.text())
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp", "2008")
    if "#0 %s\n" % want not in r.err:
        c.violate("text: integer'value rejects " + name, r.err[-800:])


CLOSED = ["to_string(file_size(f))", "to_string(file_position(f))", "boolean'image(file_canseek(f))", "file_open_kind'image(file_mode(f))",
          "file_seek(f, 0)", "file_rewind(f)", "file_truncate(f, 0)", "read(f, c)", "write(f, c)"]


def closed(c, i):
    """An operation on a file that is closed, or was never open, is an error with a message."""
    t = CLOSED[i // 2]
    st = "report %s;" % t if "to_string" in t or "image" in t else t + ";"
    c.file("t.vhd", """entity top is end entity;
architecture a of top is
  type ft is file of character;
begin
  process
    file f : ft;
    variable c : character := 'a';
  begin
    %s
    %s
    report "survived";
    wait;
  end process;
end architecture;
""" % ('file_open(f, "x", write_mode); file_close(f);' if i % 2 else "", st))
    c.evals += 1
    r = run.simulate(c.tmp, ["t.vhd"], "top", "interp", "2019")
    k = run.crash_key(r)
    if k or r.hung:
        c.violate("text: operation on a closed file " + (str(k) if k else "hangs"), t + "\n" + r.err[-1200:])
    elif "survived" in r.err or "closed file" not in r.err or not r.rc:
        c.violate("text: operation on a closed file accepted", t + "\n" + r.err[-1200:])
    c.counts["closed files"] += 1


def main(c):
    c.build(["plain"])
    c.rule = "random conversions, writes, reads and file operations; distinct = distinct lists of reports"
    c.assumptions = ["reals are compared within a relative error of 1e-11 after text reads and 1e-12 after 'image and 'value",
                     "after a failed read the contents of the line are not judged"]
    c.run({"mixed": mixed, "jit": jit, "probe": probe, "closed": closed}, [("probe", 2), ("closed", 2 * len(CLOSED)), ("mixed", c.n(700, 20000)), ("jit", c.n(100, 3000))])
