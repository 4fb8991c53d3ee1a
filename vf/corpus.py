"""The designs in /repo/test as workloads. What they print is not judged here: the repository's
own tests do that; a monitor watches the runs."""
import os
from . import build


def regress():
    """[(name, std, aopts, eopts, ropts, glob, files)] of the designs that need only nvc."""
    d = os.path.join(build.REPO, "test", "regress")
    out = []
    for l in open(os.path.join(d, "testlist.txt")):
        l = l.split("#")[0].split()
        if len(l) < 2:
            continue
        fl = l[1].split(",")
        if any(f in ("shell", "tcl", "slow", "vhpi") or f.startswith("$") for f in fl):
            continue
        std, ao, eo, ro, gl = "1993", [], [], [], []
        vlog = "verilog" in fl
        files = [] if vlog else [os.path.join(d, l[0] + ".vhd")]
        if vlog or "mixed" in fl:
            files.append(os.path.join(d, l[0] + ".v"))
        for f in fl:
            k, _, v = f.partition("=")
            if k in ("2000", "2002", "2008", "2019"):
                std = k
            elif k == "relaxed":
                ao.append("--relaxed")
            elif k == "relax":
                ao.append("--relax=" + v)
            elif k == "psl":
                ao.append("--psl")
            elif k == "define":
                ao.append("--define=" + v)
            elif k == "no-collapse":
                eo.append("--no-collapse")
            elif k == "cover":
                eo.append("--cover" + ("=" + v if v else ""))
            elif k in ("stop", "stop-time"):
                ro.append("--stop-time=" + v)
            elif k == "wave":
                ro.append("--wave")
            elif k == "dump-arrays":
                ro += ["--wave", "--dump-arrays" + ("=" + v if v else "")]
            elif k == "shuffle":
                ro.append("--shuffle")
            elif k == "H":
                gl.append("-H" + v)
            elif k == "seed":
                gl.append("--seed=" + v)
            elif k[:1] == "g" and v and k not in ("gold", "gtkw"):
                eo.append("-%s=%s" % (k, v))
            elif k[:1] == "+":
                ro.append(f)
        if all(os.path.exists(x) for x in files):
            out.append((l[0], std, ao, eo, ro, gl, files))
    return out


def sources():
    """Every VHDL and Verilog file of the unit tests."""
    out = []
    for s in ("parse", "sem", "lower", "simp", "bounds", "elab", "jit", "psl", "vlog", "eopt", "dump", "model", "regress"):
        d = os.path.join(build.REPO, "test", s)
        if os.path.isdir(d):
            out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith((".vhd", ".vhdl", ".v", ".sv"))]
    return out
