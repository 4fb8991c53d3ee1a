"""Builds nvc from /repo's working tree into /verif/.build.

The sources are mirrored by content into .build/src, so that a rebuild happens
exactly when a file's bytes differ, whatever the modification times say.
Variants:
  plain   gcc -O1, --enable-debug (assertions on); throughput
  asan    AddressSanitizer + UndefinedBehaviorSanitizer
  tsan    ThreadSanitizer
"""
import os, sys, subprocess, hashlib, fcntl, shutil, time, re, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(BUILD, "src")

UBSAN = ("-fsanitize=undefined -fno-sanitize=alignment,nonnull-attribute,vla-bound")
VARIANTS = {
    "plain": dict(cflags="-g1 -O1 -fno-omit-frame-pointer", ld="", conf=[]),
    "asan": dict(cflags="-g1 -O1 -fno-omit-frame-pointer -fsanitize=address "
                 + UBSAN + " -fno-sanitize-recover=all", ld="", conf=[]),
    "tsan": dict(cflags="-g1 -O1 -fno-omit-frame-pointer -fsanitize=thread", ld="", conf=[]),
}
JOBS = str(os.cpu_count() or 8)
MAKE_NOREGEN = ["AUTOMAKE=:", "AUTOCONF=:", "ACLOCAL=:", "AUTOHEADER=:", "MAKEINFO=:"]


class BuildError(Exception):
    pass


@contextlib.contextmanager
def lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("NVC_", "MAKE")) and k not in (
               "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "DESTDIR")}
    env["LANG"] = env["LC_ALL"] = "C.UTF-8"
    env["ASAN_OPTIONS"] = "detect_leaks=0"
    if extra:
        env.update(extra)
    return env


def sh(cmd, cwd, log, env=None):
    with open(log, "ab") as f:
        f.write(("\n+ %s\n" % " ".join(cmd)).encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=f, stdin=subprocess.DEVNULL,
                           env=clean_env(env))
    if r.returncode:
        with open(log, errors="replace") as f:
            tail = f.read()[-1500:]
        raise BuildError("%s failed in %s:\n%s" % (" ".join(cmd[:6]), cwd, tail))


SKIP_TOP = {"_build", ".git", "www", "contrib", "autom4te.cache", ".github"}


def _files(root):
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel == ".":
            ds[:] = [x for x in ds if x not in SKIP_TOP]
            rel = ""
        parts = rel.split(os.sep)
        ds.sort()
        for f in sorted(fs):
            if parts[0] == "test" and not f.endswith((".c", ".h", ".am", ".in", ".cc")):
                continue
            yield os.path.join(rel, f)


def sync():
    """Mirror /repo's working tree by content; returns number of changed files."""
    n = 0
    seen = set()
    for rel in _files(REPO):
        s, d = os.path.join(REPO, rel), os.path.join(SRC, rel)
        seen.add(rel)
        if os.path.islink(s) or not os.path.isfile(s):
            if not os.path.exists(s):
                continue
        with open(s, "rb") as f:
            data = f.read()
        try:
            with open(d, "rb") as f:
                if f.read() == data:
                    continue
        except OSError:
            os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, "wb") as f:
            f.write(data)
        shutil.copymode(s, d)
        n += 1
    if os.path.isdir(SRC):
        for d, ds, fs in os.walk(SRC):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), SRC)
                if rel not in seen and not rel.startswith("autom4te"):
                    os.unlink(os.path.join(d, f))
                    n += 1
    # configure only allows --enable-debug in what looks like a checkout
    os.makedirs(os.path.join(SRC, ".git"), exist_ok=True)
    if not os.path.exists(os.path.join(SRC, "configure")):
        sh(["autoreconf", "--force", "--install", "-I", "m4"], SRC,
           os.path.join(BUILD, "autoreconf.log"))
    return n


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"|")
    return h.hexdigest()


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            h.update(f.encode())
            with open(os.path.join(d, f), "rb") as g:
                h.update(g.read())
    return h.hexdigest()


def build_variant(v):
    cfg = VARIANTS[v]
    b = os.path.join(BUILD, v)
    log = os.path.join(BUILD, v + ".log")
    if os.path.exists(log):
        os.unlink(log)
    stamp = os.path.join(b, ".configured")
    want = repr(cfg)
    if not os.path.exists(stamp) or open(stamp).read() != want:
        if os.path.isdir(b):
            shutil.rmtree(b)
        os.makedirs(os.path.join(b, ".git/logs"))
        open(os.path.join(b, ".git/logs/HEAD"), "w").close()
        sh([os.path.join(SRC, "configure"), "--enable-debug", "--enable-tcl", "--enable-server",
            "--with-llvm=/usr/bin/llvm-config-18"] + cfg["conf"], b, log,
           {"CC": "gcc", "CXX": "g++", "CFLAGS": cfg["cflags"], "CXXFLAGS": cfg["cflags"]})
        with open(stamp, "w") as f:
            f.write(want)
    mk = ["make", "-j" + JOBS] + MAKE_NOREGEN
    sh(mk + ["gitsha.h", "config.h"], b, log)
    sh(mk + ["bin/nvc", "lib/libnvc.a"], b, log)
    return b


def nvc_path(v="plain"):
    if v == "plain":
        v = os.environ.get("VERIF_VARIANT", v)      # C20 runs other checks' workloads instrumented
    return os.path.join(BUILD, v, "bin/nvc")


LIBS = os.path.join(BUILD, "libs")      # std ieee nvc (all editions), stub preload
MINI = os.path.join(BUILD, "mini")      # reduced libraries with a real preload08


def rt_abi():
    for f in ("src/rt/rt.h",):
        m = re.search(r"#define\s+RT_ABI_VERSION\s+(\d+)", open(os.path.join(SRC, f)).read())
        if m:
            return m.group(1)
    for d, ds, fs in os.walk(os.path.join(SRC, "src")):
        for f in fs:
            m = re.search(r"#define\s+RT_ABI_VERSION\s+(\d+)", open(os.path.join(d, f), errors="replace").read())
            if m:
                return m.group(1)
    raise BuildError("RT_ABI_VERSION not found")


def build_libs():
    """VHDL libraries, compiled by the plain nvc, shared by all variants."""
    b = os.path.join(BUILD, "plain")
    key = file_hash(nvc_path()) + tree_hash(os.path.join(SRC, "lib"))
    stamp = os.path.join(BUILD, "libs.key")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    log = os.path.join(BUILD, "libs.log")
    if os.path.exists(log):
        os.unlink(log)
    if os.path.exists(stamp):
        os.unlink(stamp)
    for d in ("std", "std.08", "std.19", "ieee", "ieee.08", "ieee.19", "nvc", "nvc.08", "nvc.19"):
        p = os.path.join(b, "lib", d)
        if os.path.isdir(p):
            shutil.rmtree(p)
    stub = os.path.join(BUILD, "stub.c")
    with open(stub, "w") as f:
        f.write("const unsigned __nvc_abi_version = %s;\n" % rt_abi())
    so = os.path.join(BUILD, "stub.so")
    sh(["gcc", "-shared", "-fPIC", "-o", so, stub], BUILD, log)
    os.makedirs(os.path.join(b, "lib"), exist_ok=True)
    for e in ("93", "08", "19"):
        shutil.copy(so, os.path.join(b, "lib", "preload%s.so" % e))
    # the makefile rules have no dependency on the compiler, so the directories were removed above
    sh(["make", "-j" + JOBS, "all-libs", "preload_SCRIPTS="] + MAKE_NOREGEN, b, log)
    if os.path.isdir(LIBS):
        shutil.rmtree(LIBS)
    os.makedirs(LIBS)
    for d in os.listdir(os.path.join(b, "lib")):
        p = os.path.join(b, "lib", d)
        if os.path.isdir(p) and not d.startswith("."):
            shutil.copytree(p, os.path.join(LIBS, d))
        elif d.startswith("preload"):
            shutil.copy(p, LIBS)
    with open(stamp, "w") as f:
        f.write(key)


MINI_PKGS = ["std_logic_1164", "std_logic_1164-body", "numeric_bit", "numeric_bit-body",
             "numeric_std", "numeric_std-body", "std_logic_textio"]


def build_mini():
    """Small std/ieee set with a real AOT-compiled preload library, so that the default
    ahead-of-time flow can be exercised without waiting for float_pkg to compile."""
    key = open(os.path.join(BUILD, "libs.key")).read()
    stamp = os.path.join(BUILD, "mini.key")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    if os.path.exists(stamp):
        os.unlink(stamp)
    log = os.path.join(BUILD, "mini.log")
    if os.path.exists(log):
        os.unlink(log)
    if os.path.isdir(MINI):
        shutil.rmtree(MINI)
    os.makedirs(MINI)
    for d in ("std.08", "nvc.08"):
        shutil.copytree(os.path.join(LIBS, d), os.path.join(MINI, d))
    shutil.copy(os.path.join(LIBS, "preload08.so"), MINI)
    nvc = nvc_path()
    for p in MINI_PKGS:
        sh([nvc, "--std=2008", "-L", MINI, "--work=" + os.path.join(MINI, "ieee.08"), "-a",
            os.path.join(SRC, "lib/ieee.08/%s.vhdl" % p)], MINI, log)
    sh([nvc, "--work=" + os.path.join(MINI, "std.08"), "-L", MINI, "--std=2008", "--aotgen", "-O0",
        "-o", os.path.join(MINI, "p.so"), "std", "nvc", "ieee"], MINI, log)
    os.rename(os.path.join(MINI, "p.so"), os.path.join(MINI, "preload08.so"))
    with open(stamp, "w") as f:
        f.write(key)


def c_tool(name, sources, args=()):
    """Compile /verif/tools/<name>.c with sources of the tree; returns the path."""
    src = os.path.join(VERIF, "tools", name + ".c")
    srcs = [src] + [os.path.join(SRC, x) for x in sources]
    out = os.path.join(BUILD, "tools", name)
    with lock():
        key = file_hash(*srcs)
        stamp = out + ".key"
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            sh(["gcc", "-O1", "-g1", "-w", "-o", out] + srcs + list(args), BUILD, out + ".log")
            with open(stamp, "w") as f:
                f.write(key)
    return out


def fst2vcd():
    return c_tool("fst2vcd", ["thirdparty/fstapi.c", "thirdparty/lz4.c", "thirdparty/fastlz.c"],
                  ["-I", os.path.join(SRC, "thirdparty"), "-I", os.path.join(BUILD, "plain"), "-DHAVE_CONFIG_H",
                   "-DFST_CONFIG_INCLUDE=\"config.h\"", "-lz", "-lpthread"])


def ensure(variants=("plain",), mini=False, libs=True):
    """Bring the requested variants up to date with /repo. Returns seconds taken."""
    t = time.time()
    with lock():
        sync()
        vs = list(variants)
        if (libs or mini) and "plain" not in vs:
            vs.insert(0, "plain")
        for v in vs:
            build_variant(v)
        if libs or mini:
            build_libs()
        if mini:
            build_mini()
    return time.time() - t


if __name__ == "__main__":
    vs = sys.argv[1:] or ["plain", "asan", "tsan"]
    try:
        print("built in %.1f s" % ensure(vs, mini=True))
    except BuildError as e:
        print(e)
        sys.exit(2)
