"""Running nvc and classifying what it did."""
import os, re, subprocess, signal, resource, tempfile
from . import build

HANG = 60.0
MAXOUT = 32 << 20


def _limits():
    # a runaway program must not fill the disk; SIGXFSZ then ends it
    resource.setrlimit(resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class R:
    __slots__ = ("rc", "out", "err", "hung", "cmd")

    def all(self):
        return self.out + self.err


def run(cmd, cwd, timeout=HANG, env=None, stdin=None, mem_gb=None):
    e = build.clean_env(env)
    e["TMPDIR"] = cwd
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1")
    fo = os.fdopen(os.memfd_create("out"), "w+b")
    fe = os.fdopen(os.memfd_create("err"), "w+b")
    p = subprocess.Popen(cmd, cwd=cwd, stdout=fo, stderr=fe,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         env=e, start_new_session=True)
    r = R()
    r.cmd = cmd
    r.hung = False
    try:
        p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.hung = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
    fo.seek(0)
    fe.seek(0)
    o, x = fo.read(MAXOUT), fe.read(MAXOUT)
    fo.close()
    fe.close()
    r.rc = p.returncode
    r.out = o.decode("latin-1")
    r.err = x.decode("latin-1")
    return r


def nvc(args, cwd, variant="plain", std="2008", work="work", lib=None, glob=(), **kw):
    """nvc with the shared libraries; lib is 'libs' (jit/interpreter) or 'mini' (AOT)."""
    cmd = [build.nvc_path(variant), "--std=" + std, "-L", lib or build.LIBS,
           "--work=" + work] + list(glob) + list(args)
    r = run(cmd, cwd, **kw)
    if r.hung:
        # a loaded machine is not a hang: once more, with more time
        kw["timeout"] = kw.get("timeout", HANG) * 3
        r = run(cmd, cwd, **kw)
    return r


ENGINES = {
    # name -> (elaborate options, environment)
    "interp": (["--jit"], {"NVC_JIT_THRESHOLD": "0"}),
    "jit": (["--jit"], {"NVC_JIT_THRESHOLD": "1", "NVC_JIT_ASYNC": "0"}),
    "jitasync": (["--jit"], {"NVC_JIT_THRESHOLD": "5"}),
    "aot0": (["-O0"], {}),
    "aot1": (["-O1"], {}),
    "aot2": (["-O2"], {}),
    "aot3": (["-O3"], {}),
}


def simulate(cwd, files, top, engine="interp", std="2008", variant="plain", aopts=(), eopts=(),
             ropts=(), glob=(), env=None, work="work", split=False, timeout=HANG):
    """Analyse, elaborate and run in a single nvc invocation."""
    eo, ev = ENGINES[engine]
    lib = build.MINI if engine.startswith("aot") else build.LIBS
    en = dict(ev)
    if env:
        en.update(env)
    args = (["-a"] + list(aopts) + list(files) + ["-e"] + list(eo) + list(eopts) + [top]
            + ["-r"] + list(ropts))
    if not split:
        args = args + [top] if False else args
    return nvc(args, cwd, variant, std, work, lib, glob=glob, env=en, timeout=timeout)


_CRASH = [
    (re.compile(r"Assertion [`'](.*?)' failed"), "assert"),
    (re.compile(r"([^\s:]+\.[ch]):\d+: (?:.*?: )?Assertion `?(.*?)'? failed"), "assert2"),
    (re.compile(r"\*\*\* Caught signal (\d+)"), "signal"),
    (re.compile(r"ERROR: AddressSanitizer: ([\w-]+)"), "asan"),
    (re.compile(r"WARNING: ThreadSanitizer: ([\w -]+)"), "tsan"),
    (re.compile(r"src/([\w/.-]+):\d+:\d+: runtime error: (.*)"), "ubsan"),
]


def crash_key(r):
    """None if nvc ended in an orderly way; otherwise a key naming the failure."""
    t = r.out + r.err
    m = re.search(r"src/([\w/.-]+):\d+:\d+: runtime error: (.*)", t)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))
        return "ubsan %s %s" % (m.group(1), msg[:100])
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t)
    if m:
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/src/", t)
        return "asan %s %s" % (m.group(1), "<".join(frames[:2]))
    m = re.search(r"Assertion [`']?(.*?)'? failed", t) if "Assertion" in t else None
    if m and (r.rc < 0 or r.rc in (134, 139) or "Caught signal" in t or "Fatal" in t):
        return "assert " + m.group(1)[:120]
    m = re.search(r"\*\*\* Caught signal (\d+)", t)
    if m:
        fr = re.findall(r"--> (\w+)", t) or re.findall(r"\] (?:\S+ )?(\w+)\(", t)
        return "signal %s %s" % (m.group(1), "<".join(fr[:2]))
    if r.rc is not None and r.rc < 0 and not r.hung:
        return "killed by signal %d" % -r.rc
    if r.rc is not None and r.rc > 128:
        return "exit %d" % r.rc
    return None
