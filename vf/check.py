"""The harness every check runs in: parallel cases, verdicts, known findings, evidence."""
import os, sys, json, time, hashlib, random, shutil, traceback, multiprocessing, tempfile, re
from collections import Counter
from . import build, run

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Case:
    """What one case observed. Filled in by a check's worker."""
    def __init__(self, seed, tmp):
        self.seed, self.tmp = seed, tmp
        self.rng = random.Random(seed)
        self.viol = []           # (key, detail)
        self.inconclusive = None
        self.counts = Counter()  # observed events by kind
        self.digests = set()     # distinct non-trivial behaviours
        self.evals = 0
        self.sample = None

    def violate(self, key, detail=""):
        self.viol.append((key, detail))

    def file(self, name, text):
        p = os.path.join(self.tmp, name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
        return p

    def digest(self, obj):
        self.digests.add(hashlib.md5(repr(obj).encode()).hexdigest()[:16])


_W = {}


def _init():
    run._limits()


def _worker(job):
    name, seed, idx = job
    root = _W["root"]
    tmp = tempfile.mkdtemp(prefix="c%d_" % idx, dir=root)
    c = Case(seed, tmp)
    try:
        _W["fns"][name](c, idx)
    except Exception:
        c.inconclusive = "harness: " + traceback.format_exc()[-1500:]
    keep = None
    if c.viol:
        keep = tmp
        with open(os.path.join(tmp, "VIOLATION.txt"), "w") as f:
            f.write("worker=%s seed=%r index=%d\n" % (name, seed, idx))
            for k, d in c.viol:
                f.write("\n== %s\n%s\n" % (k, d))
    else:
        shutil.rmtree(tmp, ignore_errors=True)
    return (name, idx, c.viol, c.inconclusive, c.counts, c.digests, c.evals, c.sample, keep)


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.viol = []
        self.incon = []
        self.counts = Counter()
        self.digests = set()
        self.evals = 0
        self.cases = 0
        self.samples = []
        self.min_events = 1
        self.known = load_known(prop)
        self.extra = {}
        self.rule = ""
        self.assumptions = []
        self.build_s = 0

    def build(self, variants=("plain",), mini=False):
        try:
            self.build_s = build.ensure(variants, mini)
        except build.BuildError as e:
            print("build failed: %s" % e)
            sys.exit(2)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, fns, jobs):
        """fns: {name: worker}; jobs: [(name, count)] or explicit list of (name, idx)."""
        work = os.path.join(VERIF, ".work")
        os.makedirs(work, exist_ok=True)
        root = tempfile.mkdtemp(prefix=self.prop + "_", dir=work)
        lst = []
        for name, cnt in jobs:
            for i in range(cnt):
                lst.append((name, "%s/%d/%s/%d" % (self.prop, self.seed, name, i), i))
        only = os.environ.get("VERIF_ONLY")     # replay: name:index
        if not only:
            shutil.rmtree(os.path.join(VERIF, "replays", self.prop), ignore_errors=True)
        if only:
            nm, ix = only.split(":")
            lst = [j for j in lst if j[0] == nm and j[2] == int(ix)] or \
                  [(nm, "%s/%d/%s/%s" % (self.prop, self.seed, nm, ix), int(ix))]
        # interleave so that the slow kinds do not all come last
        random.Random(7).shuffle(lst)
        _W["root"], _W["fns"] = root, fns
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(os.cpu_count() or 8, 16), _init) as pool:
            for res in pool.imap_unordered(_worker, lst, chunksize=1):
                name, idx, viol, inc, counts, digs, evals, sample, keep = res
                self.cases += 1
                self.evals += evals
                self.counts.update(counts)
                self.digests |= digs
                if sample is not None and len(self.samples) < 6 and \
                        sum(1 for s in self.samples if s.get("kind") == name) < 2:
                    self.samples.append({"kind": name, "index": idx, "case": sample})
                if inc:
                    self.incon.append((name, idx, inc))
                for k, d in viol:
                    self.viol.append((k, d, name, idx, keep))
        self._save_replays()
        shutil.rmtree(root, ignore_errors=True)

    def _save_replays(self):
        rep = os.path.join(VERIF, "replays", self.prop)
        new = []
        for k, d, name, idx, keep in self.viol:
            if keep and os.path.isdir(keep) and not keep.startswith(rep):
                dst = os.path.join(rep, "%s_%s_%d" % (
                    re.sub(r"\W+", "-", k)[:50], name, idx))
                if not any(v[4] == dst for v in new):
                    shutil.rmtree(dst, ignore_errors=True)
                    os.makedirs(rep, exist_ok=True)
                    if len(os.listdir(rep)) < 60:
                        shutil.copytree(keep, dst, symlinks=True)
                        with open(os.path.join(dst, "replay.sh"), "w") as f:
                            f.write("#!/bin/sh\n# reruns exactly this case\ncd %s && VERIF_SEED=%d "
                                    "VERIF_TIER=%s VERIF_ONLY=%s:%d ./check %s\n" % (
                                        VERIF, self.seed, self.tier, name, idx, self.prop))
                keep = dst
            new.append((k, d, name, idx, keep))
        self.viol = new

    def violate(self, key, detail="", path=None):
        """A violation found outside a worker."""
        if path is None:
            rep = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, re.sub(r"\W+", "-", key)[:60] + ".txt")
            with open(path, "w") as f:
                f.write(key + "\n" + detail)
        self.viol.append((key, detail, "main", 0, path))

    def finish(self):
        known_hit, fresh = Counter(), []
        for v in self.viol:
            for k, what in self.known:
                if v[0] == k:
                    known_hit[k] += 1
                    break
            else:
                fresh.append(v)
        for k, what in self.known:
            print("KNOWN-FINDING: property=%s %s [%s] (seen %d times in this run)" % (
                self.prop, what, k, known_hit[k]))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.digests),
               "rule": self.rule, "samples": self.samples[:4] or [{"note": "none recorded"}],
               "cases": self.cases, "inconclusive": len(self.incon),
               "observed": dict(sorted(self.counts.items())[:80]), "build_s": round(self.build_s, 1)}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            for x in cov["samples"]:
                x["case"] = str(x.get("case"))[:2000]
            s = json.dumps(ev, indent=1)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            f.write(s + "\n")
        print("%s: %d cases, %d evaluations, %d distinct, %d inconclusive, %d violations, %.1f s "
              "(build %.1f s)" % (self.prop, self.cases, self.evals, len(self.digests),
                                  len(self.incon), len(fresh), time.time() - self.t0, self.build_s))
        for name, idx, why in self.incon[:5]:
            print("inconclusive %s:%d %s" % (name, idx, why))
        if fresh:
            seen = Counter()
            for k, d, name, idx, path in fresh:
                seen[k] += 1
                if seen[k] > 1 or len(seen) > 8:
                    continue
                print("  violated: %s\n    %s" % (k, str(d)[:1500].replace("\n", "\n    ")))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.exit(1)
        if self.cases and len(self.incon) * 10 > self.cases:
            print("too many inconclusive cases")
            sys.exit(2)
        if self.evals < self.min_events:
            print("observed too little: %d evaluations" % self.evals)
            sys.exit(2)
        sys.exit(0)
