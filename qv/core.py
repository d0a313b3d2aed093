"""Runner core: cases, monitors, verdicts, evidence, known findings.

A check is a module qv.props.cXX with
    LEVEL, TECHNIQUE, RULE, ASSUMPTIONS
    CASES   = {"quick": n, "thorough": n}
    NEED    = {"counter": minimum}      # below it the run is inconclusive
    def case(mon, rng, idx, tier)       # one execution, judged by mon
Each case is a deterministic function of (seed, property, index), so a replay
file only has to name them.  Cases are spread over worker processes; a worker
has its own scratch directory, HOME and working directory.
"""
import collections, contextlib, hashlib, importlib, io, json, logging, os
import random, shutil, signal, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("QV_REPO_SRC", "/repo/src")


class CaseTimeout(BaseException):
    pass


def derive(seed, prop, idx):
    h = hashlib.sha256(("%s/%s/%s" % (seed, prop, idx)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Known:
    """Entries of known_findings.txt (finding: property=<id> key=<key> text)."""

    def __init__(self, prop):
        self.keys = {}
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if not line.startswith("finding: property=%s " % prop):
                    continue
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                assert key.startswith("key=")
                self.keys[key[4:]] = text


class Monitor:
    """Collects what one case observed and the verdicts of the oracles."""

    def __init__(self, prop, seed, idx, tier):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        self.counts = collections.Counter()
        self.sigs = set()
        self.viol = []      # (key, message)
        self.sample = None
        self.info = {}
        self.scratch = None
        self.np = None

    # -- observation ------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *parts):
        """Declare this case (or sub-case) non-trivial and distinct by parts."""
        self.sigs.add("|".join(str(p) for p in parts))

    def note(self, **kw):
        self.info.update(kw)

    # -- verdicts -----------------------------------------------------------
    def fail(self, key, msg):
        self.viol.append((key, "%s; case %s" % (msg, _short(self.info))))

    def check(self, cond, key, msg):
        self.counts["oracle_checks"] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, got, want, key, what, rtol=1e-8, atol=1e-9):
        """got == want within tolerance; shape, finiteness included."""
        import numpy as np
        self.counts["oracle_checks"] += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                self.fail(key, "%s: shape %s, expected %s" % (what, g.shape, w.shape))
                return False
            if g.dtype == object:
                g = g.astype(complex)
            if not np.all(np.isfinite(g)) and np.all(np.isfinite(w)):
                self.fail(key, "%s: non-finite value" % what)
                return False
            scale = max(1.0, float(np.max(np.abs(w))) if w.size else 1.0)
            d = np.abs(g - w)
            d = np.where(g == w, 0, d)
            ok = bool(np.all(d <= atol + rtol * scale))
        except Exception as e:
            self.fail(key, "%s: cannot compare (%s: %s)" % (what, type(e).__name__, e))
            return False
        if not ok:
            i = np.unravel_index(int(np.argmax(d)), d.shape) if d.shape else ()
            self.fail(key, "%s: got %s expected %s at %s (max diff %.3g)"
                      % (what, g[i], w[i], tuple(int(x) for x in i), float(np.max(d))))
        return ok

    @contextlib.contextmanager
    def guard(self, key, what):
        """Any exception of a valid operation is a violation."""
        try:
            yield
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            loc = [f for f in tb if "qutip_qtrl" in f.filename] or list(tb)
            f = loc[-1]
            self.fail("%s:%s:%s:%s" % (key, os.path.basename(f.filename)[:-3], f.name, type(e).__name__),
                      "%s raised %s: %s (at %s:%s)" % (
                what, type(e).__name__, _safe_str(e), os.path.basename(f.filename), f.name))

    def raises(self, fn, key, what, types=(Exception,)):
        """fn must raise one of types with a displayable message."""
        self.counts["oracle_checks"] += 1
        try:
            fn()
        except types as e:
            try:
                t = str(e)
            except Exception as e2:
                self.fail(key + ":str", "%s: the error %s cannot be displayed (%s)"
                          % (what, type(e).__name__, type(e2).__name__))
                return None
            if not t.strip():
                self.fail(key + ":str", "%s: the error %s has no message" % (what, type(e).__name__))
                return None
            return e
        except Exception as e:
            self.fail(key, "%s raised %s (%s), expected %s" % (
                what, type(e).__name__, _safe_str(e), "/".join(t.__name__ for t in types)))
            return None
        self.fail(key, "%s was accepted" % what)
        return None


def _safe_str(e):
    try:
        return str(e)[:300]
    except Exception:
        return "<undisplayable>"


def _short(d, n=700):
    s = json.dumps(d, default=str)
    return s if len(s) <= n else s[:n] + "..."


def worker_setup():
    """Fresh scratch dir, HOME and cwd for this process; quiet output."""
    d = tempfile.mkdtemp(prefix="qv-")
    home = os.path.join(d, "home")
    cwd = os.path.join(d, "cwd")
    os.makedirs(home)
    os.makedirs(cwd)
    os.environ["HOME"] = home
    os.chdir(cwd)
    return d


def load(prop):
    return importlib.import_module("qv.props.%s" % prop.lower())


def run_case(mod, prop, seed, idx, tier, scratch, limit):
    import numpy as np
    mon = Monitor(prop, seed, idx, tier)
    s = derive(seed, prop, idx)
    rng = np.random.default_rng(s)
    np.random.seed(s % (2 ** 32))
    random.seed(s)
    case_dir = os.path.join(scratch, "c%d" % idx)
    os.makedirs(case_dir, exist_ok=True)
    mon.scratch = case_dir
    cwd = os.getcwd()

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with mon.guard("exception", "valid use"):
                mod.case(mon, rng, idx, tier)
    except CaseTimeout:
        mon.count("timeouts")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        from . import instr
        instr.reset_all()
        shutil.rmtree(case_dir, ignore_errors=True)
    mon.count("cases")
    return dict(idx=idx, counts=dict(mon.counts), sigs=sorted(mon.sigs),
                viol=mon.viol, sample=mon.sample or (mon.info or None))


def _pool_init():
    global _SCRATCH
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _SCRATCH = worker_setup()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")


def _pool_case(args):
    prop, seed, idx, tier, limit = args
    mod = load(prop)
    return run_case(mod, prop, seed, idx, tier, _SCRATCH, limit)


def main(argv=None):
    import argparse, multiprocessing as mp
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("QV_JOBS", "8")))
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        prop, seed, tier, only = r["property"], r["seed"], r["tier"], r["case"]
    if a.case is not None:
        only = a.case
    tmp = tempfile.mkdtemp(prefix="qvrun-")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    try:
        return _run(prop, tier, seed, only, a, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(prop, tier, seed, only, a, t0):
    import multiprocessing as mp
    mod = load(prop)
    import qutip_qtrl
    src = os.path.realpath(os.path.dirname(qutip_qtrl.__file__))
    if not src.startswith(os.path.realpath(REPO_SRC)):
        print("ERROR: qutip_qtrl imported from %s" % src)
        return 4
    known = Known(prop)
    n = a.cases or mod.CASES[tier]
    limit = getattr(mod, "CASE_LIMIT", {"quick": 60, "thorough": 240})[tier]
    idxs = [only] if only is not None else list(range(n))
    jobs = [(prop, seed, i, tier, limit) for i in idxs]
    budget = {"quick": 500, "thorough": 780}[tier]
    results = []
    stopped = False
    with mp.get_context("fork").Pool(min(a.jobs, len(jobs)), _pool_init) as pool:
        it = pool.imap_unordered(_pool_case, jobs, chunksize=1)
        for _ in jobs:
            left = budget - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(left, 0.1)))
            except mp.TimeoutError:
                stopped = True
                break
        pool.terminate()
    results.sort(key=lambda r: r["idx"])
    counts = collections.Counter()
    sigs = set()
    viols, found = [], collections.Counter()
    hangs = [r["idx"] for r in results if r["counts"].get("timeouts")]
    samples = []
    for r in results:
        counts.update(r["counts"])
        sigs.update(r["sigs"])
        if r["sample"] and len(samples) < 4:
            samples.append(r["sample"])
        for key, msg in r["viol"]:
            if key in known.keys:
                found[key] += 1
            else:
                viols.append((r["idx"], key, msg))
    for key in sorted(found):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, known.keys[key], found[key]))
    inconcl = []
    if only is None:
        for k, need in getattr(mod, "NEED", {}).items():
            if counts[k] < (need if not isinstance(need, dict) else need[tier]):
                inconcl.append("%s=%d<%s" % (k, counts[k], need))
        if counts["timeouts"] > max(2, len(jobs) // 20):
            inconcl.append("timeouts=%d" % counts["timeouts"])
        if stopped and len(results) < len(jobs) // 4:
            inconcl.append("budget used up after %d of %d cases" % (len(results), len(jobs)))
        hang = getattr(mod, "HANG", None)
        if hang and counts["timeouts"] >= 5:
            viols.append((hangs[0], "hang", "%d of %d cases did not end within %d s (%s)" % (counts["timeouts"], len(results), limit, hang)))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=int(counts["cases"]), distinct_nontrivial=len(sigs),
                            rule=mod.RULE, samples=json.loads(json.dumps(samples, default=str)),
                            observed={k: int(v) for k, v in sorted(counts.items())},
                            known_findings_seen={k: int(v) for k, v in found.items()},
                            planned=len(jobs), stopped_by_budget=stopped,
                            inconclusive=inconcl),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 2), violations=len(viols))
    evdir = os.path.join(VERIF, "evidence")
    if only is None:
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    # one replay per distinct key
    seen = {}
    for idx, key, msg in viols:
        seen.setdefault(key, (idx, msg, 0))
        i0, m0, c = seen[key]
        seen[key] = (i0, m0, c + 1)
    rdir = os.path.join(evdir, "replay")
    for key, (idx, msg, c) in sorted(seen.items(), key=lambda kv: kv[1][0])[:12]:
        os.makedirs(rdir, exist_ok=True)
        safe = "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in key)[:60]
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, safe, idx))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=idx, key=key, message=msg,
                           rerun="bash /verif/run.sh %s --replay %s" % (prop, path)), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   [%s] x%d: %s" % (key, c, msg[:900]))
    print("%s %s seed=%d: %d cases, %d distinct, %d oracle checks, %d violations, %.1fs"
          % (prop, tier, seed, counts["cases"], len(sigs), counts["oracle_checks"], len(viols), wall))
    print("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(counts.items())))
    if viols:
        return 1
    if inconcl:
        print("INCONCLUSIVE: " + "; ".join(inconcl))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
