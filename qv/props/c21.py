"""C21: saved amplitude files reproduce the pulses."""
import logging, os, pathlib
import numpy as np
from .. import gen, build, instr, runs

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every file written during the save calls (audit-hook monitor) parsed and compared with the amplitudes in use and the result's attributes; injected file-system failures; log records watched"
CASES = {"quick": 4000, "thorough": 30000}
NEED = {"direct_saves": 1000, "optim_saves": 300, "failed_saves": 500, "excluded": 300}
RULE = ("save_amps calls with random names, times, amplitudes and failures on real dynamics, and whole optimisations with out_file_ext through "
        "all entry points; distinct = (route, name form, times form, amplitude form, number of controls, failure)")
ASSUMPTIONS = ["a text file with one line per timeslot, fields separated by white space, six significant digits"]


def parse(path):
    if str(path).endswith(".gz"):
        import gzip
        text = gzip.open(path, "rt").read()
    else:
        text = open(path).read()
    return [[float(f) for f in l.split()] for l in text.split("\n") if l.strip() and not l.lstrip().startswith("#")]


def agree(mon, path, want, key, what):
    """File holds the table `want` to six significant digits, row by row."""
    if not mon.check(os.path.isfile(path), key + ":absent", "%s: file %s not written" % (what, os.path.basename(str(path)))):
        return
    try:
        rows = parse(path)
    except Exception as e:
        mon.fail(key + ":unreadable", "%s: cannot be read back (%s)" % (what, e))
        return
    want = np.asarray(want, dtype=float)
    mon.count("rows", len(rows))
    if not mon.check(len(rows) == want.shape[0] and all(len(r) == want.shape[1] for r in rows), key + ":shape",
                     "%s: table %dx%s, expected %s" % (what, len(rows), sorted({len(r) for r in rows}), want.shape)):
        return
    got = np.array(rows).reshape(want.shape)
    bad = ~((np.abs(got - want) <= 1.01e-5 / 2 * np.abs(want) + 1e-300) | (got == want))
    mon.check(not bad.any(), key + ":values", lambda: "%s: %s read back, %s expected at %s" % (
        what, got[bad][0], want[bad][0], [int(v[0]) for v in np.nonzero(bad)]))


def files(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


def slot_starts(tau):
    return np.concatenate([[0.0], np.cumsum(np.asarray(tau, float))[:-1]])


def hostile(rng, p):
    a = gen.amps(rng, p)
    f = gen.pick(rng, ["plain", "plain", "scales", "tiny", "negzero", "int"])
    if f == "scales":
        a = a * 10.0 ** rng.integers(-12, 13, size=a.shape)
    elif f == "tiny":
        a = a * 1e-8 + 1
    elif f == "negzero":
        a = a * 0.0
    elif f == "int":
        a = np.round(a * 3)
    return a, f


def blocked(rng, root):
    """A file name that cannot be written and whether it may be made of an extension."""
    f = gen.pick(rng, ["missing_dir", "isdir", "under_file", "nul", "too_long"])
    if f == "missing_dir":
        return f, os.path.join(root, "absent", "amps.txt")
    if f == "isdir":
        d = os.path.join(root, "adir")
        os.makedirs(d, exist_ok=True)
        return f, d
    if f == "under_file":
        open(os.path.join(root, "afile"), "w").write("keep")
        return f, os.path.join(root, "afile", "amps.txt")
    if f == "nul":
        return f, os.path.join(root, "a\0b.txt")
    return f, os.path.join(root, "n" * 400)


def direct(mon, rng):
    p = gen.problem(rng, dims_small=True)
    a, form = hostile(rng, p)
    d = build.dyn(p)
    d.log_level = logging.INFO if gen.chance(rng, .3) else logging.WARNING
    name = os.path.join(mon.scratch, "w")
    os.makedirs(name)
    os.chdir(name)
    mon.note(route="direct", **p.describe())
    if gen.chance(rng, .1):
        mon.raises(lambda: d.save_amps("early.txt"), "uninitialised", "saving before the controls are initialised")
        mon.check(files(name) == [], "uninitialised:file", lambda: "refused save left %s" % files(name))
        mon.count("refused")
    d.initialize_controls(a.copy())
    if gen.chance(rng, .3):
        a, form = hostile(rng, p)
        d.update_ctrl_amps(a.copy())
    if gen.chance(rng, .3) and form == "plain":
        d.compute_evolution()
    start = slot_starts(p.tau)
    for _ in range(3):
        nf = gen.pick(rng, ["default", "set_default", "str", "path", "abs", "sub", "existing", "gz"])
        kw = {}
        if nf == "default":
            fn = d.def_amps_fname
        elif nf == "set_default":
            fn = d.def_amps_fname = "renamed_%d.txt" % rng.integers(99)
        else:
            fn = {"str": "a b.txt", "path": "pth.dat", "abs": os.path.join(name, "abs.txt"), "sub": os.path.join("sub", "x.txt"),
                  "existing": "old.txt", "gz": "amps.txt.gz"}[nf]
            if nf == "sub":
                os.makedirs("sub", exist_ok=True)
            if nf == "existing":
                open(fn, "w").write("1 2 3 4 5 6\n" * 50)
            kw["file_name"] = pathlib.Path(fn) if nf == "path" else fn
        amps = a
        af = gen.pick(rng, ["own", "own", "passed", "passed_other_rows"])
        if af != "own":
            rows = p.n_ts + (int(rng.integers(1, 4) if gen.chance(rng, .85) else rng.integers(80, 600)) if af == "passed_other_rows" else 0)
            amps = rng.normal(size=(rows, int(rng.integers(1, 4))))
            kw["amps"] = amps.copy()
        tf = gen.pick(rng, ["none", "none", "exclude", "EXCLUDE", "array", "list", "unknown"])
        if af == "passed_other_rows" and tf in ("none", "unknown"):
            tf = "array"
        times = None
        if tf in ("exclude", "EXCLUDE"):
            kw["times"] = gen.pick(rng, ["exclude", "Exclude"]) if tf == "exclude" else tf
        elif tf in ("array", "list"):
            times = np.sort(rng.uniform(-3, 10, size=len(amps)))
            kw["times"] = times.tolist() if tf == "list" else times.copy()
        elif tf == "unknown":
            kw["times"], times = "omit", start
        else:
            times = start
        fail = None
        if gen.chance(rng, .35):
            fail, bad = blocked(rng, name)
            kw["file_name"] = bad
        if nf != "path" and gen.chance(rng, .3):
            kw["verbose"] = True
        before = set(files(name)) if fail else None
        keep = d.ctrl_amps.copy()
        given = {k: np.array(v) for k, v in kw.items() if k in ("amps", "times") and not isinstance(v, str)}
        with instr.FileMonitor() as fm, instr.capture_logs() as logs:
            with mon.guard("save", "save_amps(%s)" % ", ".join("%s=%s" % (k, type(v).__name__) for k, v in kw.items())):
                d.save_amps(**kw)
        reported = [m for _, l, m in logs if l >= logging.ERROR]
        mon.check(np.array_equal(d.ctrl_amps, keep) and all(np.array_equal(np.array(kw[k]), v) for k, v in given.items()),
                  "modified", "saving modified the amplitudes or times")
        if fail:
            mon.count("failed_saves")
            mon.check(len(reported) > 0, "unreported", "failed save (%s) was not reported" % fail)
            mon.check(set(files(name)) == before, "failed:files", lambda: "failed save left %s" % (set(files(name)) ^ before))
            mon.sig("direct", fail, tf)
            continue
        mon.count("direct_saves")
        want = np.asarray(amps, float)
        if times is not None:
            want = np.column_stack([times, want])
        else:
            mon.count("excluded")
        mon.check(not reported, "false_error", lambda: "successful save reported %s" % reported[:1])
        if tf == "unknown":
            mon.check(any(l >= logging.WARNING for _, l, _ in logs), "unknown_times", "unknown times option not reported")
        agree(mon, fn, want, "direct", "save_amps(%s, times=%s, amps=%s)" % (nf, tf, af))
        w = [q for q in fm.paths() if q != os.path.abspath(fn)]
        mon.check(not w, "elsewhere", lambda: "saving also touched %s" % w[:3])
        mon.sig("direct", nf, tf, af, form, want.shape[1])


def whole(mon, rng):
    entry = gen.pick(rng, ["optimize", "optimize", "unitary", "crab", "crab_unitary"])
    crab = entry.startswith("crab") or (entry == "optimize" and gen.chance(rng, .25))
    kinds = ("UNIT",) if entry.endswith("unitary") else ("UNIT", "UNIT", "GEN_MAT", "SYMPL")
    sp = runs.spec(rng, alg="CRAB" if crab else "GRAPE", kinds=kinds, route="optimize", max_ts=6)
    p, kw = sp.p, runs.entry_kw(sp, entry)
    kw["max_iter"] = min(kw["max_iter"], 8)
    if sp.dt:
        kw["max_wall_time"] = 1e6
    root = os.path.join(mon.scratch, "w")
    os.makedirs(root)
    os.chdir(root)
    ext = gen.pick(rng, ["run1.txt", "x", "a b.dat", ".txt", "1.txt.gz", ""])
    fail = None
    if gen.chance(rng, .35):
        fail = gen.pick(rng, ["dir", "initial", "final", "long", "nul"])
        if fail == "dir":
            ext = "absent/x.txt"
        elif fail == "long":
            ext = "n" * 300
        elif fail == "nul":
            ext = "a\0b"
        else:
            os.makedirs("ctrl_amps_%s_%s" % (fail, ext))
    mon.note(entry=entry, ext=ext[:30], fail=fail, **sp.describe())
    kw["log_level"] = gen.pick(rng, [logging.WARNING, logging.INFO])
    fn = runs.ENTRY[entry]

    def run(**more):
        np.random.seed(sp.seed)
        return fn(p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target(), **dict(kw, **more))
    res = ref = None
    try:
        ref = run()
    except Exception as e:
        # a configuration that does not run is judged by other properties
        mon.count("unjudged_" + type(e).__name__)
        mon.info["plain_error"] = repr(e)[:200]
        return
    with instr.FileMonitor() as fm, instr.capture_logs() as logs:
        with mon.guard("optimise", "optimisation with out_file_ext"):
            res = run(out_file_ext=ext)
    if res is None:
        return
    mon.count("optim_runs")
    mon.check(np.array_equal(res.initial_amps, ref.initial_amps) and np.array_equal(res.final_amps, ref.final_amps)
              and res.termination_reason == ref.termination_reason, "disturbed", "requesting the files changed the run")
    start = slot_starts(p.tau)
    allowed = []
    n_fail = 0
    for which, a in (("initial", res.initial_amps), ("final", res.final_amps)):
        f = "ctrl_amps_%s_%s" % (which, ext)
        if fail in ("dir", "long", "nul", which):
            n_fail += 1
            continue
        allowed.append(os.path.join(os.path.realpath(root), f))
        agree(mon, f, np.column_stack([start, np.asarray(a)]), which, "%s amplitudes of %s" % (which, entry))
        mon.count("optim_saves")
    if n_fail:
        mon.count("failed_saves", n_fail)
        errs = [m for _, l, m in logs if l >= logging.ERROR]
        mon.check(len(errs) >= n_fail, "unreported", "failed saves (%s) were not reported" % fail)
    extra = [q for q in fm.paths() if os.path.realpath(q) not in allowed and q not in allowed]
    extra = [q for q in extra if not (fail in ("dir", "long", "nul", "initial", "final") and "ctrl_amps_" in os.path.basename(q) or "absent" in q)]
    mon.check(not extra, "elsewhere", lambda: "run wrote %s" % extra[:3])
    left = files(root)
    mon.check(sorted(left) == sorted(os.path.relpath(q, os.path.realpath(root)) for q in allowed), "files",
              lambda: "directory holds %s" % left)
    mon.sig(entry, crab, fail, p.n_ctrls, ext[:6])


def case(mon, rng, idx, tier):
    if idx % 3 == 2:
        whole(mon, rng)
    else:
        direct(mon, rng)
