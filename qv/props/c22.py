"""C22: diagnostics are passive."""
import logging, os
import numpy as np
from qutip import Qobj
from .. import gen, build, instr, runs, dumps
import qutip_qtrl.logging_utils as qlog
import qutip_qtrl.pulseoptim as po

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: twin executions (quiet, and with a random combination of diagnostics) of the same run under a virtual clock; event logs of both (every fidelity call, gradient call, iteration, amplitude update with its values) compared bit for bit, log records and dump entries counted"
CASES = {"quick": 1500, "thorough": 14000}
NEED = {"twins": 700, "events": 10000, "log_records": 5000, "intense": 150, "dumped": 200, "to_file": 100, "stats": 200, "unit_checks": 150, "later_runs": 150}
RULE = ("random runs (all methods, dynamics, propagators, measures, entry points, later runs) with diagnostics given as parameters, set on objects before the run or "
        "between runs; distinct = (dynamics, algorithm, method, measure, oper type, diagnostics)")
ASSUMPTIONS = ["times are virtual, so that wall-time limits behave the same in both runs"]

LEVELS = [qlog.DEBUG_INTENSE, qlog.DEBUG_INTENSE, qlog.DEBUG_VERBOSE, logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL, 1]


def draw(mon, rng, scratch):
    """name -> value of the diagnostics switched on."""
    d = {}
    if gen.chance(rng, .65):
        d["log"] = int(gen.pick(rng, LEVELS))
    if gen.chance(rng, .4):
        d["stats"] = True
    if gen.chance(rng, .3):
        d["dump_opt"] = gen.pick(rng, ["SUMMARY", "FULL", "FULL", "CUSTOM"])
    if gen.chance(rng, .3):
        d["dump_dyn"] = gen.pick(rng, ["SUMMARY", "FULL", "FULL", "CUSTOM"])
    if ("dump_opt" in d or "dump_dyn" in d) and gen.chance(rng, .5):
        d["to_file"] = gen.pick(rng, ["ok", "ok", "blocked", "missing"])
    if gen.chance(rng, .35):
        d["unitarity"] = gen.pick(rng, [1, 2])
        if gen.chance(rng, .5):
            d["tol"] = gen.pick(rng, [0.0, 1e-16, 1e-300])
    if gen.chance(rng, .25):
        d["steps"] = True
    if gen.chance(rng, .2):
        d["disp"] = True
    if not d:
        d["log"] = qlog.DEBUG_INTENSE
    return d


def dump_dir(mon, d):
    if d.get("to_file") == "blocked":
        f = os.path.join(mon.scratch, "blocked")
        open(f, "w").write("x")
        return os.path.join(f, "sub")
    return os.path.join(mon.scratch, "dumps", "new") if d.get("to_file") == "missing" else os.path.join(mon.scratch, "dumps")


def on_objects(mon, o, d):
    dyn = o.dynamics
    if "log" in d:
        for x in (o, dyn, dyn.prop_computer, dyn.fid_computer, dyn.tslot_computer, o.config):
            x.log_level = d["log"]
        pg = o.pulse_generator
        for g in (pg if isinstance(pg, list) else [pg]):
            if g is not None:
                g.log_level = d["log"]
    if "dump_opt" in d:
        o.dumping = d["dump_opt"]
    if "dump_dyn" in d:
        dyn.dumping = d["dump_dyn"]
    if "to_file" in d:
        for x in (o, dyn):
            if x.dump is not None:
                x.dump.dump_dir = dump_dir(mon, d)
                x.dump.dump_to_file = True
                x.dump_to_file = True
    if "unitarity" in d:
        dyn.unitarity_check_level = d["unitarity"]
    if "tol" in d:
        dyn.unitarity_tol = d["tol"]
    if "steps" in d:
        o.record_iteration_steps = True
    if "disp" in d:
        o.disp_conv_msg = True


def as_params(mon, kw, d):
    kw = dict(kw)
    op, dp = dict(kw.get("optim_params") or {}), dict(kw.get("dyn_params") or {})
    if "log" in d:
        kw["log_level"] = d["log"]
    if "stats" in d:
        kw["gen_stats"] = True
    if "dump_opt" in d:
        op["dumping"] = d["dump_opt"]
    if "dump_dyn" in d:
        dp["dumping"] = d["dump_dyn"]
    if "to_file" in d:
        for q, n in ((op, "dump_opt"), (dp, "dump_dyn")):
            if n in d:
                q["dump_dir"] = dump_dir(mon, d)
                q["dump_to_file"] = True
    if "unitarity" in d:
        dp["unitarity_check_level"] = d["unitarity"]
    if "tol" in d:
        dp["unitarity_tol"] = d["tol"]
    if "steps" in d:
        op["record_iteration_steps"] = True
    if "disp" in d:
        op["disp_conv_msg"] = True
    if op:
        kw["optim_params"] = op
    if dp:
        kw["dyn_params"] = dp
    return kw


class Twin(runs.Run):
    """A run whose diagnostics are set on the objects after creation."""
    on = None

    def create(self):
        o = super().create()
        if self.on:
            self.on(o)
        return o


def event_key(e):
    def b(v):
        return None if v is None else np.asarray(v, dtype=float).tobytes()
    return (e.k, b(e.x), b(e.amps), b(e.val) if e.k != "it" else None, type(e.exc).__name__ if e.exc else None)


def compare(mon, a, b, key, what):
    if a.exc is not None:
        mon.check(b.exc is not None and type(b.exc) is type(a.exc) and str(a.exc) == str(b.exc), key + ":exc",
                  lambda: "%s: quiet run raised %r, the other %r" % (what, a.exc, b.exc))
        return False
    if b.exc is not None:
        import traceback
        tb = [f for f in traceback.extract_tb(b.exc.__traceback__) if "qutip_qtrl" in f.filename]
        loc = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else "?"
        mon.fail(key + ":fails:" + loc, "%s: fails with %r at %s" % (what, b.exc, loc))
        return False
    ea, eb = a.log.ev, b.log.ev
    mon.count("events", len(ea))
    mon.count("oracle_checks", len(ea))
    for i, (x, y) in enumerate(zip(ea, eb)):
        if event_key(x) != event_key(y):
            mon.fail(key + ":events", "%s: event %d differs (%s val %s / %s val %s)" % (what, i, x.k, x.val, y.k, y.val))
            return False
    mon.check(len(ea) == len(eb), key + ":count", lambda: "%s: %d events against %d" % (what, len(ea), len(eb)))
    mon.check(a.log.seq == b.log.seq and len(a.log.inner) == len(b.log.inner), key + ":seq",
              lambda: "%s: different order of updates and evaluations (%s / %s)" % (what, a.log.seq[:12], b.log.seq[:12]))
    sa, sb = runs.snapshot(a.result), runs.snapshot(b.result)
    for s in (sa, sb):
        s.pop("stats", None)
        s.pop("iteration_steps", None)
    d = runs.same(sa, sb)
    mon.check(d is None, key + ":result", lambda: "%s: result.%s differs (%s / %s)" % (what, d, sa.get(d), sb.get(d)))
    da, db = a.optim.dynamics, b.optim.dynamics
    mon.check(np.array_equal(da.ctrl_amps, db.ctrl_amps), key + ":amps", "%s: dynamics left with other amplitudes" % what)
    return True


def twin_runs(mon, rng):
    sp = runs.spec(rng, max_ts=5)
    if sp.alg == "GRAPE" and gen.chance(rng, .35) and sp.measure != "TD" and sp.p.kind == "UNIT":
        sp.kw["prop_type"] = gen.pick(rng, ["DIAG", "FRECHET", "AUG_MAT", "APPROX"])
    if gen.chance(rng, .15):
        sp.kw["dyn_params"] = dict(sp.kw.get("dyn_params") or {}, memory_optimization=1)
    d = draw(mon, rng, mon.scratch)
    route = gen.pick(rng, ["params", "objects", "mixed"])
    sp.route = "optimize" if route == "params" and gen.chance(rng, .6) else "steps"
    mon.note(diag=str(d), dr=route, **sp.describe())
    quiet = Twin(sp).go()
    instr.reset_all()
    if quiet.exc is None and quiet.diverged():
        mon.count("diverged")
        return
    import copy
    sp2 = copy.copy(sp)
    pd = {k: v for k, v in d.items() if route == "params" or k == "stats" or (route == "mixed" and gen.chance(rng, .5))}
    if "to_file" in d and "to_file" not in pd:
        for k in ("dump_opt", "dump_dyn"):
            pd.pop(k, None)
    od = {k: v for k, v in d.items() if k not in pd}
    sp2.kw = as_params(mon, sp.kw, pd)
    loud = Twin(sp2)
    loud.on = (lambda o: on_objects(mon, o, od)) if od else None
    with instr.FileMonitor() as fm, instr.capture_logs() as logs:
        loud.go()
    what = "run with %s" % d
    mon.count("twins")
    mon.count("log_records", len(logs))
    for k, n in (("stats", "stats"), ("dump_opt", "dumped"), ("dump_dyn", "dumped"), ("to_file", "to_file"), ("unitarity", "unit_checks")):
        mon.count(n, int(k in d))
    mon.count("intense", int(d.get("log", 99) <= qlog.DEBUG_INTENSE))
    ok = compare(mon, quiet, loud, "twin", what)
    mon.sig(sp.p.kind, sp.alg, sp.method, sp.measure, str(sp.kw.get("dyn_params")), sp.kw.get("prop_type"), *sorted("%s=%s" % kv for kv in d.items() if kv[0] not in ("tol",)))
    allowed = os.path.realpath(os.path.join(mon.scratch, "dumps"))
    if d.get("to_file") == "blocked":
        allowed = os.path.realpath(mon.scratch)
    home = os.path.realpath(os.path.expanduser("~"))
    bad = [q for q in fm.paths() if not os.path.realpath(q).startswith(allowed + os.sep) and os.path.realpath(q) not in (allowed, os.path.dirname(allowed))
           and not os.path.realpath(q).startswith(home)]
    mon.check(not bad, "files", lambda: "%s: wrote %s" % (what, bad[:3]))
    if ok and gen.chance(rng, .35) and quiet.exc is None:
        # diagnostics switched on, off or changed between two runs of the same optimiser
        d2 = draw(mon, rng, mon.scratch)
        d2.pop("stats", None)
        d2.pop("to_file", None)
        a2 = quiet.again()
        b2 = loud.again(change=lambda o: on_objects(mon, o, d2))
        if a2.exc is None and a2.diverged():
            return
        a2.optim, b2.optim = quiet.optim, loud.optim
        mon.count("later_runs")
        compare(mon, a2, b2, "later", "second run with %s after %s" % (d2, d))


def values(mon, rng):
    """Single evaluations with and without diagnostics."""
    p = gen.problem(rng, dims_small=True, max_ts=5)
    if p.kind == "UNIT":
        m = gen.pick(rng, ["PSU", "SU", "TD"])
    else:
        m = "TD"
    prop = gen.pick(rng, ["DEF", "FRECHET", "AUG_MAT"] + (["DIAG"] if p.kind == "UNIT" else []))
    kw = build.fid_kwargs(m)
    kw["prop_type"] = prop
    dp = {"oper_dtype": gen.pick(rng, [Qobj, np.ndarray])}
    if gen.chance(rng, .3):
        dp["memory_optimization"] = 1
    d = draw(mon, rng, mon.scratch)
    mon.note(diag=str(d), measure=m, prop=prop, dp=str(dp), **p.describe())
    # amplitude histories: all new, one entry or one slot changed (also by very little), the same again, back to an earlier set
    seq = [gen.amps(rng, p)]
    for _ in range(int(rng.integers(0, 5))):
        a = seq[-1].copy()
        act = gen.pick(rng, ["all", "entry", "entry", "slot", "same", "back", "tiny"])
        k, j = int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))
        if act == "all":
            a = gen.amps(rng, p)
        elif act == "entry":
            a[k, j] += gen.pick(rng, [.5, -.3])
        elif act == "slot":
            a[k] = rng.normal(size=p.n_ctrls)
        elif act == "tiny":
            a[k, j] += gen.pick(rng, [1e-6, 1e-9, 1e-12])
        elif act == "back":
            a = seq[int(rng.integers(len(seq)))].copy()
        seq.append(a)
    names = ["err", "grad", "evo", "fid", "prop", "fwd"]
    asks = [[gen.pick(rng, names) for _ in range(int(rng.integers(1, 5)))] for _ in seq]
    asks[0].insert(0, gen.pick(rng, ["err", "grad"]))       # nothing can be looked at before something was computed
    toggles = [gen.chance(rng, .15) for _ in seq]

    def observe(diag):
        k = as_params(mon, dict(kw, dyn_params=dp), diag)
        dyn = build.dyn(p, seq[0], **k)
        out = []
        for i, a in enumerate(seq):
            if i and toggles[i] and diag:
                # diagnostics may be changed at any moment
                if "log" in d:
                    dyn.log_level = [logging.ERROR, qlog.DEBUG_INTENSE][i % 2]
                if "unitarity" in d:
                    dyn.unitarity_check_level = [0, d["unitarity"]][i % 2]
            dyn.update_ctrl_amps(a.copy())
            fc = dyn.fid_computer
            for q in asks[i]:
                if q == "err":
                    out.append(np.array(fc.get_fid_err()))
                elif q == "grad":
                    out.append(np.array(fc.get_fid_err_gradient()))
                elif q == "evo":
                    out.append(np.array(dyn.full_evo.full()))
                elif q == "fid" and m != "TD":
                    out.append(np.array(fc.get_fidelity()))
                elif q == "prop":
                    out.extend(np.array(build.arr(x)) for x in dyn.prop)
                elif q == "fwd":
                    out.extend(np.array(build.arr(x)) for x in dyn.fwd_evo)
        return out
    a = observe({})
    instr.reset_all()
    b = None
    with instr.capture_logs() as logs:
        with mon.guard("values", "evaluation with %s" % d):
            b = observe(d)
    mon.count("log_records", len(logs))
    mon.count("value_twins")
    if b is not None:
        mon.check(len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), "values",
                  lambda: "evaluation with %s gives other values" % d)
    mon.sig("values", p.kind, m, prop, *sorted(d))


def case(mon, rng, idx, tier):
    if idx % 4 == 3:
        values(mon, rng)
    else:
        twin_runs(mon, rng)
