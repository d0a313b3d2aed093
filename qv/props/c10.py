"""C10: runs stop at their limits and say why."""
import copy
import re
import numpy as np
from .. import gen, build, runs
from ..runs import Run

LEVEL = "exploration"
HANG = "a run passes the limits set for it"
TECHNIQUE = "runtime monitoring: offline trace checker over the event log of every optimisation run (evaluations, gradients, iterations, virtual wall time) against the termination rules"
CASES = {"quick": 2400, "thorough": 20000}
NEED = {"runs": 800, "goal": 60, "wall": 40, "maxfid": 60, "maxiter": 40, "gradmin": 20, "method_end": 20, "changed_limits": 100,
        "start_at_goal": 5, "edges": 100, "exact": 200, "exact_positive": 40}
RULE = ("random runs over GRAPE/CRAB, ten methods and random targets, gradient minima, call, iteration and wall-time limits "
        "(virtual clock advancing by a random amount per evaluation), given as arguments, as method parameters or changed on the "
        "termination conditions between runs; one run in three repeated with limits exactly at one of its evaluations; the trace of events must be exactly one that stops at the first limit met; "
        "distinct = (algorithm, method, cause, run number)")
ASSUMPTIONS = ["max_iter of at least 1", "iteration limits judged for methods whose scipy implementation has one"]
OWN_GRADMIN = runs.LBFGSB | {"FMIN_BFGS"}      # classes that report when the method itself found the gradient minimal
FLAGS = ["goal_achieved", "grad_norm_min_reached", "max_iter_exceeded", "max_fid_func_exceeded", "wall_time_limit_exceeded"]


def judge(mon, run, tag, limits):
    sp, log, res = run.sp, run.log, run.result
    targ, ming, maxit, maxf, maxw = limits
    if run.diverged():
        mon.count("diverged")
        return
    mon.count("runs")
    ev = log.ev
    f, g, it = log.of("f"), log.of("g"), log.of("it")
    flags = [n for n in FLAGS if getattr(res, n)]
    # --- the trace: the first event meeting a limit must be the last one
    stop = None
    nf = ni = 0
    for i, e in enumerate(ev):
        if e.k == "f":
            nf += 1
            err = e.val if e.val is not None else run.err_at(e.amps)
            if e.val is None and abs(err - targ) <= 1e-9 * max(1.0, abs(targ)):
                err = float(res.fid_err)
            if err <= targ:
                stop = (i, "goal_achieved")
            elif nf > maxf:
                stop = (i, "max_fid_func_exceeded")
        elif e.k == "g":
            if e.norm is not None and e.norm < ming:
                stop = (i, "grad_norm_min_reached")
        else:
            ni += 1
            if e.t - log.run_t0 > maxw + 1e-9:
                stop = (i, "wall_time_limit_exceeded")
        if stop:
            break
    if stop:
        i, cause = stop
        extra = len(ev) - 1 - i
        mon.check(extra == 0, "continued_" + cause, lambda: "%d further events after the one at which the run had to stop (%s) (%s)" % (extra, cause, tag))
        mon.check(flags == [cause], "flag_" + cause, lambda: "run ended by %s, flags set: %s (%s)" % (cause, flags, tag))
    else:
        cause = None
        mon.check(all(e.exc is None for e in ev), "early_stop", lambda: "run interrupted by %s although no limit had been met (%s)" % ([type(e.exc).__name__ for e in ev if e.exc is not None], tag))
        early = set(flags) & {"goal_achieved", "wall_time_limit_exceeded"}
        mon.check(not early, "flag_untrue", lambda: "flags %s but the trace met no such limit (%s)" % (early, tag))
        mon.check(len(flags) <= 1, "flags_many", lambda: "several flags %s (%s)" % (flags, tag))
        if "max_iter_exceeded" in flags:
            # the simplex methods of scipy count the first simplex as iteration
            nm = sp.method in ("FMIN", "Nelder-Mead") or (sp.alg == "CRAB" and sp.method == "DEF")
            mon.check(len(it) >= maxit - nm, "flag_maxiter", lambda: "iteration limit flagged after %d of %s iterations (%s)" % (len(it), maxit, tag))
        if "max_fid_func_exceeded" in flags:
            mon.check(len(f) >= maxf, "flag_maxfid", lambda: "call limit flagged after %d of %s calls (%s)" % (len(f), maxf, tag))
        if "grad_norm_min_reached" in flags:
            # the methods test the largest (projected) component against the minimum
            if sp.method in runs.GRADIENT and g:
                last = [e for e in g if np.allclose(e.amps, res.final_amps, atol=1e-12)]
                if last:
                    v = np.asarray(last[-1].val).reshape(-1)
                    mon.check(np.max(np.abs(projected(run, v, last[-1].amps))) <= ming * (1 + 1e-9), "flag_gradmin",
                              lambda: "gradient minimum flagged at largest component %s > %s (%s)" % (np.max(np.abs(v)), ming, tag))
        elif sp.alg == "GRAPE" and sp.method in OWN_GRADMIN and g and "max_iter_exceeded" not in flags and "max_fid_func_exceeded" not in flags:
            last = [e for e in g if np.allclose(e.amps, res.final_amps, atol=1e-12)]
            if last and last[-1].val is not None and np.isfinite(np.asarray(last[-1].val, dtype=float)).all():
                a = np.max(np.abs(projected(run, np.asarray(last[-1].val).reshape(-1), last[-1].amps)))
                mon.count("own_gradmin")
                mon.check(a > ming * (1 - 1e-9), "gradmin_not_flagged", lambda: "the method ended with its largest gradient component %s within the minimum %s, flags %s, reason %r (%s)" % (
                    a, ming, flags, res.termination_reason, tag))
        txt = str(res.termination_reason).lower()
        if "iteration or" in txt:
            mon.check(flags in (["max_iter_exceeded"], ["max_fid_func_exceeded"]), "limit_not_flagged", lambda: "reason %r but flags %s (%s)" % (txt, flags, tag))
        elif re.search(r"(maximum number of|total no\. of|too many) iterations|iterations? (count )?limit|iterations.*(exceed|reaches)", txt):
            mon.check(flags == ["max_iter_exceeded"], "maxiter_not_flagged", lambda: "reason %r but flags %s (%s)" % (txt, flags, tag))
        elif re.search(r"maximum number of function|function (call|evaluation)s?.*(exceed|limit)", txt):
            mon.check(flags == ["max_fid_func_exceeded"], "maxfid_not_flagged", lambda: "reason %r but flags %s (%s)" % (txt, flags, tag))
    mon.check(len(f) <= maxf + 1, "calls", lambda: "%d evaluations, %s allowed (%s)" % (len(f), maxf, tag))
    # TNC of scipy has no iteration limit
    mon.check(len(it) <= maxit or sp.method == "TNC", "iterations", lambda: "%d iterations, %s allowed (%s)" % (len(it), maxit, tag))
    mon.check(bool(res.goal_achieved) == bool(res.fid_err <= targ), "goal", lambda: "goal_achieved is %s with final error %s and target %s (%s)" % (
        res.goal_achieved, res.fid_err, targ, tag))
    r = res.termination_reason
    mon.check(isinstance(r, (str, bytes)) and len(r) > 0 and "not started" not in str(r) and "nknown" not in str(r), "reason",
              lambda: "termination reason is %r (%s)" % (r, tag))
    cls = {"goal_achieved": "goal", "wall_time_limit_exceeded": "wall", "max_fid_func_exceeded": "maxfid",
           "grad_norm_min_reached": "gradmin", "max_iter_exceeded": "maxiter"}
    mon.count(cls[flags[0]] if flags else "method_end")
    if stop and stop[0] == 0 and cause == "goal_achieved":
        mon.count("start_at_goal")
    words = {"goal_achieved": "goal", "wall_time_limit_exceeded": "time", "max_fid_func_exceeded": "exce", "grad_norm_min_reached": "grad"}
    if cause:
        mon.check(words[cause] in str(r).lower(), "reason_text", lambda: "reason %r for a run ended by %s (%s)" % (r, cause, tag))
    mon.sig(sp.alg, sp.method, sp.measure, flags[0] if flags else "own", tag)


def projected(run, v, amps):
    lb, ub = run.kw.get("amp_lbound"), run.kw.get("amp_ubound")
    g = v.reshape(amps.shape).copy()
    for j in range(amps.shape[1]):
        l, u = runs.bound_of(lb, j), runs.bound_of(ub, j)
        for k in range(amps.shape[0]):
            x = amps[k, j]
            if g[k, j] < 0 and u is not None:
                g[k, j] = max(x - u, g[k, j])
            elif g[k, j] > 0 and l is not None:
                g[k, j] = min(x - l, g[k, j])
    return g


def edges(mon, rng, sp, run, lim):
    """The same run again with limits exactly at, or one off, what one of its
    evaluations meets: two limits met at once, equality with the target."""
    vals = [e.val for e in run.log.of("f") if e.val is not None]
    best = [k for k in range(len(vals)) if np.isfinite(vals[k]) and vals[k] < min(vals[:k] + [np.inf])]
    if not best:
        return
    k = gen.pick(rng, best[-6:])
    sp2 = copy.copy(sp)
    sp2.kw = dict(sp.kw)
    lim = list(lim)
    # exact equality, and a target just met
    lim[0] = sp2.kw["fid_err_targ"] = float(vals[k]) if gen.chance(rng, .5) else float(vals[k]) * (1 + 1e-9) + 1e-15
    off = int(rng.integers(-1, 3))
    n = max(1, k + 1 + off - 1)
    if gen.chance(rng, .8):
        sp2.kw["method_params"] = dict(sp.kw.get("method_params") or {}, max_fid_func_calls=n)
        lim[3] = n
    if sp.dt and gen.chance(rng, .3):
        t = [e.t - run.log.run_t0 for e in run.log.of("f")][k]
        lim[4] = sp2.kw["max_wall_time"] = t + gen.pick(rng, [-.3, .3]) * sp.dt
    r = Run(sp2).go()
    if r.exc is not None:
        if not r.diverged():
            with mon.guard("edge_run", "optimisation with limits at an evaluation"):
                raise r.exc
        return
    mon.count("edges")
    judge(mon, r, "edge", lim)


def edge_grad(mon, rng, sp, run, lim):
    """The same run again with a minimum norm between the largest component
    (tested by the method) and the norm (tested by the library) of a gradient."""
    ev = [e for e in run.log.of("g") if e.norm is not None and e.val is not None and np.isfinite(np.asarray(e.val, dtype=float)).all()]
    ab = [(np.max(np.abs(projected(run, np.asarray(e.val).reshape(-1), e.amps))), e.norm) for e in ev]
    ab = [x for x in ab if 0 < x[0] * 1.01 < x[1]]
    if not ab:
        return
    a, b = gen.pick(rng, ab)
    sp2 = copy.copy(sp)
    sp2.kw = dict(sp.kw)
    lim = list(lim)
    lim[1] = sp2.kw["min_grad"] = float(np.sqrt(a * b))
    r = Run(sp2).go()
    if r.exc is not None:
        if not r.diverged():
            with mon.guard("edge_run", "optimisation with a minimum norm at an evaluation"):
                raise r.exc
        return
    mon.count("edges_grad")
    judge(mon, r, "edge", lim)


def exact(mon, rng, sp, run, lim):
    """The same run again towards what its initial pulse gives: the error of the
    first evaluation is zero up to rounding, on either side of it."""
    e = np.asarray(run.result.evo_full_initial.full())
    if e.shape != sp.p.target.shape or not np.isfinite(e).all():
        return
    sp2 = copy.copy(sp)
    sp2.kw = dict(sp.kw)
    sp2.p = copy.copy(sp.p)
    sp2.p.target = e
    lim = list(lim)
    lim[0] = sp2.kw["fid_err_targ"] = gen.pick(rng, [0.0, 0.0, 1e-15, 1e-10, 1e-6])
    r = Run(sp2).go()
    if r.exc is not None:
        if not r.diverged():
            with mon.guard("exact_run", "optimisation towards the initial evolution"):
                raise r.exc
        return
    mon.count("exact")
    judge(mon, r, "exact", lim)
    if r.log.of("f") and r.log.of("f")[0].val is not None:
        mon.count("exact_" + ("negative" if r.log.of("f")[0].val < 0 else "zero" if r.log.of("f")[0].val == 0 else "positive"))


def case(mon, rng, idx, tier):
    meth = None
    sp = runs.spec(rng, method=meth)
    if gen.chance(rng, .06):
        sp.kw["fid_err_targ"] = 5.0      # met at the first evaluation
    if gen.chance(rng, .15):
        sp.kw["max_iter"] = 1
    if gen.chance(rng, .1):
        sp.kw["min_grad"] = 10.0
    # an iteration limit given as method option for the generic methods
    kwit = sp.kw["max_iter"]
    mon.note(**sp.describe())
    run = Run(sp).go()
    if run.exc is not None:
        if run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "optimisation"):
            raise run.exc
        return
    mp = sp.kw.get("method_params", {})
    lim = [sp.kw["fid_err_targ"], sp.kw["min_grad"], kwit, mp.get("max_fid_func_calls", 1e10), sp.kw["max_wall_time"]]
    judge(mon, run, "run1", lim)
    if idx % 3 == 0 and run.log.of("f"):
        edges(mon, rng, sp, run, lim)
    if idx % 3 == 1 and sp.alg == "GRAPE" and sp.method in OWN_GRADMIN:
        edge_grad(mon, rng, sp, run, lim)
    if idx % 3 == 2 and run.log.of("f"):
        exact(mon, rng, sp, run, lim)
    # changed limits on the same optimiser
    for rep in range(2, 2 + int(rng.integers(0, 3))):
        lim = list(lim)
        which = gen.pick(rng, ["targ", "targ", "it", "maxf", "wall", "grad"])
        if which == "maxf" and "max_fid_func_calls" in mp:
            which = "it"      # given as method parameter: that is applied at each run
        tcv = {}
        if which == "targ":
            lim[0] = tcv["fid_err_targ"] = gen.pick(rng, [1e-12, 1e-5, .01, .2, 5.0])
        elif which == "it":
            lim[2] = tcv["max_iterations"] = int(rng.integers(1, 30))
        elif which == "maxf":
            lim[3] = tcv["max_fid_func_calls"] = int(rng.integers(1, 25))
        elif which == "grad":
            lim[1] = tcv["min_gradient_norm"] = gen.pick(rng, [1e-12, 1e-3, .1, 10.0])
        dt = sp.dt
        if which == "wall":
            dt = 1.0
            lim[4] = tcv["max_wall_time"] = float(rng.integers(0, 12)) + .5
        kick = gen.chance(rng, .5)

        def change(o):
            for k, v in tcv.items():
                setattr(o.termination_conditions, k, v)
            if kick and sp.alg != "CRAB":
                o.dynamics.update_ctrl_amps(np.asarray(o.dynamics.ctrl_amps) * .5)
        nxt = run.again(change, dt=dt)
        if nxt.exc is not None:
            if nxt.diverged():
                mon.count("diverged")
                return
            with mon.guard("rerun", "later optimisation"):
                raise nxt.exc
            return
        mon.count("changed_limits")
        judge(mon, nxt, "run%d" % min(rep, 3), lim)
        nxt.sp = sp
        run = nxt
