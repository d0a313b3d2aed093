"""C11: amplitude bounds."""
import os
import numpy as np
import scipy.optimize as spopt
import qutip_qtrl.loadparams as loadparams
import qutip_qtrl.optimizer as om
import qutip_qtrl.termcond as tc
from .. import gen, build, runs
from ..runs import Run, bound_of

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every amplitude array at which the running code evaluates the system is recorded and judged against the bounds; bounded trajectories are compared with scipy under the intended bounds"
CASES = {"quick": 1040, "thorough": 7000}
NEED = {"runs": 500, "arrays": 5000, "list_bounds": 100, "crab": 100, "zero_bound": 50, "inf_bound": 50, "one_sided": 100, "active": 100,
        "free_ctrl": 25, "trajectories": 60, "changed": 50, "unbounded": 30, "own_list": 20, "config_bounds": 60}
RULE = ("random bounded runs (scalar, per-control list, one-sided, zero, infinite, None) of L-BFGS-B in its spellings and of CRAB with "
        "pulse scalings and offsets well outside the bounds; start pulse, all arrays at which the evolution was computed and final "
        "pulse are judged; first evaluations are compared with scipy's L-BFGS-B given the intended bounds, bounds are changed and set "
        "per parameter between runs; distinct = (algorithm, method, form of the bounds, pulse type)")
ASSUMPTIONS = ["pulse generators and tanh bounding may round by 1e-9 relative"]


def inside(mon, A, lb, ub, key, what, exact=False):
    for j in range(A.shape[1]):
        l, u = bound_of(lb, j), bound_of(ub, j)
        tol = 1e-9 * max(1.0, abs(l or 0), abs(u or 0))
        if l is not None:
            mon.check(np.all(A[:, j] >= l - tol), key, lambda: "%s: control %d reaches %s, lower bound %s" % (what, j, A[:, j].min(), l))
        if u is not None:
            mon.check(np.all(A[:, j] <= u + tol), key, lambda: "%s: control %d reaches %s, upper bound %s" % (what, j, A[:, j].max(), u))
    mon.check(np.all(np.isfinite(A)), key + "_finite", "%s: not finite" % what)


def judge(mon, run, lb, ub, tag):
    if run.diverged():
        mon.count("diverged")
        return
    mon.count("runs")
    res, log = run.result, run.log
    inside(mon, np.asarray(res.initial_amps), lb, ub, "start", "starting pulse (%s)" % tag)
    inside(mon, np.asarray(res.final_amps), lb, ub, "final", "final pulse (%s)" % tag)
    for A in log.inner + [e.amps for e in log.ev]:
        mon.count("arrays")
        inside(mon, A, lb, ub, "evaluated", "evaluated amplitudes (%s)" % tag)
    A = np.asarray(res.final_amps)
    for j in range(A.shape[1]):
        l, u = bound_of(lb, j), bound_of(ub, j)
        if (l is not None and np.any(np.abs(A[:, j] - l) < 1e-6)) or (u is not None and np.any(np.abs(A[:, j] - u) < 1e-6)):
            mon.count("active")


def trajectory(mon, run, bl, tag):
    """First evaluations against scipy with the intended bounds (bl: list per variable)."""
    if run.sp.alg != "GRAPE" or run.sp.method not in runs.LBFGSB or run.kw.get("method_params", {}).get("approx_grad"):
        return
    f = run.log.of("f")
    if len(f) < 3 or run.result.goal_achieved and len(f) < 3:
        return
    shape = f[0].amps.shape
    seen = []

    class Stop(Exception):
        pass

    def fun(x):
        A = x.reshape(shape)
        seen.append(A.copy())
        if len(seen) >= 3:
            raise Stop()
        r = run.ref(A)
        return r.fid_err(run.sp.measure, run.sp.scale), r.grad(run.sp.measure, run.sp.scale).reshape(-1)
    try:
        spopt.fmin_l_bfgs_b(fun, np.asarray(run.result.initial_amps).reshape(-1), bounds=bl, pgtol=0, factr=0)
    except Stop:
        pass
    except Exception:
        return
    if len(seen) < 3:
        return
    mon.count("trajectories")
    for i in range(3):
        mon.close(f[i].amps, seen[i], "trajectory", "evaluation %d against L-BFGS-B under the intended bounds (%s)" % (i, tag), 1e-5, 1e-5)


def blist(lb, ub, n_ts, n_c):
    return [(bound_of(lb, j), bound_of(ub, j)) for _ in range(n_ts) for j in range(n_c)]


def via_config(mon, rng):
    """Bounds in a configuration file (section of the general configuration), used by objects put together from the classes."""
    sp = runs.spec(rng, alg="GRAPE", method="FMIN_L_BFGS_B", bounded=False, flavour="random", kinds=("UNIT", "UNIT", "GEN_MAT"), max_ctrls=3)
    p, kw = sp.p, sp.kw
    if p.kind == "GEN_MAT" and p.flavour == "real":
        mon.count("skipped_real")
        return
    kw.pop("method_params", None)
    lb = gen.pick(rng, [0.0, 0.0, -float(rng.uniform(.1, 1)), float(rng.uniform(.05, .4)), None])
    ub = gen.pick(rng, ([0.0] if lb is None or lb < 0 else []) + [(lb or 0.0) + float(rng.uniform(.2, 1.2))] * 2 + ([None] if lb is not None else []))
    where = gen.pick(rng, ["optimconfig", "optimconfig", "optimizer", "attributes"])
    mon.note(part="config", lb=lb, ub=ub, where=where, **sp.describe())
    names = [(n, b) for n, b in (("amp_lbound", lb), ("amp_ubound", ub)) if b is not None]
    text = "[%s]\n" % where + "".join("%s = %r\n" % x for x in names)
    path = os.path.join(mon.scratch, "bounds.ini")
    with open(path, "w") as f:
        f.write(text)
    lo = lb if lb is not None else ub - 1
    hi = ub if ub is not None else lb + 1
    amps = rng.uniform(lo, hi, (p.n_ts, p.n_ctrls))
    with mon.guard("config", "optimiser from a configuration with bounds"):
        d = build.dyn_direct(p)
        cfg = d.config
        if where == "optimconfig":
            for n, _ in names:
                setattr(cfg, n, 9.9 if n == "amp_ubound" else -9.9)      # only attributes which exist are loaded
            loadparams.load_parameters(path, config=cfg)
        elif where == "attributes":
            for n, b in names:
                setattr(cfg, n, b)
        o = om.OptimizerLBFGSB(cfg, d)
        o.method, o.alg = "FMIN_L_BFGS_B", "GRAPE"
        if where == "optimizer":
            loadparams.load_parameters(path, optim=o)
        if sp.measure != "TD" and p.kind == "UNIT":
            d.fid_computer.phase_option = sp.measure
        else:
            sp.measure, sp.scale = ("TD", None) if p.kind != "UNIT" else ("PSU", None)
        t = o.termination_conditions = tc.TerminationConditions()
        t.fid_err_targ, t.max_iterations, t.max_wall_time = 1e-12, 8, 1e6
        d.initialize_controls(amps)
    if "o" not in locals():
        return
    for n, b in names:
        mon.check(getattr(o, n) == b, "config_value", lambda: "%s of the optimiser is %r, the configuration (%s) has %r" % (n, getattr(o, n), where, b))
    run = Run(sp)
    run.optim = o
    run = run.again()
    run.kw = {}
    if run.exc is not None:
        if run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "bounded optimisation"):
            raise run.exc
        return
    mon.count("config_bounds")
    judge(mon, run, lb, ub, "configuration")
    if sp.scale is None:
        trajectory(mon, run, blist(lb, ub, p.n_ts, p.n_ctrls), "configuration")
    mon.sig("config", where, lb is None, ub is None, lb == 0, ub == 0, p.kind)


def case(mon, rng, idx, tier):
    if idx % 8 == 7:
        return via_config(mon, rng)
    alg = gen.pick(rng, ["GRAPE", "GRAPE", "CRAB"])
    meth = gen.pick(rng, sorted(runs.BOUNDED)) if alg == "GRAPE" else None
    unb = gen.chance(rng, .1)
    sp = runs.spec(rng, alg=alg, method=meth, bounded=not unb, flavour="random" if gen.chance(rng, .5) else None, limits=gen.chance(rng, .4),
                   kinds=("UNIT", "UNIT", "GEN_MAT"), max_ctrls=3)
    if sp.p.kind == "GEN_MAT" and sp.p.flavour == "real":
        mon.count("skipped_real")
        return
    if alg == "GRAPE":
        if "pulse_scaling" in sp.kw and gen.chance(rng, .7):
            sp.kw["pulse_scaling"] *= 5
            sp.kw["pulse_offset"] = float(rng.uniform(-4, 4))
        if gen.chance(rng, .2):
            sp.kw["init_pulse_type"] = gen.pick(rng, ["RNDFOURIER", "RNDWAVES", "RNDWALK2", "SQUARE", "TRIANGLE"])
    else:
        mon.count("crab")
        if gen.chance(rng, .6):
            sp.kw.setdefault("alg_params", {})["init_coeff_scaling"] = float(rng.uniform(1, 20))
    lb, ub = sp.kw.get("amp_lbound"), sp.kw.get("amp_ubound")
    mon.note(lb=str(lb), ub=str(ub), **sp.describe())
    if isinstance(lb, list) or isinstance(ub, list):
        mon.count("list_bounds")
    flat = np.array([x for b in (lb, ub) if b is not None for x in np.atleast_1d(np.array(b, dtype=object)) if x is not None], dtype=float)
    if np.any(flat == 0):
        mon.count("zero_bound")
    if np.any(np.isinf(flat)):
        mon.count("inf_bound")
    nc, nt = sp.p.n_ctrls, sp.p.n_ts
    bl = blist(lb, ub, nt, nc)
    if any((a is None) != (b is None) for a, b in bl):
        mon.count("one_sided")
    if unb:
        mon.count("unbounded")
    run = Run(sp).go()
    if run.exc is not None:
        if run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "bounded optimisation"):
            raise run.exc
        return
    judge(mon, run, lb, ub, "first run")
    trajectory(mon, run, bl, "first run")
    mon.sig(alg, sp.method, str(type(lb)), str(type(ub)), unb, sp.kw.get("init_pulse_type"), [(a is None, b is None) for a, b in bl[:nc]])
    # the start pulse of a control without bounds is that of the same call without any bounds
    free = [j for j in range(nc) if bl[j] == (None, None)]
    if not unb and free:
        import copy
        s2 = copy.copy(sp)
        s2.kw = {k: v for k, v in sp.kw.items() if not k.startswith("amp_")}
        r2 = Run(s2).go()
        if r2.exc is None:
            for j in free:
                mon.count("free_ctrl")
                mon.close(np.asarray(run.result.initial_amps)[:, j], np.asarray(r2.result.initial_amps)[:, j], "free_ctrl",
                          "start pulse of control %d, for which no bounds are given" % j, 1e-9, 1e-12)
    # bounds changed for a later run, or given per parameter
    if alg == "GRAPE" and gen.chance(rng, .5) and not run.kw.get("method_params", {}).get("approx_grad"):
        own = gen.chance(rng, .4)
        A = np.asarray(run.result.final_amps)
        if own:
            nb = []
            for x in A.reshape(-1):
                w = float(rng.uniform(.05, .6))
                nb.append(gen.pick(rng, [(x - w, x + w), (x - w, None), (None, x + w), (None, None), (x, x + w)]))
        else:
            l2 = [float(A[:, j].min() - rng.uniform(0, .5)) for j in range(nc)]
            u2 = [float(A[:, j].max() + rng.uniform(0.01, .5)) for j in range(nc)]
            nb = blist(l2, u2, nt, nc)

        def change(o):
            if own:
                o.bounds = list(nb)
            else:
                o.amp_lbound, o.amp_ubound = l2, u2
            o.termination_conditions.max_iterations = 10
        r3 = run.again(change)
        if r3.exc is not None:
            if r3.diverged():
                mon.count("diverged")
                return
            with mon.guard("rerun", "optimisation with other bounds"):
                raise r3.exc
            return
        mon.count("own_list" if own else "changed")
        for A in [np.asarray(r3.result.final_amps)] + r3.log.inner:
            v = A.reshape(-1)
            for i, (l, u) in enumerate(nb):
                mon.check((l is None or v[i] >= l - 1e-9) and (u is None or v[i] <= u + 1e-9), "own_bounds" if own else "changed_bounds",
                          lambda: "parameter %d is %s, its bounds for this run are %s" % (i, v[i], nb[i]))
        trajectory(mon, r3, nb, "changed bounds")
