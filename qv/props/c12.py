"""C12: optimisation makes progress."""
import numpy as np
from qutip import Qobj
from .. import gen, build, runs
from ..gen import SX, SY, SZ, I2
from ..runs import Run, Spec

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: accepted iterates (iteration callbacks) and evaluations of every run recorded and judged offline by an independent evaluation of their errors"
CASES = {"quick": 1600, "thorough": 9000}
NEED = {"progress_runs": 300, "iterates": 1500, "solved": 60, "solve_cases": 60, "improved": 200, "polish": 40, "precision_loss": 4}
RULE = ("random GRAPE/CRAB runs that end by themselves: final error against the initial one and against the errors of all accepted "
        "iterates (all evaluations for the simplex methods), both recomputed independently; one case in eight is a small controllable "
        "problem which the default method has to solve in one of several random starts, one in eight has unreachable limits, so that "
        "the method ends by loss of precision (the outcome is then its last accepted point); distinct = (dynamics, method, measure, end)")
ASSUMPTIONS = ["finite-difference and approximate-gradient runs are judged to 1e-6", "SLSQP gives no monotonicity guarantee and is left out"]


RETURNS_ITERATE = runs.LBFGSB | {"FMIN_BFGS", "BFGS", "CG", "L-BFGS-B"}


def solve_problem(rng):
    """Small problems known to be free of traps for generous resources."""
    k = gen.pick(rng, ["q1", "q1", "q1state", "q2", "q1gen"])
    n_ts = int(rng.integers(8, 16))
    if k in ("q1", "q1state", "q1gen"):
        N, dims = 2, [[2], [2]]
        drift = SZ * float(rng.uniform(.1, 1)) + 0j
        ctrls = [SX * .5 + 0j, SY * .5 + 0j]
        T = float(rng.uniform(4, 9))
    else:
        N, dims = 4, [[2, 2], [2, 2]]
        drift = np.kron(SZ, SZ) * float(rng.uniform(.3, .6)) + 0j
        ctrls = [np.kron(SX, I2) * .5 + 0j, np.kron(SY, I2) * .5 + 0j, np.kron(I2, SX) * .5 + 0j, np.kron(I2, SY) * .5 + 0j]
        T = float(rng.uniform(14, 20))
        n_ts = int(rng.integers(24, 32))
    state = k == "q1state"
    if state:
        ini, tgt, idims = gen.ket(rng, N), gen.ket(rng, N), [[2], [1]]
    else:
        ini, tgt, idims = np.eye(N, dtype=complex), gen.haar(rng, N), dims
    kind = "UNIT"
    if k == "q1gen":
        kind = "GEN_MAT"
        drift, ctrls = gen.lindblad(drift, []), [gen.lindblad(c, []) for c in ctrls]
        tgt = np.kron(tgt.conj(), tgt)
        ini = np.eye(4, dtype=complex)
        dims = idims = [[[2], [2]], [[2], [2]]]
    tau = np.ones(n_ts) * T / n_ts
    return k, gen.Problem(kind=kind, drift=drift, ctrls=ctrls, tau=tau, td_drift=False, td_ctrl=False, state=state, flavour=k,
                          initial=ini, target=tgt, dims=dims, idims=idims)


def solve(mon, rng):
    k, p = solve_problem(rng)
    targ = 1e-5
    kw = dict(dyn_type=p.kind, tau=p.tau, fid_err_targ=targ, min_grad=1e-9, max_iter=300, max_wall_time=1e9,
              init_pulse_type=gen.pick(rng, ["DEF", "RND", "RNDWALK1", "RNDWAVES"]))
    measure = "PSU"
    if p.kind == "GEN_MAT":
        measure = "TD"
    elif gen.chance(rng, .2):
        kw["fid_params"] = {"phase_option": "PSU"}
    sp = Spec(p=p, alg="GRAPE", method="DEF", measure=measure, scale=None, kw=kw, dt=0.0, route="optimize", seed=int(rng.integers(2 ** 31)),
              amps=None, bounded=False)
    mon.note(problem=k, **sp.describe())
    mon.count("solve_cases")
    errs = []
    for t in range(3):
        sp.seed += 1
        r = Run(sp, hooks=hooks).go()
        if r.exc is not None:
            if r.diverged():
                mon.count("diverged")
                return
            with mon.guard("solve", "optimisation"):
                raise r.exc
            return
        judge(mon, r, "solve")
        errs.append(float(r.result.fid_err))
        if r.result.fid_err <= targ and r.result.goal_achieved:
            mon.count("solved")
            mon.count("solved_first", t == 0)
            mon.count("starts", t + 1)
            mon.close(r.err_at(r.result.final_amps), float(r.result.fid_err), "solved_err", "error of the solution", 1e-8, 1e-6)
            mon.sig("solve", k, kw["init_pulse_type"])
            return
    mon.fail("not_solved", "%s problem not solved from 3 random starts: errors %s" % (k, errs))


def judge(mon, run, tag):
    res, log, sp = run.result, run.log, run.sp
    if res.max_fid_func_exceeded or res.wall_time_limit_exceeded or sp.method == "SLSQP":
        return
    if any(e.k == "g" and e.exc is not None for e in log.ev):
        # stopped inside a line search, at a trial point with a small gradient
        mon.count("stopped_at_trial")
        return
    fd = run.kw.get("method_params", {}).get("approx_grad") or run.kw.get("prop_type") == "APPROX" or sp.alg == "CRAB"
    e0, e1 = run.err_at(res.initial_amps), run.err_at(res.final_amps)
    if not np.isfinite(e0) or e0 > 1e6:
        return
    tol = (1e-6 if fd else 1e-7) * max(1, e0)
    mon.count("progress_runs")
    mon.check(e1 <= e0 + tol, "worse", lambda: "final error %s is above the initial one %s (%s, %s)" % (e1, e0, res.termination_reason, tag))
    mon.check(float(res.fid_err) <= float(res.initial_fid_err) + tol, "worse_reported", lambda: "reported errors: initial %s final %s (%s)" % (
        res.initial_fid_err, res.fid_err, tag))
    if e1 < e0 - 1e-6:
        mon.count("improved")
    its = log.accepted
    errs = [run.err_at(A) for A in its[:40]]
    mon.count("iterates", len(errs))
    if errs:
        b = min(errs)
        if sp.method in RETURNS_ITERATE and sp.alg == "GRAPE" and all(e.exc is None for e in log.ev):
            # a run ended by the method itself: its outcome is the last accepted point
            mon.count("own_end")
            mon.count("precision_loss", "recision" in str(res.termination_reason))
            mon.check(np.array_equal(np.asarray(res.final_amps), its[-1]), "not_last_iterate", lambda: "final amplitudes are not those of the last accepted iterate, %.3g away (%s, %s)" % (
                np.abs(np.asarray(res.final_amps) - its[-1]).max(), res.termination_reason, tag))
        mon.check(e1 <= b + tol, "not_best_iterate", lambda: "final error %s, an accepted iterate had %s (%s, %s)" % (e1, b, res.termination_reason, tag))
    if sp.method in ("FMIN", "Nelder-Mead") or (sp.alg == "CRAB" and sp.method == "DEF"):
        vals = [e.val for e in log.of("f") if e.val is not None]
        mon.check(e1 <= min(vals) + 1e-6 * max(1, e0), "not_best_eval", lambda: "final error %s, but %s had been evaluated (%s)" % (e1, min(vals), tag))
    end = ("goal" if res.goal_achieved else "maxiter" if res.max_iter_exceeded else "grad" if res.grad_norm_min_reached else "conv")
    mon.count("end_" + end)
    mon.sig(sp.p.kind, sp.alg, sp.method, sp.measure, end)


def hooks(r, run, clock):
    run.log.accepted = []
    if run.sp.alg == "GRAPE":
        def it(o, a, k, ret=None):
            x = np.array(a[0], dtype=float)
            if x.size == o.dynamics.ctrl_amps.size:
                run.log.accepted.append(x.reshape(o.dynamics.ctrl_amps.shape))
        r.on_before("iter_step_callback_func", lambda o, a, k: it(o, a, k))


def case(mon, rng, idx, tier):
    if idx % 8 == 0:
        solve(mon, rng)
        return
    sp = runs.spec(rng, max_ts=8)
    sp.kw.get("method_params", {}).pop("max_fid_func_calls", None)
    sp.dt, sp.kw["max_wall_time"] = 0.0, 1e9
    if sp.p.kind == "GEN_MAT" and sp.p.flavour == "real":
        sp.kw["pulse_scaling"], sp.kw["pulse_offset"] = .2, 0.0
    if idx % 8 == 1 and sp.alg == "GRAPE":
        # unreachable limits: the method itself has to find that there is no way down
        sp.kw.update(fid_err_targ=-1.0, min_grad=1e-16, max_iter=400)
        mon.count("polish")
    mon.note(**sp.describe())
    run = Run(sp, hooks=hooks).go()
    if run.exc is not None:
        if run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "optimisation"):
            raise run.exc
        return
    judge(mon, run, "run")

