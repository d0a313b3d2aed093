"""C09: the result of a run is true."""
import numpy as np
from qutip import Qobj
from .. import gen, build, runs
from ..runs import Run, snapshot, same

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: event log of every optimisation run (fidelity, gradient and iteration calls on a virtual clock) checked offline against the returned result and a reference model"
CASES = {"quick": 2400, "thorough": 20000}
NEED = {"runs": 200, "second_runs": 30, "with_gradient": 60, "crab": 30, "ended_goal": 5, "ended_wall": 5, "ended_maxfid": 5,
        "ended_self": 30, "qobj_evo": 100}
RULE = ("random runs over dynamics types, GRAPE/CRAB, ten optimisation methods, bounds, limits (including virtual wall time) and both "
        "entry routes, followed by a second run with changed limits or pulse; each result is compared with an independent evolution "
        "under its own amplitudes and with the event log; distinct = (dynamics, algorithm, method, measure, way the run ended)")
ASSUMPTIONS = ["final gradient norm is only judged when the run evaluated a gradient"]


def judge(mon, run, tag):
    sp, log, res = run.sp, run.log, run.result
    o = run.optim
    d = o.dynamics
    A0, A1 = np.asarray(res.initial_amps), np.asarray(res.final_amps)
    if run.diverged():
        mon.count("diverged")
        return
    mon.count("runs")
    # evolutions
    for which, A, evo, err in (("initial", A0, res.evo_full_initial, res.initial_fid_err),
                               ("final", A1, res.evo_full_final, res.fid_err)):
        ref = run.ref(A)
        want = ref.fid_err(sp.measure, sp.scale)
        tol = 2e-6 * max(1.0, abs(want))
        mon.close(build.arr(evo), ref.final, which + "_evo", "%s evolution against evolving the %s amplitudes (%s)" % (which, which, tag), 3e-6, 1e-8)
        mon.close(float(err), want, which + "_fid_err", "%s fidelity error against evolving the %s amplitudes (%s)" % (which, which, tag), 1e-8, tol)
        if isinstance(evo, Qobj):
            mon.count("qobj_evo")
            mon.check(evo.dims[0] == sp.p.idims[0], which + "_evo_dims", lambda: "%s evolution has dims %s, system %s (%s)" % (which, evo.dims, sp.p.idims, tag))
        else:
            mon.fail(which + "_evo_type", "%s evolution is a %s, not a quantum object (%s)" % (which, type(evo).__name__, tag))
    mon.close(float(res.fidelity), 1 - float(res.fid_err), "fidelity", "fidelity against 1 - fidelity error (%s)" % tag, 1e-12, 1e-12)
    # log
    f, g, it = log.of("f"), log.of("g"), log.of("it")
    if log.start_amps is not None:
        mon.check(np.array_equal(A0, log.start_amps), "initial_amps", "initial amplitudes are not those the run started from (%s)" % tag)
    if f:
        mon.check(np.allclose(f[0].amps, A0, rtol=1e-12, atol=1e-12) or bool(run.sp.bounded), "first_eval",
                  "first evaluation is not at the initial amplitudes (%s)" % tag)
        mon.check(any(np.array_equal(A1, e.amps) for e in f + g) or any(np.allclose(A1, e.amps, rtol=1e-9, atol=1e-12) for e in f + g),
                  "final_not_evaluated", "final amplitudes were never evaluated (%s)" % tag)
        for e in f[:3] + f[-3:]:
            if e.val is not None and np.isfinite(e.val):
                mon.close(e.val, run.err_at(e.amps), "eval_value", "fidelity error handed to the method (%s)" % tag, 1e-8, 3e-6)
    mon.check(res.num_fid_func_calls == len(f), "num_fid_calls", lambda: "%s fidelity calls reported, %d made (%s)" % (res.num_fid_func_calls, len(f), tag))
    mon.check(res.num_iter == len(it), "num_iter", lambda: "%s iterations reported, %d completed (%s)" % (res.num_iter, len(it), tag))
    done = [e for e in g]
    if done:
        mon.count("with_gradient")
        norms = [e.norm for e in done if e.norm is not None]
        mon.check(any(n == res.grad_norm_final or abs(n - res.grad_norm_final) <= 1e-9 + 1e-9 * abs(n) for n in norms), "grad_norm",
                  lambda: "final gradient norm %s is not the norm at any evaluated point %s (%s)" % (res.grad_norm_final, norms[-4:], tag))
    t = np.asarray(res.time, dtype=float)
    mon.check(t.shape == (len(sp.p.tau) + 1,) and t[0] == 0, "time_shape", lambda: "time array %s for %d slots (%s)" % (t.shape, len(sp.p.tau), tag))
    mon.close(np.diff(t), np.asarray(sp.p.tau), "time", "time array of the result (%s)" % tag, 1e-9, 1e-10)
    mon.check(res.wall_time >= 0 and abs(res.wall_time - (log.run_t1 - log.run_t0)) <= 1e-6 + 1e-9 * abs(res.wall_time), "wall_time",
              lambda: "wall time %s, elapsed %s (%s)" % (res.wall_time, log.run_t1 - log.run_t0, tag))
    mon.check(not np.shares_memory(res.initial_amps, res.final_amps), "amps_alias", "initial and final amplitudes of the result are one array (%s)" % tag)
    # state of the optimiser afterwards
    mon.check(res.optimizer is o, "optimizer_ref", "result.optimizer is not the optimiser (%s)" % tag)
    mon.check(np.array_equal(np.asarray(d.ctrl_amps), A1), "state_amps", "dynamics hold other amplitudes than the result (%s)" % tag)
    mon.check(o.num_iter == res.num_iter and o.num_fid_func_calls == res.num_fid_func_calls and o.num_grad_func_calls == len(g),
              "state_counts", lambda: "optimiser counts %s differ from the result/log (%s)" % ((o.num_iter, o.num_fid_func_calls, o.num_grad_func_calls), tag))
    mon.close(float(d.fid_computer.get_fid_err()), float(res.fid_err), "state_err", "fidelity error of the dynamics afterwards (%s)" % tag, 1e-12, 1e-12)
    how = ("goal" if res.goal_achieved else "wall" if res.wall_time_limit_exceeded else "maxfid" if res.max_fid_func_exceeded
           else "grad" if res.grad_norm_min_reached else "self")
    mon.count("ended_" + how)
    if how == "grad":
        mon.count("ended_self")
    mon.sig(sp.p.kind, sp.alg, sp.method, sp.measure, how, sp.route)


def case(mon, rng, idx, tier):
    sp = runs.spec(rng)
    sp.kw["gen_stats"] = gen.chance(rng, .3)
    mon.note(**sp.describe())
    run = Run(sp, clock_step=0.0).go()
    if sp.alg == "CRAB":
        mon.count("crab")
    if run.exc is not None:
        if run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "optimisation"):
            raise run.exc
        return
    judge(mon, run, "first run")
    for rep in range(1 if tier == "quick" else 3):
        if not gen.chance(rng, .5):
            break
        snap = snapshot(run.result)
        oldamps = run.result.final_amps
        what = gen.pick(rng, ["limits", "amps", "nothing"])

        def change(o):
            tc = o.termination_conditions
            if what == "limits":
                tc.fid_err_targ = gen.pick(rng, [1e-12, 1e-4])
                tc.max_iterations = int(rng.integers(1, 15))
            elif what == "amps" and sp.alg != "CRAB":
                b = np.array(run.result.final_amps) * .5 + .01
                o.dynamics.initialize_controls(b) if gen.chance(rng, .5) else o.dynamics.update_ctrl_amps(b)
        nxt = run.again(change)
        if nxt.exc is not None:
            if nxt.diverged():
                mon.count("diverged")
                return
            with mon.guard("rerun", "second optimisation"):
                raise nxt.exc
            return
        mon.count("second_runs")
        bad = same(snap, snapshot(run.result))
        mon.check(bad is None, "earlier_result", "result already returned was changed by a later run: %s (%s)" % (bad, what))
        judge(mon, nxt, "later run after %s" % what)
        run = nxt
