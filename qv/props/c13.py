"""C13: statistics count what happened."""
import copy, io, re, contextlib
import numpy as np
from .. import gen, build, runs
import qutip_qtrl.stats as qstats
from ..runs import Run

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: statistics of every run compared with counts taken by hooks on the running code and with a shadow state machine of what had to be recomputed, on a virtual clock"
CASES = {"quick": 2000, "thorough": 9000}
NEED = {"runs": 600, "later_runs": 200, "crab": 80, "with_grad": 200, "reports": 100, "goal_at_start": 5, "direct": 100, "averages": 300, "percentages": 500}
RULE = ("random runs with statistics on (all methods, limits and both routes) and one or two later runs on the same optimiser; counters, "
        "averages, times and the printed report against hook counts, a shadow model of cached values and the virtual clock; distinct = "
        "(dynamics, algorithm, method, measure, run number)")
ASSUMPTIONS = ["times are virtual: every reading of a clock by the library advances it by one step"]
COUNTS = ["num_iter", "num_fidelity_func_calls", "num_grad_func_calls", "num_tslot_recompute", "num_fidelity_computes", "num_grad_computes",
          "num_ctrl_amp_updates", "num_ctrl_amp_changes", "num_timeslot_changes"]
TIMES = ["wall_time_optim_start", "wall_time_optim_end", "wall_time_optim", "wall_time_dyn_gen_compute", "wall_time_prop_compute",
         "wall_time_fwd_prop_compute", "wall_time_onwd_prop_compute", "wall_time_gradient_compute"]


def shadow(seq, measure, dirty):
    """(recomputes, fidelity computes, gradient computes) that had to happen."""
    evo = fid = grad = not dirty
    if dirty is None:
        evo, fid, grad = True, True, False
    n = [0, 0, 0]

    def need_evo():
        nonlocal evo
        if not evo:
            n[0] += 1
            evo = True

    def need_fid():
        nonlocal fid
        if not fid:
            need_evo()
            n[1] += 1
            fid = True
    for k, c in seq:
        if k == "u" and c:
            evo = fid = grad = False
        elif k == "f":
            need_fid()
        elif k == "g" and not grad:
            need_evo()
            if measure in ("PSU", "SU"):
                need_fid()
            n[2] += 1
            grad = True
    return n


def judge(mon, run, tag, dirty, step):
    if run.diverged():
        mon.count("diverged")
        return
    mon.count("runs")
    res, log, sp = run.result, run.log, run.sp
    st = res.stats
    if not mon.check(st is not None, "no_stats", "no statistics in the result (%s)" % tag):
        return
    f, g, it = log.of("f"), log.of("g"), log.of("it")
    if g:
        mon.count("with_grad")
    ch = [u for u in log.updates if u[0]]
    want = dict(num_iter=len(it), num_fidelity_func_calls=len(f), num_grad_func_calls=len(g), num_tslot_recompute=log.recomputes,
                num_ctrl_amp_updates=len(ch), num_ctrl_amp_changes=sum(u[0] for u in ch), num_timeslot_changes=sum(u[1] for u in ch))
    if dirty is not None:
        n = shadow(log.seq, sp.measure, dirty)
        want["num_tslot_recompute"], want["num_fidelity_computes"], want["num_grad_computes"] = n
        mon.check(log.recomputes == n[0], "recomputed", lambda: "evolution recomputed %d times, %d were needed (%s)" % (log.recomputes, n[0], tag))
    for k in COUNTS:
        if k in want:
            v = getattr(st, k)
            mon.check(int(v) == v and int(v) == want[k], k, lambda: "%s is %s, %d happened (%s)" % (k, v, want[k], tag))
    for mean, tot, cnt in (("mean_num_ctrl_amp_updates_per_iter", "num_ctrl_amp_updates", "num_iter"),
                           ("mean_num_timeslot_changes_per_update", "num_timeslot_changes", "num_ctrl_amp_updates"),
                           ("mean_num_ctrl_amp_changes_per_update", "num_ctrl_amp_changes", "num_ctrl_amp_updates")):
        v, c = getattr(st, mean), want[cnt]
        if c:
            mon.close(float(v), want[tot] / float(c), mean, "%s (%s)" % (mean, tag), 1e-12, 1e-12)
        else:
            mon.check(not (np.isfinite(v) and v != 0), mean, lambda: "%s is %s with no %s (%s)" % (mean, v, cnt, tag))
    # times
    for k in TIMES:
        v = getattr(st, k)
        mon.check(np.isfinite(v) and v >= 0, k, lambda: "%s is %s (%s)" % (k, v, tag))
    tot = st.wall_time_optim
    eps = 1e-6
    mon.check(abs(tot - (st.wall_time_optim_end - st.wall_time_optim_start)) < eps, "wall_time", lambda: "wall_time_optim %s is not end - start %s (%s)" % (
        tot, st.wall_time_optim_end - st.wall_time_optim_start, tag))
    mon.check(log.run_t0 - eps <= st.wall_time_optim_start <= st.wall_time_optim_end <= log.run_t1 + eps, "wall_window",
              lambda: "start/end %s %s outside the run %s %s (%s)" % (st.wall_time_optim_start, st.wall_time_optim_end, log.run_t0, log.run_t1, tag))
    mon.check(abs(tot - res.wall_time) < eps, "wall_time_result", lambda: "stats say %s, result %s (%s)" % (tot, res.wall_time, tag))
    evo = [st.wall_time_dyn_gen_compute, st.wall_time_prop_compute, st.wall_time_fwd_prop_compute, st.wall_time_onwd_prop_compute]
    mon.check(sum(evo) + st.wall_time_gradient_compute <= tot + eps, "component_sum", lambda: "component times %s + %s exceed the total %s (%s)" % (
        evo, st.wall_time_gradient_compute, tot, tag))
    mon.check(sum(evo) <= log.t_recompute + eps, "evo_sum", lambda: "evolution times %s exceed the time spent recomputing %s (%s)" % (evo, log.t_recompute, tag))
    mon.check(st.wall_time_gradient_compute <= log.t_grad + eps, "grad_time", lambda: "gradient time %s exceeds %s (%s)" % (st.wall_time_gradient_compute, log.t_grad, tag))
    if step:
        for v, k in zip(evo, ("dyn_gen", "prop", "fwd", "onwd")):
            mon.check(v >= step * log.recomputes - eps, "time_lost_" + k, lambda: "%s time %s for %d recomputations of at least %s each (%s)" % (k, v, log.recomputes, step, tag))
        if dirty is not None:
            mon.check(st.wall_time_gradient_compute >= step * want["num_grad_computes"] - eps, "time_lost_grad", lambda: "gradient time %s for %d computations (%s)" % (
                st.wall_time_gradient_compute, want["num_grad_computes"], tag))
    mon.check(st.num_iter == res.num_iter and st.num_fidelity_func_calls == res.num_fid_func_calls, "result_counts", "statistics and result disagree (%s)" % tag)
    # working the averages out again (as before a further report) changes nothing
    again = copy.copy(st)
    for _ in range(2):
        again.calculate()
    for k, v in vars(st).items():
        w = getattr(again, k)
        mon.check(w == v or (w != w and v != v), "calculate_again", lambda: "%s becomes %s when calculated again, it was %s (%s)" % (k, w, v, tag))
    o = run.optim
    mon.check(o.stats is not None and all(getattr(o.stats, k) == getattr(st, k) for k in COUNTS), "optim_stats", "statistics of the optimiser differ from those of the result (%s)" % tag)
    mon.sig(sp.p.kind, sp.alg, sp.method, sp.measure, tag)


def report(mon, st):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        st.report()
    txt = buf.getvalue()
    mon.count("reports")
    for pat, k in (("Number of iterations", "num_iter"), ("Number of fidelity function calls", "num_fidelity_func_calls"),
                   ("Number of times fidelity is computed", "num_fidelity_computes"), ("Number of gradient function calls", "num_grad_func_calls"),
                   ("Number of times gradients are computed", "num_grad_computes"),
                   ("Number of times timeslot evolution is recomputed", "num_tslot_recompute"),
                   ("Number of control amplitude updates", "num_ctrl_amp_updates"), ("Number of timeslot values changed", "num_timeslot_changes"),
                   ("Number of amplitude values changed", "num_ctrl_amp_changes"),
                   ("Mean number of updates per iteration", "mean_num_ctrl_amp_updates_per_iter"),
                   ("Mean number of timeslot changes per update", "mean_num_timeslot_changes_per_update"),
                   ("Mean number of amplitude changes per update", "mean_num_ctrl_amp_changes_per_update")):
        m = re.search(re.escape(pat) + r": *(\S+)", txt)
        if mon.check(m is not None, "report_missing", "report has no line for %s" % k):
            v = float(m.group(1))
            w = float(getattr(st, k))
            mon.check(v == w or (v != v and w != w) or abs(v - w) <= 1e-6 * abs(w), "report_value", lambda: "report shows %s for %s, it is %s" % (v, k, w))
    timings(mon, st, txt)
    return txt


def timings(mon, st, txt):
    """The printed times (HH:MM:SS.US) and percentages of the whole."""
    tot = float(st.wall_time_optim)
    for pat, k in (("Total wall time elapsed during optimisation", "wall_time_optim"), ("Wall time computing Hamiltonians", "wall_time_dyn_gen_compute"),
                   ("Wall time computing propagators", "wall_time_prop_compute"), ("Wall time computing forward propagation", "wall_time_fwd_prop_compute"),
                   ("Wall time computing onward propagation", "wall_time_onwd_prop_compute"), ("Wall time computing gradient", "wall_time_gradient_compute")):
        m = re.search(re.escape(pat) + r": *(?:(\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)(?: \(([\d.]+)%\))?", txt)
        w = float(getattr(st, k))
        if mon.check(m is not None, "report_missing", "report has no line for %s" % k):
            v = int(m.group(1) or 0) * 86400 + int(m.group(2)) * 3600 + int(m.group(3)) * 60 + float(m.group(4))
            mon.check(abs(v - w) <= 2e-6 + 1e-9 * w, "report_time", lambda: "report shows %s for %s, it is %s s" % (m.group(0), k, w))
            if m.group(5) is not None:
                mon.count("percentages")
                mon.check(tot > 0 and abs(float(m.group(5)) - 100 * w / tot) <= .0051, "report_percent", lambda: "report shows %s%% for %s, it is %s of %s s" % (m.group(5), k, w, tot))


AVERAGES = {"mean_num_ctrl_amp_updates_per_iter": ("num_ctrl_amp_updates", "num_iter"),
            "mean_num_timeslot_changes_per_update": ("num_timeslot_changes", "num_ctrl_amp_updates"),
            "mean_num_ctrl_amp_changes_per_update": ("num_ctrl_amp_changes", "num_ctrl_amp_updates")}
DYN_AVERAGES = {}
for _k, _n in (("dyn_gen", "num_dyn_gen_computes"), ("prop", "num_prop_computes"), ("fwd_prop", "num_fwd_prop_step_computes"), ("onwd_prop", "num_onwd_prop_step_computes")):
    DYN_AVERAGES["mean_%s_per_update" % _n] = (_n, "num_ctrl_amp_updates")
    DYN_AVERAGES["mean_wall_time_%s_compute" % _k] = ("wall_time_%s_compute" % _k, _n)


def averages(mon, rng):
    """Averages and report of a statistics object holding any totals and counts."""
    dyn = gen.chance(rng, .5)
    st = (qstats.StatsDynTsUpdate if dyn else qstats.Stats)()
    avg = dict(AVERAGES, **(DYN_AVERAGES if dyn else {}))
    mon.note(part="averages", cls=type(st).__name__)
    for rep in range(2):
        if rep:
            # as new again
            fresh = vars(type(st)())
            st.clear() if not dyn else st.reset()
            for k, v in vars(st).items():
                mon.check(v == fresh[k] and (isinstance(v, str) or v == 0), "clear", lambda: "%s is %s in cleared statistics" % (k, v))
        for k in COUNTS:
            setattr(st, k, int(rng.integers(1, 500)))
        t = np.sort(rng.uniform(1, 90000, size=2))
        st.wall_time_optim_start, st.wall_time_optim_end = float(t[0]), float(t[1])
        T = t[1] - t[0]
        for k in ("dyn_gen", "prop", "fwd_prop", "onwd_prop", "gradient"):
            setattr(st, "wall_time_%s_compute" % k, float(T * rng.uniform(0, .2)))
        if dyn:
            for tot, n in DYN_AVERAGES.values():
                setattr(st, n if n != "num_ctrl_amp_updates" else tot, int(rng.integers(1, 500)))
        st.calculate()
        mon.check(abs(st.wall_time_optim - T) <= 1e-9 * t[1], "wall_time_optim", lambda: "total time %s from %s to %s" % (st.wall_time_optim, t[0], t[1]))
        for k, (tot, n) in avg.items():
            mon.close(float(getattr(st, k)), float(getattr(st, tot)) / float(getattr(st, n)), "average:" + k, k, 1e-12, 1e-13)
        mon.count("averages", len(avg))
        txt = report(mon, st)
        if dyn:
            low = txt.lower()
            for pat, k in (("total number of propagator computations", "num_prop_computes"), ("mean number of propagator computations per update", "mean_num_prop_computes_per_update"),
                           ("mean wall time to compute propagator", "mean_wall_time_prop_compute"),
                           ("total number of dynamics generator computations", "num_dyn_gen_computes"), ("mean number of dynamics generator computations per update", "mean_num_dyn_gen_computes_per_update"),
                           ("mean wall time to compute dynamics generators", "mean_wall_time_dyn_gen_compute"),
                           ("total number of forward propagation step computations", "num_fwd_prop_step_computes"),
                           ("mean number of forward propagation step computations per update", "mean_num_fwd_prop_step_computes_per_update"),
                           ("mean wall time to compute forward propagation", "mean_wall_time_fwd_prop_compute"),
                           ("total number of onward propagation step computations", "num_onwd_prop_step_computes"),
                           ("mean number of onward propagation step computations per update", "mean_num_onwd_prop_step_computes_per_update"),
                           ("mean wall time to compute onward propagation", "mean_wall_time_onwd_prop_compute")):
                m = re.search(re.escape(pat) + r":? *(\S+)", low)
                if mon.check(m is not None, "report_missing", "report has no line for %s" % k):
                    v, w = float(m.group(1)), float(getattr(st, k))
                    mon.check(abs(v - w) <= 1e-6 * abs(w), "report_value", lambda: "report shows %s for %s, it is %s" % (v, k, w))
    mon.sig("averages", dyn)


def direct(mon, rng):
    """Counters of a dynamics object that is queried without an optimiser."""
    p = gen.problem(rng, dims_small=True, max_ts=5)
    m = gen.pick(rng, ["PSU", "SU", "TD"] if p.kind == "UNIT" else ["TD", "TDAPPROX"])
    kw = dict(build.fid_kwargs(m), gen_stats=True)
    if gen.chance(rng, .3):
        kw["dyn_params"] = {"memory_optimization": 1}
    mon.note(part="direct", measure=m, **p.describe())
    A = gen.amps(rng, p)
    dyn = build.dyn(p, A, **kw)
    st, fc = dyn.stats, dyn.fid_computer
    mon.count("direct")
    st.clear()
    for k, v in vars(st).items():
        if k != "dyn_gen_name":
            mon.check(v == 0, "clear", lambda: "%s is %s after clear()" % (k, v))
    want = dict.fromkeys(COUNTS, 0)
    evo = fid = grad = None              # unknown whether cached at the start
    seq = []
    for i in range(int(rng.integers(3, 12))):
        act = gen.pick(rng, ["all", "one", "same", "fid", "fid", "grad", "evo", "infid"])
        if i == 0:
            act = "all"
        seq.append(act)
        if act in ("all", "one", "same"):
            B = A.copy()
            if act == "all":
                B = gen.amps(rng, p)
            elif act == "one":
                k, j = int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))
                B[k, j] += gen.pick(rng, [.5, 1e-9, -.3])
            d = A != B
            dyn.update_ctrl_amps(B)
            A = B
            want["num_ctrl_amp_changes"] += int(d.sum())
            want["num_timeslot_changes"] += int(d.any(axis=1).sum())
            if d.any():
                want["num_ctrl_amp_updates"] += 1
                evo = fid = grad = False
        elif evo is None:
            continue
        elif act == "evo":
            dyn.compute_evolution() if not evo else None
            want["num_tslot_recompute"] += not evo
            evo = True
        elif act in ("fid", "infid"):
            fc.get_fid_err()
            if not fid:
                want["num_tslot_recompute"] += not evo
                want["num_fidelity_computes"] += 1
                evo = fid = True
        else:
            fc.get_fid_err_gradient()
            if not grad:
                want["num_tslot_recompute"] += not evo
                evo = True
                if m in ("PSU", "SU") and not fid:
                    want["num_fidelity_computes"] += 1
                    fid = True
                if m != "TDAPPROX":
                    want["num_grad_computes"] += 1
                grad = True
    for k in COUNTS:
        if k == "num_grad_computes" and m == "TDAPPROX":
            continue
        v = getattr(st, k)
        mon.check(int(v) == want[k], "direct:" + k, lambda: "%s is %s, %d happened (%s)" % (k, v, want[k], seq))
    st.calculate()
    n = want["num_ctrl_amp_updates"]
    if n:
        mon.close(float(st.mean_num_timeslot_changes_per_update), want["num_timeslot_changes"] / n, "direct:mean_ts", "mean timeslot changes (%s)" % seq, 1e-12, 1e-12)
        mon.close(float(st.mean_num_ctrl_amp_changes_per_update), want["num_ctrl_amp_changes"] / n, "direct:mean_ca", "mean amplitude changes (%s)" % seq, 1e-12, 1e-12)
    mon.sig("direct", p.kind, m, tuple(sorted(set(seq))))


def case(mon, rng, idx, tier):
    if idx % 5 == 4:
        direct(mon, rng)
        return
    if idx % 13 == 3:
        averages(mon, rng)
        return
    sp = runs.spec(rng)
    sp.kw["gen_stats"] = True
    if gen.chance(rng, .05):
        sp.kw["fid_err_targ"] = 5.0
        mon.count("goal_at_start")
    if sp.dt == 0.0:
        sp.kw["max_wall_time"] = 1e9
    else:
        sp.kw["max_wall_time"] = float(sp.kw["max_wall_time"]) + 1
    step = gen.pick(rng, [0.0, 1e-2, 1e-2])
    mon.note(step=step, **sp.describe())
    if sp.alg == "CRAB":
        mon.count("crab")
    run = Run(sp, clock_step=step).go()
    if run.exc is not None:
        if run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "optimisation with statistics"):
            raise run.exc
        return
    judge(mon, run, "run1", True, step)
    if gen.chance(rng, .5):
        report(mon, run.result.stats)
    for rep in range(2, 2 + int(rng.integers(0, 3))):
        kick = gen.pick(rng, ["none", "update", "same", "init"])
        if sp.alg == "CRAB":
            kick = "none"

        def change(o):
            A = np.array(o.dynamics.ctrl_amps)
            if kick == "update":
                o.dynamics.update_ctrl_amps(A * .7 + .01)
            elif kick == "same":
                o.dynamics.update_ctrl_amps(A.copy())
            elif kick == "init":
                o.dynamics.initialize_controls(A * .7 + .01)
            o.termination_conditions.max_iterations = int(rng.integers(1, 12))
        # dirty: None = evolution and fidelity known, gradient perhaps
        nxt = run.again(change)
        if nxt.exc is not None:
            if nxt.diverged():
                mon.count("diverged")
                return
            with mon.guard("rerun", "later optimisation"):
                raise nxt.exc
            return
        mon.count("later_runs")
        judge(mon, nxt, "run%d" % rep, True if kick in ("update", "init") else None, step)
        if kick in ("none", "same"):
            n = shadow(nxt.log.seq, sp.measure, None)
            st = nxt.result.stats
            mon.check(nxt.result.stats.num_tslot_recompute == n[0] and st.num_fidelity_computes == n[1], "later_counts",
                      lambda: "recomputed %s, fidelity %s; needed %s" % (st.num_tslot_recompute, st.num_fidelity_computes, n))
            mon.check(n[2] - 1 <= st.num_grad_computes <= n[2], "later_grad", lambda: "gradient computes %s, needed %s" % (st.num_grad_computes, n[2]))
        run = nxt
