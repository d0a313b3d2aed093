"""C14: dumped history is a faithful, complete, ordered record of the run."""
import copy
import numpy as np
from qutip import Qobj
from .. import gen, runs, dumps
from ..build import arr
from ..dumps import DumpRun, Cfg, OPT_FLAGS, DYN_FLAGS, ITEM

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: dump contents compared entry by entry with the event log of hooks on the running optimisation and with an independent propagation of the amplitudes in use at each evolution computation"
CASES = {"quick": 2500, "thorough": 30000}
NEED = {"runs": 1500, "evo_items": 8000, "later_runs": 600, "custom": 400, "full": 400, "level_switches": 200, "clears": 200, "opers": 20000, "tampered": 500}
RULE = ("random runs (all methods, routes, dynamics, measures) with every dump level on the optimiser and the dynamics, later runs with levels switched "
        "or dumps cleared in between; distinct = (dynamics, algorithm, method, measure, levels, run number)")
ASSUMPTIONS = ["times are virtual"]


def model_level(f, names):
    rest = [f[n] for n in names[1:]]
    if f["dump_summary"] and not any(rest):
        return "SUMMARY"
    if f["dump_summary"] and all(rest):
        return "FULL"
    return "CUSTOM"


def grad_cached(run):
    d = run.optim.dynamics
    return bool(d.prop_computer.grad_exact and d.cache_prop_grad)


def check_opt(mon, run, T, f, tag):
    d = run.optim.dump
    if not any(f.values()):
        if d is not None:
            mon.check(not (d.iter_summary or d.fid_err_log or d.grad_norm_log or d.grad_log), "opt_unwanted", "entries in an optimiser dump with everything off (%s)" % tag)
        return
    if not mon.check(d is not None, "opt_none", "no optimiser dump (%s)" % tag):
        return
    n = len(T.f) if f["dump_fid_err"] else 0
    if mon.check(len(d.fid_err_log) == n, "fid_err_count", lambda: "fid_err_log has %d entries, expected %d (%s)" % (len(d.fid_err_log), n, tag)) and n:
        mon.check([float(x) for x in d.fid_err_log] == T.f, "fid_err_values", lambda: "fid_err_log %s, evaluations gave %s (%s)" % (d.fid_err_log[:5], T.f[:5], tag))
    n = len(T.g) if f["dump_grad_norm"] else 0
    if mon.check(len(d.grad_norm_log) == n, "grad_norm_count", lambda: "grad_norm_log has %d entries, expected %d (%s)" % (len(d.grad_norm_log), n, tag)) and n:
        mon.close(np.array(d.grad_norm_log, float), np.array([np.linalg.norm(g) for g in T.g]), "grad_norm_values", "grad_norm_log (%s)" % tag, 1e-9, 1e-12)
    n = len(T.g) if f["dump_grad"] else 0
    if mon.check(len(d.grad_log) == n, "grad_count", lambda: "grad_log has %d entries, expected %d (%s)" % (len(d.grad_log), n, tag)):
        for i in range(n):
            mon.check(np.array_equal(np.asarray(d.grad_log[i]), T.g[i]), "grad_values", lambda: "grad_log[%d] is not the gradient of that call (%s)" % (i, tag))
    n = len(T.it) if f["dump_summary"] else 0
    if mon.check(len(d.iter_summary) == n, "summary_count", lambda: "iter_summary has %d entries, %d iterations (%s)" % (len(d.iter_summary), n, tag)):
        for i in range(n):
            s, w = d.iter_summary[i], T.it[i]
            mon.check(s.idx == i, "summary_idx", lambda: "iter_summary[%d].idx is %s (%s)" % (i, s.idx, tag))
            got = (s.iter_num, s.fid_func_call_num, s.grad_func_call_num or 0, s.fid_err)
            mon.check(got == (w["iter_num"], w["nf"], w["ng"], w["err"]), "summary_values", lambda: "iter_summary[%d] (iter, f calls, g calls, err) %s, expected %s (%s)" % (
                i, got, (w["iter_num"], w["nf"], w["ng"], w["err"]), tag))
            if w["gn"] is None:
                mon.check(s.grad_norm is None, "summary_gn", lambda: "iter_summary[%d].grad_norm %s with no gradient call (%s)" % (i, s.grad_norm, tag))
            else:
                mon.close(float(s.grad_norm), w["gn"], "summary_gn", "iter_summary[%d].grad_norm (%s)" % (i, tag), 1e-9, 1e-12)
            mon.check(abs(s.wall_time - (w["t"] - w["t0"])) <= w["slack"] + 1e-9, "summary_time",
                      lambda: "iter_summary[%d].wall_time %s, expected %s (%s)" % (i, s.wall_time, w["t"] - w["t0"], tag))
    mon.check(d.level == model_level(f, OPT_FLAGS), "opt_level", lambda: "optimiser dump level reads %s with %s (%s)" % (d.level, f, tag))


def check_dyn(mon, run, T, f, tag, rng, limit=12):
    d = run.optim.dynamics.dump
    if not any(f.values()):
        if d is not None:
            mon.check(not (d.evo_dumps or d.evo_summary), "dyn_unwanted", "entries in a dynamics dump with everything off (%s)" % tag)
        return
    if not mon.check(d is not None, "dyn_none", "no dynamics dump (%s)" % tag):
        return
    dyn = run.optim.dynamics
    anything = any(f[n] for n in DYN_FLAGS[1:])
    n = len(T.evo) if f["dump_summary"] else 0
    if mon.check(len(d.evo_summary) == n, "evo_summary_count", lambda: "evo_summary has %d entries, %d recomputations (%s)" % (len(d.evo_summary), n, tag)):
        for i in range(n):
            s, e = d.evo_summary[i], T.evo[i]
            mon.check(s.idx == i, "evo_summary_idx", lambda: "evo_summary[%d].idx is %s (%s)" % (i, s.idx, tag))
            mon.check(s.evo_dump_idx == (i if anything else None), "evo_link", lambda: "evo_summary[%d] links item %s (%s)" % (i, s.evo_dump_idx, tag))
            if dyn.stats is not None and e["in_run"]:
                got = (s.iter_num, s.fid_func_call_num, s.grad_func_call_num)
                mon.check(got == (e["nit"], e["nf"], e["ng"]), "evo_summary_calls", lambda: "evo_summary[%d] calls %s, expected %s (%s)" % (i, got, (e["nit"], e["nf"], e["ng"]), tag))
            if i and e["in_run"] and T.evo[i - 1]["in_run"] and e["run"] == T.evo[i - 1]["run"]:
                ch = T.evo[i - 1]["amps"] != e["amps"]
                got = (int(s.num_amps_changed), int(s.num_timeslots_changed))
                mon.check(got == (int(ch.sum()), int(ch.any(axis=1).sum())), "evo_summary_changes", lambda: "evo_summary[%d] changes %s, expected %s (%s)" % (
                    i, got, (int(ch.sum()), int(ch.any(axis=1).sum())), tag))
            ts = [s.wall_time_dyn_gen_compute, s.wall_time_prop_compute, s.wall_time_fwd_prop_compute, s.wall_time_onwd_prop_compute]
            mon.check(all(np.isfinite(t) and t >= 0 for t in ts), "evo_times", lambda: "evo_summary[%d] times %s (%s)" % (i, ts, tag))
    n = len(T.evo) if anything else 0
    if not mon.check(len(d.evo_dumps) == n, "evo_count", lambda: "%d dump items, %d recomputations (%s)" % (len(d.evo_dumps), n, tag)):
        return
    fid_unit = run.sp.measure in ("PSU", "SU")
    td_exact = run.sp.kw.get("fid_type") == "TRACEDIFF"
    idx = list(range(n))
    if n > limit:
        idx = sorted(set([0, 1, n - 1, n - 2] + [int(x) for x in rng.choice(n, limit - 4, replace=False)]))
    for i in idx:
        it, e = d.evo_dumps[i], T.evo[i]
        mon.count("evo_items")
        mon.check(it.idx == i, "item_idx", lambda: "evo_dumps[%d].idx is %s (%s)" % (i, it.idx, tag))
        ref = None
        for fl, at in ITEM.items():
            v = getattr(it, at)
            if not f[fl]:
                mon.check(v is None, "item_unwanted", lambda: "evo_dumps[%d].%s recorded though %s is off (%s)" % (i, at, fl, tag))
                continue
            if at == "ctrl_amps":
                mon.check(v is not None and np.array_equal(np.asarray(v), e["amps"]), "item_amps", lambda: "evo_dumps[%d].ctrl_amps are not the amplitudes of that moment (%s)" % (i, tag))
                continue
            need = True
            if at == "prop_grad":
                need = grad_cached(run)
            elif at == "onwd_evo":
                need = td_exact
            elif at == "onto_evo":
                need = fid_unit
            if v is None:
                mon.check(not need, "item_missing", lambda: "evo_dumps[%d].%s not recorded though %s is on (%s)" % (i, at, fl, tag))
                continue
            if ref is None:
                ref = dumps.expected_item(run, e)
                # a search may wander off to amplitudes of 1e10, where the phases of
                # the exponential are only known to (generator x duration) x eps
                slack = 1e-13 * sum(np.linalg.norm(g) * t for g, t in zip(ref.gen, ref.tau))
            nt, nc = run.sp.p.n_ts, run.sp.p.n_ctrls
            if at == "prop_grad":
                if not need:
                    continue
                if mon.check(np.shape(v)[:2] == (nt, nc), "item_shape", lambda: "prop_grad of item %d has shape %s (%s)" % (i, np.shape(v), tag)):
                    k, j = int(rng.integers(nt)), int(rng.integers(nc))
                    mon.close(arr(v[k, j]), ref.prop_grad(k, j), "item_prop_grad", "evo_dumps[%d].prop_grad[%d,%d] (%s)" % (i, k, j, tag), 1e-6 + slack, 1e-7 + slack)
                continue
            want = {"dyn_gen": lambda: ref.gen, "prop": lambda: ref.prop, "fwd_evo": lambda: ref.fwd, "onwd_evo": lambda: ref.onwd,
                    "onto_evo": lambda: dumps.onto_of(ref)}[at]()
            if not mon.check(len(v) == len(want), "item_length", lambda: "evo_dumps[%d].%s has %d entries, expected %d (%s)" % (i, at, len(v), len(want), tag)):
                continue
            for k in range(len(want)):
                mon.count("opers")
                lo = 0.0 if at == "dyn_gen" else slack
                if not mon.close(arr(v[k]), want[k], "item_" + at, "evo_dumps[%d].%s[%d] (%s)" % (i, at, k, tag), 1e-7 + lo, 1e-8 + lo):
                    break
    used = [n for n in DYN_FLAGS if not (n == "dump_onwd_evo" and fid_unit or n == "dump_onto_evo" and not fid_unit)]
    mon.check(d.level in (model_level(f, DYN_FLAGS), model_level(f, used) if f["dump_summary"] and any(f[n] for n in used[1:]) else None), "dyn_level", lambda: "dynamics dump level reads %s with %s (%s)" % (d.level, f, tag))


def freeze(run):
    """Values of everything recorded so far."""
    out = []
    o = run.optim
    if o.dump is not None:
        d = o.dump
        out.append(("fid", [float(x) for x in d.fid_err_log]))
        out.append(("gn", [float(x) for x in d.grad_norm_log]))
        out.append(("g", [np.array(x).tolist() for x in d.grad_log]))
        out.append(("it", [dict(vars(s)) for s in d.iter_summary]))
    d = o.dynamics.dump
    if d is not None:
        out.append(("ev", [dict(vars(s)) for s in d.evo_summary]))
        out.append(("items", [{a: copy.deepcopy([arr(x).tolist() if not np.ndim(x) == 0 or isinstance(x, Qobj) else None for x in np.asarray(getattr(i, a), dtype=object).flat])
                               if a not in ("ctrl_amps",) and getattr(i, a) is not None else np.array(getattr(i, a)).tolist()
                               for a in ITEM.values()} for i in d.evo_dumps]))
    return out


def prefix(a, b):
    """every list of a is a prefix of the list in b"""
    da, db = dict(a), dict(b)
    for k in da:
        if k in db and repr(db[k][:len(da[k])]) != repr(da[k]):
            return k
    return None


def case(mon, rng, idx, tier):
    sp = runs.spec(rng, max_ts=4, max_ctrls=2)
    sp.kw["max_iter"] = min(sp.kw["max_iter"], 12)
    if sp.dt == 0.0:
        sp.kw["max_wall_time"] = 1e9
    sp.kw["gen_stats"] = gen.chance(rng, .5)
    late = gen.chance(rng, .4)
    ol = gen.pick(rng, ["NONE", "SUMMARY", "FULL", "FULL", "CUSTOM", "CUSTOM"])
    dl = gen.pick(rng, ["NONE", "SUMMARY", "FULL", "FULL", "CUSTOM", "CUSTOM"])
    if "CUSTOM" in (ol, dl):
        sp.route = "steps"
    if late:
        sp.route = "steps"
    oc, dc = Cfg(OPT_FLAGS, ol, rng), Cfg(DYN_FLAGS, dl, rng)
    step = gen.pick(rng, [0.0, 1e-3])
    mon.note(ol=ol, dl=dl, late=late, step=step, of=str(oc.flags), df=str(dc.flags), **sp.describe())
    if "CUSTOM" in (ol, dl):
        mon.count("custom")
    if "FULL" in (ol, dl):
        mon.count("full")
    run = DumpRun(sp, oc, dc, late=late, clock_step=step)
    run.go()
    if run.exc is not None:
        if run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "optimisation with dumping"):
            raise run.exc
        return
    if run.diverged():
        mon.count("diverged")
        return
    T = run.truth
    fo, fd = dict(oc.flags), dict(dc.flags)

    def finish(tag, r, n0):
        # complete the iteration and evolution records with the run they belong to
        for e in T.it[n0[0]:]:
            e["t0"], e["slack"] = r.log.run_t0, step * 12
        for e in T.evo[n0[1]:]:
            e["run"] = tag
        check_opt(mon, run, T, fo, tag)
        check_dyn(mon, run, T, fd, tag, rng)
        mon.count("runs")
        mon.sig(sp.p.kind, sp.alg, sp.method, sp.measure, ol, dl, tag, sp.kw.get("prop_type"))

    finish("run1", run, (0, 0))
    o = run.optim
    for rep in range(2, 2 + int(rng.integers(0, 3))):
        # between runs: switch levels, clear, tamper with live objects
        for obj, names, which in ((o, OPT_FLAGS, "o"), (o.dynamics, DYN_FLAGS, "d")):
            act = gen.pick(rng, ["keep", "keep", "level", "clear", "custom_same"])
            cur = fo if which == "o" else fd
            if act == "level" and any(cur.values()):
                lv = gen.pick(rng, ["SUMMARY", "FULL", "CUSTOM", "full", "summary"])
                # entries of categories already recorded stay; start afresh so that counts are comparable
                before_switch = gen.chance(rng, .5)
                if before_switch:
                    obj.dump.clear()
                was = obj.dumping
                obj.dumping = lv
                if not before_switch:
                    obj.dump.clear()
                clear(T, which)
                d = obj.dump
                left = (d.iter_summary, d.fid_err_log, d.grad_norm_log, d.grad_log) if which == "o" else (d.evo_dumps, d.evo_summary)
                mon.check(not any(left), "clear_level", lambda: "entries left after clear() and switching from %s to %s" % (was, lv))
                new = dumps.flags(names, lv.upper())
                if lv == "CUSTOM":
                    if (oc if which == "o" else dc).level == "CUSTOM":
                        new = dict(cur)
                    else:
                        mon.check(obj.dumping == "SUMMARY", "custom_start", lambda: "first switch to CUSTOM from %s gives %s" % (was, obj.dumping))
                        n = names[int(rng.integers(1, len(names)))]
                        setattr(obj.dump, n, True)
                        new[n] = True
                        obj.dumping = "CUSTOM"
                (oc if which == "o" else dc).level = lv.upper()
                for n in names:
                    mon.check(bool(getattr(obj.dump, n)) == new[n], "flags", lambda: "%s is %s after switching from %s to %s" % (n, getattr(obj.dump, n), was, lv))
                cur.update(new)
                mon.count("level_switches")
            elif act == "clear" and obj.dump is not None:
                obj.dump.clear()
                clear(T, which)
                d = obj.dump
                left = (d.iter_summary, d.fid_err_log, d.grad_norm_log, d.grad_log) if which == "o" else (d.evo_dumps, d.evo_summary)
                mon.check(not any(left), "clear", "entries left after clear()")
                mon.count("clears")
        before = freeze(run)
        kick = gen.chance(rng, .6) and sp.alg == "GRAPE"

        def change(o):
            if kick:
                A = np.array(o.dynamics.ctrl_amps)
                o.dynamics.update_ctrl_amps(A * .7 + .02)
                A += 99.0
                mon.count("tampered")
            o.termination_conditions.max_iterations = int(rng.integers(1, 6))
        n0 = (len(T.it), len(T.evo))
        r = run.again(change)
        if r.exc is not None or r.diverged():
            if r.exc is None or r.diverged():
                mon.count("diverged")
                return
            with mon.guard("rerun", "later optimisation with dumping"):
                raise r.exc
            return
        mon.count("later_runs")
        k = prefix(before, freeze(run))
        mon.check(k is None, "changed_later", "recorded entries (%s) changed by a later run" % k)
        finish("run%d" % rep, r, n0)
    # results and live arrays may be modified by the user without altering the record
    before = freeze(run)
    dyn = o.dynamics
    for x in (dyn.ctrl_amps, getattr(run.result, "final_amps", None)):
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x += 1.0
    for name in ("full_evo", "fwd_evo", "prop", "dyn_gen"):
        v = getattr(dyn, name, None)
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x *= 2
    mon.count("tampered")
    k = prefix(before, freeze(run))
    mon.check(k is None, "aliased", "recorded entries (%s) change with live objects" % k)


def clear(T, which):
    if which == "o":
        T.f, T.g, T.it = [], [], []
    else:
        T.evo = []
