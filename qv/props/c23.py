"""C23: runs leave their inputs alone and are repeatable and independent."""
import copy, logging, os
import numpy as np
from qutip import Qobj
from .. import gen, build, instr, runs, faults
from .c19 import Prob as GrapeProb, options as grape_options
import qutip_qtrl.pulseoptim as po
import qutip_qtrl.pulsegen as pg
import qutip_qtrl.grape as gr
import qutip_qtrl.optimconfig as oc

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: deep snapshots (values, types, identities) of every argument around each call, of every returned array around later calls and later changes of the arguments, and twin executions of a run alone, after, nested within and alongside other runs"
CASES = {"quick": 3200, "thorough": 20000}
NEED = {"calls": 1500, "args": 10000, "mutations": 300, "repeats": 300, "nested": 150, "alongside": 150, "shared": 300, "grape": 150, "later_runs": 150, "guess_params": 60, "shared_method": 100, "interrupted": 100}
RULE = ("random calls of all entry points with every option dictionary present, sharing arguments, repeated in random histories and nested or interleaved with "
        "other optimisations; distinct = (entry point, dynamics, algorithm, method, history, shape of the arguments)")
ASSUMPTIONS = ["the random state is set before each run; no other thread runs"]


def deep(x, ids=True, seen=0):
    if isinstance(x, Qobj):
        return ("q", type(x.data).__name__, x.full().tobytes(), str(x.dims))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ao", x.shape, id(x) if ids else 0, tuple((id(v) if ids else 0, deep(v, ids)) for v in x.ravel()))
        return ("a", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple((id(v) if ids and isinstance(v, (Qobj, np.ndarray, list, dict)) else 0, deep(v, ids)) for v in x))
    if isinstance(x, dict):
        return ("d", tuple((k, deep(v, ids)) for k, v in x.items()))
    if isinstance(x, (int, float, complex, str, bool, type(None))):
        return (type(x).__name__, repr(x))
    return ("o", id(x))


def same_args(mon, before, after, what):
    mon.count("args", len(before))
    mon.count("oracle_checks", len(before))
    for n in before:
        if before[n] != after[n]:
            mon.fail("modified:" + str(n), "%s modified its argument %s: %s -> %s" % (what, n, str(before[n])[:160], str(after[n])[:160]))


def with_dicts(rng, sp):
    """Every option dictionary present, and list/array forms of the other arguments."""
    kw = sp.kw
    kw["method_params"] = dict(kw.get("method_params") or {})
    if gen.chance(rng, .5):
        kw["method_params"].update(gen.pick(rng, [{"max_metric_corr": 5}, {"accuracy_factor": 1e8}, {"fid_err_targ": 1e-3}, {"max_iter": 3}, {"disp_conv_msg": True}])
                                   if sp.method in runs.LBFGSB and sp.alg == "GRAPE" else {"fid_err_targ": 1e-3})
    kw["optim_params"] = gen.pick(rng, [{}, {"dumping": "SUMMARY"}, {"id_text": "x"}])
    kw["dyn_params"] = dict(kw.get("dyn_params") or {}, **gen.pick(rng, [{}, {"dumping": "SUMMARY"}, {"unitarity_check_level": 1}, {"id_text": "x"}]))
    kw["prop_params"] = gen.pick(rng, [{}, {"grad_exact": True}]) if kw.get("prop_type") not in (None, "DEF") and kw["prop_type"] != "APPROX" else {}
    kw["fid_params"] = dict(kw.get("fid_params") or {})
    kw["tslot_params"] = {}
    if sp.alg == "CRAB":
        kw["alg_params"] = dict(kw.get("alg_params") or {}, **gen.pick(rng, [{}, {"crab_pulse_params": {"randomize_freqs": False}}]))
        kw["ramping_pulse_params"] = {"decay_time": 1.0} if "ramping_pulse_type" in kw else None
    else:
        kw["init_pulse_params"] = gen.pick(rng, [{}, {"scaling": .7}, {"offset": -.2}])
        kw["alg_params"] = gen.pick(rng, [None, {}])
    t = gen.pick(rng, ["array", "list", "ints"])
    if t == "list":
        kw["tau"] = kw["tau"].tolist()
    elif t == "ints" and np.allclose(sp.p.tau, sp.p.tau[0]):
        kw.pop("tau")
        kw["num_tslots"], kw["evo_time"] = sp.p.n_ts, float(sp.p.tau.sum())
    for b in ("amp_lbound", "amp_ubound"):
        v = kw.get(b)
        if isinstance(v, (int, float)) and gen.chance(rng, .3):
            kw[b] = [v] * sp.p.n_ctrls
    return t


def args_of(p):
    return {"drift": p.q_drift(), "ctrls": p.q_ctrls(), "initial": p.q_initial(), "target": p.q_target()}


def spec(rng, crab=None, kinds=None, entry=None, **k):
    k.setdefault("max_ts", 5)
    sp = runs.spec(rng, alg=None if crab is None else ("CRAB" if crab else "GRAPE"), kinds=kinds or ("UNIT", "UNIT", "GEN_MAT", "SYMPL"), route="optimize", limits=False, **k)
    sp.kw["max_iter"] = min(sp.kw["max_iter"], 6 if sp.alg == "GRAPE" else 15)
    sp.kw.pop("max_wall_time")
    return sp


def result_values(res):
    s = runs.snapshot(res)
    for k in ("stats", "wall_time", "iteration_steps"):
        s.pop(k, None)
    return s


def usable(p, res):
    if p.kind == "UNIT":
        return True
    a = np.asarray(res.final_amps)
    return np.all(np.isfinite(a)) and np.abs(a).max() < 20


# ---------------------------------------------------------------------------

def inputs(mon, rng):
    """Arguments unchanged; returned arrays independent of the arguments."""
    entry = gen.pick(rng, ["optimize", "optimize", "unitary", "crab", "crab_unitary", "create"])
    sp = spec(rng, crab=True if entry.startswith("crab") else (False if entry == "unitary" else None), kinds=("UNIT",) if entry.endswith("unitary") else None)
    tf = with_dicts(rng, sp)
    kw = runs.entry_kw(sp, entry)
    if entry.startswith("crab") and gen.chance(rng, .7):
        kw.setdefault("guess_pulse_type", gen.pick(rng, ["SINE", "SQUARE", "LIN", "RND", "GAUSSIAN"]))
        kw["guess_pulse_params"] = gen.pick(rng, [{}, {"scaling": .6}, {"offset": .1}, {"pulse_action": "ADD"}, {"lbound": -1.0}])
        kw["guess_pulse_scaling"] = gen.pick(rng, [None, .5, 1.5])
        kw["guess_pulse_offset"] = gen.pick(rng, [None, .2])
        kw["guess_pulse_action"] = gen.pick(rng, ["MODULATE", "ADD"])
        mon.count("guess_params")
    spell = gen.chance(rng, .3)
    if spell and entry in ("optimize", "unitary"):
        kw.update(gen.pick(rng, [{"optim_alg": kw.pop("optim_method")}, {"max_metric_corr": 4}, {"accuracy_factor": 1e9}, {"amp_update_mode": "ALL"}]))
        if entry == "optimize":
            kw.update(gen.pick(rng, [{}, {"phase_option": "SU"}, {"fid_err_scale_factor": .3}]) if sp.measure == "TD" or "phase_option" in kw.get("fid_params", {}) else {})
    mon.note(entry=entry, tau=tf, spell=spell, **sp.describe())
    a = args_of(sp.p)
    everything = dict(a, **{k: v for k, v in kw.items()})
    before = {n: deep(v) for n, v in everything.items()}
    np.random.seed(sp.seed)
    res = None
    mon.count("calls")
    pos = (a["drift"], a["ctrls"], a["initial"], a["target"])
    try:
        if entry == "create":
            o = po.create_pulse_optimizer(*pos, **kw)
            same_args(mon, before, {n: deep(v) for n, v in everything.items()}, "create_pulse_optimizer")
            run = runs.Run(sp)
            run.kw = kw
            amps = run.start_pulse(o)
            am = deep(amps)
            o.dynamics.initialize_controls(amps)
            mon.check(deep(amps) == am, "modified:amps", "initialize_controls modified the array")
            res = o.run_optimization()
            mon.check(deep(amps) == am, "modified:amps_run", "the run modified the array given to initialize_controls")
            amps[...] = 7.7
        else:
            res = runs.ENTRY[entry](*pos, **kw)
    except Exception as e:
        mon.count("raised_" + type(e).__name__)
        mon.info["raised"] = repr(e)[:200]
    same_args(mon, before, {n: deep(v) for n, v in everything.items()}, "%s%s" % (entry, "" if res is not None else " (which raised)"))
    mon.sig("inputs", entry, sp.p.kind, sp.alg, sp.method, tf, bool(sp.p.td_ctrl), sp.p.td_drift, spell)
    if res is None:
        return
    # change the inputs; the result must stay
    vals = result_values(res)
    mon.count("mutations")
    for v in everything.values():
        scramble(v)
    d = runs.same(vals, result_values(res))
    mon.check(d is None, "aliased", lambda: "result.%s changed when the inputs were changed after the call" % d)


def scramble(v):
    if isinstance(v, np.ndarray) and v.dtype != object:
        v[...] = 3
    elif isinstance(v, Qobj):
        try:
            v.data_as()[...] *= 5
        except Exception:
            try:
                v.data.as_ndarray()[...] *= 5
            except Exception:
                pass
    elif isinstance(v, np.ndarray):
        for x in v.ravel():
            scramble(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            scramble(x)
        if isinstance(v, list) and v and isinstance(v[0], float):
            v[:] = [9.0] * len(v)
        elif isinstance(v, list):
            v.clear()
    elif isinstance(v, dict):
        v.clear()


def objects(mon, rng):
    """Arrays handed to or obtained from the objects."""
    p = gen.problem(rng, dims_small=True, max_ts=5)
    mon.note(part="objects", **p.describe())
    tau = p.tau.copy()
    lb = [float(x) for x in rng.uniform(-2, -.5, size=p.n_ctrls)]
    o = build.optim(p, tau=tau, amp_lbound=lb, amp_ubound=1.0, **build.fid_kwargs("TD"))
    d = o.dynamics
    a = gen.amps(rng, p)
    keep = a.copy()
    d.initialize_controls(a)
    mon.count("calls")
    mon.check(np.array_equal(a, keep), "modified:amps", "initialize_controls modified the array")
    before = d.ctrl_amps.copy()
    a[...] = 5
    mon.check(np.array_equal(d.ctrl_amps, before), "aliased:amps", "the amplitudes in use change with the caller's array")
    b = gen.amps(rng, p)
    kb = b.copy()
    d.update_ctrl_amps(b)
    e = float(d.fid_computer.get_fid_err())
    g = d.fid_computer.get_fid_err_gradient()
    gk = np.array(g)
    mon.check(np.array_equal(b, kb), "modified:amps", "evaluation modified the array given to update_ctrl_amps")
    b[...] = -3
    lb[:] = [0.0] * len(lb)
    mon.check(np.array_equal(d.ctrl_amps, kb), "aliased:update", "the amplitudes in use change with the array given to update_ctrl_amps")
    mon.check(float(d.fid_computer.get_fid_err()) == e, "aliased:err", "the fidelity error changes with the caller's arrays")
    # a further evaluation leaves what was returned before alone
    c = gen.amps(rng, p)
    d.update_ctrl_amps(c.copy())
    d.fid_computer.get_fid_err()
    d.fid_computer.get_fid_err_gradient()
    mon.check(np.array_equal(np.array(g), gk), "aliased:grad", "a gradient returned earlier changes with later evaluations")
    mon.sig("objects", p.kind, p.n_ts, p.n_ctrls, bool(p.td_ctrl))


def pulses(mon, rng):
    kind = gen.pick(rng, ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "LIN", "SINE", "GAUSSIAN", "CRAB_FOURIER", "GAUSSIAN_EDGE"])
    p = gen.problem(rng, kind="UNIT", dims_small=True, n_ts=int(rng.integers(3, 9)))
    d = build.dyn(p)
    pp = gen.pick(rng, [{}, {"scaling": .5}, {"scaling": .5, "offset": .1}, {"lbound": -.3, "ubound": .4}])
    mon.note(part="pulses", kind=kind, pp=str(pp))
    b = deep(pp)
    np.random.seed(5)
    g = pg.create_pulse_gen(kind, d, pulse_params=pp)
    mon.check(deep(pp) == b, "modified:pulse_params", "create_pulse_gen modified pulse_params")
    mon.count("calls")
    g.init_pulse()
    if kind == "CRAB_FOURIER":
        x = rng.normal(size=g.num_optim_vars) if hasattr(g, "num_optim_vars") else None
        if x is None or x.size == 0:
            return
        k = x.copy()
        g.set_optim_var_vals(x)
        mon.check(np.array_equal(x, k), "modified:optim_vars", "set_optim_var_vals modified its argument")
        c = rng.normal(size=np.array(g.coeffs).shape)
        k = c.copy()
        y = g.gen_pulse(c)
        yk = np.array(y)
        mon.check(np.array_equal(c, k), "modified:coeffs", "gen_pulse modified its coefficients")
        g.gen_pulse()
        mon.check(np.array_equal(y, yk), "aliased:pulse", "a generated pulse changed later")
    else:
        y = g.gen_pulse()
        k = np.array(y)
        np.random.seed(6)
        g.gen_pulse()
        mon.check(np.array_equal(y, k), "aliased:pulse", "a generated pulse changed when the next was generated")
        np.random.seed(11)
        g2 = pg.create_pulse_gen(kind, d, pulse_params=pp)
        g2.init_pulse()
        np.random.seed(12)
        u = np.array(g.gen_pulse())
        np.random.seed(12)
        v = np.array(g2.gen_pulse())
        np.random.seed(12)
        w = np.array(g.gen_pulse())
        if kind not in ("RNDFOURIER",):
            mon.check(np.array_equal(u, v), "pulse_history", "a generator used before gives another pulse than a new one for the same seed")
        mon.check(np.array_equal(u, w), "pulse_repeat", "the same seed gives another pulse")
    mon.sig("pulses", kind, str(pp))


def grape(mon, rng):
    P = GrapeProb(rng)
    name = gen.pick(rng, ["grape_unitary", "cy_grape_unitary", "grape_unitary_adaptive"])
    fn = getattr(gr, name)
    kw, tags = grape_options(rng, P, mon, name.endswith("adaptive"))
    kw.pop("progress_bar", None)
    R = int(rng.integers(1, 6))
    args = P.args()
    mon.note(part="grape", fn=name, tags=str(tags), R=R)
    every = dict(U=args[0], H0=args[1], Hs=args[2], times=args[3], **kw)
    before = {n: deep(v) for n, v in every.items()}

    def call():
        np.random.seed(77)
        try:
            return fn(args[0], args[1], args[2], R, args[3], **kw)
        except Exception as e:
            mon.count("raised_" + type(e).__name__)
            return None
    r = call()
    mon.count("grape")
    mon.count("calls")
    same_args(mon, before, {n: deep(v) for n, v in every.items()}, name)
    mon.sig("grape", name, *tags)
    if r is None:
        return
    u, uf = np.array(r.u), r.U_f.full()
    r2 = call()
    mon.count("repeats")
    mon.check(np.array_equal(u, np.asarray(r2.u)) and np.array_equal(uf, r2.U_f.full()), "grape_repeat", "%s gives another result for the same call and seed" % name)
    mon.check(np.array_equal(u, np.asarray(r.u)), "aliased:grape", "%s changed an earlier result" % name)
    for v in every.values():
        scramble(v)
    mon.check(np.array_equal(u, np.asarray(r.u)) and np.array_equal(uf, r.U_f.full()), "aliased:grape", "the result of %s changes with its inputs" % name)


class Shared:
    """A run whose argument objects may be shared with others."""

    def __init__(self, sp, kw, a):
        self.sp, self.kw, self.a = sp, kw, a
        self.o = None

    def setup(self):
        np.random.seed(self.sp.seed)
        kw = self.kw
        self.o = po.create_pulse_optimizer(self.a["drift"], self.a["ctrls"], self.a["initial"], self.a["target"], **kw)
        r = runs.Run(self.sp)
        r.kw = kw
        self.r = r
        return self.start()

    def start(self):
        np.random.seed(self.sp.seed)
        self.o.dynamics.initialize_controls(self.r.start_pulse(self.o))
        return self

    def run(self):
        return self.o.run_optimization()

    def alone(self):
        return self.setup().run()


def histories(mon, rng):
    sp = spec(rng)
    with_dicts(rng, sp)
    a = args_of(sp.p)
    A = Shared(sp, sp.kw, a)
    # the other runs: same arguments with other options, or something unrelated
    others = []
    for _ in range(int(rng.integers(1, 3))):
        how = gen.pick(rng, ["shared", "shared", "same", "other"])
        if how == "other":
            so = spec(rng, max_ts=4)
            with_dicts(rng, so)
            others.append(Shared(so, so.kw, args_of(so.p)))
        else:
            so = copy.copy(sp)
            kw = dict(sp.kw)
            if how == "shared":
                if gen.chance(rng, .4):
                    # the same options, but for those of the method
                    kw["method_params"] = dict(kw["method_params"])
                    kw["method_params"].update(gen.pick(rng, [{"max_iter": 1}, {"maxiter": 1}, {"maxfun": 2}, {"maxfev": 3}] + (
                        [{"max_metric_corr": 1}, {"accuracy_factor": 1e14}, {"maxcor": 1}, {"factr": 1e14}] if so.method in runs.LBFGSB and so.alg == "GRAPE" else [{"disp": False}])))
                    mon.count("shared_method")
                else:
                  kw.update(gen.pick(rng, [{"max_iter": 2}, {"fid_err_targ": .2}, {"optim_method": "DEF"}, {"log_level": logging.ERROR}, {"gen_stats": True},
                                         {"dyn_params": dict(kw["dyn_params"], memory_optimization=1)}, {"amp_lbound": -.05, "amp_ubound": .07} if sp.method in runs.BOUNDED or sp.alg == "CRAB" else {"max_iter": 1}]))
            so.seed = int(rng.integers(2 ** 31))
            others.append(Shared(so, kw, a))
            mon.count("shared")
    mode = gen.pick(rng, ["before", "alongside", "nested", "again", "interrupted", "resumed"])
    mon.note(part="histories", mode=mode, **sp.describe())
    before = {n: deep(v) for n, v in dict(a, **sp.kw).items()}
    try:
        base = A.alone()
    except Exception as e:
        mon.count("unjudged_" + type(e).__name__)
        return
    if not usable(sp.p, base):
        mon.count("diverged")
        return
    want = result_values(base)

    def other(x):
        try:
            return x.alone()
        except Exception as e:
            mon.count("other_raised_" + type(e).__name__)
    B = Shared(sp, sp.kw, a)
    res = None
    with mon.guard("history", "the same run with others %s" % mode):
        if mode == "before":
            for x in others:
                other(x)
            res = B.alone()
        elif mode == "again":
            res = B.alone()
        elif mode == "interrupted":
            # the others are stopped from outside, somewhere inside an evaluation
            for x in others + [Shared(sp, sp.kw, a)]:
                with faults.interrupt(int(rng.integers(0, 12 * sp.p.n_ts))) as fs:
                    try:
                        other(x)
                    except faults.Interrupted:
                        mon.count("interrupted")
            res = B.alone()
        elif mode == "resumed":
            # the run itself is stopped and then started over with the same objects
            B.setup()
            for _ in range(int(rng.integers(1, 3))):
                with faults.interrupt(int(rng.integers(0, 12 * sp.p.n_ts))) as fs:
                    try:
                        B.run()
                    except faults.Interrupted:
                        mon.count("interrupted")
                B.start()
            res = B.run()
        elif mode == "alongside":
            for x in others:
                try:
                    x.setup()
                except Exception:
                    x.o = None
            B.setup()
            for x in others[:1]:
                try:
                    x.o and x.run()
                except Exception as e:
                    mon.count("other_raised_" + type(e).__name__)
            res = B.run()
        else:
            B.setup()
            for x in others:
                try:
                    x.setup()
                except Exception:
                    x.o = None
            rec = instr.Recorder()
            st = {"n": 0, "in": False}

            def inner(obj, args, k, ret=None):
                if st["in"] or obj is not B.o:
                    return
                st["n"] += 1
                if st["n"] % 3 == 1 and st["n"] < 20:
                    st["in"] = True
                    try:
                        for x in others:
                            if x.o is None:
                                continue
                            if st["n"] == 4:
                                try:
                                    x.run()
                                except Exception:
                                    pass
                            else:
                                d = x.o.dynamics
                                d.update_ctrl_amps(rng.normal(size=d.ctrl_amps.shape))
                                d.fid_computer.get_fid_err()
                            mon.count("nested")
                    finally:
                        st["in"] = False
            rec.on_before("fid_err_func_wrapper", inner)
            rec.on_after("fid_err_func_wrapper", lambda o, a_, k, r: inner(o, a_, k))
            with rec:
                res = B.run()
    mon.count("repeats")
    if mode == "alongside":
        mon.count("alongside")
    same_args(mon, before, {n: deep(v) for n, v in dict(a, **sp.kw).items()}, "runs (%s)" % mode)
    if res is not None:
        d = runs.same(want, result_values(res))
        mon.check(d is None, "history:" + mode, lambda: "with others %s, result.%s is %s instead of %s" % (mode, d, result_values(res).get(d), want.get(d)))
        d = runs.same(want, result_values(base))
        mon.check(d is None, "earlier_result", lambda: "result.%s of an earlier run changed" % d)
        # a second run of the same optimiser leaves the first result alone
        if gen.chance(rng, .5):
            try:
                B.o.dynamics.initialize_controls(rng.normal(size=B.o.dynamics.ctrl_amps.shape) * .5)
                B.o.run_optimization()
                mon.count("later_runs")
            except Exception as e:
                mon.count("later_raised_" + type(e).__name__)
            d = runs.same(want, result_values(res))
            mon.check(d is None, "earlier_result", lambda: "result.%s changed in a later run of the same optimiser" % d)
    mon.sig("histories", mode, sp.p.kind, sp.alg, sp.method, sp.measure)


PARTS = [inputs, histories, inputs, histories, objects, pulses, grape, histories]


def case(mon, rng, idx, tier):
    PARTS[idx % len(PARTS)](mon, rng)
