"""Whole optimisation runs under observation.

`spec` draws a run configuration, `Run` executes it through the public entry
points and records the event log (fidelity calls, gradient calls, iterations,
amplitude updates, evolution recomputations) on a virtual clock.  The oracles
of C09..C15 and C22..C24 are written over that log.
"""
import copy
import numpy as np
from qutip import Qobj
from . import gen, instr
from .ref import Ref
import qutip_qtrl.pulseoptim as po
import qutip_qtrl.errors as errors

GRAPE_METHODS = ["DEF", "FMIN_L_BFGS_B", "LBFGSB", "FMIN_BFGS", "L-BFGS-B", "BFGS", "CG", "SLSQP", "Nelder-Mead", "Powell", "Newton-CG", "TNC"]
TAME = [m for m in GRAPE_METHODS if m != "Newton-CG"]      # Newton steps can drive open dynamics to overflow
CRAB_METHODS = ["DEF", "FMIN", "Nelder-Mead", "Powell"]
GRADIENT = {"DEF", "FMIN_L_BFGS_B", "LBFGSB", "FMIN_BFGS", "L-BFGS-B", "BFGS", "CG", "SLSQP", "Newton-CG", "TNC"}
LBFGSB = {"DEF", "FMIN_L_BFGS_B", "LBFGSB"}
BOUNDED = LBFGSB | {"L-BFGS-B", "TNC"}


class Spec:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def describe(self):
        k = {a: b for a, b in self.kw.items() if a not in ("tau",)}
        return dict(alg=self.alg, method=self.method, measure=self.measure, route=self.route, seed=self.seed,
                    dt=self.dt, kw=str(k)[:400], **self.p.describe())


def bounds(rng, n_ctrls, crab=False):
    """(lb, ub) in one of the accepted spellings."""
    f = gen.pick(rng, ["scalar", "scalar", "list", "lower", "upper", "inf", "zero", "mixed", "mixed"])
    if f == "scalar":
        return -float(rng.uniform(.2, 2)), float(rng.uniform(.2, 2))
    if f == "list":
        return [-float(rng.uniform(.1, 2)) for _ in range(n_ctrls)], [float(rng.uniform(.1, 2)) for _ in range(n_ctrls)]
    if f == "lower":
        return float(rng.uniform(-1, .5)), None
    if f == "upper":
        return None, float(rng.uniform(-.5, 1))
    if f == "inf":
        return (-np.inf, float(rng.uniform(.1, 1))) if gen.chance(rng, .5) else (float(rng.uniform(-1, -.1)), np.inf)
    if f == "zero":
        return (0.0, float(rng.uniform(.2, 2))) if gen.chance(rng, .5) else (-float(rng.uniform(.2, 2)), 0.0)
    lb = [gen.pick(rng, [None, -np.inf, 0.0, -float(rng.uniform(.1, 1)), float(rng.uniform(.05, .3))]) for _ in range(n_ctrls)]
    ub = [gen.pick(rng, [None, np.inf, float(rng.uniform(.4, 1.5)), 1]) for _ in range(n_ctrls)]
    if n_ctrls > 1 and gen.chance(rng, .6):
        j = int(rng.integers(n_ctrls))
        lb[j], ub[j] = gen.pick(rng, [None, -np.inf]), gen.pick(rng, [None, np.inf])
    return lb, ub


def bound_of(b, j):
    """Finite bound of control j or None."""
    if isinstance(b, (list, tuple, np.ndarray)):
        b = b[j]
    if b is None or np.isinf(b):
        return None
    return float(b)


def measure_kw(rng, p):
    """Fidelity selection valid for the problem (also with finite dims)."""
    if p.kind == "UNIT":
        m = gen.pick(rng, ["PSU", "PSU", "SU", "TD"])
    else:
        m = "TD"
    if m in ("PSU", "SU"):
        fp = {"phase_option": m}
        ft = "UNIT" if gen.chance(rng, .5) else "DEF"
        return m, None, dict(fid_type=ft, fid_params=fp)
    sc = None
    fp = {}
    if gen.chance(rng, .4):
        sc = float(rng.uniform(.05, 1))
        fp["scale_factor"] = sc
    return "TD", sc, dict(fid_type="TRACEDIFF", fid_params=fp)


def spec(rng, alg=None, kinds=("UNIT", "UNIT", "UNIT", "GEN_MAT", "SYMPL"), max_ts=6, max_ctrls=2, method=None, bounded=None,
         td=None, state=None, route=None, flavour=None, limits=True, fd=True, pulse=True, min_ts=1, methods=GRAPE_METHODS):
    kind = gen.pick(rng, kinds)
    n_ts = int(rng.integers(min_ts, max_ts + 1))
    if max_ts > 4 and gen.chance(rng, .012):
        n_ts = int(rng.integers(12, 50))
    p = gen.problem(rng, kind=kind, max_ctrls=max_ctrls, n_ts=n_ts, dims_small=True, td=td, state=state, flavour=flavour, wide=.02)
    alg = alg or gen.pick(rng, ["GRAPE", "GRAPE", "GRAPE", "CRAB"])
    method = method or gen.pick(rng, methods[:4] * 3 + methods[4:] if alg == "GRAPE" else CRAB_METHODS)
    measure, scale, fk = measure_kw(rng, p)
    kw = dict(dyn_type=p.kind, tau=p.tau.copy(), alg=alg, optim_method=method, **fk)
    if measure == "TD" and alg == "CRAB":
        # the exact measure is documented to need an exact gradient propagator
        if gen.chance(rng, .5):
            kw["fid_type"] = gen.pick(rng, ["TDAPPROX", "TD_APPROX"])
        else:
            kw["prop_type"] = gen.pick(rng, ["FRECHET", "AUG_MAT"])
    if gen.chance(rng, .3):
        kw["dyn_params"] = {"oper_dtype": gen.pick(rng, [Qobj, np.ndarray])}
    targ = gen.pick(rng, [1e-10, 1e-10, 1e-6, 1e-3, .05, .3])
    kw["fid_err_targ"] = targ
    kw["min_grad"] = gen.pick(rng, [1e-10, 1e-10, 1e-8, 1e-3, .05])
    if not limits:
        kw["fid_err_targ"], kw["min_grad"] = 1e-10, 1e-10
    kw["max_iter"] = int(rng.integers(1, 25)) if alg == "GRAPE" else int(rng.integers(1, 60))
    if bounded is None:
        bounded = gen.chance(rng, .35) and (alg == "CRAB" or method in BOUNDED)
    if bounded:
        kw["amp_lbound"], kw["amp_ubound"] = bounds(rng, p.n_ctrls)
    mp = {}
    if limits and gen.chance(rng, .35):
        mp["max_fid_func_calls"] = int(rng.integers(1, 30))
    if fd and alg == "GRAPE" and gen.chance(rng, .1) and method in LBFGSB | {"FMIN_BFGS", "BFGS", "L-BFGS-B"}:
        mp["approx_grad"] = True
    if mp:
        kw["method_params"] = mp
    dt = 0.0
    kw["max_wall_time"] = 1e6
    if limits and gen.chance(rng, .3):
        dt = float(rng.uniform(.5, 2))
        kw["max_wall_time"] = float(rng.uniform(.5, 20)) * dt
    if pulse and alg == "GRAPE":
        kw["init_pulse_type"] = gen.pick(rng, ["DEF", "RND", "LIN", "ZERO", "SINE", "RNDWALK1", "GAUSSIAN", "SAW"])
        if kw["init_pulse_type"] == "LIN" and n_ts == 1:
            kw["init_pulse_type"] = "SINE"
        if gen.chance(rng, .4):
            kw["pulse_scaling"] = float(rng.uniform(.2, 2))
            kw["pulse_offset"] = float(rng.uniform(-.5, .5))
    elif alg == "CRAB":
        ap = {}
        if gen.chance(rng, .5):
            ap["num_coeffs"] = int(rng.integers(1, 4))
        if gen.chance(rng, .3):
            ap["fix_frequency"] = False
        if gen.chance(rng, .4):
            ap["init_coeff_scaling"] = float(rng.uniform(.1, 2))
        if ap:
            kw["alg_params"] = ap
        if gen.chance(rng, .4):
            kw["init_pulse_type"] = gen.pick(rng, ["SINE", "GAUSSIAN", "RND", "SQUARE"])
            kw["init_pulse_params"] = {"pulse_action": gen.pick(rng, ["ADD", "MODULATE"])}
        if gen.chance(rng, .3):
            kw["ramping_pulse_type"] = "GAUSSIAN_EDGE"
    route = route or gen.pick(rng, ["optimize", "optimize", "steps"])
    return Spec(p=p, alg=alg, method=method, measure=measure, scale=scale, kw=kw, dt=dt, route=route,
                seed=int(rng.integers(2 ** 31)), amps=None, bounded=bounded, gen_stats=False)


class Event:
    __slots__ = ("k", "amps", "x", "val", "exc", "t", "norm")

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))


class Log:
    """What one run_optimization call did."""

    def __init__(self):
        self.ev = []
        self.updates = []        # (n entries changed, n slots changed)
        self.recomputes = 0
        self.t_recompute = 0.0
        self.t_grad = 0.0
        self.run_t0 = self.run_t1 = None
        self.start_amps = None
        self.inner = []          # amplitude arrays at which the evolution was computed
        self.in_run = False
        self.seq = []            # order of updates (n changed) and f/g requests

    def of(self, k):
        return [e for e in self.ev if e.k == k]


class Run:
    """Execute a spec; self.result, self.optim, self.log, self.exc."""

    def __init__(self, sp, clock_step=0.0, hooks=None, extra=None, amps=None):
        self.sp, self.clock_step, self.hooks = sp, clock_step, hooks
        self.kw = dict(sp.kw)
        if extra:
            self.kw.update(extra)
        self.result = self.optim = self.exc = None
        self.log = Log()
        self.amps = sp.amps if amps is None else amps
        self.problem_args = None

    # -- monitors -----------------------------------------------------------
    def recorder(self, clock):
        r = instr.Recorder()
        L = self.log
        dt = self.sp.dt
        cur = {}

        def start(o, a, k):
            L.in_run = True
            self.optim = o
            L.run_t0 = clock.t
            L.start_amps = None if o.dynamics.ctrl_amps is None else np.array(o.dynamics.ctrl_amps)

        def end(o, a, k, ret=None):
            L.in_run = False
            L.run_t1 = clock.t

        def f0(o, a, k):
            cur["x"] = np.array(a[0], dtype=float)
            if dt:
                clock.t += dt

        def f1(o, a, k, ret):
            L.ev.append(Event(k="f", x=cur["x"], amps=np.array(o.dynamics.ctrl_amps), val=float(ret), t=clock.t))

        def fe(o, a, k, e):
            L.ev.append(Event(k="f", x=cur["x"], amps=np.array(o.dynamics.ctrl_amps), exc=e,
                              val=getattr(e, "fid_err", None), t=clock.t))

        def g0(o, a, k):
            cur["gx"] = np.array(a[0], dtype=float)

        def g1(o, a, k, ret):
            L.ev.append(Event(k="g", x=cur["gx"], amps=np.array(o.dynamics.ctrl_amps), val=np.array(ret),
                              norm=float(np.linalg.norm(ret)), t=clock.t))

        def ge(o, a, k, e):
            L.ev.append(Event(k="g", x=cur["gx"], amps=np.array(o.dynamics.ctrl_amps), exc=e,
                              norm=getattr(e, "gradient", None), t=clock.t))

        def i1(o, a, k, ret):
            L.ev.append(Event(k="it", t=clock.t, amps=np.array(o.dynamics.ctrl_amps)))

        def ie(o, a, k, e):
            L.ev.append(Event(k="it", t=clock.t, amps=np.array(o.dynamics.ctrl_amps), exc=e))

        def c0(o, a, k):
            old = o.parent.ctrl_amps if hasattr(o, "parent") else None
            cur["old"] = None if old is None else np.array(old)

        def c1(o, a, k, ret):
            if not L.in_run:
                return
            new = np.array(a[0])
            L.seq.append(("u", new.size if cur["old"] is None else int((cur["old"] != new).sum())))
            if cur["old"] is None:
                L.updates.append((new.size, new.shape[0]))
            else:
                d = cur["old"] != new
                L.updates.append((int(d.sum()), int(d.any(axis=1).sum())))

        def r0(o, a, k):
            cur["rt"] = clock.t

        def r1(o, a, k, ret):
            if L.in_run:
                L.recomputes += 1
                L.t_recompute += clock.t - cur["rt"]
                L.inner.append(np.array(o.parent.ctrl_amps))

        def gr0(o, a, k):
            cur["gt"] = clock.t
            if L.in_run:
                L.seq.append(("g", 0))

        def fe0(o, a, k):
            if L.in_run:
                L.seq.append(("f", 0))

        def gr1(o, a, k, ret):
            if L.in_run:
                L.t_grad += clock.t - cur["gt"]

        r.on_before("run_optimization", start)
        r.on_after("run_optimization", end)
        r.on_exc("run_optimization", lambda o, a, k, e: end(o, a, k))
        r.on_before("fid_err_func_wrapper", f0)
        r.on_after("fid_err_func_wrapper", f1)
        r.on_exc("fid_err_func_wrapper", fe)
        r.on_before("fid_err_grad_wrapper", g0)
        r.on_after("fid_err_grad_wrapper", g1)
        r.on_exc("fid_err_grad_wrapper", ge)
        r.on_after("iter_step_callback_func", i1)
        r.on_exc("iter_step_callback_func", ie)
        r.on_before("compare_amps", c0)
        r.on_after("compare_amps", c1)
        r.on_before("recompute_evolution", r0)
        r.on_after("recompute_evolution", r1)
        r.on_before("get_fid_err", fe0)
        r.on_before("get_fid_err_gradient", gr0)
        r.on_after("get_fid_err_gradient", gr1)
        if self.hooks:
            self.hooks(r, self, clock)
        return r

    # -- routes ---------------------------------------------------------------
    def args(self):
        p = self.sp.p
        self.problem_args = (p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target())
        return self.problem_args

    def create(self):
        kw = dict(self.kw)
        kw.pop("out_file_ext", None)
        return po.create_pulse_optimizer(*self.args(), **kw)

    def start_pulse(self, optim):
        d = optim.dynamics
        d.init_timeslots()
        if self.amps is not None and self.sp.alg != "CRAB":
            return np.array(self.amps)
        a = np.zeros((d.num_tslots, d.num_ctrls))
        lb, ub = self.kw.get("amp_lbound"), self.kw.get("amp_ubound")
        for j in range(d.num_ctrls):
            if self.sp.alg == "CRAB":
                optim.pulse_generator[j].init_pulse()
                a[:, j] = optim.pulse_generator[j].gen_pulse()
            else:
                g = optim.pulse_generator
                if isinstance(lb, list):
                    g.lbound = lb[j]
                if isinstance(ub, list):
                    g.ubound = ub[j]
                a[:, j] = g.gen_pulse()
        return a

    def go(self):
        np.random.seed(self.sp.seed)
        with instr.FakeClock(step=self.clock_step) as clock:
            with self.recorder(clock):
                try:
                    if self.sp.route == "optimize" and self.amps is None:
                        self.result = po.optimize_pulse(*self.args(), **self.kw)
                        self.optim = self.result.optimizer
                    else:
                        self.optim = self.create()
                        self.optim.dynamics.initialize_controls(self.start_pulse(self.optim))
                        self.result = self.optim.run_optimization()
                except Exception as e:
                    self.exc = e
        return self

    def again(self, change=None, dt=None):
        """A further run with the same optimiser."""
        r = Run(self.sp, self.clock_step, self.hooks)
        r.kw = self.kw
        r.optim = self.optim
        if dt is not None:
            r.sp = copy.copy(self.sp)
            r.sp.dt = dt
        with instr.FakeClock(step=self.clock_step) as clock:
            with r.recorder(clock):
                try:
                    if change:
                        change(self.optim)
                    r.result = self.optim.run_optimization()
                except Exception as e:
                    r.exc = e
        return r

    def diverged(self):
        """Amplifying dynamics driven to overflow: no verdict on such a run."""
        if self.sp.p.kind == "UNIT":
            return False
        L = self.log
        arrs = L.inner[-3:] + [e.amps for e in L.ev[-3:]]
        if self.optim is not None and self.optim.dynamics.ctrl_amps is not None:
            arrs.append(np.asarray(self.optim.dynamics.ctrl_amps))
        for A in arrs:
            if not np.all(np.isfinite(A)) or np.abs(A).max() > 20:
                return True
        return any(e.val is not None and e.k == "f" and not np.isfinite(e.val) for e in L.ev)

    def ref(self, amps):
        return Ref(self.sp.p, amps, tau=np.asarray(self.optim.dynamics.tau, dtype=float))

    def err_at(self, amps):
        return self.ref(amps).fid_err(self.sp.measure, self.sp.scale)


def snapshot(res):
    """Deep copy of the values of a result (not of the optimiser)."""
    out = {}
    for k, v in vars(res).items():
        if k == "optimizer":
            continue
        if isinstance(v, Qobj):
            out[k] = ("qobj", v.full().copy(), v.dims)
        elif isinstance(v, np.ndarray):
            out[k] = ("arr", v.copy())
        elif k == "stats" and v is not None:
            out[k] = ("stats", {a: b for a, b in vars(v).items()})
        else:
            out[k] = ("val", copy.copy(v))
    return out


def same(a, b):
    if a.keys() != b.keys():
        return "attributes %s" % (set(a) ^ set(b))
    for k in a:
        x, y = a[k], b[k]
        if x[0] != y[0]:
            return k
        if x[0] in ("arr", "qobj"):
            if x[1].shape != y[1].shape or not np.array_equal(x[1], y[1]):
                return k
        elif x[0] == "stats":
            for n in x[1]:
                u, v = x[1][n], y[1].get(n)
                if u != v and not (u != u and v != v):
                    return "stats." + n
        elif x[1] != y[1] and not (x[1] != x[1] and y[1] != y[1]):
            return k
    return None


ENTRY = {"optimize": po.optimize_pulse, "unitary": po.optimize_pulse_unitary, "crab": po.opt_pulse_crab, "crab_unitary": po.opt_pulse_crab_unitary}


def entry_kw(sp, entry):
    """Keyword arguments of the convenience function `entry` meaning the same as sp.kw."""
    kw = dict(sp.kw)
    if entry.endswith("unitary"):
        kw.pop("dyn_type", None)
        kw.pop("fid_type", None)
        kw.pop("prop_type", None)
        fp = dict(kw.pop("fid_params", None) or {})
        kw["phase_option"] = fp.pop("phase_option", "PSU")
        fp.pop("scale_factor", None)
        fp.pop("epsilon", None)
        if fp:
            kw["fid_params"] = fp
    if entry.startswith("crab"):
        for k in ("alg", "min_grad"):
            kw.pop(k, None)
        for a, b in (("init_pulse_type", "guess_pulse_type"), ("pulse_scaling", "guess_pulse_scaling"), ("pulse_offset", "guess_pulse_offset")):
            if a in kw:
                kw[b] = kw.pop(a)
        ip = kw.pop("init_pulse_params", None)
        if ip is not None:
            kw["guess_pulse_params"] = {k: v for k, v in ip.items() if k != "pulse_action"}
            kw["guess_pulse_action"] = ip.get("pulse_action", "MODULATE")
    return kw
