"""C08: timeslot grid consistency."""
import numpy as np
from .. import gen, build
from ..ref import Ref
from qutip import Qobj
import qutip_qtrl.pulseoptim as po
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.optimconfig as oc
import qutip_qtrl.dynamics as dynmod

LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 60000}
NEED = {"ops": 1500, "grids_checked": 1500, "refused": 50, "seq_list": 20, "seq_tuple": 20, "seq_int": 10, "results": 20,
        "pulses": 100, "inits": 100, "defaults": 10}
RULE = ("random histories of setting slot count, total time and explicit durations (list, tuple, integer and float arrays) "
        "on every dynamics class before and after initialisation, read back through every grid attribute against a small "
        "model after every step; grids of optimisation results and pulse generators are compared with the dynamics; missing "
        "specifications must be refused; distinct = operation sequences")
ASSUMPTIONS = ["generated equal durations are held in single precision by the library, so they are compared to 2e-7 relative"]
REL = 2e-7


def tau_forms(mon, rng):
    n = int(rng.integers(1, 12)) if gen.chance(rng, .96) else int(rng.integers(40, 300))
    t = gen.taus(rng, n)
    f = gen.pick(rng, ["array", "list", "tuple", "int", "intarray", "npints"])
    if f in ("int", "intarray", "npints"):
        t = rng.integers(1, 5, size=n)
        v = {"int": [int(x) for x in t], "intarray": np.array(t), "npints": tuple(t)}[f]
        mon.count("seq_int")
    else:
        v = {"array": t.copy(), "list": [float(x) for x in t], "tuple": tuple(float(x) for x in t)}[f]
        mon.count("seq_" + f)
    return f, v, np.array(t, dtype=float)


class Model:
    def __init__(self):
        self.n, self.T, self.tau = 10, 1.0, None

    def eff(self):
        return self.tau if self.tau is not None else np.ones(self.n) * self.T / self.n


def check_grid(mon, d, m, tag):
    mon.count("grids_checked")
    want = m.eff()
    exact = m.tau is not None
    n = d.num_tslots
    tau = d.tau
    if not mon.check(n == len(want), "num_tslots", lambda: "num_tslots is %s, expected %d (%s)" % (n, len(want), tag)):
        return
    if not mon.check(len(tau) == n, "len_tau", lambda: "%d durations for %d slots (%s)" % (len(tau), n, tag)):
        return
    tau = np.asarray(tau, dtype=float)
    tol = 1e-13 if exact else REL
    mon.close(tau / want, np.ones(n), "tau", "durations relative to the specification (%s)" % tag, tol, 0)
    mon.close(float(d.evo_time), float(np.sum(want)), "evo_time", "total time (%s)" % tag, 4 * tol, 1e-15)
    mon.close(float(d.evo_time), float(np.sum(tau)), "evo_time_sum", "total time against the sum of durations (%s)" % tag, 4 * REL if not exact else 1e-13, 0)
    t = np.asarray(d.time, dtype=float)
    if not mon.check(t.shape == (n + 1,), "len_time", lambda: "time has shape %s for %d slots (%s)" % (t.shape, n, tag)):
        return
    mon.check(t[0] == 0, "time0", lambda: "time starts at %s (%s)" % (t[0], tag))
    mon.close(np.diff(t), tau, "time_step", "increments of time (%s)" % tag, 1e-12, 1e-14)
    mon.close(np.asarray(d.get_amp_times()), t[:-1], "amp_times", "amplitude start times (%s)" % tag, 0, 0)


def history(mon, rng, tier):
    kind = gen.pick(rng, ["UNIT", "GEN_MAT", "SYMPL"])
    p = gen.problem(rng, kind=kind, td=False, dims_small=True)
    cls = {"UNIT": dynmod.DynamicsUnitary, "GEN_MAT": dynmod.DynamicsGenMat, "SYMPL": dynmod.DynamicsSymplectic}[kind]
    d = cls(oc.OptimConfig())
    d.drift_dyn_gen, d.ctrl_dyn_gen = p.q_drift(), p.q_ctrls()
    d.initial, d.target = p.q_initial(), p.q_target()
    m = Model()
    ops = []
    inited = False
    for step in range(int(rng.integers(1, 12 if tier == "quick" else 25))):
        op = gen.pick(rng, ["n", "T", "tau", "tau", "read", "init_ts", "init", "use"])
        if op == "n":
            m.n = int(rng.integers(1, 15))
            if m.tau is not None:
                m.T, m.tau = float(np.sum(m.tau)), None
            d.num_tslots = gen.pick(rng, [int, np.int64])(m.n)
        elif op == "T":
            if m.tau is not None:
                m.n, m.tau = len(m.tau), None
            m.T = gen.pick(rng, [float(rng.uniform(.1, 50)), int(rng.integers(1, 20))])
            d.evo_time = m.T
        elif op == "tau":
            f, v, t = tau_forms(mon, rng)
            op += ":" + f
            d.tau = v
            m.tau = t
            if gen.chance(rng, .3) and isinstance(v, (list, np.ndarray)):
                v[0] = 99          # the caller reuses its own container
        elif op == "read":
            check_grid(mon, d, m, ",".join(ops))
            if not ops:
                mon.count("defaults")
        elif op == "init_ts":
            d.init_timeslots()
        elif op == "init":
            n = len(m.eff())
            d.initialize_controls(rng.normal(size=(n, p.n_ctrls)), init_tslots=gen.chance(rng, .6))
            inited = True
            mon.count("inits")
        elif op == "use" and inited:
            n = len(m.eff())
            A = rng.normal(size=(n, p.n_ctrls))
            d.initialize_controls(A)
            q = gen.Problem(**p.__dict__)
            q.tau = m.eff()
            d.compute_evolution()
            have = np.asarray(d.tau, float)
            if have.shape == np.shape(q.tau) and np.allclose(have, q.tau, rtol=3e-7, atol=0):
                q.tau = have        # single-precision durations; long evolutions multiply the difference
            ref = Ref(q, A)
            big = sum(np.linalg.norm(g, 2) * t for g, t in zip(ref.gen, ref.tau))
            if kind != "UNIT" and big > 200:      # may overflow
                mon.count("overflow")
                continue
            mon.close(build.arr(d.full_evo), ref.final, "used_grid", "evolution on the set grid (%s)" % ",".join(ops), 1e-7, 1e-8)
        ops.append(op)
        mon.count("ops")
        if gen.chance(rng, .7):
            check_grid(mon, d, m, ",".join(ops))
    if len(ops) == 1 and ops[0] == "read":
        mon.count("defaults")
    check_grid(mon, d, m, ",".join(ops))
    # generators on this grid
    for t in ["LIN", "ZERO", "SINE", "RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "GAUSSIAN", "CRAB_FOURIER", "GAUSSIAN_EDGE"]:
        if gen.chance(rng, .3):
            g = pulsegen.create_pulse_gen(t, d, pulse_params={"start_val": .1, "end_val": .8} if t == "LIN" else None)
            if hasattr(g, "init_pulse"):
                g.init_pulse()
            pulse = np.asarray(g.gen_pulse())
            mon.count("pulses")
            n = d.num_tslots
            mon.check(pulse.shape == (n,), "pulse_len", lambda: "%s pulse has shape %s for %d slots" % (t, pulse.shape, n))
            mon.close(np.asarray(g.tau, dtype=float), np.asarray(d.tau, dtype=float), "pulse_tau", "durations of the %s generator" % t, 1e-12, 0)
            mon.close(float(g.pulse_time), float(d.evo_time), "pulse_time", "pulse time of the %s generator" % t, 4 * REL, 0)
            if g.time is not None:
                mon.close(np.asarray(g.time), np.asarray(d.time)[:-1], "pulse_times", "slot times of the %s generator" % t, 1e-12, 1e-13)
    mon.note(kind=kind, ops=ops)
    mon.sig(kind, *ops)


def result_grid(mon, rng, tier):
    alg = gen.pick(rng, ["GRAPE", "CRAB"])
    how = gen.pick(rng, ["nT", "tau", "tau", "both"])
    p = gen.problem(rng, kind="UNIT", td=False, state=False, dims_small=True)
    kw = {}
    if how == "nT":
        n, T = int(rng.integers(1, 9)), float(rng.uniform(.5, 10))
        want = np.ones(n) * T / n
        kw.update(num_tslots=n, evo_time=T)
        f = ""
    else:
        f, v, want = tau_forms(mon, rng)
        kw["tau"] = v
        if how == "both":
            kw.update(num_tslots=3, evo_time=7.0)
    fn = gen.pick(rng, ["optimize_pulse", "unitary", "create"])
    args = (p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target())
    common = dict(fid_err_targ=1e-12, max_iter=2, **kw)
    if fn == "optimize_pulse":
        r = po.optimize_pulse(*args, alg=alg, dyn_type="UNIT", init_pulse_type="RND" if alg == "GRAPE" else None, **common)
    elif fn == "unitary" and alg == "GRAPE":
        r = po.optimize_pulse_unitary(*args, init_pulse_type="RND", **common)
    elif fn == "unitary":
        r = po.opt_pulse_crab_unitary(*args, **common)
    else:
        o = po.create_pulse_optimizer(*args, alg=alg, dyn_type="UNIT", init_pulse_type="RND" if alg == "GRAPE" else None, **common)
        d = o.dynamics
        A = np.zeros((d.num_tslots, d.num_ctrls))
        for j in range(d.num_ctrls):
            g = o.pulse_generator[j] if alg == "CRAB" else o.pulse_generator
            if alg == "CRAB":
                g.init_pulse()
            A[:, j] = g.gen_pulse()
        d.initialize_controls(A)
        r = o.run_optimization()
    n = len(want)
    mon.count("results")
    mon.note(alg=alg, how=how, form=f, fn=fn, n=n)
    t = np.asarray(r.time)
    if mon.check(t.shape == (n + 1,), "result_len", lambda: "result.time has shape %s for %d slots" % (t.shape, n)):
        mon.check(t[0] == 0, "result_t0", "result.time does not start at 0")
        mon.close(np.diff(t) / want, np.ones(n), "result_time", "increments of result.time relative to the durations", REL * 4, 0)
    mon.check(np.shape(r.initial_amps) == (n, p.n_ctrls) and np.shape(r.final_amps) == (n, p.n_ctrls), "result_amps",
              lambda: "amplitudes of shape %s, %s for %d slots" % (np.shape(r.initial_amps), np.shape(r.final_amps), n))
    q = gen.Problem(**p.__dict__)
    q.tau = want
    R = Ref(q, np.asarray(r.final_amps))
    # durations worked out by the library are held in single precision: the angles, and so the evolution, inherit that
    tol = 1e-5 + 4e-7 * sum(float(np.linalg.norm(g)) * float(t) for g, t in zip(R.gen, want))
    mon.close(build.arr(r.evo_full_final), R.final, "result_evo", "final evolution on the specified grid", tol, tol)
    mon.sig("result", alg, how, f, fn, n)


def refused(mon, rng):
    p = gen.problem(rng, kind="UNIT", td=False, state=False, dims_small=True)
    args = (p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target())
    bad = gen.pick(rng, [{}, {"num_tslots": 5}, {"evo_time": 3.0}, {"num_tslots": 0, "evo_time": 2.0},
                         {"num_tslots": None, "evo_time": None}])
    fn = gen.pick(rng, [po.create_pulse_optimizer, po.optimize_pulse, po.optimize_pulse_unitary, po.opt_pulse_crab,
                        po.opt_pulse_crab_unitary])
    mon.note(bad=bad, fn=fn.__name__)
    mon.raises(lambda: fn(*args, fid_err_targ=1e-3, **bad), "refused", "%s with the time specification %s" % (fn.__name__, bad))
    mon.count("refused")
    mon.sig("refused", fn.__name__, bad)


def case(mon, rng, idx, tier):
    if idx % 5 == 4:
        refused(mon, rng)
    elif idx % 5 == 3:
        result_grid(mon, rng, tier)
    else:
        history(mon, rng, tier)
