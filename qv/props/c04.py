"""C04: the gradient is the derivative of the fidelity error."""
import numpy as np
from .. import gen, build, runs
from ..ref import Ref
from .c01 import options
from qutip import Qobj

LEVEL = "exploration"
CASES = {"quick": 3200, "thorough": 30000}
NEED = {"near_orthogonal": 60, "own_phase": 100, "entries": 2000, "fd_entries": 300, "approx_entries": 100, "norms": 200, "unequal_tau": 30, "td_ctrl": 30,
        "PSU": 30, "SU": 30, "TD": 30, "DIAG": 20, "FRECHET": 20, "AUG_MAT": 20, "handed": 200}
RULE = ("random systems at random (not optimised) amplitudes; every gradient entry compared with the exact derivative of an "
        "independent model and, for sampled entries, with a fourth-order difference quotient of the fidelity errors the "
        "real code itself reports; the vectors handed to the minimiser during runs against the model at its variables; finite-step gradients to first order in their step")


def in_run(mon, rng):
    """What the minimiser is given during a run, as the vector of its own variables."""
    sp = runs.spec(rng, alg="GRAPE", fd=False, methods=["FMIN_L_BFGS_B", "FMIN_BFGS", "BFGS", "L-BFGS-B", "CG", "TNC", "SLSQP"])
    mon.note(**sp.describe())
    mon.sig("run", sp.p.kind, sp.method, sp.measure, sp.p.n_ctrls, min(sp.p.n_ts, 12))
    run = runs.Run(sp).go()
    if run.exc is not None:
        if not run.diverged():
            with mon.guard("run", "optimisation"):
                raise run.exc
        return
    ev = [e for e in run.log.of("g") if e.val is not None]
    for e in ev[:2] + ev[-1:]:
        r = run.ref(e.x.reshape(sp.p.n_ts, sp.p.n_ctrls))
        if sp.measure == "PSU" and abs(r.prenorm()) < 1e-3 or sp.measure != "TD" and abs(r.fidelity(sp.measure) - 1) < 1e-6:
            continue
        want = r.grad(sp.measure, sp.scale).reshape(-1)
        gs = max(1.0, float(np.max(np.abs(want))))
        if not np.all(np.isfinite(want)) or gs > 1e6:
            mon.count("diverged")
            continue
        mon.close(e.val, want, "handed:" + sp.measure, "gradient vector handed to the minimiser", 1e-6 * gs, 1e-6 * gs)
        mon.count("handed")


def case(mon, rng, idx, tier):
    if gen.chance(rng, .1):
        return in_run(mon, rng)
    kind = ["UNIT", "UNIT", "GEN_MAT", "SYMPL"][idx % 4]
    p = gen.problem(rng, kind=kind, max_ts=6 if tier == "quick" else 10, big=gen.chance(rng, .08))
    A = gen.amps(rng, p, kind=None if kind == "UNIT" else gen.pick(rng, ["random", "zero", "sparse", "equal"]))
    kw, o, phase_app = options(rng, p)
    measure = gen.pick(rng, ["PSU", "SU", "TD"] if kind == "UNIT" or p.state else ["TD", "TD", "PSU", "SU"])
    approx = measure == "TD" and gen.chance(rng, .25)
    scale = float(rng.uniform(.05, 2)) if measure == "TD" and gen.chance(rng, .5) else None
    eps = gen.pick(rng, [None, 1e-3, 1e-5]) if approx else None
    fk = build.fid_kwargs(measure, scale, approx=approx, eps=eps)
    prop = kw["prop_type"] if kw["prop_type"] != "APPROX" else "DEF"
    dp = dict(kw["dyn_params"])
    if gen.chance(rng, .4):
        dp["cache_prop_grad"] = gen.chance(rng, .5)
    if approx:
        prop = fk.pop("prop_type")
    mon.note(**p.describe(), measure=measure, prop=prop, approx=approx, eps=eps, scale=scale, **{k: str(v) for k, v in dp.items()})
    mon.count(measure)
    mon.count(prop)
    mon.count("unequal_tau", int(not np.allclose(p.tau, p.tau[0])))
    mon.count("td_ctrl", int(bool(p.td_ctrl)))
    mon.sig(kind, p.N, p.n_ts, p.n_ctrls, p.state, p.td_drift, p.td_ctrl, measure, prop, approx, sorted((k, str(v)) for k, v in dp.items()))
    if kind == "UNIT" and prop == "DEF":
        mon.count("DIAG")
    if kind != "UNIT" and prop == "DEF":
        mon.count("FRECHET")
    if kind == "GEN_MAT" and gen.chance(rng, .25):
        ph = build.phased(rng, p, dp)
        mon.note(phase=ph)
        mon.count("own_phase")
        mon.sig("phase", ph, measure, prop, approx)
    if kind == "UNIT" and measure == "PSU" and p.N > 1 and gen.chance(rng, .25):
        # a target the evolution is almost orthogonal to, where the phase of the overlap still counts
        v = Ref(p, A, phase_app=phase_app).final
        t = p.target.astype(complex)
        vv, tt = np.vdot(v, v).real, np.vdot(t, t).real
        t = t - v * (np.vdot(v, t) / vv)
        n = np.linalg.norm(t)
        if n > .05 * np.sqrt(tt):
            t = t * np.sqrt(tt) / n + v * np.sqrt(tt / vv) * 10 ** rng.uniform(-3.9, -1.3) * np.exp(2j * np.pi * rng.random())
            p.target = t
            mon.count("near_orthogonal")
            mon.note(near_orthogonal=True)
    d = build.dyn(p, A, dyn_params=dp, prop_type=prop, **fk)
    f = d.fid_computer
    for rep in range(2):
        if rep:
            A = gen.amps(rng, p, kind="random")
            d.update_ctrl_amps(A.copy())
        if gen.chance(rng, .5):
            f.get_fid_err()
        r = Ref(p, A, phase_app=phase_app)
        if measure == "PSU" and abs(r.prenorm()) < 1e-4:
            mon.count("singular")
            continue
        if measure == "SU" and abs(r.fidelity("SU") - 1) < 1e-6:
            continue
        g = f.get_fid_err_gradient()
        want = r.grad(measure, scale)
        gs = max(1.0, float(np.max(np.abs(want))))
        mon.check(np.shape(g) == (p.n_ts, p.n_ctrls), "shape", "gradient has shape %s" % (np.shape(g),))
        mon.check(np.isrealobj(np.asarray(g)), "type", "gradient is not real")
        gn = f.grad_norm
        mon.close(gn, np.sqrt(np.sum(np.asarray(g, float) ** 2)), "norm", "gradient norm", 1e-12, 1e-14)
        mon.count("norms")
        if approx:
            e = eps or 1e-3
            E0 = r.fid_err("TD", scale)
            fd = np.zeros_like(want)
            for k in range(p.n_ts):
                for j in range(p.n_ctrls):
                    B = A.copy()
                    B[k, j] += e
                    fd[k, j] = (Ref(p, B, phase_app=phase_app).fid_err("TD", scale) - E0) / e
            tol = 4 * np.max(np.abs(fd - want)) + 1e-3 * e * gs + 1e-13 * max(1, E0) / e
            dev = float(np.max(np.abs(np.asarray(g) - want)))
            mon.check(dev <= tol, "approx", "finite-step gradient is off by %g (first-order error %g)" % (dev, tol / 4))
            mon.count("approx_entries", want.size)
        else:
            mon.close(g, want, "grad:%s" % measure, "gradient", 2e-8 * gs, 2e-8)
            mon.count("entries", want.size)
            # difference quotient of the code's own values
            h = 1e-3
            for _ in range(2):
                k, j = int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))
                qs = []
                for hh in (h, h / 4):
                    v = []
                    for s in (-2, -1, 1, 2):
                        B = A.copy()
                        B[k, j] += s * hh
                        d.update_ctrl_amps(B)
                        v.append(float(f.get_fid_err()))
                    qs.append((v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * hh))
                # the truncation error of the second one is a 256th of that of the first
                q, trunc = qs[1], abs(qs[0] - qs[1]) / 50
                mag = max(1.0, max(abs(x) for x in v))
                near = measure == "PSU" and abs(r.prenorm()) < .05
                if measure != "TD" and (kind != "UNIT" or np.linalg.norm(p.initial) > np.linalg.norm(p.target) * (1 + 1e-9)):
                    # the overlap may exceed its norm: the error has a kink where it passes it
                    near = near or abs(r.fid_err(measure)) < 6 * h * gs
                if not near:
                    mon.close(np.asarray(g)[k, j], q, "fd:%s" % measure, "gradient entry against the difference quotient", 1e-5 * gs, 1e-5 * gs * mag + trunc)
                    mon.count("fd_entries")
