"""C05: propagator gradients are directional derivatives of the propagators."""
import numpy as np
from .. import gen, build
from ..ref import Ref
from .c01 import options
from qutip import Qobj
from scipy.linalg import expm

LEVEL = "exploration"
CASES = {"quick": 7000, "thorough": 20000}
NEED = {"own_phase": 100, "eager": 500, "on_demand": 500, "diff_prop": 100, "degenerate": 30, "near_degenerate": 20, "short": 60, "common_energy": 10, "DIAG": 40, "FRECHET": 20, "AUG_MAT": 20}
RULE = ("random, degenerate and nearly degenerate generators, very short slots and large common energies; the propagator gradient of every slot and control, taken from "
        "the cache and computed on demand, compared with the exact derivative (block-triangular exponential) and the "
        "difference quotient of true propagators; finite-step propagators compared with the propagator at shifted amplitude")


def case(mon, rng, idx, tier):
    kind = ["UNIT", "UNIT", "GEN_MAT", "SYMPL"][idx % 4]
    fl = None
    if kind == "UNIT":
        fl = gen.pick(rng, ["random", "degenerate", "degenerate", "pauli", "zero_drift"])
    unit = gen.pick(rng, [None, None, None, "short", "common"])
    if unit == "common" and fl:
        fl = gen.pick(rng, ["degenerate", "degenerate", "zero_drift", "random"])
    p = gen.problem(rng, kind=kind, max_ts=4, flavour=fl, big=gen.chance(rng, .06), wide=.08)
    A = gen.amps(rng, p, kind=gen.pick(rng, ["zero", "sparse", "equal", "random"]))
    near = 0
    if kind == "UNIT" and fl == "degenerate" and gen.chance(rng, .5):
        # split the degeneracies by tiny amounts
        near = float(10 ** rng.uniform(-13, -4))
        sp = np.diag(rng.normal(size=p.N)) * near
        p.drift = [d + sp for d in p.drift] if p.td_drift else p.drift + sp
        mon.count("near_degenerate")
    if unit == "short":
        # very short slots (all of them or some), e.g. times in seconds
        f = 10 ** rng.uniform(-7, -1)
        p.tau = p.tau * np.where(rng.random(p.n_ts) < .7, f, 1.0)
        mon.count("short")
    mon.count("degenerate", int(fl in ("degenerate", "zero_drift")))
    for _ in range(6):
        kw, o, phase_app = options(rng, p)
        if unit != "common" or kw["prop_type"] in ("DEF", "DIAG"):
            break
    prop = kw["prop_type"]
    if unit == "common" and kind == "UNIT" and prop in ("DEF", "DIAG"):
        # a large common energy, which must not affect the gaps (the exponential functions of scipy that
        # the other methods call lose digits there)
        e = float(10 ** rng.uniform(1.5, 3.7)) * np.eye(p.N)
        p.drift = [d + e for d in p.drift] if p.td_drift else p.drift + e
        mon.count("common_energy")
        if gen.chance(rng, .5):
            sp = np.diag(rng.normal(size=p.N)) * float(10 ** rng.uniform(-5, -2))
            p.drift = [d + sp for d in p.drift] if p.td_drift else p.drift + sp
    dp = dict(kw["dyn_params"])
    cache = gen.pick(rng, [None, True, False])
    if cache is not None:
        dp["cache_prop_grad"] = cache
    if gen.chance(rng, .3):
        dp["cache_dyn_gen_eigenvectors_adj"] = gen.chance(rng, .5)
    fid = kw["fid_type"]
    ph = None
    if kind == "GEN_MAT" and not near and gen.chance(rng, .25):
        dp0 = dict(dp)
        ph = build.phased(rng, p, dp)
        mon.count("own_phase")
        mon.sig("phase", ph, prop)
    d = build.dyn(p, A, dyn_params=dp, prop_type=prop, fid_type=fid)
    r = Ref(p, A, phase_app=phase_app)
    if ph:
        dp = dp0
    mon.note(**p.describe(), prop=prop, near=near, cache=cache, phase=ph, **{k: str(v) for k, v in dp.items()})
    mon.sig(kind, p.N, p.n_ts, p.n_ctrls, p.td_drift, p.td_ctrl, fl, near > 0, prop, sorted((k, str(v)) for k, v in dp.items()))
    eff = prop if prop != "DEF" else ("DIAG" if kind == "UNIT" else "FRECHET")
    mon.count(eff)
    d.compute_evolution()
    pc = d.prop_computer
    at = 1e-8
    if eff == "DIAG":
        at += 1e-13 * max(np.linalg.norm(r.gen[k], 2) * r.tau[k] for k in range(p.n_ts))
    if eff == "AUG_MAT" and near:
        # scipy's exponential of a triangular matrix is only accurate to
        # about 1e-16 over the difference of the diagonal elements
        at = 1e-3
    if eff == "APPROX":
        mon.check(not pc.grad_exact, "flag", "finite-step propagators claim exact gradients")
        for _ in range(4):
            k, j = int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))
            eps = float(gen.pick(rng, [1e-3, .1, -.4, 1.7]))
            got = build.arr(pc.compute_diff_prop(k, j, eps))
            B = A.copy()
            B[k, j] += eps
            mon.close(got, Ref(p, B, phase_app=phase_app).prop[k], "diff_prop", "finite-step propagator of slot %d control %d" % (k, j), 1e-9, 1e-9)
            mon.count("diff_prop")
        return
    mon.check(bool(pc.grad_exact), "flag", "exact propagators do not claim exact gradients")
    pg = d.prop_grad
    if d.cache_prop_grad:
        mon.check(pg is not None, "cached", "propagator gradients are not cached although caching is on")
    for k in range(p.n_ts):
        for j in range(p.n_ctrls):
            want = r.prop_grad(k, j)
            # the derivative is of the size of duration and control
            at_k = (1e-8 + at) * min(1.0, float(r.tau[k])) * max(1.0, float(np.abs(p.ctrl_kj(k, j)).max()), float(np.abs(want).max())) + 1e-14
            if pg is not None:
                mon.close(build.arr(pg[k, j]), want, "eager:" + eff, "cached propagator gradient [%d,%d]" % (k, j), 0, at_k)
                if isinstance(pg[k, j], Qobj):
                    mon.check(pg[k, j].dims == p.dims, "dims", "propagator gradient has dims %s" % pg[k, j].dims)
                mon.count("eager")
            got = pc.compute_prop_grad(k, j, compute_prop=False)
            mon.close(build.arr(got), want, "ondemand:" + eff, "propagator gradient [%d,%d] on demand" % (k, j), 0, at_k)
            both = pc.compute_prop_grad(k, j)
            mon.check(isinstance(both, tuple) and len(both) == 2, "pair", "propagator and gradient were not returned together")
            mon.close(build.arr(both[0]), r.prop[k], "prop:" + eff, "propagator returned with its gradient", 1e-8, 1e-8)
            mon.close(build.arr(both[1]), want, "ondemand2:" + eff, "propagator gradient [%d,%d]" % (k, j), 0, at_k)
            mon.count("on_demand", 2)
    # difference quotient of true propagators
    k, j = int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))
    h = 1e-3 / max(1.0, float(r.tau[k]) * float(np.linalg.norm(p.ctrl_kj(k, j), 2)) / 4)
    v = []
    for s in (-2, -1, 1, 2):
        B = A.copy()
        B[k, j] += s * h
        d.update_ctrl_amps(B)
        d.compute_evolution()
        v.append(build.arr(d.prop[k]))
    q = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
    mon.close(r.prop_grad(k, j), q, "fd:" + eff, "difference quotient of the propagators [%d,%d]" % (k, j), 1e-6, 1e-5)
