"""C01: generators, propagators and evolutions against an independent model."""
import numpy as np
from .. import gen, build
from ..ref import Ref
from qutip import Qobj

LEVEL = "exploration"
CASES = {"quick": 8000, "thorough": 30000}
NEED = {"props_checked": 200, "fwd_checked": 200, "onwd_checked": 50, "onto_checked": 50,
        "unequal_tau": 20, "td_drift": 10, "td_ctrl": 10, "state": 10, "UNIT": 20, "GEN_MAT": 20, "SYMPL": 20, "own_phase": 200}
RULE = ("random UNIT/GEN_MAT/SYMPL systems (operator and state targets, constant and per-slot drift/controls, "
        "equal and unequal slots, every propagator computer and operator type valid for it) are evolved by the real "
        "code; each slot's generator, propagator and the forward/onward/onto lists are compared with an independent "
        "numpy model; distinct = different (kind, size, slots, controls, time dependence, state, prop, dtype, fid)")


def check_dyn(mon, d, p, A, tag="", phase_app=None, tau=None, rtol=3e-6):
    """Compare every public evolution accessor of d with the model."""
    r = Ref(p, A, phase_app=phase_app, tau=tau)
    n = p.n_ts
    d.compute_evolution()
    g, pr, fw = d.dyn_gen, d.prop, d.fwd_evo
    mon.check(len(g) == n, "len:dyn_gen" + tag, lambda: "%d generators for %d slots" % (len(g), n))
    mon.check(len(pr) == n, "len:prop" + tag, lambda: "%d propagators for %d slots" % (len(pr), n))
    mon.check(len(fw) == n + 1, "len:fwd_evo" + tag, lambda: "%d forward evolutions for %d slots" % (len(fw), n))
    for k in range(n):
        mon.close(build.arr(g[k]), r.gen[k], "dyn_gen" + tag, "generator of slot %d" % k, rtol, 1e-9)
        mon.close(build.arr(pr[k]), r.prop[k], "prop" + tag, "propagator of slot %d" % k, rtol, 1e-8)
        mon.count("props_checked")
    for k in range(n + 1):
        mon.close(build.arr(fw[k]), r.fwd[k], "fwd_evo" + tag, "forward evolution %d" % k, rtol, 1e-8)
        mon.count("fwd_checked")
        if isinstance(fw[k], Qobj):
            mon.check(fw[k].dims == p.q_initial().dims, "dims:fwd" + tag, "forward evolution %d has dims %s" % (k, fw[k].dims))
    mon.close(build.arr(d.full_evo), r.final, "full_evo" + tag, "full evolution", rtol, 1e-8)
    for k in range(n):
        for nm, q in (("dyn_gen", g[k]), ("prop", pr[k])):
            mon.check(isinstance(q, Qobj) and q.dims == p.dims, "dims:" + nm + tag, "%s %d is not a Qobj with dims %s" % (nm, k, p.dims))
    if d.fid_computer.uses_onwd_evo:
        ow = d.onwd_evo
        mon.check(len(ow) == n, "len:onwd_evo" + tag, lambda: "%d onward evolutions for %d slots" % (len(ow), n))
        for k in range(n):
            mon.close(build.arr(ow[k]), r.onwd[k], "onwd_evo" + tag, "onward evolution from slot %d" % k, rtol, 1e-8)
            mon.check(isinstance(ow[k], Qobj) and ow[k].dims == p.dims, "dims:onwd" + tag, "onward evolution %d has wrong dims" % k)
            mon.count("onwd_checked")
    if d.fid_computer.uses_onto_evo:
        ot = d.onto_evo
        mon.check(len(ot) == n + 1, "len:onto_evo" + tag, lambda: "%d onto-target evolutions for %d slots" % (len(ot), n))
        t = r.onto_target()
        mon.close(build.arr(d.onto_evo_target), t, "onto_evo_target" + tag, "onto target operator", rtol, 1e-8)
        for k in range(n + 1):
            w = t @ r.onwd[k] if k < n else t
            mon.close(build.arr(ot[k]), w, "onto_evo" + tag, "onto-target evolution from slot %d" % k, rtol, 1e-8)
            rd = [p.idims[1], p.idims[0]]
            mon.check(isinstance(ot[k], Qobj) and ot[k].dims == Qobj(np.zeros(w.shape), dims=rd).dims,
                      "dims:onto" + tag, "onto-target evolution %d has wrong dims" % k)
            mon.count("onto_checked")
    return r


def options(rng, p):
    kw = {}
    dp = {}
    props = {"UNIT": ["DEF", "DIAG", "FRECHET", "AUG_MAT", "APPROX"],
             "GEN_MAT": ["DEF", "FRECHET", "AUG_MAT", "APPROX"],
             "SYMPL": ["DEF", "FRECHET", "AUG_MAT", "APPROX"]}[p.kind]
    prop = gen.pick(rng, props)
    od = gen.pick(rng, [None, None, "ndarray", "Qobj", "mem1"])
    if od == "ndarray":
        dp["oper_dtype"] = np.ndarray
    elif od == "Qobj":
        dp["oper_dtype"] = Qobj
    elif od == "mem1":
        dp["memory_optimization"] = 1
    phase_app = None
    if p.kind == "SYMPL" and gen.chance(rng, .4):
        phase_app = gen.pick(rng, ["preop", "postop"])
        dp["phase_application"] = phase_app
    fids = ["DEF", "TRACEDIFF", "UNIT"]
    if prop == "APPROX":
        fids = ["TDAPPROX", "UNIT"]
    fid = gen.pick(rng, fids)
    if gen.chance(rng, .3):
        dp["cache_phased_dyn_gen"] = gen.chance(rng, .5)
    kw.update(prop_type=prop, fid_type=fid, dyn_params=dp)
    return kw, dict(prop=prop, fid=fid, od=od, phase_app=phase_app), phase_app


def case(mon, rng, idx, tier):
    kind = ["UNIT", "GEN_MAT", "SYMPL"][idx % 3]
    p = gen.problem(rng, kind=kind, max_ts=9 if tier == "thorough" else 6, big=(tier == "thorough" or gen.chance(rng, .1)),
                    n_ts=int(rng.integers(10, 40)) if gen.chance(rng, .02) else None)
    A = gen.amps(rng, p)
    kw, o, phase_app = options(rng, p)
    mon.note(**p.describe(), **o)
    mon.count(kind)
    for f in ("td_drift", "state"):
        mon.count(f, int(bool(getattr(p, f))))
    mon.count("td_ctrl", int(bool(p.td_ctrl)))
    mon.count("unequal_tau", int(not np.allclose(p.tau, p.tau[0])))
    mon.sig(kind, p.N, p.n_ts, p.n_ctrls, p.td_drift, p.td_ctrl, p.state, o)
    if kind == "GEN_MAT" and gen.chance(rng, .2):
        kw["dyn_params"] = dict(kw["dyn_params"])
        ph = build.phased(rng, p, kw["dyn_params"])
        mon.note(phase=ph)
        mon.count("own_phase")
        mon.sig("phase", ph, o)
    route = gen.pick(rng, ["create", "create", "grid", "direct"])
    tau = p.tau
    rtol = 1e-8
    if route == "grid":
        # slot count and total time instead of explicit durations
        T = float(p.tau.sum())
        tau = p.tau = np.ones(p.n_ts) * T / p.n_ts
        d = build.dyn(p, A, num_tslots=p.n_ts, evo_time=T, **kw)
        # generated durations are held in single precision (C08 judges them)
        mon.close(np.asarray(d.tau, float), tau, "grid_tau", "durations of an equal grid", rtol=3e-7, atol=1e-12)
        if np.shape(d.tau) == tau.shape:
            p.tau = np.asarray(d.tau, float)
    elif route == "create":
        d = build.dyn(p, A, **kw)
    else:
        dp = dict(kw["dyn_params"])
        if o["prop"] in ("DEF", "DIAG", "FRECHET", "AUG_MAT") and o["fid"] != "TDAPPROX":
            d = build.dyn_direct(p, A, prop=None if o["prop"] == "DEF" else o["prop"],
                                 fid=None if o["fid"] == "DEF" else o["fid"],
                                 names=gen.pick(rng, ["ham", "dyn_gen"]), **dp)
        else:
            d = build.dyn(p, A, **kw)
    check_dyn(mon, d, p, A, phase_app=phase_app, rtol=rtol)
    # a second set of amplitudes on the same object
    B = gen.amps(rng, p)
    d.update_ctrl_amps(B.copy())
    check_dyn(mon, d, p, B, phase_app=phase_app, rtol=rtol)
    if gen.chance(rng, .5):
        C = B.copy()
        C[int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))] += 0.37
        d.update_ctrl_amps(C.copy())
        check_dyn(mon, d, p, C, phase_app=phase_app, rtol=rtol)
