"""C03: fidelity error, fidelity and overlap against their definitions."""
import numpy as np
from .. import gen, build
from ..ref import Ref
from qutip import Qobj

LEVEL = "exploration"
CASES = {"quick": 8000, "thorough": 30000}
NEED = {"fid_errs": 800, "on_target": 100, "phase_twins": 60, "PSU": 60, "SU": 60, "TD": 60, "bounded": 60,
        "nonunitary_target": 20, "scaled": 30}
RULE = ("random systems, targets (unitary, non-unitary, states, reachable ones) and amplitudes; the fidelity error, fidelity "
        "and overlap reported by the real fidelity computers compared with the definitions evaluated on an independently "
        "computed evolution; metamorphic twins with rotated target phase and with the target set to the evolved operator")


def case(mon, rng, idx, tier):
    measure = ["PSU", "SU", "TD"][idx % 3]
    kind = "UNIT" if idx % 2 == 0 or (measure != "TD" and idx % 5) else gen.pick(rng, ["GEN_MAT", "SYMPL"])
    p = gen.problem(rng, kind=kind, max_ts=5, big=gen.chance(rng, .1))
    if gen.chance(rng, .25) and not p.state and kind == "UNIT":
        p.target = p.target * float(rng.uniform(.3, 3))
        mon.count("nonunitary_target")
    elif gen.chance(rng, .2) and p.state:
        p.target = p.target * float(rng.uniform(.3, 3))
        mon.count("nonunitary_target")
    A = gen.amps(rng, p, kind=None if kind != "SYMPL" else "random")
    scale = None
    if measure == "TD" and gen.chance(rng, .6):
        scale = float(gen.pick(rng, [1.0, .5, .125, rng.uniform(.01, 4)]))
        mon.count("scaled")
    dp = {}
    od = gen.pick(rng, [None, Qobj, np.ndarray])
    if od is not None:
        dp["oper_dtype"] = od
    approx = measure == "TD" and gen.chance(rng, .3)
    fk = build.fid_kwargs(measure, scale, approx=approx)
    prop = fk.pop("prop_type", None) or gen.pick(rng, ["DEF", "FRECHET", "AUG_MAT"] + (["APPROX"] if measure != "TD" else []))
    if measure in ("PSU", "SU") and gen.chance(rng, .15):
        fk = dict(fid_type="UNIT", phase_option=measure)      # deprecated spelling
    elif measure == "PSU" and gen.chance(rng, .3):
        fk = dict(fid_type="UNIT" if kind != "UNIT" else "DEF")   # the default phase option
    mon.note(**p.describe(), measure=measure, scale=scale, prop=prop, dtype=getattr(od, "__name__", None), approx=approx)
    mon.sig(kind, p.N, p.n_ts, p.n_ctrls, p.state, measure, scale is None, prop, mon.info["dtype"], approx)
    mon.count(measure)

    def observe(q, B, d=None):
        if d is None:
            d = build.dyn(q, B, dyn_params=dict(dp), prop_type=prop, **fk)
        r = Ref(q, B)
        f = d.fid_computer
        order = rng.permutation(4)
        got = {}
        for o in order:
            if o == 0:
                got["err"] = f.get_fid_err()
            elif o == 1 and measure != "TD":
                got["fid"] = f.get_fidelity()
            elif o == 2 and measure != "TD":
                got["pre"] = f.get_fidelity_prenorm()
            elif o == 3 and prop != "APPROX" and gen.chance(rng, .3):
                f.get_fid_err_gradient()
        e = got["err"]
        mon.count("fid_errs")
        mon.check(np.ndim(e) == 0 and np.isrealobj(np.asarray(e)) and np.asarray(e).dtype.kind == "f", "type:err",
                  "fidelity error is %r" % (e,))
        mon.check(np.isfinite(e) and e >= 0, "range:err", "fidelity error %r" % (e,))
        mon.close(e, r.fid_err(measure, scale), "value:err:" + measure, "fidelity error", 1e-8, 1e-9)
        if measure != "TD":
            mon.close(got["fid"], r.fidelity(measure), "value:fid:" + measure, "fidelity", 1e-8, 1e-9)
            mon.close(got["pre"], r.prenorm(), "value:prenorm", "overlap", 1e-8, 1e-9)
            mon.close(e, abs(1 - got["fid"]), "consistent", "error against fidelity", 1e-12, 1e-12)
            mon.check(np.isrealobj(np.asarray(got["fid"])), "type:fid", "fidelity is %r" % (got["fid"],))
        else:
            mon.close(f.scale_factor, 1 / (2 * q.N) if scale is None else scale, "scale_factor", "scale factor", 1e-12)
        return float(e), d

    e0, d = observe(p, A)
    # bounds for unitary dynamics with a matching norm
    if kind == "UNIT" and measure != "TD":
        ni, nt = np.linalg.norm(p.initial), np.linalg.norm(p.target)
        if abs(ni - nt) < 1e-9:
            mon.check(e0 <= (1 if measure == "PSU" else 2) + 1e-9, "bound:" + measure, "error %r out of range" % e0)
            mon.count("bounded")
    # other amplitudes, same object
    B = gen.amps(rng, p, kind=None if kind != "SYMPL" else "random")
    d.update_ctrl_amps(B.copy())
    observe(p, B, d)
    # target reached: the error vanishes (for a self-overlap of the evolved operator equal to N)
    r = Ref(p, A)
    if np.linalg.norm(r.final) < 1e3 and (kind == "UNIT" or p.state or measure == "TD"):
        q = gen.Problem(**p.__dict__)
        q.target = r.final.copy()
        e1, _ = observe(q, A)
        mon.check(e1 < 1e-9 * max(1, np.linalg.norm(r.final) ** 2), "on_target:" + measure, "error %g although the target is reached" % e1)
        mon.count("on_target")
        if measure != "TD":
            th = float(rng.uniform(.3, 5.9))
            q.target = q.target * np.exp(1j * th)
            e2, _ = observe(q, A)
            want = 0 if measure == "PSU" else 1 - np.cos(th)
            mon.close(e2, want, "phase_on_target:" + measure, "error when the target is reached up to a phase", 1e-8, 1e-8)
            mon.count("on_target")
    # phase behaviour
    if measure != "TD":
        q = gen.Problem(**p.__dict__)
        th = float(rng.uniform(.3, 5.9))
        q.target = p.target * np.exp(1j * th)
        e3, _ = observe(q, A)
        if measure == "PSU":
            mon.close(e3, e0, "phase:PSU", "error after a phase change of the target", 1e-8, 1e-9)
        mon.count("phase_twins")
