"""Constructing qutip_qtrl objects from a Problem, through public entry points."""
import numpy as np
from qutip import Qobj
import qutip_qtrl.pulseoptim as po
import qutip_qtrl.optimconfig as oc
import qutip_qtrl.dynamics as dynmod
import qutip_qtrl.propcomp as propcomp
import qutip_qtrl.fidcomp as fidcomp


def layout(p, amps):
    """The same numbers, in one of the memory layouts an array may have."""
    a = np.array(amps, dtype=float)
    k = (p.n_ts + 2 * p.n_ctrls + len(p.fmt) + p.N) % 3
    if k != 2 and np.all(a == np.rint(a)):
        a = a.astype(int)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.full((2 * a.shape[0], 3 * a.shape[1] + 1), np.nan)
        b[::2, 1::3] = a
        return b[::2, 1::3]
    return a


def optim(p, **kw):
    kw.setdefault("dyn_type", p.kind)
    kw.setdefault("fid_err_targ", 1e-10)
    if "num_tslots" not in kw and "tau" not in kw:
        kw["tau"] = p.tau.copy()
    return po.create_pulse_optimizer(p.q_drift(p.spare), p.q_ctrls(p.spare), p.q_initial(), p.q_target(), **kw)


def dyn(p, amps=None, **kw):
    d = optim(p, **kw).dynamics
    if amps is not None:
        d.initialize_controls(layout(p, amps))
    return d


def dyn_direct(p, amps=None, prop=None, fid=None, names="dyn_gen", **attrs):
    """The class-level route documented in the module docstrings."""
    cfg = oc.OptimConfig()
    cls = {"UNIT": dynmod.DynamicsUnitary, "GEN_MAT": dynmod.DynamicsGenMat,
           "SYMPL": dynmod.DynamicsSymplectic}[p.kind]
    d = cls(cfg)
    if names == "ham" and p.kind == "UNIT":
        d.drift_ham, d.ctrl_ham = p.q_drift(p.spare), p.q_ctrls(p.spare)
    else:
        d.drift_dyn_gen, d.ctrl_dyn_gen = p.q_drift(p.spare), p.q_ctrls(p.spare)
    d.initial, d.target = p.q_initial(), p.q_target()
    d.tau = p.tau.copy()
    for k, v in attrs.items():
        setattr(d, k, v)
    if prop:
        d.prop_computer = {"APPROX": propcomp.PropCompApproxGrad, "DIAG": propcomp.PropCompDiag,
                           "FRECHET": propcomp.PropCompFrechet, "AUG_MAT": propcomp.PropCompAugMat}[prop](d)
    if fid:
        d.fid_computer = {"UNIT": fidcomp.FidCompUnitary, "TRACEDIFF": fidcomp.FidCompTraceDiff,
                          "TDAPPROX": fidcomp.FidCompTraceDiffApprox}[fid](d)
    if amps is not None:
        d.initialize_controls(layout(p, amps))
    return d


def phased(rng, p, dp):
    """Dynamics parameters giving a GEN_MAT problem a phase operator of its own,
    told to the model through p.gphase."""
    pick = lambda x: x[int(rng.integers(len(x)))]
    is_q = dp.get("oper_dtype") is Qobj or (dp.get("oper_dtype") is None and dp.get("memory_optimization", 0) > 0)
    form = pick(["scalar", "scalar", "matrix", "custom"])
    app = pick(["preop", "postop", "PreOp", None])
    if form == "scalar":
        m = complex(pick([-1j, 1j, .5, -.3, .4 - .6j]))
        op = pick([m, np.complex128(m)])
        p.gphase = lambda g: m * g
    else:
        m = rng.normal(size=(p.N, p.N)) + 1j * rng.normal(size=(p.N, p.N))
        m *= .7 / np.linalg.norm(m, 2)
        op = Qobj(m, dims=p.dims) if is_q else m
        if form == "matrix":
            p.gphase = (lambda g: g @ m) if app == "postop" else (lambda g: m @ g)
        else:
            # the function is given by the user
            app = "custom"
            dp["_apply_phase"] = lambda g: .5 * (op @ g + g @ op)
            p.gphase = lambda g: .5 * (m @ g + g @ m)
    # either order of the two names
    if app is not None and rng.random() < .5:
        dp["phase_application"] = app
    dp["dyn_gen_phase"] = op
    if app is not None:
        dp["phase_application"] = app
    return "%s %s" % (form, app)


def arr(x):
    """Numbers of a Qobj or array."""
    return x.full() if isinstance(x, Qobj) else np.asarray(x)


def fid_kwargs(measure, scale=None, approx=False, eps=None):
    """create_pulse_optimizer arguments selecting a fidelity measure."""
    if measure in ("PSU", "SU"):
        return dict(fid_type="UNIT", fid_params={"phase_option": measure})
    fp = {}
    if scale is not None:
        fp["scale_factor"] = scale
    if approx:
        if eps:
            fp["epsilon"] = eps
        return dict(fid_type="TDAPPROX", prop_type="APPROX", fid_params=fp)
    return dict(fid_type="TRACEDIFF", fid_params=fp)
