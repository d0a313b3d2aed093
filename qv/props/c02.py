"""C02: every supported way of computing the same problem agrees."""
import itertools
import numpy as np
from .. import gen, build
from ..ref import Ref
from qutip import Qobj
import qutip_qtrl.errors as errors

LEVEL = "exploration"
CASES = {"quick": 3000, "thorough": 10000}
NEED = {"configs": 600, "pairs": 600, "grad_pairs": 300, "refusals": 20, "Qobj": 100, "ndarray": 100,
        "sparse": 20, "DIAG": 50, "FRECHET": 50, "AUG_MAT": 50}
RULE = ("one random problem and amplitudes evolved under a random subset of all supported configurations (operator type, "
        "memory level, three cache switches, dense/sparse decomposition, propagator methods, sparse/dense input data, "
        "constant system repeated per slot); all public values compared with the baseline configuration and with the "
        "independent model; unsupported combinations must be refused; distinct = (problem class, configuration)")


def configs(p):
    props = {"UNIT": ["DIAG", "FRECHET", "AUG_MAT", "APPROX"]}.get(p.kind, ["FRECHET", "AUG_MAT", "APPROX"])
    out = []
    for prop, od, mem, cp, cg, ce, sp in itertools.product(
            props, [None, np.ndarray, Qobj], [0, 1, 2], [None, True, False], [None, True, False],
            [None, True, False], [None, True, False]):
        if prop != "DIAG" and ce is not None:
            continue
        if prop == "APPROX" and cg is not None:
            continue
        eff_sparse = sp if sp is not None else mem > 1
        if eff_sparse and p.initial.shape[0] <= 2:
            continue
        out.append(dict(prop=prop, od=od, mem=mem, cp=cp, cg=cg, ce=ce, sp=sp))
    return out


def dyn_params(c):
    dp = {"memory_optimization": c["mem"]}
    for k, n in (("od", "oper_dtype"), ("cp", "cache_phased_dyn_gen"), ("cg", "cache_prop_grad"),
                 ("ce", "cache_dyn_gen_eigenvectors_adj"), ("sp", "sparse_eigen_decomp")):
        if c[k] is not None:
            dp[n] = c[k]
    return dp


def values(mon, p, A, c, measure, extra):
    kw = dict(build.fid_kwargs(measure))
    kw["prop_type"] = c["prop"]
    approx = c["prop"] == "APPROX"
    if approx and measure == "TD":
        kw = build.fid_kwargs("TD", approx=True, eps=1e-6)
    dp = dyn_params(c)
    dp.update(extra)
    d = build.dyn(p, A, dyn_params=dp, **kw)
    d.compute_evolution()
    mon.count("Qobj" if d.oper_dtype == Qobj else "ndarray")
    mon.count(c["prop"])
    mon.count("sparse", int(bool(d.sparse_eigen_decomp)))
    v = dict(dyn_gen=[build.arr(x) for x in d.dyn_gen], prop=[build.arr(x) for x in d.prop],
             fwd=[build.arr(x) for x in d.fwd_evo], fid_err=float(d.fid_computer.get_fid_err()))
    if d.fid_computer.uses_onwd_evo:
        v["onwd"] = [build.arr(x) for x in d.onwd_evo]
    if d.fid_computer.uses_onto_evo:
        v["onto"] = [build.arr(x) for x in d.onto_evo]
    if not approx or measure == "TD":
        g = d.fid_computer.get_fid_err_gradient()
        v["grad"] = np.array(g)
    if d.prop_grad is not None:
        pg = d.prop_grad
        v["prop_grad"] = np.array([[build.arr(pg[k, j]) for j in range(p.n_ctrls)] for k in range(p.n_ts)])
    return v


def case(mon, rng, idx, tier):
    kind = ["UNIT", "UNIT", "GEN_MAT", "SYMPL"][idx % 4]
    p = gen.problem(rng, kind=kind, max_ts=4, max_ctrls=2, big=gen.chance(rng, .06))
    A = gen.amps(rng, p)
    measure = gen.pick(rng, ["PSU", "SU", "TD"])
    if p.kind != "UNIT" and not p.state:
        measure = gen.pick(rng, ["TD", "TD", "PSU"])
    mon.note(**p.describe(), measure=measure)
    extra = {"phase_application": gen.pick(rng, ["preop", "postop"])} if kind != "GEN_MAT" and gen.chance(rng, .5) else {}
    pa = extra.get("phase_application") if kind == "SYMPL" else None
    r = Ref(p, A, phase_app=pa)
    want = dict(dyn_gen=r.gen, prop=r.prop, fwd=r.fwd, fid_err=r.fid_err(measure), grad=r.grad(measure),
                onwd=r.onwd, onto=[r.onto_target() @ w for w in r.onwd] + [r.onto_target()],
                prop_grad=np.array([[r.prop_grad(k, j) for j in range(p.n_ctrls)] for k in range(p.n_ts)]))
    if measure == "PSU" and abs(r.prenorm()) < 1e-6:
        want["grad"] = None     # the modulus is not differentiable there
    cs = configs(p)
    sel = [cs[int(i)] for i in rng.choice(len(cs), size=min(10 if tier == "quick" else 24, len(cs)), replace=False)]
    base = {}
    gs = max(1.0, float(np.max(np.abs(want["grad"])))) if want["grad"] is not None else 1.0
    for c in sel:
        nm = {k: (v.__name__ if isinstance(v, type) else v) for k, v in c.items()}
        mon.note(config=nm, **extra)
        with mon.guard("config", "supported configuration"):
            v = values(mon, p, A, c, measure, extra)
            mon.count("configs")
            mon.sig(kind, p.state, p.td_drift, p.td_ctrl, measure, sorted((k, str(x)) for k, x in nm.items()))
            approx = c["prop"] == "APPROX"
            for q, x in v.items():
                if want[q] is None:
                    continue
                rt = 2e-8
                at = 1e-8
                if q == "grad" and approx:
                    at = 2e-4 * gs * max(1, np.max(p.tau)) ** 2
                if q == "dyn_gen" or q == "prop" or q in ("fwd", "onwd", "onto"):
                    for k in range(len(x)):
                        mon.close(x[k], want[q][k], "ref:%s:%s" % (q, c["prop"]), "%s[%d] against the model" % (q, k), rt, at)
                        if q in base:
                            mon.close(x[k], base[q][k], "pair:" + q, "%s[%d] against %s" % (q, k, base["name"]), rt, at)
                else:
                    mon.close(x, want[q], "ref:%s:%s" % (q, c["prop"]), "%s against the model" % q, rt, at)
                    if q in base:
                        mon.close(x, base[q], "pair:" + q, "%s against %s" % (q, base["name"]), rt, at)
                mon.count("grad_pairs" if q == "grad" else "pairs")
                if not (approx and q == "grad"):
                    base.setdefault(q, x)
            base.setdefault("name", nm)
    # constant system given per slot; dense/sparse data of the same operators
    if not p.td_drift and not p.td_ctrl:
        p2 = gen.Problem(**p.__dict__)
        p2.td_drift, p2.td_ctrl = True, gen.pick(rng, ["array", "list"])
        p2.drift = [p.drift] * p.n_ts
        p2.ctrls = [p.ctrls] * p.n_ts
        c = gen.pick(rng, sel)
        with mon.guard("config", "constant system per slot"):
            v = values(mon, p2, A, c, measure, extra)
            mon.close(v["fid_err"], want["fid_err"], "perslot:fid_err", "fidelity error of the per-slot form")
            if "grad" in v and want["grad"] is not None and c["prop"] != "APPROX":
                mon.close(v["grad"], want["grad"], "perslot:grad", "gradient of the per-slot form")
            mon.count("perslot")
    with mon.guard("config", "sparse / dense input data"):
        for fmt in ("csr", "dense"):
            o = build.po.create_pulse_optimizer(
                _to(p.q_drift(), fmt), _to(p.q_ctrls(), fmt), p.q_initial().to(fmt), p.q_target().to(fmt),
                tau=p.tau.copy(), dyn_type=p.kind, dyn_params=dict(extra, memory_optimization=int(rng.integers(2))), **build.fid_kwargs(measure))
            o.dynamics.initialize_controls(A.copy())
            mon.close(o.dynamics.fid_computer.get_fid_err(), want["fid_err"], "data:" + fmt, "fidelity error with %s data" % fmt)
            if want["grad"] is not None:
                mon.close(o.dynamics.fid_computer.get_fid_err_gradient(), want["grad"], "datagrad:" + fmt, "gradient with %s data" % fmt)
            mon.count("data_forms")
    # refusals
    if idx % 4 == 0:
        q = gen.problem(rng, kind="UNIT", max_ts=2, flavour="pauli")
        B = gen.amps(rng, q)
        if q.N == 2:
            mon.raises(lambda: build.dyn(q, B, dyn_params={"sparse_eigen_decomp": True}).compute_evolution(),
                       "refuse:sparse2", "sparse decomposition of a two-level system", (ValueError,))
            mon.count("refusals")
        mon.raises(lambda: build.dyn(q, B, dyn_params={"oper_dtype": gen.pick(rng, [list, "array", float])}),
                   "refuse:dtype", "unknown operator type")
        g = gen.problem(rng, kind=gen.pick(rng, ["GEN_MAT", "SYMPL"]), max_ts=2)
        mon.raises(lambda: build.dyn(g, gen.amps(rng, g), prop_type="DIAG").compute_evolution(),
                   "refuse:diag", "diagonal propagators without a Hamiltonian", (errors.UsageError,))
        mon.raises(lambda: build.dyn(q, B, prop_type="APPROX", fid_type="TRACEDIFF"),
                   "refuse:approx", "exact trace difference with approximate propagators", (errors.UsageError,))
        mon.count("refusals", 3)


def _to(x, fmt):
    if isinstance(x, Qobj):
        return x.to(fmt)
    if isinstance(x, np.ndarray):
        o = np.empty(x.shape, dtype=object)
        for k in np.ndindex(*x.shape):
            o[k] = x[k].to(fmt)
        return o
    return [_to(y, fmt) for y in x]
