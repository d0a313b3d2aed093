"""C07: structure preserved by the dynamics; unitarity check exact."""
import re
import numpy as np
from .. import gen, build
from ..instr import capture_logs
from qutip import Qobj
import qutip_qtrl.symplectic as sympl

LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 12000}
NEED = {"unitary_props": 500, "sympl_props": 100, "tp_props": 100, "warn_expected": 40, "warn_absent": 200, "long": 20, "short": 40, "extreme": 20}
RULE = ("random Hermitian / symmetric / Lindblad systems are evolved with short, long and extreme pulses under every "
        "propagator computer; monitors check the unitarity defect, the symplectic form, trace preservation and the Choi "
        "spectrum of every slot and cumulative evolution; with the unitarity check on, the set of slots named by the "
        "warnings must be the set whose observed propagator misses the tolerance (margin of 3 either way)")
ASSUMPTIONS = ["structure is judged up to rounding that grows with the norm of the exponent"]

WARN = re.compile(r"timeslot\D*(\d+)\D.*not\s+unitary", re.I)


def defect(a):
    return float(np.max(np.abs(a @ a.conj().T - np.eye(len(a)))))


def norm_of(p, A):
    n = p.n_ts
    return max(np.linalg.norm(p.drift_k(k) + sum(A[k, j] * p.ctrl_kj(k, j) for j in range(p.n_ctrls)), 2) * p.tau[k]
               for k in range(n))


def options(rng, kind, nodiag=False):
    dp = {}
    od = gen.pick(rng, [None, np.ndarray, Qobj])
    if od is not None:
        dp["oper_dtype"] = od
    m = gen.pick(rng, [None, 0, 1])
    if m is not None:
        dp["memory_optimization"] = m
    prop = gen.pick(rng, ["DEF", "FRECHET", "AUG_MAT", "APPROX"] + (["DIAG"] if kind == "UNIT" and not nodiag else []))
    fk = {}
    if prop == "APPROX":
        fk = dict(fid_type="TDAPPROX")
    return dict(dyn_params=dp, prop_type=prop, **fk)


def case(mon, rng, idx, tier):
    what = ["unit", "warn", "sympl", "lind", "warn", "unit", "omega"][idx % 7]
    big = tier == "thorough"
    mode = gen.pick(rng, ["plain", "long", "extreme", "short"])
    nmax = (400 if big else 120) if mode == "long" else 6
    scale = float(10 ** rng.uniform(1, 3)) if mode == "extreme" else 1.0
    if what == "omega":
        n = int(rng.integers(0, 8))
        o = np.asarray(sympl.calc_omega(n), dtype=float)
        mon.check(o.shape == (2 * n, 2 * n), "omega:shape", lambda: "calc_omega(%d) has shape %s" % (n, o.shape))
        mon.close(o.T, -o, "omega:antisym", "calc_omega(%d) transposed" % n, 0, 0)
        mon.close(o @ o, -np.eye(2 * n), "omega:square", "calc_omega(%d) squared" % n, 0, 0)
        n = max(1, min(n, 4))
        N = 2 * n
        d = gen.symm(rng, N)
        p = gen.Problem(kind="SYMPL", tau=gen.taus(rng, 2), td_drift=False, td_ctrl=False, state=False, flavour="random",
                        dims=[[N], [N]], idims=[[N], [N]], drift=d + 0j, ctrls=[gen.symm(rng, N) + 0j],
                        initial=np.eye(N) + 0j, target=np.eye(N) + 0j)
        opts = options(rng, "SYMPL")
        dd = build.dyn(p, gen.amps(rng, p, kind="random"), **opts)
        dd.compute_evolution()
        o = build.arr(dd.omega)
        mon.close(o, gen.omega(n), "omega:accessor", "omega of the dynamics", 0, 0)
        ph = build.arr(dd.dyn_gen_phase)
        mon.close(ph @ ph, -np.eye(N), "omega:phase", "square of the symplectic phase", 0, 0)
        mon.sig("omega", n, opts["prop_type"])
        return
    if what in ("unit", "sympl", "lind"):
        kind = {"unit": "UNIT", "sympl": "SYMPL", "lind": "GEN_MAT"}[what]
        n_ts = int(rng.integers(30, nmax)) if mode == "long" else None
        p = gen.problem(rng, kind=kind, max_ts=nmax, n_ts=n_ts, td=False if mode == "long" else None, state=False,
                        flavour=gen.pick(rng, ["lindblad", "closed"]) if what == "lind" else None)
        if mode == "long":
            p.tau = gen.taus(rng, p.n_ts, total=float(rng.uniform(5, 200)))
        if mode == "short":
            # down to very short slots, where nothing but rounding is allowed
            p.tau = p.tau * 10 ** rng.uniform(-5, -.5)
            mon.count("short")
        if kind == "SYMPL" and mode == "long":
            # stable oscillators, otherwise the norm explodes
            n = p.N // 2
            p.drift = np.diag(np.repeat(rng.uniform(.5, 2, size=n), 2)) + 0j
            p.ctrls = [np.diag(rng.uniform(0, .5, size=2 * n)) + 0j for _ in p.ctrls]
        A = gen.amps(rng, p, kind="random", s=scale if kind != "SYMPL" else min(scale, 1.0))
        if kind == "SYMPL" and mode == "long":
            A = np.abs(A)
        opts = options(rng, kind)
        d = build.dyn(p, A, **opts)
        post = None
        if kind == "SYMPL":
            post = gen.pick(rng, [None, "preop", "postop"])
            if post:
                d = build.dyn(p, None, **opts)
                d.phase_application = post
                d.initialize_controls(A.copy())
        d.compute_evolution()
        nrm = norm_of(p, A)
        props = [build.arr(x) for x in d.prop]
        evos = [build.arr(x) for x in d.fwd_evo]
        mon.note(**p.describe(), what=what, mode=mode, norm=nrm, prop=opts["prop_type"], post=post)
        if mode == "long":
            mon.count("long")
        if nrm > 50:
            mon.count("extreme")
        if what == "unit":
            tol = (4e-15 if opts["prop_type"] in ("FRECHET", "AUG_MAT", "APPROX") else 2e-12) * (1 + nrm) * p.N
            for k, x in enumerate(props):
                mon.count("unitary_props")
                e = defect(x)
                mon.check(e <= tol, "unitary:prop", lambda: "propagator of slot %d misses unitarity by %.3g" % (k, e))
            for k, x in enumerate(evos):
                e = defect(x)
                mon.check(e <= tol * (k + 1), "unitary:evo", lambda: "evolution to slot %d misses unitarity by %.3g" % (k, e))
            if d.fid_computer.uses_onwd_evo:
                for k, x in enumerate(d.onwd_evo):
                    e = defect(build.arr(x))
                    mon.check(e <= tol * (p.n_ts + 1), "unitary:onwd", lambda: "onward evolution %d misses unitarity by %.3g" % (k, e))
        elif what == "sympl":
            om = gen.omega(p.N // 2)
            for k, x in enumerate(props + evos):
                mon.count("sympl_props")
                s = max(1.0, float(np.linalg.norm(x, 2))) ** 2
                e = float(np.max(np.abs(x.T @ om @ x - om))) / s
                mon.check(e <= 1e-13 * (1 + nrm) * (p.n_ts if k >= len(props) else 1), "sympl:form",
                          lambda: "%s %d changes the symplectic form by %.3g" % ("propagator" if k < len(props) else "evolution", k, e))
        else:
            n = int(round(p.N ** .5))
            v = np.eye(n).reshape(-1, order="F").conj()
            for k, x in enumerate(props + evos):
                mon.count("tp_props")
                tol = 1e-13 * (1 + nrm) * (p.n_ts if k >= len(props) else 1)
                e = float(np.max(np.abs(v @ x - v)))
                mon.check(e <= tol, "tp:trace", lambda: "map %d changes the trace by %.3g" % (k, e))
                # Choi matrix: C[(i a),(j b)] = <a|E(|i><j|)|b>
                C = np.zeros((n * n, n * n), complex)
                for i in range(n):
                    for j in range(n):
                        E = np.zeros((n, n), complex)
                        E[i, j] = 1
                        o = (x @ E.reshape(-1, order="F")).reshape(n, n, order="F")
                        C[n * i:n * i + n, n * j:n * j + n] = o
                mon.check(np.max(np.abs(C - C.conj().T)) <= tol, "tp:herm", lambda: "map %d does not keep Hermiticity" % k)
                lo = float(np.min(np.linalg.eigvalsh((C + C.conj().T) / 2)))
                mon.check(lo >= -tol, "tp:positive", lambda: "map %d is not completely positive (%.3g)" % (k, lo))
        mon.sig(what, mode, p.N, p.n_ctrls, p.flavour, opts["prop_type"], post, int(np.log10(nrm + 1e-3) * 2))
        return
    # ---- unitarity check
    kind = gen.pick(rng, ["UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    p = gen.problem(rng, kind=kind, max_ts=8, state=gen.chance(rng, .3), td=gen.pick(rng, [None, False]),
                    flavour=gen.pick(rng, ["closed", "lindblad"]) if kind == "GEN_MAT" else None)
    A = gen.amps(rng, p, kind=gen.pick(rng, ["random", "sparse", "zero"]))
    # a breach confined to some slots and of chosen size
    bad = gen.pick(rng, ["none", "some", "all"])
    if kind == "UNIT" and bad != "none":
        if not p.td_drift:
            p.td_drift, p.drift = True, [p.drift.copy() for _ in range(p.n_ts)]
        for k in range(p.n_ts):
            if bad == "all" or gen.chance(rng, .4):
                size = float(10 ** rng.uniform(-13, 0))
                # also pure loss or gain, which leaves the rows orthogonal
                p.drift[k] = p.drift[k] + 1j * size * (gen.herm(rng, p.N) if gen.chance(rng, .7) else gen.pick(rng, [-1, 1]) * np.eye(p.N))
    tol = float(10 ** rng.uniform(-12, -2))
    level = gen.pick(rng, [1, 1, 2])
    opts = options(rng, kind, nodiag=bad != "none" and gen.chance(rng, .7))
    if bad != "none":
        # diagonalisation is documented for Hermitian generators only
        if opts["prop_type"] == "DEF":
            opts["prop_type"] = "FRECHET"
    opts["dyn_params"].update(unitarity_check_level=level, unitarity_tol=tol)
    mon.note(**p.describe(), what=what, bad=bad, tol=tol, level=level, prop=opts["prop_type"],
             dtype=str(opts["dyn_params"].get("oper_dtype")))
    with capture_logs() as recs:
        d = build.dyn(p, A, **opts)
        d.compute_evolution()
        d.fid_computer.get_fid_err()
    named = []
    for name, lvl, msg in recs:
        m = WARN.search(msg)
        if m and lvl >= 30:
            named.append(int(m.group(1)))
    for k, x in enumerate(d.prop):
        e = defect(build.arr(x))
        if e > 3 * tol:
            mon.count("warn_expected")
            mon.check(k in named, "warn:missing", lambda: "slot %d misses unitarity by %.3g (tolerance %.3g) without a warning" % (k, e, tol))
        elif e < tol / 3:
            mon.count("warn_absent")
            mon.check(k not in named, "warn:false", lambda: "slot %d is unitary to %.3g (tolerance %.3g) but warned about" % (k, e, tol))
    mon.check(len(set(named)) == len(named), "warn:repeat", "the same slot is warned about more than once in one evolution")
    mon.check(all(0 <= k < p.n_ts for k in named), "warn:slot", lambda: "warnings about slots %s of %d" % (named, p.n_ts))
    # switched off: silent
    opts["dyn_params"].update(unitarity_check_level=0)
    with capture_logs() as recs:
        d = build.dyn(p, A, **opts)
        d.compute_evolution()
    mon.check(not any(WARN.search(m) for _, l, m in recs if l >= 30), "warn:off", "unitarity warning although the check is off")
    mon.sig(what, kind, p.N, bad, level, opts["prop_type"], int(np.log10(tol)), len(named))
