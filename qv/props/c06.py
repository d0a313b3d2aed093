"""C06: histories of updates, queries and re-initialisations; no stale values."""
import numpy as np
from .. import gen, build, faults
from ..ref import Ref
from ..instr import Recorder
from qutip import Qobj
import qutip_qtrl.propcomp as propcomp
import qutip_qtrl.fidcomp as fidcomp

LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 9000}
NEED = {"ops": 1000, "queries": 800, "reinit": 100, "repeat_updates": 50, "phase_changes": 20, "inplace_updates": 20,
        "back_updates": 30, "no_recompute": 50, "scale_changes": 50, "ham_names": 20, "interrupted": 50}
RULE = ("random histories of amplitude updates (new, repeated, reverted, single entry, same array changed in place), queries "
        "in random order, phase-option and scale-factor changes and re-initialisations (target, initial, drift, controls, grid, a whole other system, operator type, computers, cache switches; under either name of the operators) on one object, and evaluations interrupted inside a matrix exponential or diagonalisation; after every operation the queried "
        "value is compared with a freshly built object and the independent model; recomputations are counted at the "
        "recompute_evolution boundary; distinct = operation sequences")


def case(mon, rng, idx, tier):
    kind = ["UNIT", "UNIT", "GEN_MAT", "SYMPL"][idx % 4]
    p = gen.problem(rng, kind=kind, max_ts=5, td=None if gen.chance(rng, .3) else False, dims_small=True)
    A = gen.amps(rng, p, kind="random")
    measure = gen.pick(rng, ["PSU", "SU"] if kind == "UNIT" and gen.chance(rng, .7) else ["TD"])
    dp = {}
    od = gen.pick(rng, [None, None, Qobj])
    if od is not None:
        dp["oper_dtype"] = od
    if gen.chance(rng, .3):
        dp["cache_prop_grad"] = False
    approx = measure == "TD" and gen.chance(rng, .2)
    prop = gen.pick(rng, ["DEF", "FRECHET", "AUG_MAT"])
    scale = float(rng.uniform(.1, 2)) if measure == "TD" and gen.chance(rng, .5) else None
    st = dict(p=p, A=A, measure=measure)

    def kwargs():
        fk = build.fid_kwargs(st["measure"], scale, approx=approx)
        fk.setdefault("prop_type", prop)
        return fk

    stats = gen.chance(rng, .4)
    d = build.dyn(p, A, dyn_params=dict(dp), gen_stats=stats, **kwargs())
    past = [A.copy()]
    ops = []
    rec = Recorder()
    hold = A.copy()      # an array the caller keeps and mutates

    def by_name(which, val):
        """Hamiltonian dynamics also have their operators under other names."""
        if p.kind == "UNIT" and gen.chance(rng, .4):
            setattr(d, which + "_ham", val)
            mon.count("ham_names")
        else:
            setattr(d, which + "_dyn_gen", val)

    def fresh():
        return build.dyn(st["p"], st["A"], dyn_params=dict(dp), **kwargs())

    def query(q):
        p, A = st["p"], st["A"]
        r = Ref(p, A)
        f = d.fid_computer
        mon.count("queries")
        if q == "err":
            x = f.get_fid_err()
            mon.close(x, r.fid_err(st["measure"], scale), "stale:fid_err", "fidelity error after %s" % tail(), 1e-8, 1e-8)
            mon.close(x, fresh().fid_computer.get_fid_err(), "twin:fid_err", "fidelity error against a fresh object after %s" % tail(), 1e-9, 1e-10)
            mon.close(f.get_fid_err(), x, "repeat:fid_err", "repeated query", 0, 0)
        elif q == "fid" and st["measure"] != "TD":
            mon.close(f.get_fidelity(), r.fidelity(st["measure"]), "stale:fidelity", "fidelity after %s" % tail(), 1e-8, 1e-8)
        elif q == "pre" and st["measure"] != "TD":
            mon.close(f.get_fidelity_prenorm(), r.prenorm(), "stale:prenorm", "overlap after %s" % tail(), 1e-8, 1e-8)
        elif q == "grad":
            if st["measure"] == "PSU" and abs(r.prenorm()) < 1e-4:
                return
            g = np.array(f.get_fid_err_gradient())
            gf = np.array(fresh().fid_computer.get_fid_err_gradient())
            mon.close(g, gf, "twin:grad", "gradient against a fresh object after %s" % tail(), 1e-7, 1e-8)
            if not approx:
                mon.close(g, r.grad(st["measure"], scale), "stale:grad", "gradient after %s" % tail(), 1e-6, 1e-7)
            mon.close(f.grad_norm, np.sqrt(np.sum(g ** 2)), "stale:grad_norm", "gradient norm after %s" % tail(), 1e-9, 1e-12)
            mon.close(f.get_fid_err_gradient(), g, "repeat:grad", "repeated query", 0, 0)
        elif q == "meta":
            mon.check(d.num_ctrls == p.n_ctrls, "stale:num_ctrls", lambda: "num_ctrls is %s after %s" % (d.num_ctrls, tail()))
            mon.check(d.num_tslots == p.n_ts, "stale:num_tslots", lambda: "num_tslots is %s after %s" % (d.num_tslots, tail()))
            mon.close(d.tau, p.tau, "stale:tau", "tau after %s" % tail(), 1e-6, 1e-7)
            mon.close(d.ctrl_amps, A, "stale:amps", "amplitudes after %s" % tail(), 0, 0)
        elif q in ("dyn_gen", "prop", "fwd_evo", "full_evo", "onwd_evo", "onto_evo", "onto_evo_target", "prop_grad"):
            if q == "onwd_evo" and not f.uses_onwd_evo:
                return
            if q.startswith("onto") and not f.uses_onto_evo:
                return
            d.compute_evolution()
            x = getattr(d, q)
            if q == "prop_grad" and x is None:
                return
            want = {"dyn_gen": r.gen, "prop": r.prop, "fwd_evo": r.fwd, "full_evo": r.final, "onwd_evo": r.onwd,
                    "onto_evo": [r.onto_target() @ w for w in r.onwd] + [r.onto_target()],
                    "onto_evo_target": r.onto_target()}.get(q)
            if q == "prop_grad":
                if x.shape != (p.n_ts, p.n_ctrls):
                    mon.fail("stale:prop_grad", "prop_grad has shape %s after %s" % (x.shape, tail()))
                    return
                for k in range(p.n_ts):
                    for j in range(p.n_ctrls):
                        mon.close(build.arr(x[k, j]), r.prop_grad(k, j), "stale:prop_grad", "prop_grad[%d,%d] after %s" % (k, j, tail()), 1e-7, 1e-7)
            elif isinstance(want, list):
                if not mon.check(len(x) == len(want), "stale:" + q, lambda: "%s has %d entries after %s" % (q, len(x), tail())):
                    return
                for k in range(len(want)):
                    mon.close(build.arr(x[k]), want[k], "stale:" + q, "%s[%d] after %s" % (q, k, tail()), 1e-7, 1e-8)
            else:
                mon.close(build.arr(x), want, "stale:" + q, "%s after %s" % (q, tail()), 1e-7, 1e-8)
        elif q == "evo":
            n0 = rec.n.get("recompute_evolution", 0)
            d.compute_evolution()
            n1 = rec.n.get("recompute_evolution", 0)
            again = d.compute_evolution()
            n2 = rec.n.get("recompute_evolution", 0)
            mon.check(not again and n2 == n1, "recompute", "evolution computed again without a change")
            mon.check(n1 - n0 <= 1, "recompute", "evolution computed %d times" % (n1 - n0))

    def tail():
        return ",".join(ops[-6:])

    QS = ["err", "fid", "pre", "grad", "dyn_gen", "prop", "fwd_evo", "full_evo", "onwd_evo", "onto_evo", "onto_evo_target",
          "prop_grad", "meta", "evo"]
    with rec:
        for step in range(14 if tier == "quick" else 30):
            u = rng.random()
            p = st["p"]
            if u < .38:
                how = gen.pick(rng, ["new", "repeat", "back", "single", "inplace", "tiny"])
                if how == "new":
                    A = rng.normal(size=(p.n_ts, p.n_ctrls))
                elif how == "repeat":
                    A = st["A"].copy()
                elif how == "back":
                    c = [x for x in past if x.shape == (p.n_ts, p.n_ctrls)]
                    A = gen.pick(rng, c).copy()
                    mon.count("back_updates")
                elif how in ("single", "tiny"):
                    A = st["A"].copy()
                    A[int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))] += 1e-5 if how == "tiny" else float(rng.normal())
                else:
                    if hold.shape != (p.n_ts, p.n_ctrls):
                        hold = st["A"].copy()
                        d.update_ctrl_amps(hold)
                    hold[int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))] += float(rng.normal())
                    A = hold
                    mon.count("inplace_updates")
                ops.append("update:" + how)
                same = np.array_equal(A, st["A"])
                if how == "repeat":
                    d.compute_evolution()
                    d.fid_computer.get_fid_err()
                    n0 = rec.n.get("recompute_evolution", 0)
                    d.update_ctrl_amps(A)
                    d.compute_evolution()
                    d.fid_computer.get_fid_err()
                    mon.check(rec.n.get("recompute_evolution", 0) == n0, "recompute:same",
                              "unchanged amplitudes triggered a recomputation")
                    mon.count("repeat_updates")
                    mon.count("no_recompute")
                else:
                    d.update_ctrl_amps(A)
                st["A"] = np.array(A)
                past.append(st["A"].copy())
                if gen.chance(rng, .15):
                    # the evaluation is interrupted part-way; the object is used further
                    with faults.interrupt(int(rng.integers(0, 2 * p.n_ts))) as fs:
                        try:
                            gen.pick(rng, [d.fid_computer.get_fid_err, d.fid_computer.get_fid_err_gradient, d.compute_evolution])()
                        except faults.Interrupted:
                            pass
                    if fs["hit"]:
                        ops.append("interrupted")
                        mon.count("interrupted")
            elif u < .46 and measure == "TD":
                scale = float(rng.uniform(.1, 2))
                d.fid_computer.scale_factor = scale
                ops.append("scale")
                mon.count("scale_changes")
            elif u < .46 and measure != "TD":
                st["measure"] = gen.pick(rng, ["PSU", "SU"])
                d.fid_computer.phase_option = st["measure"]
                ops.append("phase:" + st["measure"])
                mon.count("phase_changes")
            elif u < .64:
                what = gen.pick(rng, ["target", "initial", "ctrls", "grid", "amps", "same", "ctrl_form", "drift", "problem", "computer", "dtype", "fid_comp", "cache"])
                q = gen.Problem(**p.__dict__)
                t = gen.problem(np.random.default_rng(int(rng.integers(1 << 30))), kind=p.kind, state=p.state, td=False,
                                flavour=p.flavour if p.kind == "GEN_MAT" else None, n_ts=p.n_ts)
                if what == "target":
                    if p.state:
                        q.target = gen.ket(rng, p.N)
                    else:
                        q.target = gen.haar(rng, p.N)
                    d.target = q.q_target()
                elif what == "initial":
                    q.initial = gen.ket(rng, p.N) if p.state else gen.haar(rng, p.N)
                    d.initial = q.q_initial()
                elif what == "ctrls":
                    nc = int(rng.integers(1, 4))
                    mk = {"UNIT": lambda: gen.herm(rng, p.N), "SYMPL": lambda: gen.symm(rng, p.N, .5) + 0j,
                          "GEN_MAT": lambda: rng.normal(size=(p.N, p.N)) * .4 + 0j}[p.kind]
                    q.td_ctrl = gen.pick(rng, [False, False, "array", "list"])
                    q.ctrls = [[mk() for _ in range(nc)] for _ in range(p.n_ts)] if q.td_ctrl else [mk() for _ in range(nc)]
                    by_name("ctrl", q.q_ctrls())
                elif what == "grid":
                    if not (p.td_drift or p.td_ctrl):
                        n = int(rng.integers(1, 6))
                        m = gen.pick(rng, ["tau", "nts", "time"])
                        if m == "tau":
                            q.tau = gen.taus(rng, n)
                            d.tau = q.tau.copy()
                        elif m == "nts":
                            T = float(np.sum(p.tau))
                            d.num_tslots = n
                            q.tau = np.array(d.tau, dtype=float)
                            mon.close(q.tau, np.ones(n) * T / n, "grid:nts", "durations after changing the slot count", 1e-6, 1e-6)
                        else:
                            T = float(rng.uniform(.5, 4))
                            d.evo_time = T
                            q.tau = np.array(d.tau, dtype=float)
                            mon.close(q.tau, np.ones(p.n_ts) * T / p.n_ts, "grid:time", "durations after changing the total time", 1e-6, 1e-6)
                    else:
                        q.tau = gen.taus(rng, p.n_ts)
                        d.tau = q.tau.copy()
                if what == "drift":
                    mk = {"UNIT": lambda: gen.herm(rng, p.N), "SYMPL": lambda: gen.symm(rng, p.N, .5) + 0j,
                          "GEN_MAT": lambda: rng.normal(size=(p.N, p.N)) * .4 + 0j}[p.kind]
                    q.td_drift = gen.chance(rng, .4)
                    q.drift = [mk() for _ in range(p.n_ts)] if q.td_drift else mk()
                    by_name("drift", q.q_drift())
                elif what == "problem":
                    # another system, of another dimension in general
                    for _ in range(3):
                        q = gen.problem(rng, kind=p.kind, max_ts=5, td=None if gen.chance(rng, .3) else False, dims_small=True)
                        if q.N != p.N:
                            break
                    by_name("drift", q.q_drift())
                    by_name("ctrl", q.q_ctrls())
                    d.initial, d.target, d.tau = q.q_initial(), q.q_target(), q.tau.copy()
                elif what == "computer" and not approx:
                    prop = gen.pick(rng, ["FRECHET", "AUG_MAT"] + (["DIAG"] if p.kind == "UNIT" else []))
                    d.prop_computer = {"FRECHET": propcomp.PropCompFrechet, "AUG_MAT": propcomp.PropCompAugMat, "DIAG": propcomp.PropCompDiag}[prop](d)
                elif what == "dtype":
                    dp["oper_dtype"] = d.oper_dtype = gen.pick(rng, [Qobj, np.ndarray])
                elif what == "cache":
                    for n in ("cache_phased_dyn_gen", "cache_prop_grad", "cache_dyn_gen_eigenvectors_adj"):
                        if gen.chance(rng, .5):
                            setattr(d, n, gen.chance(rng, .5))
                    if gen.chance(rng, .3):
                        d.memory_optimization = int(rng.integers(0, 2))
                elif what == "fid_comp" and not approx:
                    if p.kind == "UNIT" and gen.chance(rng, .6):
                        st["measure"] = measure = gen.pick(rng, ["PSU", "SU"])
                        d.fid_computer = fidcomp.FidCompUnitary(d, params={"phase_option": measure})
                    else:
                        st["measure"] = measure = "TD"
                        scale = gen.pick(rng, [None, float(rng.uniform(.1, 2))])
                        d.fid_computer = fidcomp.FidCompTraceDiff(d, params={"scale_factor": scale})
                if what == "same":
                    A = st["A"].copy()
                else:
                    A = rng.normal(size=(q.n_ts, q.n_ctrls))
                st["p"], st["A"] = q, A.copy()
                d.initialize_controls(A, init_tslots=gen.chance(rng, .7))
                past.append(A.copy())
                ops.append("reinit:" + what)
                mon.count("reinit")
            else:
                q = gen.pick(rng, QS)
                ops.append("q:" + q)
                query(q)
            if gen.chance(rng, .5):
                q = gen.pick(rng, QS[:4])
                ops.append("q:" + q)
                query(q)
            mon.count("ops")
        for q in QS:
            query(q)
    mon.note(**st["p"].describe(), measure=st["measure"], prop=prop, approx=approx, ops=ops)
    mon.sig(kind, prop, approx, *ops)
