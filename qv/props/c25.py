"""C25: unusable configurations are refused up front with a clear error."""
import copy, logging
import numpy as np
from qutip import Qobj
from .. import gen, build, instr, runs
import qutip_qtrl.pulseoptim as po
import qutip_qtrl.errors as errors
import qutip_qtrl.dynamics as dm
import qutip_qtrl.optimconfig as oc
import qutip_qtrl.optimizer as om
import qutip_qtrl.pulsegen as pg
import qutip_qtrl.fidcomp as fc
import qutip_qtrl.propcomp as pc
import qutip_qtrl.tslotcomp as tsc
import qutip_qtrl.termcond as tc
import qutip_qtrl.dump as dp
import qutip_qtrl.stats as st

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: hooks count every fidelity evaluation while random valid configurations, each spoiled in one place, are run through every entry point; the exception, its text and the evaluations made before it are judged, and the unspoiled twin must be accepted"
CASES = {"quick": 24000, "thorough": 200000}
NEED = {"refusals": 2000, "valid": 1000, "objects": 400, "kinds": 400}
RULE = ("one spoiled parameter (names, operators of wrong kind or shape, time specification, fidelity goal, CRAB generators, uninitialised objects) in a random valid "
        "configuration through a random entry point; distinct = (what is spoiled, how, entry point, dynamics, algorithm, operator type)")
ASSUMPTIONS = ["an operator of wrong shape counts as refused up front when no fidelity error has been returned"]
CLEAR = (errors.Error, TypeError, ValueError)
NAMES = ["XYZ", "UNITARY", "unknown", "UNIT ", "grape2", "None"]


def other_dim(rng, q):
    """An operator of another size, same role."""
    n = q.shape[0] + int(rng.integers(1, 3))
    if q.shape[1] == 1:
        return Qobj(gen.ket(rng, n))
    return Qobj(gen.haar(rng, n))


def wrong_kind(rng, q):
    return gen.pick(rng, [None, q.full(), q.full().tolist(), "sigmax", 1.0, object()])


class Spoiler:
    """Spoils (args, kw) in place; returns a description or None when not applicable."""

    def __init__(self, rng, sp):
        self.rng, self.sp = rng, sp

    # --- names
    def alg(self, a, kw):
        kw["alg"] = gen.pick(self.rng, NAMES + [None, ""])
        return str(kw["alg"])

    def optim_method(self, a, kw):
        kw["optim_method"] = gen.pick(self.rng, NAMES + [""] + (["FMIN"] if self.sp.alg == "GRAPE" else []))
        return kw["optim_method"]

    def dyn_type(self, a, kw):
        kw["dyn_type"] = gen.pick(self.rng, NAMES + ["HAM"])
        return kw["dyn_type"]

    def prop_type(self, a, kw):
        kw["prop_type"] = gen.pick(self.rng, NAMES + ["DIAGONAL"])
        return kw["prop_type"]

    def fid_type(self, a, kw):
        kw["fid_type"] = gen.pick(self.rng, NAMES + ["TRACE"])
        return kw["fid_type"]

    def phase_option(self, a, kw):
        if self.sp.measure == "TD":
            return None
        v = gen.pick(self.rng, NAMES + [None, "psu "])
        if gen.chance(self.rng, .3) and v is not None:
            kw.pop("fid_params", None)
            kw["phase_option"] = v
        else:
            kw["fid_params"] = {"phase_option": v}
        return str(v)

    def init_pulse_type(self, a, kw):
        kw["init_pulse_type"] = gen.pick(self.rng, NAMES + ["WALK"])
        return kw["init_pulse_type"]

    def ramping_pulse_type(self, a, kw):
        kw["ramping_pulse_type"] = gen.pick(self.rng, NAMES)
        return kw["ramping_pulse_type"]

    def dumping(self, a, kw):
        v = gen.pick(self.rng, NAMES[:3] + [3, 1.5])
        k = gen.pick(self.rng, ["optim_params", "dyn_params"])
        kw[k] = dict(kw.get(k) or {}, dumping=v)
        return "%s %s" % (k, v)

    def oper_dtype(self, a, kw):
        v = gen.pick(self.rng, ["ndarray", list, float])
        kw["dyn_params"] = dict(kw.get("dyn_params") or {}, oper_dtype=v)
        return str(v)

    def phase_application(self, a, kw):
        v = gen.pick(self.rng, ["before", 3])
        kw["dyn_params"] = dict(kw.get("dyn_params") or {}, phase_application=v)
        return str(v)

    # --- operators
    def drift_kind(self, a, kw):
        q = a[0][0] if isinstance(a[0], list) else a[0]
        w = wrong_kind(self.rng, q)
        how = gen.pick(self.rng, ["itself", "element", "array"])
        if how == "itself":
            a[0] = w
        elif how == "element":
            a[0] = [q] * self.sp.p.n_ts
            a[0][int(self.rng.integers(len(a[0])))] = w
        else:
            a[0] = np.zeros((self.sp.p.n_ts, 2, 2))
        return how + " " + type(w).__name__

    def drift_count(self, a, kw):
        q = a[0][0] if isinstance(a[0], list) else a[0]
        n = int(self.rng.integers(0, self.sp.p.n_ts))
        a[0] = [q] * n
        return "%d of %d" % (n, self.sp.p.n_ts)

    def drift_shape(self, a, kw):
        q = a[0][0] if isinstance(a[0], list) else a[0]
        how = gen.pick(self.rng, ["dim", "ket", "element"])
        if how == "dim":
            a[0] = other_dim(self.rng, q)
        elif how == "ket":
            a[0] = Qobj(gen.ket(self.rng, q.shape[0]))
        else:
            if self.sp.p.n_ts == 1:
                return None
            a[0] = [q] * self.sp.p.n_ts
            a[0][int(self.rng.integers(1, len(a[0])))] = other_dim(self.rng, q)
        return how

    def ctrls_kind(self, a, kw):
        q = a[1]
        p = self.sp.p
        c = p.ctrl_kj(0, 0)
        qs = [Qobj(p.ctrl_kj(0, j), dims=p.dims) for j in range(p.n_ctrls)]
        w = wrong_kind(self.rng, qs[0])
        how = gen.pick(self.rng, ["itself", "element", "single", "number", "1d", "3d", "nested", "array_element", "dict", "array", "empty"])
        if how == "itself":
            a[1] = w if not isinstance(w, list) else "controls"
        elif how == "element":
            qs[int(self.rng.integers(len(qs)))] = w if not isinstance(w, list) else None
            a[1] = qs
        elif how == "single":
            a[1] = qs[0]
        elif how == "number":
            a[1] = 1
        elif how in ("1d", "3d"):
            x = np.empty((p.n_ctrls,) if how == "1d" else (p.n_ts, p.n_ctrls, 1), dtype=object)
            x[...] = 0
            for i in np.ndindex(x.shape):
                x[i] = qs[0]
            a[1] = x
        elif how in ("nested", "array_element"):
            rows = [[Qobj(p.ctrl_kj(k, j), dims=p.dims) for j in range(p.n_ctrls)] for k in range(p.n_ts)]
            rows[int(self.rng.integers(p.n_ts))][int(self.rng.integers(p.n_ctrls))] = None
            if how == "array_element":
                x = np.empty((p.n_ts, p.n_ctrls), dtype=object)
                for i in np.ndindex(x.shape):
                    x[i] = rows[i[0]][i[1]]
                rows = x
            a[1] = rows
        elif how == "dict":
            a[1] = {j: v for j, v in enumerate(qs)}
        elif how == "array":
            a[1] = np.array([c, c])
        else:
            a[1] = []
            return how
        return how

    def ctrls_shape(self, a, kw):
        p, rng = self.sp.p, self.rng
        how = gen.pick(rng, ["dim", "rows", "rows", "ket", "ragged"])
        qs = [Qobj(p.ctrl_kj(0, j), dims=p.dims) for j in range(p.n_ctrls)]
        if how == "dim":
            qs[int(rng.integers(len(qs)))] = other_dim(rng, qs[0])
            a[1] = qs
        elif how == "ket":
            qs[int(rng.integers(len(qs)))] = Qobj(gen.ket(rng, p.N))
            a[1] = qs
        elif how == "rows":
            n = int(rng.integers(1, p.n_ts)) if p.n_ts > 1 else 0
            if n == 0:
                return None
            a[1] = [list(qs) for _ in range(n)]
            how += " %s" % (n < p.n_ts)
        else:
            if p.n_ctrls < 2 or p.n_ts < 2:
                return None
            rows = [list(qs) for _ in range(p.n_ts)]
            rows[int(rng.integers(1, p.n_ts))].pop()
            if p.n_ctrls == 2:
                return None      # a row of one element is spread by numpy
            a[1] = rows
        return how

    def initial_kind(self, a, kw):
        a[2] = wrong_kind(self.rng, a[2])
        return type(a[2]).__name__

    def target_kind(self, a, kw):
        a[3] = wrong_kind(self.rng, a[3])
        return type(a[3]).__name__

    def initial_shape(self, a, kw):
        a[2] = other_dim(self.rng, a[2])
        return "dim"

    def target_shape(self, a, kw):
        a[3] = other_dim(self.rng, a[3])
        return "dim"

    def both_shape(self, a, kw):
        a[2], a[3] = other_dim(self.rng, a[2]), other_dim(self.rng, a[3])
        n = a[2].shape[0]
        a[3] = Qobj(gen.ket(self.rng, n)) if a[3].shape[1] == 1 else Qobj(gen.haar(self.rng, n))
        return "dim"

    def state_against_operator(self, a, kw):
        i = int(self.rng.integers(2, 4))
        n = self.sp.p.N
        if a[i].shape[1] == 1:
            a[i] = Qobj(gen.haar(self.rng, n), dims=self.sp.p.dims)
        else:
            a[i] = Qobj(gen.ket(self.rng, n), dims=[self.sp.p.dims[0], [1] * len(np.ravel(self.sp.p.dims[0]))] if self.sp.p.kind == "UNIT" else [[n], [1]])
        return "initial" if i == 2 else "target"

    # --- time
    def timing(self, a, kw):
        for k in ("tau", "num_tslots", "evo_time"):
            kw.pop(k, None)
        how = gen.pick(self.rng, ["nothing", "num_tslots", "evo_time", "zero_slots", "text"])
        if how == "num_tslots":
            kw["num_tslots"] = 4
        elif how == "evo_time":
            kw["evo_time"] = 2.0
        elif how == "zero_slots":
            kw["num_tslots"], kw["evo_time"] = 0, 1.0
        elif how == "text":
            kw["num_tslots"], kw["evo_time"] = 3, "long"
        return how

    # --- goal
    def goal(self, a, kw):
        kw["fid_err_targ"] = None
        mp = dict(kw.get("method_params") or {})
        mp.pop("fid_err_targ", None)
        kw["method_params"] = mp or None
        return "None"


SPOILS = [n for n in vars(Spoiler) if not n.startswith("_")]
GRAPE_ONLY = set()


class Meter:
    """Counts evaluations delivered while active."""

    def __init__(self):
        self.n = 0
        self.values = []

    def __enter__(self):
        r = self.r = instr.Recorder()

        def f(o, a, k, ret):
            self.n += 1
            self.values.append(ret)
        r.on_after("fid_err_func_wrapper", f)
        r.on_after("fid_err_grad_wrapper", f)
        r.__enter__()
        return self

    def __exit__(self, *a):
        self.r.__exit__()


def execute(entry, sp, a, kw):
    """Run through an entry point; steps = create, initialise, run."""
    np.random.seed(sp.seed)
    if entry == "steps":
        r = runs.Run(sp)
        r.kw = kw
        o = po.create_pulse_optimizer(*a, **kw)
        o.dynamics.initialize_controls(r.start_pulse(o))
        return o.run_optimization()
    return runs.ENTRY[entry](*a, **kw)


def judge(mon, fn, key, what):
    with Meter() as m:
        e = None
        try:
            fn()
        except Exception as x:
            e = x
    mon.count("refusals")
    mon.count("oracle_checks", 3)
    if e is None:
        mon.fail(key + ":accepted", "%s was accepted (%d evaluations)" % (what, m.n))
        return
    if m.n:
        mon.fail(key + ":late", "%s was refused (%s) after %d evaluations" % (what, type(e).__name__, m.n))
    if not isinstance(e, CLEAR):
        import traceback
        tb = [f for f in traceback.extract_tb(e.__traceback__) if "qutip_qtrl" in f.filename]
        mon.fail(key + ":kind:" + type(e).__name__, "%s raised %s: %s (at %s)" % (what, type(e).__name__, e, tb[-1].name if tb else "?"))
    try:
        s = str(e)
    except Exception as x:
        mon.fail(key + ":display", "%s: the error %s cannot be displayed: %r" % (what, type(e).__name__, x))
        return
    mon.check(s.strip() not in ("", "''", "None"), key + ":empty", "%s: %s without text" % (what, type(e).__name__))


def spoil(mon, rng):
    sp = runs.spec(rng, max_ts=4, limits=False, methods=runs.TAME)
    sp.kw["max_iter"] = 2
    sp.kw.pop("max_wall_time")
    if sp.p.kind == "GEN_MAT" and gen.chance(rng, .3):
        sp.kw.pop("dyn_type")
    name = SPOILS[int(rng.integers(len(SPOILS)))]
    entry = gen.pick(rng, ["optimize", "optimize", "steps"])
    p = sp.p
    kw = copy.copy(sp.kw)
    a = [p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target()]
    how = getattr(Spoiler(rng, sp), name)(a, kw)
    if how is None:
        mon.count("not_applicable")
        return
    if "phase_option" in kw and entry == "steps":
        entry = gen.pick(rng, ["optimize", "steps"])
    if entry == "optimize" and name not in ("dyn_type", "prop_type", "fid_type") and p.kind == "UNIT" and sp.measure != "TD" and sp.kw.get("prop_type") is None and gen.chance(rng, .4):
        # the convenience functions have to refuse as well
        s2 = copy.copy(sp)
        s2.kw = dict(kw)
        ph = s2.kw.pop("phase_option", None)
        fp = s2.kw.get("fid_params") or {}
        if name == "phase_option":
            if ph is None and fp.get("phase_option") is None:
                mon.count("not_applicable")
                return
        entry = "unitary"
        if sp.alg == "CRAB" and name not in ("alg",):
            entry = gen.pick(rng, ["unitary", "crab_unitary"])
        s2.kw["fid_params"] = {"phase_option": ph or fp.get("phase_option", sp.measure)}
        kw = runs.entry_kw(s2, entry)
    elif entry == "optimize" and sp.alg == "CRAB" and name != "alg" and gen.chance(rng, .4):
        s2 = copy.copy(sp)
        s2.kw = dict(kw)
        if "phase_option" not in kw:
            entry = "crab"
            kw = runs.entry_kw(s2, entry)
    if name == "init_pulse_type" and kw.get("init_pulse_params") and entry == "steps":
        pass
    mon.note(spoiled=name, how=how, entry=entry, **sp.describe())
    key = name + (":" + how.split(" ")[0] if name in ("drift_kind", "drift_shape", "ctrls_kind", "ctrls_shape", "timing", "state_against_operator") else "")
    judge(mon, lambda: execute(entry, sp, a, kw), key, "%s (%s) through %s" % (name, how, entry))
    mon.sig("spoil", name, how if name not in ("drift_count",) else "", entry, p.kind, sp.alg, str(sp.kw.get("dyn_params")))
    mon.count("kind_" + name)


def valid(mon, rng):
    sp = runs.spec(rng, max_ts=5, limits=gen.chance(rng, .5), methods=runs.TAME)
    sp.kw["max_iter"] = min(sp.kw["max_iter"], 3)
    sp.kw["max_wall_time"] = 1e6
    if gen.chance(rng, .2):
        sp.kw["prop_type"] = gen.pick(rng, ["DEF", None, ""] if "prop_type" not in sp.kw else [sp.kw["prop_type"]])
    if gen.chance(rng, .2):
        t = sp.kw.pop("tau")
        if gen.chance(rng, .5):
            sp.kw["num_tslots"], sp.kw["evo_time"] = len(t), gen.pick(rng, [1, 2.5, np.float64(3), np.int64(2)])
        else:
            sp.kw["tau"] = gen.pick(rng, [list(t), tuple(t), t])
    entry = gen.pick(rng, ["optimize", "steps"])
    a = [sp.p.q_drift(), sp.p.q_ctrls(), sp.p.q_initial(), sp.p.q_target()]
    if isinstance(a[1], list) and not isinstance(a[1][0], list) and gen.chance(rng, .2):
        a[1] = tuple(a[1])
    if isinstance(a[0], list) and gen.chance(rng, .2):
        a[0] = tuple(a[0])
    mon.note(valid=True, entry=entry, **sp.describe())
    with Meter() as m:
        with mon.guard("valid", "a valid configuration"):
            execute(entry, sp, a, sp.kw)
    mon.count("valid")
    mon.sig("valid", entry, sp.p.kind, sp.alg, sp.method, sp.measure, sp.kw.get("prop_type"), str(sp.kw.get("dyn_params")))


def objects(mon, rng):
    """Objects used before they are ready, and misused classes."""
    p = gen.problem(rng, dims_small=True, max_ts=4, max_ctrls=3)
    alg = gen.pick(rng, ["GRAPE", "CRAB"])
    kw = build.fid_kwargs("TD" if p.kind != "UNIT" else gen.pick(rng, ["PSU", "SU"]))
    if alg == "CRAB":
        kw.update(alg="CRAB")
        if p.kind != "UNIT":
            kw.update(prop_type="FRECHET")
    o = build.optim(p, **kw)
    d = o.dynamics
    amps = gen.amps(rng, p, kind="random")
    what = gen.pick(rng, ["uninit_run", "uninit_evo", "uninit_save", "no_termcond", "termcond_kind", "no_goal", "no_dynamics", "crab_gens", "crab_gens", "crab_gens", "base_classes", "base_classes",
                          "no_computer", "no_computer", "direct_operators", "direct_operators", "direct_operators", "dump_kind", "dump_level", "tslot_kind", "pulse_name",
                          "errors", "bad_bounds", "after_failure"])
    mon.note(part="objects", what=what, alg=alg, **p.describe())
    mon.count("objects")
    J = lambda fn, key, text: judge(mon, fn, "objects:" + key, text)
    how = ""
    if what == "uninit_run":
        J(o.run_optimization, what, "run_optimization before initialize_controls")
    elif what == "uninit_evo":
        J(d.compute_evolution, what, "compute_evolution before initialize_controls")
    elif what == "uninit_save":
        J(lambda: d.save_amps("x.txt"), what, "save_amps before initialize_controls")
    elif what == "no_termcond":
        d.initialize_controls(amps)
        o.termination_conditions = None
        J(o.run_optimization, what, "run without termination conditions")
    elif what == "termcond_kind":
        d.initialize_controls(amps)
        o.termination_conditions = gen.pick(rng, [{"fid_err_targ": 1e-3}, 5, "x"])
        J(o.run_optimization, what, "run with termination conditions of the wrong kind")
    elif what == "no_goal":
        d.initialize_controls(amps)
        o.termination_conditions.fid_err_targ = None
        o.termination_conditions.fid_goal = None
        J(o.run_optimization, what, "run without a fidelity goal")
    elif what == "no_dynamics":
        d.initialize_controls(amps)
        o.dynamics = gen.pick(rng, [None, "dynamics", object()])
        J(lambda: o.init_optim(o.termination_conditions), what, "optimiser without dynamics")
    elif what == "crab_gens":
        if alg != "CRAB":
            return
        for g in o.pulse_generator:
            g.init_pulse()
        d.initialize_controls(amps)
        how = gen.pick(rng, ["none", "single", "few", "many", "kind", "element"])
        g = o.pulse_generator
        new = {"none": None, "single": g[0], "few": g[:-1], "many": g + [g[0]], "kind": pg.PulseGenSine(d), "element": g[:-1] + [gen.pick(rng, [pg.PulseGenRandom(d), None, "x"])]}[how]
        o.pulse_generator = new
        J(o.run_optimization, what + ":" + how, "CRAB run with generators: %s" % how)
    elif what == "base_classes":
        how = gen.pick(rng, ["fid_err", "fid_grad", "prop", "prop_grad", "pulse", "norm", "propdiff"])
        if how == "pulse":
            J(lambda: pg.PulseGen(d).gen_pulse(), "base:" + how, "gen_pulse of the base class")
        else:
            d.initialize_controls(amps)
            if how.startswith("prop"):
                c = pc.PropagatorComputer(d)
                if all(hasattr(c, n) for n in ("_compute_propagator", "_compute_prop_grad", "_compute_diff_prop")):
                    J({"prop": lambda: c._compute_propagator(0), "prop_grad": lambda: c._compute_prop_grad(0, 0), "propdiff": lambda: c._compute_diff_prop(0, 0, 1e-3)}[how], "base:" + how, "%s of the base class" % how)
            elif how == "norm":
                if hasattr(dm.Dynamics, "_spectral_decomp"):
                    J(lambda: dm.Dynamics._spectral_decomp(d, 0), "base:" + how, "spectral decomposition of the base class")
            else:
                c = fc.FidelityComputer(d)
                J(c.get_fid_err if how == "fid_err" else c.get_fid_err_gradient, "base:" + how, "%s of the base class" % how)
    elif what == "no_computer":
        how = gen.pick(rng, ["prop_computer", "fid_computer", "tslot_computer"])
        setattr(d, how, gen.pick(rng, [None, "DIAG", object()]))
        J(lambda: d.initialize_controls(amps), what + ":" + how, "initialize_controls without a %s" % how)
    elif what == "direct_operators":
        cfg = oc.OptimConfig()
        e = {"UNIT": dm.DynamicsUnitary, "GEN_MAT": dm.DynamicsGenMat, "SYMPL": dm.DynamicsSymplectic}[p.kind](cfg)
        vals = {"drift_dyn_gen": p.q_drift(), "ctrl_dyn_gen": p.q_ctrls(), "initial": p.q_initial(), "target": p.q_target()}
        how = gen.pick(rng, sorted(vals))
        vals[how] = gen.pick(rng, [None, "x", 3.0, np.eye(p.N)])
        leave = gen.chance(rng, .4)

        def build_it():
            for k, v in vals.items():
                if not (k == how and leave):
                    setattr(e, k, v)
            e.tau = p.tau.copy()
            e.initialize_controls(amps)
            e.fid_computer.get_fid_err()
        J(build_it, what + ":" + how, "Dynamics with %s %s" % (how, "not set" if leave else type(vals[how]).__name__))
    elif what == "dump_kind":
        how = gen.pick(rng, ["optim", "dyn"])
        J(lambda: (dp.OptimDump if how == "optim" else dp.DynamicsDump)(gen.pick(rng, [None, "x", 3])), what + ":" + how, "dump of something else")
    elif what == "dump_level":
        x = gen.pick(rng, [o, d])
        J(lambda: setattr(x, "dumping", gen.pick(rng, ["EVERYTHING", "", 5])), what, "unknown dumping level")
    elif what == "tslot_kind":
        J(lambda: tsc.TSlotCompUpdateAll(gen.pick(rng, [None, o, "x"])), what, "timeslot computer of something else")
    elif what == "pulse_name":
        n = gen.pick(rng, NAMES + ["", None, "rnd2", 5])
        J(lambda: pg.create_pulse_gen(n, d), what, "pulse type %r" % n)
    elif what == "errors":
        for e in (errors.UsageError("text"), errors.FunctionalError("text"), errors.GoalAchievedTerminate(1e-3), errors.MaxWallTimeTerminate(), errors.MaxFidFuncCallTerminate(),
                  errors.GradMinReachedTerminate(1e-9)):
            try:
                ok = bool(str(e).strip("'\" ")) and bool(repr(e))
            except Exception:
                ok = False
            mon.check(ok, "errors:" + type(e).__name__, "%s cannot be displayed" % type(e).__name__)
    elif what == "bad_bounds":
        t = gen.pick(rng, ["RND", "SINE", "LIN", "GAUSSIAN", "SQUARE"])
        g = pg.create_pulse_gen(t, d)
        g.lbound, g.ubound = 1.0, -1.0
        J(lambda: (g.init_pulse(), g.gen_pulse()), what, "%s pulse with an upper bound below the lower one" % t)
    elif what == "after_failure":
        # a refused initialisation leaves the object refusing, or usable after the cause is mended
        good = d.target
        d.target = "nonsense"
        J(lambda: d.initialize_controls(amps), what, "target of the wrong kind")
        J(d.compute_evolution, what + ":then", "compute_evolution after a refused initialisation")
        d.target = good
        with mon.guard("objects:after_failure:mended", "initialising after the cause of a refusal is mended"):
            d.initialize_controls(amps)
            d.fid_computer.get_fid_err()
    mon.sig("objects", what, how, p.kind, alg)


PARTS = [spoil, spoil, spoil, valid, spoil, objects, spoil, spoil]


def case(mon, rng, idx, tier):
    PARTS[idx % len(PARTS)](mon, rng)
    if idx % 50 == 0:
        mon.count("kinds")
