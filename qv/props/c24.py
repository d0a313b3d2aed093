"""C24: all entry points and option spellings mean the same thing."""
import copy, logging, warnings
import numpy as np
from qutip import Qobj
from .. import gen, build, instr, runs
from ..ref import Ref
import qutip_qtrl.pulseoptim as po
import qutip_qtrl.optimconfig as oc
import qutip_qtrl.optimizer as om
import qutip_qtrl.dynamics as dm
import qutip_qtrl.propcomp as pc
import qutip_qtrl.fidcomp as fc
import qutip_qtrl.tslotcomp as ts
import qutip_qtrl.termcond as tc
import qutip_qtrl.pulsegen as pg

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: twin executions of equivalent calls (entry points, spellings, defaults, deprecated forms, precedence) compared bit for bit, and observers on the created objects and on the calls made to the scipy minimisers"
CASES = {"quick": 6160, "thorough": 42000}
NEED = {"twins": 900, "method_settings": 600, "entry_twins": 300, "spelling_twins": 500, "configs": 500, "scipy_calls": 300, "initial_pulses": 200, "crab_configs": 100, "deprecated_names": 2000, "direct_settings": 150, "constructed": 1500, "resets": 500}
RULE = ("random settings expressed through every entry point and spelling; random option dictionaries observed on the created objects; "
        "distinct = (transformation or option set, dynamics, algorithm, method, measure)")
ASSUMPTIONS = ["the random state is set before each call"]

PULSE = {"RND": pg.PulseGenRandom, "RNDFOURIER": pg.PulseGenRndFourier, "RNDWAVES": pg.PulseGenRndWaves, "RNDWALK1": pg.PulseGenRndWalk1,
         "RNDWALK2": pg.PulseGenRndWalk2, "LIN": pg.PulseGenLinear, "ZERO": pg.PulseGenZero, "SINE": pg.PulseGenSine, "SQUARE": pg.PulseGenSquare,
         "SAW": pg.PulseGenSaw, "TRIANGLE": pg.PulseGenTriangle, "GAUSSIAN": pg.PulseGenGaussian}
DYN = {"UNIT": dm.DynamicsUnitary, "GEN_MAT": dm.DynamicsGenMat, "SYMPL": dm.DynamicsSymplectic}
PROP = {"APPROX": pc.PropCompApproxGrad, "DIAG": pc.PropCompDiag, "AUG_MAT": pc.PropCompAugMat, "FRECHET": pc.PropCompFrechet}
PROP_DEF = {"UNIT": "DIAG", "GEN_MAT": "FRECHET", "SYMPL": "FRECHET"}
FID_DEF = {"UNIT": "UNIT", "GEN_MAT": "TRACEDIFF", "SYMPL": "TRACEDIFF"}
FID = {"UNIT": fc.FidCompUnitary, "TRACEDIFF": fc.FidCompTraceDiff, "TDAPPROX": fc.FidCompTraceDiffApprox, "TD_APPROX": fc.FidCompTraceDiffApprox}


def result_values(res):
    s = runs.snapshot(res)
    for k in ("stats", "wall_time", "iteration_steps"):
        s.pop(k, None)
    return s


def go(sp, kw, fn=po.optimize_pulse):
    p = sp.p
    np.random.seed(sp.seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with instr.FakeClock():
            return fn(p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target(), **copy.deepcopy(kw))


def steps(sp, kw):
    r = runs.Run(sp)
    r.kw = copy.deepcopy(kw)
    np.random.seed(sp.seed)
    with instr.FakeClock():
        o = r.create()
        o.dynamics.initialize_controls(r.start_pulse(o))
        return o.run_optimization()


def compare(mon, sp, a, b, key, what, rough=False):
    """a, b: callables giving results."""
    ra = rb = ea = eb = None
    sa, sb = ScipySpy(), ScipySpy()
    try:
        with sa:
            ra = a()
    except Exception as e:
        ea = e
    instr.reset_all()
    try:
        with sb:
            rb = b()
    except Exception as e:
        eb = e
    mon.count("twins")
    if ea is not None or eb is not None:
        if ea is not None and eb is not None and type(ea) is type(eb):
            mon.count("both_raised")
            return
        mon.fail(key + ":raised", "%s: one raised %r, the other %r" % (what, ea, eb))
        return
    if sp.p.kind != "UNIT" and (not np.all(np.isfinite(ra.final_amps)) or np.abs(ra.final_amps).max() > 20):
        mon.count("diverged")
        return
    va, vb = result_values(ra), result_values(rb)
    if not rough:
        xa, xb = sa.settings(), sb.settings()
        if xa:
            mon.count("method_settings")
        oa, ob = sa.objects(), sb.objects()
        if oa and ob:
            mon.count("object_settings")
            bad = [k for k in sorted(set(oa) | set(ob), key=str) if oa.get(k) != ob.get(k)]
            if key == "spelling:scalar_bounds":
                bad = [k for k in bad if k[1] not in ("amp_lbound", "amp_ubound")]
            if key == "spelling:gen_stats":
                bad = [k for k in bad if "stats" not in k]
            if key == "entry:objects":
                bad = [k for k in bad if not str(k if isinstance(k, str) else k[0]).startswith("generator")]
            if key.startswith("direct"):
                bad = [k for k in bad if k[0] != "termination"]
            for k in bad:
                mon.fail(key + ":object:" + str(k), "%s: %s is %r / %r" % (what, k, oa.get(k), ob.get(k)))
        mon.check(xa == xb, key + ":method_settings", lambda: "%s: the minimiser is called with %s / %s" % (what, [t for t in xa if t not in xb], [t for t in xb if t not in xa]))
    if rough:
        # single-precision time grids inside some pulse generators
        mon.close(rb.time, ra.time, key, what + ": time", 1e-12, 1e-12)
        mon.close(rb.initial_amps, ra.initial_amps, key, what + ": initial amplitudes", 1e-5, 1e-5)
        mon.close(rb.initial_fid_err, ra.initial_fid_err, key, what + ": initial error", 1e-3, 1e-3)
        return ra, rb
    d = runs.same(va, vb)
    mon.check(d is None, key, lambda: "%s: result.%s differs (%s / %s)" % (what, d, str(va.get(d))[:200], str(vb.get(d))[:200]))
    return ra, rb


def spec(rng, crab=None, kinds=None, **k):
    k.setdefault("max_ts", 5)
    sp = runs.spec(rng, alg=None if crab is None else ("CRAB" if crab else "GRAPE"), kinds=kinds or ("UNIT", "UNIT", "GEN_MAT", "SYMPL"), route="optimize", **k)
    sp.kw["max_iter"] = min(sp.kw["max_iter"], 6 if sp.alg == "GRAPE" else 15)
    sp.kw["max_wall_time"] = 1e6
    sp.dt = 0.0
    return sp


# ---------------------------------------------------------------- entry points

def entries(mon, rng):
    entry = gen.pick(rng, ["unitary", "unitary", "crab", "crab_unitary", "steps", "steps", "unitary_crab", "objects"])
    if entry == "objects":
        return objects(mon, rng)
    crab = True if entry.startswith("crab") or entry == "unitary_crab" else (False if entry == "unitary" and gen.chance(rng, .7) else None)
    sp = spec(rng, crab=crab, kinds=("UNIT",) if "unitary" in entry else None)
    p = sp.p
    if "unitary" in entry:
        if sp.measure == "TD":
            # the unitary functions only know the unitary measures
            m = gen.pick(rng, ["PSU", "SU"])
            sp.measure = m
            sp.kw["fid_params"] = {"phase_option": m}
        sp.kw["fid_type"] = gen.pick(rng, ["DEF", "UNIT"])
        sp.kw.pop("prop_type", None)
        if gen.chance(rng, .2):
            sp.kw.pop("fid_params")          # PSU in both
    kw = sp.kw
    if sp.alg == "GRAPE" and gen.chance(rng, .3):
        kw["init_pulse_params"] = {gen.pick(rng, ["scaling", "offset"]): float(rng.uniform(.1, 1))}
    if gen.chance(rng, .3):
        kw["gen_stats"] = True
    if gen.chance(rng, .3):
        kw["optim_params"] = gen.pick(rng, [{"disp_conv_msg": False, "id_text": "x"}, {"dumping": "SUMMARY"}])
    if gen.chance(rng, .2):
        kw["tslot_params"] = {"id_text": "slots"}
    if gen.chance(rng, .2) and "fid_params" in kw:
        kw["fid_params"] = dict(kw["fid_params"], id_text="measure")
    if gen.chance(rng, .3):
        kw.pop("tau")
        kw["num_tslots"], kw["evo_time"] = p.n_ts, float(p.tau.sum())
    if gen.chance(rng, .2) and sp.alg == "CRAB" and "ramping_pulse_type" in kw:
        kw["ramping_pulse_params"] = {"decay_time": float(rng.uniform(.1, 2))}
    mon.note(entry=entry, **sp.describe())
    mon.count("entry_twins")
    if entry == "steps":
        compare(mon, sp, lambda: go(sp, kw), lambda: steps(sp, kw), "entry:steps", "step-by-step route against optimize_pulse")
    else:
        name = {"unitary_crab": "unitary"}.get(entry, entry)
        gkw = dict(kw, dyn_type="UNIT") if "unitary" in entry else dict(kw)
        if entry.startswith("crab"):
            gkw["min_grad"] = 0.0
        ekw = runs.entry_kw(sp, name)
        if entry.startswith("crab"):
            for a, b in (("pulse_scaling", "guess_pulse_scaling"), ("pulse_offset", "guess_pulse_offset")):
                if gen.chance(rng, .5):
                    v = float(gen.pick(rng, [rng.uniform(.2, 1.5), rng.uniform(.2, 1.5), 0.0]))
                    gkw[a] = v
                    ekw[b] = v
            ap = dict(kw.get("alg_params") or {})
            how = gen.pick(rng, ["alg_params", "args", "mixed", "both"])
            if how != "alg_params":
                for n in ("num_coeffs", "init_coeff_scaling"):
                    if n in ap:
                        ekw[n] = ap[n]
                        if how == "args" or (how == "mixed" and gen.chance(rng, .5)):
                            ekw["alg_params"] = {k: v for k, v in ekw["alg_params"].items() if k != n}
                if how != "both" and gen.chance(rng, .15):
                    # coefficients all starting at zero
                    gkw["alg_params"] = dict(gkw.get("alg_params") or {}, init_coeff_scaling=0.0)
                    ekw["alg_params"] = {k: v for k, v in (ekw.get("alg_params") or {}).items() if k != "init_coeff_scaling"}
                    ekw["init_coeff_scaling"] = 0.0
                if how == "both":
                    ekw["num_coeffs"], ekw["init_coeff_scaling"] = 2, .33
                    if "num_coeffs" not in ap:
                        gkw["alg_params"] = dict(gkw.get("alg_params") or {}, num_coeffs=2)
                    if "init_coeff_scaling" not in ap:
                        gkw["alg_params"] = dict(gkw.get("alg_params") or {}, init_coeff_scaling=.33)
                if how != "both" and not ekw.get("alg_params") and gen.chance(rng, .5):
                    ekw.pop("alg_params", None)
            if "guess_pulse_params" in ekw and gen.chance(rng, .4):
                s, a = float(rng.uniform(.2, 1)), ekw["guess_pulse_action"]
                # parameters given explicitly win over the arguments
                ekw["guess_pulse_params"] = {"scaling": s, "offset": .05, "pulse_action": a}
                ekw["guess_pulse_action"] = "ADD" if a == "MODULATE" else "MODULATE"
                gkw["init_pulse_params"] = {"scaling": s, "offset": .05, "pulse_action": a}
            if ekw.get("optim_method", "").upper() in ("FMIN", "DEF") and gen.chance(rng, .3):
                ekw.pop("optim_method")      # documented default: fmin
                gkw["optim_method"] = "FMIN"
                if gkw["optim_method"] == "FMIN" and kw["optim_method"] == "DEF":
                    pass
        if entry == "unitary" and gen.chance(rng, .3) and "fid_params" not in ekw:
            ekw["fid_params"] = {"phase_option": ekw["phase_option"]}
            ekw["phase_option"] = "SU" if ekw["phase_option"] == "PSU" else "PSU"      # the parameter wins
        if gen.chance(rng, .2):
            ekw["log_level"] = gkw["log_level"] = logging.ERROR
        compare(mon, sp, lambda: go(sp, gkw), lambda: go(sp, ekw, runs.ENTRY[name]), "entry:" + entry, "%s against optimize_pulse" % runs.ENTRY[name].__name__)
    mon.sig("entry", entry, p.kind, sp.alg, sp.method, sp.measure, *sorted(k for k in kw if k not in ("tau",)))


def objects(mon, rng):
    """Everything assembled from the classes, as the module descriptions say."""
    sp = spec(rng, crab=False, method=gen.pick(rng, ["FMIN_L_BFGS_B", "FMIN_BFGS", "CG", "L-BFGS-B", "Nelder-Mead"]), kinds=("UNIT", "UNIT", "GEN_MAT"))
    p, kw = sp.p, sp.kw
    for k in ("method_params", "init_pulse_params"):
        kw.pop(k, None)
    if isinstance(kw.get("amp_lbound"), list) or isinstance(kw.get("amp_ubound"), list):
        kw.pop("amp_lbound", None)
        kw.pop("amp_ubound", None)
    if sp.measure == "TD" and p.kind == "UNIT":
        kw["prop_type"] = "FRECHET"
    mon.note(entry="objects", **sp.describe())
    mon.count("entry_twins")

    def manual():
        attrs = dict(kw.get("dyn_params") or {})
        cfg = oc.OptimConfig()
        d = DYN[p.kind](cfg)
        for k, v in attrs.items():
            setattr(d, k, v)
        d.drift_dyn_gen, d.ctrl_dyn_gen, d.initial, d.target = p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target()
        d.tau = p.tau.copy()
        if "prop_type" in kw:
            d.prop_computer = PROP[kw["prop_type"]](d)
        d.fid_computer = (fc.FidCompUnitary if sp.measure != "TD" else fc.FidCompTraceDiff)(d)
        if sp.measure == "TD":
            if sp.scale is not None:
                d.fid_computer.scale_factor = sp.scale
        else:
            d.fid_computer.phase_option = sp.measure
        m = sp.method
        o = {"FMIN_L_BFGS_B": om.OptimizerLBFGSB, "FMIN_BFGS": om.OptimizerBFGS}.get(m, om.Optimizer)(cfg, d)
        o.method, o.alg = m, "GRAPE"
        o.amp_lbound, o.amp_ubound = kw.get("amp_lbound"), kw.get("amp_ubound")
        t = tc.TerminationConditions()
        t.fid_err_targ, t.min_gradient_norm, t.max_iterations, t.max_wall_time = kw["fid_err_targ"], kw["min_grad"], kw["max_iter"], kw["max_wall_time"]
        o.termination_conditions = t
        np.random.seed(sp.seed)
        ty = kw.get("init_pulse_type", "DEF")
        g = PULSE["RND" if ty == "DEF" else ty](d)
        g.scaling, g.offset = kw.get("pulse_scaling", 1.0), kw.get("pulse_offset", 0.0)
        g.lbound, g.ubound = kw.get("amp_lbound"), kw.get("amp_ubound")
        a = np.column_stack([g.gen_pulse() for _ in range(d.num_ctrls)])
        with instr.FakeClock():
            d.initialize_controls(a)
            return o.run_optimization()
    compare(mon, sp, lambda: go(sp, kw), manual, "entry:objects", "objects assembled by hand against optimize_pulse")
    mon.sig("entry", "objects", p.kind, sp.method, sp.measure)


# ---------------------------------------------------------------- spellings

def spellings(mon, rng):
    sp = spec(rng)
    p, kw = sp.p, sp.kw
    a, b = dict(kw), dict(kw)
    T = {}

    def t(name, ok=True):
        def deco(f):
            if ok:
                T[name] = f
            return f
        return deco
    mp = dict(kw.get("method_params") or {})
    grape = sp.alg == "GRAPE"

    @t("tau")
    def _():
        n = p.n_ts
        T_ = float(2.0 ** rng.integers(-3, 1)) * n
        a.pop("tau"), b.pop("tau")
        x = np.ones(n) * (T_ / n)
        a["tau"] = x.tolist() if gen.chance(rng, .5) else x
        b["num_tslots"], b["evo_time"] = n, T_

    @t("scalar_bounds")
    def _():
        for k in ("amp_lbound", "amp_ubound"):
            v = float(rng.uniform(.4, 1)) * (1 if k[4] == "u" else -1)
            a[k], b[k] = v, [v] * p.n_ctrls

    @t("alg_default", grape)
    def _():
        b.pop("alg")

    @t("alg_case")
    def _():
        b["alg"] = b["alg"].lower()

    @t("method_case")
    def _():
        b["optim_method"] = "".join(c.lower() if gen.chance(rng, .5) else c for c in b["optim_method"])

    @t("method_default")
    def _():
        a["optim_method"] = "FMIN_L_BFGS_B" if grape else "FMIN"
        b["optim_method"] = gen.pick(rng, ["DEF", "def", None])
        if gen.chance(rng, .3):
            b.pop("optim_method")

    @t("lbfgsb_alias", grape)
    def _():
        a["optim_method"], b["optim_method"] = "FMIN_L_BFGS_B", "LBFGSB"

    @t("dyn_default", p.kind == "GEN_MAT")
    def _():
        b["dyn_type"] = gen.pick(rng, [None, ""])
        if gen.chance(rng, .4):
            b.pop("dyn_type")

    @t("prop_default", grape)
    def _():
        a["prop_type"] = PROP_DEF[p.kind]
        b["prop_type"] = gen.pick(rng, ["DEF", None, ""])
        if gen.chance(rng, .3):
            b.pop("prop_type")
        if sp.measure == "TD":
            a["fid_type"] = b["fid_type"] = "TRACEDIFF"

    @t("prop_default_crab", not grape and sp.measure != "TD")
    def _():
        a["prop_type"] = "APPROX"
        b["prop_type"] = gen.pick(rng, ["DEF", None])

    @t("fid_default", grape and (p.kind != "UNIT" or sp.measure != "TD"))
    def _():
        a["fid_type"] = FID_DEF[p.kind]
        b["fid_type"] = gen.pick(rng, ["DEF", None, "", "def"])
        if gen.chance(rng, .3):
            b.pop("fid_type")

    @t("fid_case")
    def _():
        b["fid_type"] = b["fid_type"].lower()

    @t("td_approx_alias", p.kind != "UNIT" or sp.measure == "TD")
    def _():
        a["fid_type"], b["fid_type"] = "TDAPPROX", "TD_APPROX"
        if gen.chance(rng, .5):
            a["prop_type"] = b["prop_type"] = "APPROX"

    @t("phase_default", sp.measure == "PSU")
    def _():
        b.pop("fid_params")

    @t("tslot_default")
    def _():
        a["tslot_type"] = "UPDATE_ALL"
        if gen.chance(rng, .5):
            b["tslot_type"] = "DEF"

    @t("init_pulse_default", grape)
    def _():
        a["init_pulse_type"] = "RND"
        b["init_pulse_type"] = gen.pick(rng, ["DEF", None, "def"])
        if gen.chance(rng, .3):
            b.pop("init_pulse_type")

    @t("guess_none", not grape)
    def _():
        for k in ("init_pulse_type", "init_pulse_params"):
            a.pop(k, None), b.pop(k, None)
        b["init_pulse_type"] = gen.pick(rng, ["DEF", "def", None])

    @t("number_defaults")
    def _():
        # defaults stated in the signature, given explicitly
        full = dict(fid_err_targ=1e-10, min_grad=1e-10, max_wall_time=180, pulse_scaling=1.0, pulse_offset=0.0, gen_stats=False, log_level=logging.NOTSET)
        for k, v in full.items():
            a[k] = v
            if gen.chance(rng, .7):
                b.pop(k, None)
            else:
                b[k] = v

    @t("none_params")
    def _():
        for k in ("alg_params", "optim_params", "method_params", "dyn_params", "prop_params", "fid_params", "tslot_params", "init_pulse_params"):
            if not a.get(k):
                a[k] = None
                b[k] = {}

    @t("pulse_scaling")
    def _():
        if grape or a.get("init_pulse_type"):
            s, o = float(rng.uniform(.2, 1.5)), float(rng.uniform(-.4, .4))
            ip = dict(a.get("init_pulse_params") or {})
            a["pulse_scaling"], a["pulse_offset"] = s, o
            b["init_pulse_params"] = dict(ip, scaling=s, offset=o)
            b.pop("pulse_scaling", None), b.pop("pulse_offset", None)
            if gen.chance(rng, .5):
                b["pulse_scaling"], b["pulse_offset"] = 7.0, 3.0      # the parameters win

    @t("limits_as_params")
    def _():
        names = dict(fid_err_targ="fid_err_targ", min_grad="min_gradient_norm", max_iter="max_iterations", max_wall_time="max_wall_time")
        for k, n in names.items():
            if gen.chance(rng, .5):
                b["method_params"] = dict(b.get("method_params") or {}, **{n: a[k]})
                b[k] = {"fid_err_targ": gen.pick(rng, [.9, 0.0]), "min_grad": gen.pick(rng, [5.0, 0.0]), "max_iter": 1, "max_wall_time": 1e-9}[k]

    @t("params_on_object")
    def _():
        # method parameters are applied after optimiser parameters
        b["optim_params"] = dict(b.get("optim_params") or {}, disp_conv_msg=True)
        b["method_params"] = dict(b.get("method_params") or {}, disp_conv_msg=False)

    @t("approx_grad_param", grape and sp.method in runs.LBFGSB | {"FMIN_BFGS", "L-BFGS-B"})
    def _():
        m = {k: v for k, v in mp.items() if k != "approx_grad"}
        a["method_params"] = dict(m, approx_grad=True)
        b["method_params"] = m or None
        b["optim_params"] = {"approx_grad": True}

    @t("optim_alg")
    def _():
        b["optim_alg"] = b["optim_method"]
        b["optim_method"] = gen.pick(rng, ["DEF", "CG", "Powell", "FMIN_BFGS"])
        if gen.chance(rng, .5):
            b.pop("optim_method")

    def beside(key):
        # a deprecated option acts whether or not other parameters are given too
        if gen.chance(rng, .5):
            extra = {"disp_conv_msg": False} if key == "method_params" else {"id_text": "text"}
            a[key], b[key] = dict(a.get(key) or {}, **extra), dict(b.get(key) or {}, **extra)

    @t("max_metric_corr", grape and sp.method in runs.LBFGSB)
    def _():
        v = int(rng.integers(1, 6))
        a["method_params"] = dict(mp, max_metric_corr=v)
        b["max_metric_corr"] = v
        beside("method_params")
        if gen.chance(rng, .4):
            b["method_params"] = dict(b.get("method_params") or {}, max_metric_corr=v)
            b["max_metric_corr"] = 20

    @t("accuracy_factor", grape and sp.method in runs.LBFGSB)
    def _():
        v = float(10 ** rng.uniform(1, 14))
        a["method_params"] = dict(mp, accuracy_factor=v)
        b["accuracy_factor"] = v
        beside("method_params")
        if gen.chance(rng, .4):
            b["method_params"] = dict(b.get("method_params") or {}, accuracy_factor=v)
            b["accuracy_factor"] = 10.0

    @t("phase_option", sp.measure in ("PSU", "SU"))
    def _():
        fp = dict(b.get("fid_params") or {})
        b["phase_option"] = fp.pop("phase_option", "PSU")
        b["fid_params"] = fp or None
        beside("fid_params")
        if gen.chance(rng, .4):
            b["fid_params"] = dict(b.get("fid_params") or {}, phase_option=b["phase_option"])
            b["phase_option"] = "SU" if b["phase_option"] == "PSU" else "PSU"

    @t("fid_err_scale_factor", sp.measure == "TD")
    def _():
        v = float(rng.uniform(.05, 1))
        fp = {k: x for k, x in (a.get("fid_params") or {}).items() if k != "scale_factor"}
        a["fid_params"] = dict(fp, scale_factor=v)
        b["fid_params"] = fp or None
        b["fid_err_scale_factor"] = v
        beside("fid_params")
        if gen.chance(rng, .4):
            b["fid_params"] = dict(b["fid_params"] or {}, scale_factor=v)
            b["fid_err_scale_factor"] = 3.0

    @t("amp_update_mode")
    def _():
        b["amp_update_mode"] = gen.pick(rng, ["ALL", "all", "UPDATE_ALL"])

    @t("gen_stats")
    def _():
        b["gen_stats"] = True
    names = sorted(T)
    picked = [names[int(rng.integers(len(names)))]]
    for n in picked:
        T[n]()
    fn_a = fn_b = "optimize"
    if gen.chance(rng, .25):
        fn_b = "steps"
    mon.note(spell=picked, fnb=fn_b, a=str({k: v for k, v in a.items() if k not in b or str(b[k]) != str(v)})[:200], b=str({k: v for k, v in b.items() if k not in a or str(a[k]) != str(v)})[:200], **sp.describe())
    mon.count("spelling_twins")
    out = compare(mon, sp, lambda: go(sp, a), lambda: (steps if fn_b == "steps" else go)(sp, b), "spelling:" + picked[0], "spelling %s" % picked[0],
                  rough=picked[0] == "tau" and a.get("init_pulse_type", "DEF") not in ("DEF", "RND", "ZERO") or picked[0] == "tau" and sp.alg == "CRAB")
    if out and picked == ["gen_stats"]:
        mon.check(out[0].stats is None and out[1].stats is not None, "gen_stats", "gen_stats does not select statistics")
    mon.sig("spell", picked[0], p.kind, sp.alg, sp.method, sp.measure, fn_b)


# ---------------------------------------------------------------- configuration observed

def configs(mon, rng):
    kind = gen.pick(rng, ["UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    p = gen.problem(rng, kind=kind, dims_small=True, max_ts=5)
    alg = gen.pick(rng, ["GRAPE", "GRAPE", "CRAB"])
    kw = dict(dyn_type=kind, alg=alg)
    even = gen.chance(rng, .4)
    if even:
        n_ts = int(rng.integers(90, 400)) if gen.chance(rng, .04) else p.n_ts
        kw["num_tslots"], kw["evo_time"] = n_ts, float(rng.uniform(.5, 5))
    else:
        kw["tau"] = p.tau.copy()
    m = gen.pick(rng, [None] + (runs.GRAPE_METHODS if alg == "GRAPE" else runs.CRAB_METHODS))
    if m:
        kw["optim_method"] = m
    prop = gen.pick(rng, ["DEF", "APPROX", "FRECHET", "AUG_MAT", None] + (["DIAG"] if kind == "UNIT" else []))
    if prop:
        kw["prop_type"] = prop
    fid = gen.pick(rng, ["DEF", "TRACEDIFF", "TDAPPROX", "TD_APPROX", None] + (["UNIT"] if kind == "UNIT" else []))
    if fid == "TRACEDIFF" and kind == "UNIT" and (prop == "APPROX" or (alg == "CRAB" and prop in ("DEF", None))):
        fid = "TDAPPROX"          # the exact measure is documented to need an exact gradient propagator
    if fid:
        kw["fid_type"] = fid
    want = []        # (description, getter, value)

    def expect(name, get, val):
        want.append((name, get, val))
    num = lambda lo, hi: float(rng.uniform(lo, hi))
    for k, n, v in (("fid_err_targ", "fid_err_targ", num(1e-9, .1)), ("min_grad", "min_gradient_norm", num(1e-9, .1)),
                    ("max_iter", "max_iterations", int(rng.integers(1, 900))), ("max_wall_time", "max_wall_time", num(1, 900))):
        d = {"fid_err_targ": 1e-10, "min_grad": 1e-10, "max_iter": 500, "max_wall_time": 180}[k]
        if gen.chance(rng, .6):
            kw[k] = v
        elif k in ("fid_err_targ", "min_grad") and gen.chance(rng, .5):
            kw[k] = 0.0
        expect("termination." + n, lambda o, n=n: getattr(o.termination_conditions, n), kw.get(k, d))
    tvals = {n: i for i, (n, _, _) in enumerate(want)}
    for k in ("amp_lbound", "amp_ubound"):
        if gen.chance(rng, .5):
            v = num(.1, 2) * (1 if k[4] == "u" else -1)
            kw[k] = gen.pick(rng, [v, [v * (j + 1) for j in range(p.n_ctrls)]])
        expect(k, lambda o, k=k: getattr(o, k), kw.get(k))

    def params(key, choices, where, prob=.5):
        d = {}
        for n, v in choices.items():
            if gen.chance(rng, prob):
                d[n] = v() if callable(v) else v
        if d or gen.chance(rng, .2):
            kw[key] = d
        for n, v in d.items():
            expect("%s.%s" % (key, n), lambda o, n=n: getattr(where(o), n), v)
        return d
    params("dyn_params", {"memory_optimization": lambda: int(rng.integers(0, 2)), "oper_dtype": lambda: gen.pick(rng, [Qobj, np.ndarray]), "unitarity_tol": lambda: num(1e-9, 1e-3),
                          "unitarity_check_level": 1, "fact_mat_round_prec": lambda: num(1e-12, 1e-9), "id_text": "my dynamics", "def_amps_fname": "else.txt",
                          "phase_application": lambda: "postop" if kind == "SYMPL" else "preop", "something_new": 17}, lambda o: o.dynamics, .3)
    params("prop_params", {"something_new": 5, "id_text": "prop"}, lambda o: o.dynamics.prop_computer)
    fp = {"id_text": "fid"}
    eff_fid = FID_DEF[kind] if fid in (None, "DEF") else fid
    if eff_fid == "UNIT":
        fp["phase_option"] = lambda: gen.pick(rng, ["SU", "PSU"])
    else:
        fp["scale_factor"] = lambda: num(.01, 2)
        if eff_fid != "TRACEDIFF":
            fp["epsilon"] = lambda: num(1e-6, 1e-2)
    params("fid_params", fp, lambda o: o.dynamics.fid_computer)
    params("tslot_params", {"id_text": "ts", "something_new": 2.5}, lambda o: o.dynamics.tslot_computer)
    op = params("optim_params", {"id_text": "opt", "disp_conv_msg": False, "record_iteration_steps": True, "something_new": [1, 2]}, lambda o: o, .3)
    for k in ("amp_lbound", "amp_ubound"):
        if gen.chance(rng, .15):
            # parameters overwrite attributes that exist
            v = num(3, 4) * (1 if k[4] == "u" else -1)
            kw["optim_params"] = dict(kw.get("optim_params") or {}, **{k: v})
            for i, w in enumerate(want):
                if w[0] == k:
                    want[i] = (k, w[1], v)
            mon.count("bounds_in_params")
    if alg == "CRAB" and m in (None, "DEF", "FMIN") and gen.chance(rng, .5):
        v = num(1e-6, 1)
        kw["optim_params"] = dict(kw.get("optim_params") or {}, xtol=v)
        expect("optim_params.xtol", lambda o: o.xtol, v)
    # method parameters: attribute of the optimiser, of the termination conditions, or method option
    mp = {}
    if gen.chance(rng, .3):
        mp["disp_conv_msg"] = True
    if gen.chance(rng, .3):
        mp["max_fid_func_calls"] = int(rng.integers(1, 99))
    if gen.chance(rng, .2):
        mp["max_iterations"] = int(rng.integers(1000, 2000))
    if gen.chance(rng, .25):
        mp["fid_err_targ"] = gen.pick(rng, [num(.2, .3), 0.0])
    if gen.chance(rng, .25):
        mp["min_gradient_norm"] = gen.pick(rng, [num(.2, .3), 0.0])
    if gen.chance(rng, .15):
        mp["max_wall_time"] = num(1000, 2000)
    opt = {}
    if gen.chance(rng, .3):
        opt = {"an_option": num(0, 1)}
    if mp or opt:
        kw["method_params"] = dict(mp, **opt)
    for n, v in mp.items():
        for i, (w, _, _) in enumerate(want):
            if w.endswith("." + n):
                want[i] = (w, want[i][1], v)
        if n == "disp_conv_msg":
            expect("method_params." + n, lambda o: o.disp_conv_msg, v)
        elif n == "max_fid_func_calls":
            expect("method_params." + n, lambda o: o.termination_conditions.max_fid_func_calls, v)
    if opt:
        expect("method option", lambda o: (o.method_options or {}).get("an_option"), opt["an_option"])
    if gen.chance(rng, .3):
        kw["log_level"] = gen.pick(rng, [logging.ERROR, logging.CRITICAL, logging.INFO])
        for n, get in (("dynamics", lambda o: o.dynamics), ("optimiser", lambda o: o), ("prop", lambda o: o.dynamics.prop_computer), ("fid", lambda o: o.dynamics.fid_computer),
                       ("tslot", lambda o: o.dynamics.tslot_computer)):
            expect("log_level of " + n, lambda o, get=get: get(o).log_level, kw["log_level"])
    if gen.chance(rng, .3):
        kw["gen_stats"] = True
    if alg == "GRAPE":
        pt = gen.pick(rng, [None, "DEF"] + sorted(PULSE))
        if pt:
            kw["init_pulse_type"] = pt
        pcls = PULSE["RND" if pt in (None, "DEF") else pt]
        if gen.chance(rng, .5):
            kw["pulse_scaling"] = num(.1, 2)
        if gen.chance(rng, .5):
            kw["pulse_offset"] = num(-1, 1)
        ip = {}
        if gen.chance(rng, .3):
            ip = {"scaling": num(.1, 2)} if gen.chance(rng, .5) else {"offset": num(-1, 1)}
            kw["init_pulse_params"] = ip
        expect("pulse scaling", lambda o: o.pulse_generator.scaling, ip.get("scaling", kw.get("pulse_scaling", 1.0)))
        expect("pulse offset", lambda o: o.pulse_generator.offset, ip.get("offset", kw.get("pulse_offset", 0.0)))
    else:
        ap = {}
        if gen.chance(rng, .6):
            ap["num_coeffs"] = int(rng.integers(1, 5))
        if gen.chance(rng, .5):
            ap["init_coeff_scaling"] = gen.pick(rng, [num(.1, 3), num(.1, 3), num(.1, 3), 0.0])
        if gen.chance(rng, .4):
            ap["fix_frequency"] = gen.chance(rng, .5)
        if gen.chance(rng, .4):
            ap["crab_pulse_params"] = gen.pick(rng, [{"randomize_freqs": False}, {"randomize_coeffs": False}, {"scaling": .77}])
        if ap:
            kw["alg_params"] = ap
    mon.note(part="configs", kw=str({k: v for k, v in kw.items() if k != "tau"})[:500], **p.describe())
    mon.count("configs")
    o = None
    np.random.seed(3)
    with mon.guard("create", "create_pulse_optimizer"):
        o = po.create_pulse_optimizer(p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target(), **copy.deepcopy(kw))
    if o is None:
        return
    d = o.dynamics
    for name, get, val in want:
        try:
            got = get(o)
        except Exception as e:
            got = e
        if isinstance(val, type):
            ok = got is val
        else:
            ok = type(got) is type(val) and got == val or (isinstance(got, (int, float)) and isinstance(val, (int, float)) and got == val)
        mon.check(ok, "option:" + name.split(".")[0] + ":" + name.split(".")[-1], lambda: "%s is %r, expected %r" % (name, got, val))
    for obj, cls, what in ((d, DYN[kind], "dyn_type"),
                           (d.prop_computer, PROP[prop if prop not in (None, "DEF") else ("APPROX" if alg == "CRAB" else PROP_DEF[kind])], "prop_type"),
                           (d.fid_computer, FID[eff_fid], "fid_type"), (d.tslot_computer, ts.TSlotCompUpdateAll, "tslot_type"),
                           (o.termination_conditions, tc.TerminationConditions, "termination_conditions")):
        if what == "fid_type" and eff_fid == "TRACEDIFF":
            mon.check(isinstance(obj, cls), "class:" + what, lambda: "%s gives %s" % (what, type(obj).__name__))
        else:
            mon.check(type(obj) is cls, "class:" + what, lambda: "%s %s gives %s" % (what, kw.get(what), type(obj).__name__))
    M = m or "DEF"
    if alg == "GRAPE":
        oc_ = om.OptimizerLBFGSB if M in runs.LBFGSB else (om.OptimizerBFGS if M == "FMIN_BFGS" else om.Optimizer)
    else:
        oc_ = om.OptimizerCrabFmin if M in ("DEF", "FMIN") else om.OptimizerCrab
    mon.check(type(o) is oc_, "class:optim_method", lambda: "method %s of %s gives %s" % (m, alg, type(o).__name__))
    mon.check(o.alg == alg, "option:alg", lambda: "alg is %r" % o.alg)
    st = kw.get("gen_stats", False)
    mon.check((o.stats is not None) == st and (d.stats is not None) == st and o.stats is d.stats, "option:gen_stats", "gen_stats=%s: stats objects %s, %s" % (st, o.stats, d.stats))
    if even:
        mon.check(d.num_tslots == n_ts and d.evo_time == kw["evo_time"], "option:timing", lambda: "num_tslots %s evo_time %s" % (d.num_tslots, d.evo_time))
    else:
        mon.close(np.asarray(d.tau, float), p.tau, "option:tau", "tau", 0, 0)
    if alg == "GRAPE":
        g = o.pulse_generator
        mon.check(type(g) is pcls, "class:init_pulse_type", lambda: "init_pulse_type %s gives %s" % (pt, type(g).__name__))
        for j, (k, get) in enumerate((("amp_lbound", "lbound"), ("amp_ubound", "ubound"))):
            b = kw.get(k)
            b = b[0] if isinstance(b, list) else b
            if k in (kw.get("optim_params") or {}):
                continue              # which of the two bounds the start is kept in is not said
            mon.check(getattr(g, get) == b, "option:pulse_" + get, lambda: "pulse %s is %s, expected %s" % (get, getattr(g, get), b))
    else:
        gs = o.pulse_generator
        mon.count("crab_configs")
        if not mon.check(isinstance(gs, list) and len(gs) == p.n_ctrls and all(type(x) is pg.PulseGenCrabFourier for x in gs), "class:crab_pulse", lambda: "pulse generators %s" % gs):
            return
        for j, x in enumerate(gs):
            if "num_coeffs" in ap:
                mon.check(x.num_coeffs == ap["num_coeffs"], "option:num_coeffs", lambda: "num_coeffs %s, expected %s" % (x.num_coeffs, ap["num_coeffs"]))
            sc = ap.get("crab_pulse_params", {}).get("scaling", ap.get("init_coeff_scaling", 1.0))
            mon.check(x.scaling == sc, "option:init_coeff_scaling", lambda: "coefficient scaling %s, expected %s" % (x.scaling, sc))
            mon.check(x.fix_freqs == ap.get("fix_frequency", True), "option:fix_frequency", lambda: "fix_freqs %s" % x.fix_freqs)
            for n in ("randomize_freqs", "randomize_coeffs"):
                if n in ap.get("crab_pulse_params", {}):
                    mon.check(getattr(x, n) is False, "option:crab_pulse_params", lambda: "%s is %s" % (n, getattr(x, n)))
            for k, get in (("amp_lbound", "lbound"), ("amp_ubound", "ubound")):
                b = kw.get(k)
                b = b[j] if isinstance(b, list) else b
                if k in (kw.get("optim_params") or {}):
                    continue
                mon.check(getattr(x, get) == b, "option:pulse_" + get, lambda: "pulse %s of control %d is %s, expected %s" % (get, j, getattr(x, get), b))
        mon.check(len({id(x) for x in gs}) == len(gs), "crab_shared", "controls share a pulse generator")
    mon.sig("config", kind, alg, m, prop, fid, *sorted(set(kw) - {"tau"}))


# ---------------------------------------------------------------- what scipy is asked

class ScipySpy:
    """Records the calls the optimisers make to the scipy minimisers."""
    NAMES = ["minimize", "fmin", "fmin_bfgs", "fmin_l_bfgs_b"]

    def __enter__(self):
        import scipy.optimize as spo
        self.calls, self.saved = [], []
        for n in self.NAMES:
            f = getattr(spo, n)
            self.saved.append((spo, n, f))
            w = self._wrap(n, f)
            setattr(spo, n, w)
            for k, v in list(vars(om).items()):
                if v is f:
                    self.saved.append((om, k, f))
                    setattr(om, k, w)
        return self

    def objects(self):
        """Numbers and names set on the objects of the run that called the minimiser."""
        out = {}
        for n, args in self.calls:
            o = next((f.__self__ for f in args.values() if isinstance(getattr(f, "__self__", None), om.Optimizer)), None)
            if o is None:
                continue
            d = o.dynamics
            g = o.pulse_generator if isinstance(o.pulse_generator, list) else [o.pulse_generator]
            gens = [("generator %d" % i, x) for i, x in enumerate(g)]
            for what, x in gens + [("optimizer", o), ("dynamics", d), ("propagator", d.prop_computer), ("fidelity", d.fid_computer), ("timeslots", d.tslot_computer),
                            ("termination", o.termination_conditions), ("stats", o.stats), ("dynamics_stats", d.stats)]:
                out[what] = type(x).__name__
                for k, v in vars(x).items() if x is not None and "stats" not in what else ():
                    if k[0] != "_" and (v is None or isinstance(v, (bool, int, float, str, np.number))):
                        v = v.lower() if isinstance(v, str) else v
                        out[what, k] = {"lbfgsb": "fmin_l_bfgs_b"}.get(v, v) if k == "method" else v
            for k in ("amp_lbound", "amp_ubound"):
                if isinstance(getattr(o, k), (list, np.ndarray)):
                    out["optimizer", k] = list(getattr(o, k))
            break
        return out

    def settings(self):
        """Numbers and names given to the minimiser."""
        out = []
        for n, args in self.calls:
            d = dict(args)
            d.update({"option " + k: v for k, v in (d.pop("options", None) or {}).items()})
            for k in sorted(d):
                v = d[k]
                if v is None or isinstance(v, (bool, int, float, np.number)):
                    out.append((n, k, v))
                elif isinstance(v, str):
                    out.append((n, k, v.lower()))
        return out

    def _wrap(self, n, f):
        def w(*a, **k):
            import inspect
            try:
                b = inspect.signature(f).bind(*a, **k)
                b.apply_defaults()
                self.calls.append((n, dict(b.arguments)))
            except TypeError:
                self.calls.append((n, k))
            return f(*a, **k)
        return w

    def __exit__(self, *a):
        for m, k, f in reversed(self.saved):
            setattr(m, k, f)


def scipy_side(mon, rng):
    sp = spec(rng, fd=False)
    p, kw = sp.p, sp.kw
    kw["max_iter"] = int(rng.integers(1, 8))
    kw["fid_err_targ"] = 1e-12
    kw["min_grad"] = gen.pick(rng, [1e-10, 1e-7, 1e-12])
    mp = {}
    big = gen.chance(rng, .15)
    if big:
        # settings far from the usual ones, in a run over at its first evaluation
        kw["max_iter"] = int(10 ** rng.uniform(2, 6))
        kw["fid_err_targ"] = 1e3
        kw["min_grad"] = float(10 ** rng.uniform(-30, 2))
    M = {"DEF": "FMIN_L_BFGS_B" if sp.alg == "GRAPE" else "FMIN", "LBFGSB": "FMIN_L_BFGS_B"}.get(sp.method, sp.method)
    want = {}
    if M == "FMIN_L_BFGS_B":
        if gen.chance(rng, .5):
            n = gen.pick(rng, ["max_metric_corr", "maxcor"])
            mp[n] = want["m"] = int(rng.integers(1, 300 if big else 30))
        if gen.chance(rng, .5):
            n = gen.pick(rng, ["accuracy_factor", "ftol"])
            mp[n] = want["factr"] = float(10 ** rng.uniform(*((-3, 20) if big else (0, 12))))
        if gen.chance(rng, .3):
            mp["max_fid_func_calls"] = want["maxfun"] = int(rng.integers(10, 10 ** 7 if big else 99))
    elif M == "FMIN":
        for n in ("xtol", "ftol"):
            if gen.chance(rng, .5):
                mp[n] = want[n] = float(10 ** rng.uniform(-6, -1))
        if gen.chance(rng, .3):
            mp["max_fid_func_calls"] = want["maxfun"] = int(rng.integers(5, 10 ** 7 if big else 99))
    elif M not in ("FMIN_BFGS",):
        o = {"Nelder-Mead": ["xatol", "fatol"], "Powell": ["xtol", "ftol"], "CG": ["norm", "eps"], "BFGS": ["norm", "eps"], "L-BFGS-B": ["maxcor", "eps", "maxls"], "SLSQP": ["eps"],
             "Newton-CG": ["xtol"], "TNC": ["eta", "stepmx"]}[M]
        for n in o:
            if gen.chance(rng, .5):
                mp[n] = want[n] = int(rng.integers(2, 9)) if n in ("maxcor", "maxls", "norm") else float(10 ** rng.uniform(-8, -3))
    kw.pop("method_params", None)
    generic = M not in ("FMIN_L_BFGS_B", "FMIN", "FMIN_BFGS")
    if generic:
        # options of the method win over the conditions they correspond to
        for n, ms in (("gtol", ("CG", "BFGS", "L-BFGS-B")), ("maxfev", ("Nelder-Mead", "Powell")), ("maxiter", tuple(runs.GRADIENT) + ("Nelder-Mead", "Powell"))):
            if M in ms and M != "TNC" and gen.chance(rng, .3):
                mp[n] = want[n] = float(10 ** rng.uniform(-9, -3)) if n == "gtol" else int(rng.integers(3, 12))
    if mp:
        kw["method_params"] = mp
    late = {}
    if generic and want and gen.chance(rng, .4):
        # given partly as method_options, or in two steps
        late = {n: mp[n] for n in want if gen.chance(rng, .5)}
        kw["method_params"] = {n: v for n, v in mp.items() if n not in late}
        if not kw["method_params"]:
            kw.pop("method_params")
        if late and gen.chance(rng, .5):
            kw["optim_params"] = {"method_options": dict(late)}
            mon.count("method_options_attr")
            late = {}
    if sp.bounded:
        w = float(rng.uniform(.1, 1))
        kw["amp_lbound"], kw["amp_ubound"] = -w, w / 2
    mon.note(part="scipy", mp=str(mp), late=str(late), **sp.describe())
    res = None

    def two_steps():
        r = runs.Run(sp)
        r.kw = copy.deepcopy(kw)
        np.random.seed(sp.seed)
        with instr.FakeClock():
            o = r.create()
            o.apply_method_params(late)
            o.dynamics.initialize_controls(r.start_pulse(o))
            return o.run_optimization()
    if late:
        mon.count("method_options_late")
    with ScipySpy() as spy:
        try:
            res = two_steps() if late else go(sp, kw)
        except Exception as e:
            mon.count("raised_" + type(e).__name__)
            mon.info["raised"] = repr(e)[:200]
            with mon.guard("scipy_run", "run"):
                raise
            return
    fn = {"FMIN_L_BFGS_B": "fmin_l_bfgs_b", "FMIN_BFGS": "fmin_bfgs", "FMIN": "fmin"}.get(M, "minimize")
    calls = [c for c in spy.calls if c[0] == fn]
    if not mon.check(len(calls) >= 1, "minimiser", lambda: "method %s used %s instead of %s" % (sp.method, [c[0] for c in spy.calls], fn)):
        return
    c = calls[0][1]
    mon.count("scipy_calls")
    grape = sp.alg == "GRAPE"

    def eq(name, got, val):
        mon.check(got == val, "minimiser:" + name, lambda: "%s of %s is %r, expected %r" % (name, fn, got, val))
    if fn == "minimize":
        mon.check(str(c["method"]).lower() == M.lower(), "minimiser:method", lambda: "scipy method %r for %r" % (c["method"], M))
        opts = c["options"] or {}
        for n, v in want.items():
            eq(n, opts.get(n), v)
        if "maxiter" not in want:
            eq("maxiter", opts.get("maxiter"), kw["max_iter"])
        if M in ("CG", "BFGS", "L-BFGS-B") and "gtol" not in want:
            eq("gtol", opts.get("gtol"), kw["min_grad"])
        if M in runs.GRADIENT and grape:
            mon.check(callable(c["jac"]), "minimiser:jac", "no gradient given to %s" % M)
        if M == "L-BFGS-B" and sp.bounded:
            b = c["bounds"]
            mon.check(b is not None and len(b) == p.n_ts * p.n_ctrls and all(tuple(x) == (kw["amp_lbound"], kw["amp_ubound"]) for x in b), "minimiser:bounds", lambda: "bounds %s" % str(b)[:100])
    else:
        eq("maxiter", c["maxiter"], kw["max_iter"])
        for n, v in want.items():
            eq(n, c.get(n), v)
        if fn == "fmin_l_bfgs_b":
            eq("pgtol", c["pgtol"], kw["min_grad"])
            if "m" not in want:
                eq("m", c["m"], 10)
            if "factr" not in want:
                eq("factr", c["factr"], 1e7)
            if sp.bounded:
                b = c["bounds"]
                mon.check(b is not None and len(b) == p.n_ts * p.n_ctrls and all(tuple(x) == (kw["amp_lbound"], kw["amp_ubound"]) for x in b), "minimiser:bounds", lambda: "bounds %s" % str(b)[:100])
        if fn == "fmin_bfgs":
            eq("gtol", c["gtol"], kw["min_grad"])
        if fn == "fmin":
            for n in ("xtol", "ftol"):
                if n not in want:
                    eq(n, c[n], 1e-4)
        if fn != "fmin":
            mon.check(callable(c["fprime"]), "minimiser:fprime", "no gradient given to %s" % fn)
    # the starting pulse is the one of the named generator
    if grape and res is not None:
        t = kw.get("init_pulse_type", "DEF")
        np.random.seed(sp.seed)
        g = PULSE["RND" if t == "DEF" else t](res.optimizer.dynamics)
        g.scaling, g.offset = kw.get("pulse_scaling", 1.0), kw.get("pulse_offset", 0.0)
        g.lbound, g.ubound = kw.get("amp_lbound"), kw.get("amp_ubound")
        a = np.column_stack([g.gen_pulse() for _ in range(p.n_ctrls)])
        mon.count("initial_pulses")
        mon.close(np.asarray(res.initial_amps), a, "initial_pulse", "initial amplitudes for %s" % t, 1e-9, 1e-9)
    mon.sig("scipy", p.kind, sp.alg, M, *sorted(mp))

# ---------------------------------------------------------------- object level

def mat(x):
    return build.arr(x)


def deprecated(mon, rng):
    """Deprecated names of the classes give what their replacements give."""
    kind = gen.pick(rng, ["UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    p = gen.problem(rng, kind=kind, dims_small=True, max_ts=4)
    prop = gen.pick(rng, ["APPROX", "FRECHET", "AUG_MAT"] + (["DIAG"] * 2 if kind == "UNIT" else []))
    attrs = {"oper_dtype": gen.pick(rng, [Qobj, np.ndarray])}
    for n in ("cache_phased_dyn_gen", "cache_prop_grad"):
        if gen.chance(rng, .4):
            attrs[n] = gen.chance(rng, .5)
    fid = "UNIT" if kind == "UNIT" else ("TDAPPROX" if prop == "APPROX" else "TRACEDIFF")
    amps = gen.amps(rng, p)
    mon.note(part="deprecated", prop=prop, attrs=str(attrs), **p.describe())
    d = None
    with mon.guard("create", "create_pulse_optimizer"):
        d = build.dyn(p, amps, prop_type=prop, fid_type=fid, dyn_params=attrs)
        d.compute_evolution()
    if d is None:
        return
    k, j = int(rng.integers(p.n_ts)), int(rng.integers(p.n_ctrls))
    fcomp, pcomp, tcomp = d.fid_computer, d.prop_computer, d.tslot_computer
    tol = dict(rtol=1e-10, atol=1e-11)

    def same(name, old, new):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with mon.guard("deprecated:" + name, name):
                a = old()
                mon.count("deprecated_names")
                b = new()
                if isinstance(b, (bool, int)) or b is None:
                    mon.check(a == b and type(a) is type(b), "deprecated:" + name, lambda: "%s gives %r, its replacement %r" % (name, a, b))
                elif isinstance(b, (list, tuple)):
                    if mon.check(len(a) == len(b), "deprecated:" + name, lambda: "%s has %d entries, its replacement %d" % (name, len(a), len(b))):
                        for x, y in zip(a, b):
                            mon.close(mat(x), mat(y), "deprecated:" + name, name, **tol)
                else:
                    mon.close(mat(a), mat(b), "deprecated:" + name, name, **tol)
                    mon.check(type(a) is type(b) or not isinstance(a, Qobj) or not isinstance(b, Qobj) or a.dims == b.dims, "deprecated:" + name, lambda: "dims of " + name)
    full = d
    if pcomp.grad_exact and d.prop_grad is None:
        # gradients are not kept: those of a twin which keeps them
        full = build.dyn(p, amps, prop_type=prop, fid_type=fid, dyn_params=dict(attrs, cache_prop_grad=True))
        full.compute_evolution()
    same("get_num_ctrls", lambda: d.get_num_ctrls(), lambda: p.n_ctrls)
    same("get_owd_evo_target", lambda: d.get_owd_evo_target(), lambda: d.onto_evo_target)
    same("evo_init2t", lambda: list(d.evo_init2t), lambda: list(d.fwd_evo))
    same("evo_t2end", lambda: list(d.evo_t2end) if fcomp.uses_onwd_evo else d.evo_t2end, lambda: list(d.onwd_evo) if fcomp.uses_onwd_evo else d.onwd_evo)
    same("evo_t2targ", lambda: list(d.evo_t2targ) if fcomp.uses_onto_evo else d.evo_t2targ, lambda: list(d.onto_evo) if fcomp.uses_onto_evo else d.onto_evo)
    same("combine_dyn_gen", lambda: d.combine_dyn_gen(k), lambda: d.dyn_gen[k])
    same("get_dyn_gen", lambda: d.get_dyn_gen(k), lambda: Ref(p, amps).phased[k])
    if not d.time_depend_ctrl_dyn_gen:
        same("get_ctrl_dyn_gen", lambda: d.get_ctrl_dyn_gen(j), lambda: Ref(p, amps).phase(p.ctrl_kj(k, j)))
    same("get_timeslot_for_fidelity_calc", lambda: tcomp.get_timeslot_for_fidelity_calc(), lambda: p.n_ts)
    same("compute_propagator", lambda: pcomp.compute_propagator(k), lambda: d.prop[k])
    if pcomp.grad_exact:
        same("compute_prop_grad", lambda: pcomp.compute_prop_grad(k, j)[1], lambda: full.prop_grad[k, j])
        same("compute_prop_grad2", lambda: pcomp.compute_prop_grad(k, j, compute_prop=False), lambda: full.prop_grad[k, j])
        same("compute_prop_grad3", lambda: pcomp.compute_prop_grad(k, j)[0], lambda: d.prop[k])
    else:
        eps = float(10 ** rng.uniform(-4, 0))
        a2 = amps.copy()
        a2[k, j] += eps

        def moved():
            x = build.dyn(p, a2, prop_type=prop, fid_type=fid, dyn_params=attrs)
            x.compute_evolution()
            return x.prop[k]
        same("compute_diff_prop", lambda: pcomp.compute_diff_prop(k, j, eps), moved)
    for o, n in (("uses_evo_t2end", "uses_onwd_evo"), ("uses_evo_t2targ", "uses_onto_evo")):
        same(o, lambda: getattr(fcomp, o), lambda: getattr(fcomp, n))
        v = not getattr(fcomp, n)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            setattr(fcomp, o, v)
        mon.check(getattr(fcomp, n) is v, "deprecated:set_" + o, lambda: "setting %s leaves %s at %s" % (o, n, getattr(fcomp, n)))
        setattr(fcomp, n, not v)
    if kind == "UNIT" and p.n_ts:
        for ph in ("SU", "PSU"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fcomp.set_phase_option(ph)
            e1 = fcomp.get_fid_err()
            x = build.dyn(p, amps, prop_type=prop, fid_type=fid, dyn_params=attrs, fid_params={"phase_option": ph})
            mon.count("deprecated_names")
            mon.close(e1, x.fid_computer.get_fid_err(), "deprecated:set_phase_option", "error after set_phase_option(%r)" % ph, 1e-9, 1e-10)
            mon.check(fcomp.phase_option == ph, "deprecated:set_phase_option", lambda: "phase option is %r" % fcomp.phase_option)
    mon.sig("deprecated", kind, prop, *sorted((a, str(b)) for a, b in attrs.items()))


def direct(mon, rng):
    """Settings made on the objects against the same settings made through the functions."""
    crab = gen.chance(rng, .3)
    sp = spec(rng, crab=crab)
    p, kw = sp.p, sp.kw
    lb = sp.alg == "GRAPE" and sp.method in runs.LBFGSB
    how = gen.pick(rng, ["argument", "argument", "goal", "goal", "goal_from_target", "neither", "init_optim", "method_params", "method_params"] + (["config", "config", "config_attr", "conds_factor"] * 2 if lb else []))
    kw.pop("method_params", None)
    if how in ("goal", "goal_from_target"):
        kw["fid_err_targ"] = float(rng.uniform(.01, .7))
    mon.note(part="direct", how=how, **sp.describe())
    akw = dict(kw)
    mm, af = int(rng.integers(1, 6)), float(10 ** rng.uniform(1, 14))
    if how in ("config", "config_attr"):
        akw["method_params"] = {"max_metric_corr": mm}
        if how == "config":
            akw["method_params"]["accuracy_factor"] = af
    if how == "conds_factor":
        akw["method_params"] = {"accuracy_factor": af}
    if how == "method_params":
        akw["method_params"] = {"max_fid_func_calls": int(rng.integers(1, 12)), "fid_err_targ": float(10 ** rng.uniform(-6, -1))}
        if gen.chance(rng, .5):
            del akw["method_params"][gen.pick(rng, ["max_fid_func_calls", "fid_err_targ"])]
        if lb:
            akw["method_params"].update(max_metric_corr=mm, accuracy_factor=af)
    goal = 1 - kw["fid_err_targ"]
    if how == "goal":
        akw["fid_err_targ"] = abs(1 - goal)
    held = {}

    def b():
        r = runs.Run(sp)
        r.kw = copy.deepcopy(kw)
        np.random.seed(sp.seed)
        with instr.FakeClock():
            o = r.create()
            o.dynamics.initialize_controls(r.start_pulse(o))
            t = held["tc"] = o.termination_conditions
            held["o"] = o
            if how in ("argument", "init_optim"):
                other = tc.TerminationConditions()
                other.fid_err_targ, other.max_iterations = .999, 1
                o.termination_conditions = gen.pick(rng, [None, other])
                if how == "init_optim":
                    o.init_optim(t)
                    mon.check(o.termination_conditions is t, "direct:init_optim", "init_optim does not take the termination conditions given")
                    return o.run_optimization()
                return o.run_optimization(t) if gen.chance(rng, .5) else o.run_optimization(term_conds=t)
            if how == "goal":
                t.fid_err_targ, t.fid_goal = None, goal
            if how == "goal_from_target":
                t.fid_goal = None
            if how == "neither":
                t.fid_err_targ = t.fid_goal = None
            if how == "config":
                o.config.max_metric_corr, o.config.accuracy_factor = mm, af
            if how == "method_params":
                o.method_params = copy.deepcopy(akw["method_params"])
            if how == "config_attr":
                o.max_metric_corr = mm
            if how == "conds_factor":
                t.accuracy_factor = af
            return o.run_optimization()
    mon.count("direct_settings")
    if how == "neither":
        from qutip_qtrl import errors
        try:
            b()
            mon.fail("direct:neither", "a run without any target was started")
        except errors.UsageError:
            pass
        except Exception as e:
            mon.fail("direct:neither", "a run without any target: %r" % e)
    else:
        out = compare(mon, sp, lambda: go(sp, akw), b, "direct:" + how, how)
        if out and "tc" in held:
            t = held["tc"]
            mon.check(held["o"].termination_conditions is t, "direct:conditions", "the run used other termination conditions")
            targ = float(akw.get("method_params", {}).get("fid_err_targ", akw["fid_err_targ"]))
            mon.close(float(t.fid_err_targ), targ, "direct:target", "target error", 0, 1e-15)
            mon.close(float(t.fid_goal), 1 - targ, "direct:goal_value", "fid_goal", 0, 1e-12)
    mon.sig("direct", how, p.kind, sp.alg, sp.method, sp.measure)


def constructed(mon, rng):
    """Parameters given at instantiation are those of the object, also after reset(), and act as the same parameters applied later."""
    kind = gen.pick(rng, ["UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    p = gen.problem(rng, kind=kind, dims_small=True, max_ts=4)
    num = lambda lo, hi: float(rng.uniform(lo, hi))
    some = lambda d: {k: (v() if callable(v) else v) for k, v in d.items() if gen.chance(rng, .6)}
    mon.note(part="constructed", **p.describe())

    def attrs(x, pr, what):
        for n, v in pr.items():
            got = getattr(x, n, None)
            ok = got is v or (type(got) is type(v) and np.all(np.asarray(got) == np.asarray(v)))
            mon.check(ok, "constructed:" + what + ":" + n, lambda: "%s given %s=%r at instantiation has %r" % (type(x).__name__, n, v, got))

    def build_one(what, make, pr):
        x = None
        with mon.guard("constructed:" + what, "instantiation with params %s" % pr):
            x = make(dict(pr))
            mon.count("constructed")
            attrs(x, pr, what)
        return x
    cfg = oc.OptimConfig()
    dp = some({"memory_optimization": lambda: int(rng.integers(0, 2)), "oper_dtype": lambda: gen.pick(rng, [Qobj, np.ndarray]), "unitarity_tol": lambda: num(1e-9, 1e-3),
               "cache_prop_grad": lambda: gen.chance(rng, .5), "id_text": "mine", "initial_ctrl_scaling": lambda: num(.1, 3), "initial_ctrl_offset": lambda: num(-1, 1), "something_new": 17})
    d = build_one("dynamics", lambda q: DYN[kind](cfg, q), dp)
    if d is None:
        return
    d.drift_dyn_gen, d.ctrl_dyn_gen, d.initial, d.target = p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target()
    d.tau = p.tau.copy()
    mon.check(type(d.prop_computer) is PROP[PROP_DEF[kind]] and type(d.fid_computer) is FID[FID_DEF[kind]] and type(d.tslot_computer) is ts.TSlotCompUpdateAll, "constructed:computers",
              lambda: "default computers %s %s %s" % tuple(type(x).__name__ for x in (d.prop_computer, d.fid_computer, d.tslot_computer)))
    pk = gen.pick(rng, ["APPROX", "FRECHET", "AUG_MAT"] + (["DIAG"] if kind == "UNIT" else []))
    pc_ = build_one("prop", lambda q: PROP[pk](d, q), some({"id_text": "prop", "something_new": 5, "grad_exact": lambda: pk != "APPROX"}))
    tc_ = build_one("tslot", lambda q: ts.TSlotCompUpdateAll(d, q), some({"id_text": "slots", "something_new": 2.5}))
    fk = gen.pick(rng, ["UNIT", "TRACEDIFF", "TDAPPROX"] if kind == "UNIT" else ["TRACEDIFF", "TDAPPROX"])
    fp = {"UNIT": {"phase_option": lambda: gen.pick(rng, ["SU", "PSU"])}, "TRACEDIFF": {"scale_factor": lambda: num(.05, 2)},
          "TDAPPROX": {"scale_factor": lambda: num(.05, 2), "epsilon": lambda: num(1e-6, 1e-2)}}[fk]
    if fk == "TDAPPROX" or pk == "APPROX":
        pk = "APPROX"
        if fk != "TDAPPROX":
            fk, fp = "TDAPPROX", {"scale_factor": lambda: num(.05, 2), "epsilon": lambda: num(1e-6, 1e-2)}
    fpar = some(dict(fp, id_text="fid"))
    fc_ = build_one("fid", lambda q: FID[fk](d, q), fpar)
    okw = {"amp_lbound": lambda: -num(.1, 2), "amp_ubound": lambda: num(.1, 2), "disp_conv_msg": True, "record_iteration_steps": True, "id_text": "opt", "something_new": [1, 2], "approx_grad": True}
    ocls = gen.pick(rng, [om.Optimizer, om.OptimizerBFGS, om.OptimizerLBFGSB, om.OptimizerCrab, om.OptimizerCrabFmin])
    if ocls is om.OptimizerLBFGSB:
        okw["max_metric_corr"] = lambda: int(rng.integers(1, 9))
    if ocls is om.OptimizerCrabFmin:
        okw["xtol"] = okw["ftol"] = lambda: num(1e-7, 1e-2)
    op = some(okw)
    o = build_one("optimizer", lambda q: ocls(cfg, d, q), op)
    if o is not None:
        mon.check(o.dynamics is d and o.config is cfg, "constructed:links", "optimiser is not linked to the dynamics and configuration given")
    if None in (pc_, tc_, fc_, o):
        return
    # the values of a computer with params are those of one to which they are applied later
    amps = gen.amps(rng, p)
    vals = []
    with mon.guard("constructed:evaluate", "evaluation"):
        for late in (False, True):
            x = DYN[kind](cfg) if late else DYN[kind](cfg, dict(dp))
            if late:
                x.apply_params(dict(dp))
            x.drift_dyn_gen, x.ctrl_dyn_gen, x.initial, x.target = p.q_drift(), p.q_ctrls(), p.q_initial(), p.q_target()
            x.tau = p.tau.copy()
            x.prop_computer = PROP[pk](x)
            f = x.fid_computer = FID[fk](x) if late else FID[fk](x, dict(fpar))
            if late:
                f.apply_params(dict(fpar))
            x.initialize_controls(amps)
            vals.append((f.get_fid_err(), np.array(f.get_fid_err_gradient()), getattr(f, "scale_factor", None), getattr(f, "phase_option", None)))
        a, b = vals
        mon.check(a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:], "constructed:values", lambda: "with params at instantiation %s, applied later %s" % (a, b))
    # reset leads back to the defaults and these parameters
    for x, cls, args, pr, what in ((o, ocls, (cfg, d), op, "optimizer"), (pc_, type(pc_), (d,), None, "prop"), (fc_, type(fc_), (d,), fpar, "fid")):
        with mon.guard("constructed:reset", "reset of " + what):
            fresh = cls(*args, x.params)
            for n in list(vars(x)):
                if isinstance(vars(x)[n], (bool, int, float, str)) or vars(x)[n] is None:
                    if gen.chance(rng, .5) and n not in ("parent", "config", "params", "dynamics"):
                        vars(x)[n] = gen.pick(rng, [None, 3, "changed", 1.5])
            x.reset()
            mon.count("resets")
            for n, v in vars(fresh).items():
                if isinstance(v, (bool, int, float, str)) or v is None:
                    mon.check(getattr(x, n, "missing") == v or v != v, "constructed:reset:" + n, lambda: "%s of %s is %r after reset, %r in a new one" % (n, what, getattr(x, n, "missing"), v))
    # pulse generators
    gk = gen.pick(rng, sorted(PULSE))
    gp = some({"scaling": lambda: num(.1, 3), "offset": lambda: num(-1, 1), "lbound": lambda: -num(.3, 1), "ubound": lambda: num(.3, 1), "something_new": 1})
    for n, v in {"LIN": {"start_val": lambda: num(-1, 1)}, "SINE": {"num_waves": lambda: num(.5, 3), "start_phase": lambda: num(0, 6)}, "GAUSSIAN": {"mean": lambda: num(0, 1), "variance": lambda: num(.1, 1)},
                 "RNDFOURIER": {"min_wavelen": lambda: num(.1, .5) * min(1.0, float(p.tau.sum()))}, "RNDWAVES": {"num_comp_waves": lambda: int(rng.integers(1, 5)), "min_wavelen": lambda: num(.1, .5) * min(1.0, float(p.tau.sum()))},
                 "RNDWALK1": {"max_d_amp": lambda: num(.01, .5)}}.get(gk, {}).items():
        if gen.chance(rng, .7):
            gp[n] = v()
    src = gen.pick(rng, ["dynamics", "none"])
    g = build_one("pulse", lambda q: PULSE[gk](d if src == "dynamics" else None, q), gp)
    if g is not None:
        if src == "dynamics":
            for n, v in (("num_tslots", p.n_ts), ("pulse_time", float(p.tau.sum())), ("scaling", gp.get("scaling", d.initial_ctrl_scaling)), ("offset", gp.get("offset", d.initial_ctrl_offset))):
                mon.close(float(getattr(g, n)), v, "constructed:pulse:" + n, "%s of a generator of the dynamics" % n, 1e-12, 1e-12)
        with mon.guard("constructed:pulse", "pulse generation"):
            np.random.seed(11)
            a = np.array(g.gen_pulse())
            h = PULSE[gk](d if src == "dynamics" else None)
            h.apply_params(dict(gp))
            np.random.seed(11)
            b = np.array(h.gen_pulse())
            np.random.seed(11)
            g.reset()
            c = np.array(g.gen_pulse())
            mon.check(np.array_equal(a, b), "constructed:pulse_values", lambda: "%s with params at instantiation differs from params applied later" % gk)
            mon.check(np.array_equal(a, c), "constructed:pulse_reset", lambda: "%s differs after reset" % gk)
            mon.check(len(a) == (p.n_ts if src == "dynamics" else 100), "constructed:pulse:length", lambda: "%d values" % len(a))
    mon.sig("constructed", kind, pk, fk, ocls.__name__, gk, src, *sorted(dp))


PARTS = [entries, spellings, configs, spellings, scipy_side, entries, spellings, configs, deprecated, direct, constructed]


def case(mon, rng, idx, tier):
    PARTS[idx % len(PARTS)](mon, rng)
