"""C17: bounded pulses are increasing affine images of the unbounded ones."""
import numpy as np
from .. import gen, build
from .c16 import ALL, RANDOM
import qutip_qtrl.pulsegen as pg

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: each bounded pulse observed next to the unbounded pulse of a twin generator under the same random seed; affine relation and bounds checked online"
CASES = {"quick": 40000, "thorough": 500000}
NEED = {"pulses": 3000, "fits": 300, "shifted": 300, "scaled": 300, "refused": 100, "infinite": 300, "rebounded": 300, "optimizer": 200}
RULE = ("random non-CRAB generator, scaling, offset, grid and bounds (absent, infinite, zero, tight, equal, integer), given at creation, as "
        "attributes, changed between pulses or through the optimiser's amplitude bounds; distinct = (type, bound form, way, outcome)")
ASSUMPTIONS = []


def bound_pair(rng, u):
    """Bounds around a pulse u, chosen so that every outcome is reached."""
    lo, hi = float(u.min()), float(u.max())
    r = max(hi - lo, .1)
    form = gen.pick(rng, ["wide", "tight", "shift_up", "shift_down", "lower", "upper", "lower_cut", "upper_cut", "inf_lower",
                          "inf_upper", "inf_both", "none", "equal", "zero", "int", "exact", "abs"])
    x, y = rng.uniform(.05, .9), rng.uniform(.05, .9)
    if form == "wide":
        b = lo - x * r, hi + y * r
    elif form == "tight":
        b = lo + x * r * .5, hi - y * r * .5
    elif form == "shift_up":
        b = lo + x * r, hi + (x + y) * r
    elif form == "shift_down":
        b = lo - (x + y) * r, hi - x * r
    elif form == "lower":
        b = lo - x * r, None
    elif form == "upper":
        b = None, hi + x * r
    elif form == "lower_cut":
        b = lo + x * r * 2, None
    elif form == "upper_cut":
        b = None, hi - x * r * 2
    elif form == "inf_lower":
        b = -np.inf, hi + (x - .5) * r
    elif form == "inf_upper":
        b = lo + (x - .5) * r, np.inf
    elif form == "inf_both":
        b = -np.inf, np.inf
    elif form == "none":
        b = None, None
    elif form == "equal":
        b = (float(x),) * 2
    elif form == "zero":
        b = (0.0, hi + r) if gen.chance(rng, .5) else (lo - r, 0.0)
        if b[1] < b[0]:
            b = (0.0, 1.0)
    elif form == "int":
        b = (0, 1) if gen.chance(rng, .5) else (-1, 1)
    elif form == "exact":
        b = lo, hi
    else:
        b = -float(x), float(y)
    if b[0] is not None and b[1] is not None and b[1] < b[0]:
        b = b[1], b[0]
    if b[0] is not None and b[1] is not None and gen.chance(rng, .2):
        b = np.float64(b[0]), np.float64(b[1])
    return b[0], b[1], form


def judge(mon, u, b, lb, ub, what):
    lb = None if lb is None or np.isinf(lb) else float(lb)
    ub = None if ub is None or np.isinf(ub) else float(ub)
    mon.count("pulses")
    b = np.asarray(b)
    if not mon.check(b.shape == u.shape and np.all(np.isfinite(b)), "finite", lambda: "%s: shape %s, finite %s" % (what, b.shape, np.all(np.isfinite(b)))):
        return None
    mag = max(1.0, np.abs(u).max(), abs(lb or 0), abs(ub or 0))
    eps = 1e-11 * mag
    mon.check(lb is None or b.min() >= lb - eps, "lower", lambda: "%s: value %.6g below %.6g" % (what, b.min(), lb))
    mon.check(ub is None or b.max() <= ub + eps, "upper", lambda: "%s: value %.6g above %.6g" % (what, b.max(), ub))
    ur = u.max() - u.min()
    if (lb is None or u.min() >= lb) and (ub is None or u.max() <= ub):
        mon.count("fits")
        mon.close(b, u, "changed", what + ": pulse fits the bounds but was changed", 1e-11, eps)
        return "fits"
    if lb is None or ub is None or ur <= (ub - lb) * (1 - 1e-9):
        mon.count("shifted")
        c = b.mean() - u.mean()
        mon.check(np.abs(b - u - c).max() <= 1e-10 * mag, "not_shift", lambda: "%s: a shift suffices but the pulse changed shape (by %.3g)" % (what, np.abs(b - u - c).max()))
        if lb is None:
            mon.check(abs(b.max() - ub) <= 1e-9 * mag, "shift_far", lambda: "%s: maximum %.6g, bound %.6g" % (what, b.max(), ub))
        if ub is None:
            mon.check(abs(b.min() - lb) <= 1e-9 * mag, "shift_far", lambda: "%s: minimum %.6g, bound %.6g" % (what, b.min(), lb))
        return "shifted"
    mon.count("scaled")
    a = (ub - lb) / ur
    a = min(a, 1.0)
    want = a * (u - u.min()) + lb
    mon.check(np.abs(b - want).max() <= 1e-9 * mag, "not_affine", lambda: "%s: not the pulse scaled to the bounds (max diff %.3g)" % (what, np.abs(b - want).max()))
    return "scaled"


def case(mon, rng, idx, tier):
    ty = gen.pick(rng, list(ALL))
    n = int(gen.pick(rng, [1, 2, 5, 20]))
    T = float(rng.uniform(.3, 8))
    base = dict(scaling=float(gen.pick(rng, [1.0, rng.uniform(.01, 5)])), offset=float(gen.pick(rng, [0.0, rng.uniform(-3, 3)])))
    if gen.chance(rng, .5):
        base.update(num_tslots=n, pulse_time=T)
    else:
        base["tau"] = gen.taus(rng, n, total=T)
    seed = int(rng.integers(2 ** 31))
    mon.note(type=ty, n=n)

    def pulse(g, s):
        np.random.seed(s)
        return np.array(g.gen_pulse())
    twin = pg.create_pulse_gen(ty, pulse_params=dict(base))
    u = pulse(twin, seed)
    lb, ub, form = bound_pair(rng, u)
    if form.startswith("inf"):
        mon.count("infinite")
    way = gen.pick(rng, ["params", "attrs", "after_init", "optimizer"])
    what = "%s bounds (%s, %s) [%s] %s" % (ty, lb, ub, form, way)
    bp = {}
    if lb is not None or gen.chance(rng, .3):
        bp["lbound"] = lb
    if ub is not None or gen.chance(rng, .3):
        bp["ubound"] = ub
    if way == "optimizer":
        mon.count("optimizer")
        p = gen.problem(rng, kind="UNIT", n_ts=n, max_ctrls=2, dims_small=True, td=False)
        kw = dict(init_pulse_type=ty, pulse_scaling=base["scaling"], pulse_offset=base["offset"])
        twin = build.optim(p, **kw).pulse_generator
        u = pulse(twin, seed)
        lb, ub, form = bound_pair(rng, u)
        o = build.optim(p, amp_lbound=lb, amp_ubound=ub, **kw)
        g = o.pulse_generator
        what = "%s amplitude bounds (%s, %s) [%s]" % (ty, lb, ub, form)
    elif way == "params":
        g = pg.create_pulse_gen(ty, pulse_params=dict(base, **bp))
    else:
        g = pg.create_pulse_gen(ty, pulse_params=dict(base))
        if way == "after_init":
            pulse(g, seed + 1)
        for k, v in bp.items():
            setattr(g, k, v)
    out = judge(mon, u, pulse(g, seed), lb, ub, what)
    mon.sig(ty, form, way, out)
    judge(mon, u, pulse(g, seed), lb, ub, what + ", again")
    # bounds changed later
    lb, ub, form = bound_pair(rng, u)
    g.lbound, g.ubound = lb, ub
    mon.count("rebounded")
    judge(mon, u, pulse(g, seed), lb, ub, "%s bounds changed to (%s, %s) [%s]" % (ty, lb, ub, form))
    if gen.chance(rng, .15):
        # crossed bounds are refused
        mon.count("refused")
        a = float(rng.uniform(-1, 1))
        b = a - float(rng.uniform(.01, 1))
        how = gen.pick(rng, ["fresh", "later", "init"])
        if how == "fresh":
            h = pg.create_pulse_gen(ty, pulse_params=dict(base, lbound=a, ubound=b))
            fn = h.gen_pulse
        elif how == "init":
            h = pg.create_pulse_gen(ty, pulse_params=dict(base, lbound=a, ubound=b))
            fn = h.init_pulse
        else:
            g.lbound, g.ubound = a, b
            fn = g.gen_pulse
        mon.raises(fn, "crossed", "%s with lower bound above the upper (%s)" % (ty, how), (ValueError,))
