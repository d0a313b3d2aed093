"""C16: pulse generators produce the documented waveforms."""
import numpy as np
from .. import gen, build
import qutip_qtrl.pulsegen as pg

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every generated pulse and the generator's attributes checked online against the documented waveform sampled at the slot start times"
CASES = {"quick": 16000, "thorough": 200000}
NEED = {"pulses": 2000, "random_pulses": 300, "with_dynamics": 300, "by_args": 200, "jumps": 1000}
RULE = ("random generator type, slot grid (given durations, slot count and time, from a Dynamics object), scaling, offset, parameters and "
        "the way they are passed (creation parameters, attributes, init_pulse, gen_pulse); distinct = (type, grid route, way, parameter)")
ASSUMPTIONS = ["slot durations generated by the library are single precision, so comparisons allow 1e-6 relative in time",
               "at jumps of discontinuous waves either side is accepted within that time resolution, except on grids on which the phase is exact"]

PERIODIC = {"SINE": "PulseGenSine", "SQUARE": "PulseGenSquare", "SAW": "PulseGenSaw", "TRIANGLE": "PulseGenTriangle"}
OTHER = {"LIN": "PulseGenLinear", "ZERO": "PulseGenZero", "GAUSSIAN": "PulseGenGaussian", "GAUSSIAN_EDGE": "PulseGenGaussianEdge"}
RANDOM = {"RND": "PulseGenRandom", "RNDFOURIER": "PulseGenRndFourier", "RNDWAVES": "PulseGenRndWaves",
          "RNDWALK1": "PulseGenRndWalk1", "RNDWALK2": "PulseGenRndWalk2"}
ALL = {**PERIODIC, **OTHER, **RANDOM}
S8 = np.sqrt(8.0)


class Gen:
    """A generator with its grid; params are spread over the ways of giving them."""

    def __init__(self, rng, ty, params, n_ts=None, equal=None):
        self.ty = ty
        self.route = route = gen.pick(rng, ["dyn", "tau", "taulist", "num", "num", "default", "attr"]) if equal is None else gen.pick(rng, ["num", "attr"])
        n = n_ts or int(gen.pick(rng, [1, 2, 3, 5, 10, 40]))
        self.scaling = gen.pick(rng, [None, 1.0, float(rng.uniform(.05, 4)), 2])
        self.offset = gen.pick(rng, [None, 0.0, float(rng.uniform(-2, 2)), 1])
        self.exact = True
        T = None
        pre, attrs = {}, {}
        dyn = None
        if route == "dyn":
            p = gen.problem(rng, kind="UNIT", n_ts=n, max_ctrls=1, dims_small=True, td=False)
            dyn = build.optim(p).dynamics
            if self.scaling is not None:
                dyn.initial_ctrl_scaling = self.scaling
            if self.offset is not None:
                dyn.initial_ctrl_offset = self.offset
            if dyn.tau is None or gen.chance(rng, .3):
                dyn.init_timeslots()
            tau = p.tau
            T = float(np.sum(tau))
        elif route in ("tau", "taulist", "attr") or (route == "num"):
            T = float(rng.uniform(.2, 12))
            if route in ("num",) or (route == "attr" and (equal or gen.chance(rng, .5))):
                tau = np.ones(n) * T / n
                self.exact = False
                (pre if route == "num" else attrs).update(num_tslots=n, pulse_time=T)
            else:
                tau = gen.taus(rng, n, total=T)
                (attrs if route == "attr" else pre)["tau"] = list(tau) if route == "taulist" else tau.copy()
        else:
            n, T = 100, 1.0
            tau = np.ones(n) / n
            self.exact = False
        if route != "dyn":
            d = attrs if gen.chance(rng, .3) else pre
            if self.scaling is not None:
                d["scaling"] = self.scaling
            if self.offset is not None:
                d["offset"] = self.offset
        self.n, self.T, self.tau = n, T, np.asarray(tau, float)
        self.t = np.concatenate([[0.0], np.cumsum(self.tau)])[:-1]
        self.s = 1.0 if self.scaling is None else float(self.scaling)
        self.o = 0.0 if self.offset is None else float(self.offset)
        # parameters
        self.way = gen.pick(rng, ["params", "attrs"])
        params = params(self) if callable(params) else params
        if self.way == "params" and not (route == "attr" and False):
            pre.update(params)
        else:
            attrs.update(params)
        self.params = params
        if gen.chance(rng, .5):
            self.g = pg.create_pulse_gen(ty, dyn, pulse_params=pre or None)
        elif gen.chance(rng, .5):
            self.g = pg.create_pulse_gen(pulse_type=ty, dyn=dyn, pulse_params=dict(pre))
        else:
            self.g = getattr(pg, ALL[ty])(dyn, params=pre or None)
        self.pre, self.attrs = pre, attrs
        for k, v in attrs.items():
            setattr(self.g, k, v)
        if gen.chance(rng, .3):
            self.g.init_pulse()

    def tol(self):
        return (1e-9 if self.exact else 3e-6) * max(1.0, self.s)


def sane(mon, G, p, what):
    p = np.asarray(p)
    ok = mon.check(p.shape == (G.n,), "shape", lambda: "%s: pulse of shape %s for %d timeslots" % (what, p.shape, G.n))
    ok = ok and mon.check(p.dtype.kind == "f" and np.all(np.isfinite(p)), "finite", lambda: "%s: non-finite or non-float values" % what)
    mon.count("pulses")
    if G.route == "dyn":
        mon.count("with_dynamics")
    return ok


def wave(ty, x):
    """Documented wave of period 1 at x."""
    if ty == "SINE":
        return np.sin(2 * np.pi * x)
    f = x - np.floor(x)
    if ty == "SQUARE":
        return np.where(f < .5, 1.0, -1.0)
    if ty == "SAW":
        return np.where(f < .5, 2 * f, 2 * f - 2)
    return np.where(f < .25, 4 * f, np.where(f < .75, 2 - 4 * f, 4 * f - 4))


def judge_wave(mon, G, p, freq, phase, what):
    x = freq * G.t + phase / (2 * np.pi)
    dx = (1e-9 if G.exact else 1e-6) * (1 + abs(freq) * G.T) + 1e-12
    v = (np.asarray(p) - G.o) / G.s
    tol = 1e-9 + 8 * dx
    ok = np.zeros(len(x), bool)
    for s in (-1, 0, 1):
        ok |= np.abs(v - wave(G.ty, x + s * dx)) <= tol
    mon.check(bool(np.all(ok)), "wave:" + G.ty, lambda: "%s: %s expected %s" % (what, v[~ok][:4], wave(G.ty, x)[~ok][:4]))


def periodic(mon, rng, ty):
    T0 = {}
    drive = gen.pick(rng, ["none", "num_waves", "wavelen", "freq", "all"])
    phase = gen.pick(rng, [0.0, float(rng.uniform(0, 2 * np.pi)), np.pi / 2])

    def mk(G):
        p = {}
        if drive in ("num_waves", "all"):
            p["num_waves"] = gen.pick(rng, [1, 2, 3, float(rng.uniform(.3, 5)), .5])
        if drive in ("wavelen", "all"):
            p["wavelen"] = float(rng.uniform(.2, 3)) * G.T
        if drive in ("freq", "all"):
            p["freq"] = gen.pick(rng, [float(rng.uniform(.2, 5)), 2])
        return p

    where = gen.pick(rng, ["obj", "obj", "init", "gen"])
    vals = {}

    def params(G):
        vals.update(mk(G))
        q = dict(vals) if where == "obj" else {}
        if phase and where == "obj":
            q["start_phase"] = phase
        return q
    G = Gen(rng, ty, params)
    args = dict(vals)
    if phase or gen.chance(rng, .3):
        if not phase and where != "obj" and gen.chance(rng, .6):
            G.g.start_phase = 2.5        # what is passed counts, also when it is 0
        args["start_phase"] = phase
    if where == "init":
        G.g.init_pulse(**args)
        p = G.g.gen_pulse()
    elif where == "gen":
        mon.count("by_args")
        p = G.g.gen_pulse(**args)
    else:
        p = G.g.gen_pulse()

    def freq_of(v):
        if v.get("num_waves") is not None:
            return v["num_waves"] / G.T
        if v.get("wavelen") is not None:
            return 1 / v["wavelen"]
        return v.get("freq", 1.0)
    what = "%s %s via %s/%s" % (ty, drive, G.route, where)
    f = freq_of(vals)
    ph = phase
    for rep in range(3):
        if not sane(mon, G, p, what):
            return
        judge_wave(mon, G, p, f, ph, what)
        g = G.g
        mon.close(float(g.freq), f, "freq", what + ": frequency attribute", 2e-6, 1e-9)
        mon.close(float(g.wavelen) * float(g.freq), 1.0, "wavelen", what + ": wavelength times frequency", 2e-6, 1e-9)
        mon.close(float(g.num_waves), f * G.T, "num_waves", what + ": number of waves", 2e-6, 1e-9)
        mon.close(float(g.start_phase), ph, "start_phase", what + ": start phase", 1e-12, 1e-12)
        if rep == 0:
            p2 = g.gen_pulse()
            mon.check(np.array_equal(p, p2), "repeat", "%s: regenerating gives another pulse" % what)
        if rep == 2:
            break
        # re-parametrise the same object
        key = gen.pick(rng, ["num_waves", "wavelen", "freq", "start_phase"])
        how = gen.pick(rng, ["init", "gen"])
        v = float(rng.uniform(.3, 3)) * (G.T if key == "wavelen" else 1)
        kw = {key: v}
        if key == "start_phase":
            ph = kw[key] = gen.pick(rng, [v, v, 0.0, 0])
        else:
            f = freq_of(kw)
            if gen.chance(rng, .3):
                ph = kw["start_phase"] = float(rng.uniform(0, 6))
        if how == "init":
            g.init_pulse(**kw)
            p = g.gen_pulse()
        else:
            mon.count("by_args")
            p = g.gen_pulse(**kw)
        what += ", then %s by %s" % (key, how)
    mon.check(G.g.periodic is True and G.g.random is False, "kind_flags", "%s: periodic/random flags" % what)
    mon.sig(ty, G.route, G.way, where, drive)


def linear(mon, rng):
    style = gen.pick(rng, ["default", "ends", "start_grad", "grad", "start", "end", "all", "end_grad"])
    where = gen.pick(rng, ["obj", "init", "gen"])
    a, b = float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2))
    g_ = float(rng.uniform(-2, 2))
    if gen.chance(rng, .25):
        a, b, g_ = gen.pick(rng, [(0.0, b, g_), (a, 0, 0.0), (0, 0, g_)])
    vals = {"default": {}, "ends": dict(start_val=a, end_val=b), "start_grad": dict(start_val=a, gradient=g_), "grad": dict(gradient=g_),
            "start": dict(start_val=a), "end": dict(end_val=b), "all": dict(start_val=a, end_val=b, gradient=g_),
            "end_grad": dict(end_val=b, gradient=g_)}[style]
    if "gradient" in vals and where == "obj":
        style += "_p"

    def params(G):
        if where != "obj":
            return {}
        q = dict(vals)
        if "gradient" in q and "end_val" not in q and G.way == "attrs":
            q["end_val"] = None          # the documented end point would take precedence
        return q
    G = Gen(rng, "LIN", params)
    if where == "init":
        G.g.init_pulse(**vals)
        p = G.g.gen_pulse()
    elif where == "gen":
        mon.count("by_args")
        p = G.g.gen_pulse(**vals)
    else:
        p = G.g.gen_pulse()
    what = "LIN %s via %s/%s" % (style, G.route, where)
    start, end, grad = vals.get("start_val", -1.0), vals.get("end_val", 1.0), vals.get("gradient")
    if "end_val" in vals:
        grad = None          # documented to follow from the start and end point

    def judge(p, start, end, grad, what):
        if not sane(mon, G, p, what):
            return False
        if grad is None:
            if G.n == 1:
                line = np.array([start])
            else:
                grad = (end - start) / G.t[-1]
                line = start + grad * G.t
        else:
            line = start + grad * G.t
        mon.close(p, G.s * line + G.o, "linear", what, 3e-6 if not G.exact else 1e-9, 3e-6 if not G.exact else 1e-9)
        if G.n > 1:
            mon.close(float(G.g.gradient), grad, "gradient", what + ": gradient attribute", 1e-5, 1e-9 if G.exact else 1e-6)
        return True
    if not judge(p, start, end, grad, what):
        return
    mon.check(np.array_equal(p, G.g.gen_pulse()), "repeat", "%s: regenerating gives another pulse" % what)
    if gen.chance(rng, .5):
        # new line on the same object
        k = gen.pick(rng, ["ends", "start", "gradient"])
        if gen.chance(rng, .2):
            a, b, g_ = -1, 1, -.5        # zeros below
        if k == "ends":
            start, end, grad = a + 1, b - 1, None
            p = G.g.gen_pulse(start_val=start, end_val=end)
        elif k == "start":
            start = a - .7
            p = G.g.gen_pulse(start_val=start)
        else:
            grad, end = g_ + .5, None
            p = G.g.gen_pulse(gradient=grad)
        judge(p, start, end, grad, what + ", then " + k)
    mon.sig("LIN", G.route, G.way, where, style)


def shaped(mon, rng, ty):
    if ty == "ZERO":
        G = Gen(rng, ty, {})
        p = G.g.gen_pulse()
        if sane(mon, G, p, "ZERO"):
            mon.close(p, np.full(G.n, G.o), "zero", "ZERO via %s" % G.route, 1e-12, 1e-12)
            mon.check(np.array_equal(p, G.g.gen_pulse()), "repeat", "ZERO: regenerating")
        mon.sig(ty, G.route, G.way)
        return
    vals, where = {}, gen.pick(rng, ["obj", "gen", "default"])

    def params(G):
        if ty == "GAUSSIAN":
            if gen.chance(rng, .7):
                vals["mean"] = gen.pick(rng, [0.0, 0, float(rng.uniform(0, 1)) * G.T, G.T])
            if gen.chance(rng, .7):
                vals["variance"] = float(rng.uniform(.01, 1)) * G.T
        else:
            if gen.chance(rng, .8):
                vals["decay_time"] = float(rng.uniform(.01, .5)) * G.T
        return dict(vals) if where == "obj" else {}
    G = Gen(rng, ty, params)
    if where == "default":
        vals.clear()
    stale = G.route == "attr"       # defaults derived from the pulse time at creation
    args = vals if where == "gen" else {}
    p = G.g.gen_pulse(**args)
    what = "%s via %s/%s %s" % (ty, G.route, where, sorted(vals))
    if not sane(mon, G, p, what):
        return
    T0 = 1.0 if stale else G.T
    if ty == "GAUSSIAN":
        m, v = vals.get("mean", .5 * T0), vals.get("variance", .5 * T0)
        y = np.exp(-(G.t - m) ** 2 / (2 * v))
    else:
        d = vals.get("decay_time", T0 / 10)
        y = 1 - np.exp(-G.t ** 2 / d) - np.exp(-(G.t - G.T) ** 2 / d)
    mon.close(p, G.s * y + G.o, "shape:" + ty, what, 1e-5 if not G.exact else 1e-9, 1e-5 if not G.exact else 1e-9)
    mon.check(np.array_equal(p, G.g.gen_pulse(**args)), "repeat", "%s: regenerating gives another pulse" % what)
    if args:
        mon.count("by_args")
    mon.sig(ty, G.route, G.way, where, *sorted(vals))


def band(mon, G, v, lams, amp, what, key):
    """v must be a sum of one phase-shifted sine per wavelength, amplitude at most amp."""
    M = np.concatenate([np.stack([np.sin(2 * np.pi * G.t / l), np.cos(2 * np.pi * G.t / l)]) for l in lams]).T
    if M.shape[0] < 2 * M.shape[1] or np.linalg.cond(M) > 1e6:
        return
    mon.count("band_checked")
    c, _, _, _ = np.linalg.lstsq(M, v, rcond=None)
    mon.check(np.abs(M @ c - v).max() <= 1e-4 * (G.s + 1), key, lambda: "%s: pulse is not a sum of the %d documented wavelengths (residual %.3g)" % (
        what, len(lams), np.abs(M @ c - v).max()))
    c = c.reshape(-1, 2)
    a = np.hypot(c[:, 0], c[:, 1])
    mon.check(a.max() <= amp * (1 + 1e-3) + 1e-3, key + "_amp", lambda: "%s: component amplitude %.4g above %.4g" % (what, a.max(), amp))


def rnd(mon, rng, ty):
    mon.count("random_pulses")
    vals, where = {}, gen.pick(rng, ["obj", "obj", "gen", "default"])

    def params(G):
        if ty == "RNDFOURIER":
            vals["min_wavelen"] = float(rng.uniform(.05, 1)) * G.T
        elif ty == "RNDWAVES":
            lo = float(rng.uniform(.05, .9)) * G.T
            vals.update(min_wavelen=lo, max_wavelen=lo + float(rng.uniform(.01, 2)) * G.T, num_comp_waves=gen.pick(rng, [1, 1, 2, 7, 20]))
        elif ty == "RNDWALK1":
            vals["max_d_amp"] = float(rng.uniform(.01, 1))
        elif ty == "RNDWALK2":
            vals["max_d2_amp"] = float(rng.uniform(.001, .3))
        return dict(vals) if where == "obj" else {}
    G = Gen(rng, ty, params, n_ts=gen.pick(rng, [None, 60, 120]), equal=gen.pick(rng, [None, True]))
    if where == "default":
        vals.clear()
    args = vals if where == "gen" else {}
    seed = int(rng.integers(2 ** 31))
    T0 = 1.0 if G.route == "attr" else G.T
    what = "%s via %s/%s %s" % (ty, G.route, where, vals)
    np.random.seed(seed)
    first = G.g.gen_pulse(**args)
    if not sane(mon, G, first, what):
        return
    ps = [first] + [G.g.gen_pulse() for _ in range(24)]
    np.random.seed(seed)
    mon.check(np.array_equal(first, G.g.gen_pulse()), "seed", "%s: same random seed gives another pulse" % what)
    mon.check(not np.array_equal(ps[0], ps[1]), "not_random", "%s: two pulses in a row are equal" % what)
    for p in ps[1:]:
        if not sane(mon, G, p, what):
            return
    V = (np.array(ps) - G.o)
    s = G.s
    eps = 1e-6 * (s + abs(G.o)) + 1e-9
    one = {k: float(x) for k, x in vals.items()}
    if ty == "RND":
        mon.check(np.abs(V).max() <= s + eps, "rnd_range", lambda: "%s: value %.4g beyond scaling %.4g" % (what, np.abs(V).max(), s))
        mon.check(V.max() > .3 * s and V.min() < -.3 * s, "rnd_spread", lambda: "%s: %d values only span %.3g..%.3g of scaling %.3g" % (what, V.size, V.min(), V.max(), s)) if V.size >= 25 else None
        if V.size > 800:
            mon.check(V.max() > .9 * s and V.min() < -.9 * s and abs(V.mean()) < .2 * s, "rnd_spread", lambda: "%s: %d values span %.3g..%.3g, mean %.3g" % (what, V.size, V.min(), V.max(), V.mean()))
            mon.check(abs(np.mean(V[:, 1:] * V[:, :-1])) < .1 * s * s if G.n > 10 else True, "rnd_indep", "%s: neighbouring timeslots are correlated" % what)
    elif ty in ("RNDWALK1", "RNDWALK2"):
        mon.check(np.abs(V[:, 0]).max() <= s + eps, "walk_start", lambda: "%s: start %.4g beyond scaling %.4g" % (what, np.abs(V[:, 0]).max(), s))
        mon.check(V[:, 0].max() > .05 * s and V[:, 0].min() < -.05 * s, "walk_start_spread", lambda: "%s: 25 starts span only %.3g..%.3g of scaling %.3g" % (what, V[:, 0].min(), V[:, 0].max(), s))
        d = np.diff(V, axis=1)
        if ty == "RNDWALK1":
            lim = one.get("max_d_amp", .1) * s
        else:
            lim = one.get("max_d2_amp", .01) * s
            d = np.diff(np.concatenate([np.zeros((len(V), 1)), d], axis=1), axis=1) if d.size else d    # gradient starts at 0
        if d.size:
            mon.check(np.abs(d).max() <= lim + eps, "walk_step", lambda: "%s: step %.5g beyond %.5g" % (what, np.abs(d).max(), lim))
            if d.size >= 100:
                mon.check(d.max() > .7 * lim and d.min() < -.7 * lim, "walk_step_spread", lambda: "%s: %d steps span %.3g..%.3g of %.3g" % (what, d.size, d.min(), d.max(), lim))
                mon.check(len(np.unique(d.round(12))) > d.size // 4, "walk_step_distinct", "%s: steps repeat" % what)
    else:
        mon.check(np.abs(V).max() <= S8 * s + eps, "waves_range", lambda: "%s: value %.4g beyond %.4g" % (what, np.abs(V).max(), S8 * s))
        lo = one.get("min_wavelen", T0 / 10)
        slope = S8 * s * 2 * np.pi / lo
        if G.n > 1:
            dd = np.abs(np.diff(V, axis=1)) / G.tau[:-1]
            mon.check(dd.max() <= slope * (1 + 1e-4) + 1e-4, "waves_slope", lambda: "%s: slope %.4g, the shortest wave allows %.4g" % (what, dd.max(), slope))
        if ty == "RNDFOURIER":
            lams, l = [], 2 * G.T
            while l > lo * (1 + 1e-5):
                lams.append(l)
                l /= 2
            if abs(l - lo) > 1e-4 * lo and lams:
                for v in V[:4]:
                    band(mon, G, v, lams, S8 * s / len(lams), what, "fourier_band")
        else:
            hi, n = one.get("max_wavelen", 2 * T0), int(one.get("num_comp_waves", 20))
            # integral of any sine of wavelength l is at most l/pi
            if G.n > 1:
                m = np.abs(V @ G.tau).max()
                err = slope * (G.tau ** 2).sum() / 2
                mon.check(m <= S8 * s * hi / np.pi + err + eps * G.T, "waves_long", lambda: "%s: mean %.4g not explained by the longest wave" % (what, m))
            dt = G.tau[0]
            if n == 1 and G.n >= 8 and np.allclose(G.tau, dt) and lo > 2.5 * dt:
                mon.count("single_wave")
                for v in V[:6]:
                    A, B = v[1:-1] * 2, v[2:] + v[:-2]
                    if np.abs(A).max() < 1e-2 * s:
                        continue
                    c = float(A @ B / (A @ A))
                    mon.check(np.abs(A * c - B).max() <= 2e-4 * (s + 1), "single_wave", "%s: one component wave, but the pulse is not a sine" % what)
                    if abs(c) < 1 - 1e-6:
                        lam = 2 * np.pi * dt / np.arccos(c)
                        slack = 1e-3 + 1e-4 / np.sqrt(1 - c * c)
                        mon.check(lo * (1 - slack) <= lam <= hi * (1 + slack), "single_wave_len", lambda: "%s: component wavelength %.5g outside %.5g..%.5g" % (what, lam, lo, hi))
    mon.check(G.g.random is True and G.g.periodic is False, "kind_flags", "%s: periodic/random flags" % what)
    mon.sig(ty, G.route, G.way, where, G.n)


def jumps(mon, rng):
    """Square and saw waves at their jumps, on grids on which the phase is exact:
    a slot holds the value of the half period that begins with it."""
    ty = gen.pick(rng, ["SQUARE", "SAW"])
    freq = 2.0 ** int(rng.integers(-3, 4))
    # phases that are powers of two are exact however they are computed
    n = int(gen.pick(rng, [4, 8, 16, 32]))
    step = 2.0 ** int(rng.integers(-3, 0)) / freq
    tau = np.full(n, step)
    if gen.chance(rng, .5):
        for k in rng.choice(n, n // 3, replace=False):
            tau[k] *= 2
    s = gen.pick(rng, [1.0, 2.0, float(rng.uniform(.1, 3))])
    g = pg.create_pulse_gen(ty, pulse_params=dict(tau=tau, scaling=s))
    p = np.asarray(g.gen_pulse(freq=freq)) / s
    x = np.concatenate([[0.0], np.cumsum(tau)])[:-1] * freq
    at = np.isin(x, 2.0 ** np.arange(-1, 12)) | (x == 0)
    mon.count("jumps", int(at.sum()))
    mon.close(p[at], wave(ty, x[at]), "jump:" + ty, "%s: values at the jumps %s" % (ty, x[at]), 1e-9, 1e-9)
    mon.sig("jumps", ty, n, freq)


def refused(mon, rng):
    g = pg.create_pulse_gen(gen.pick(rng, ["RNDFOURIER", "RNDWAVES"]), pulse_params=dict(num_tslots=10, pulse_time=2.0))
    mon.raises(lambda: g.gen_pulse(min_wavelen=2.5), "min_wavelen", "minimum wavelength above the pulse time", (ValueError,))
    w = pg.create_pulse_gen("RNDWAVES", pulse_params=dict(num_tslots=10, pulse_time=2.0))
    mon.raises(lambda: w.gen_pulse(min_wavelen=1.0, max_wavelen=float(gen.pick(rng, [.5, 1.0]))), "max_wavelen", "maximum wavelength not above the minimum", (ValueError,))


def case(mon, rng, idx, tier):
    for _ in range(2):
        ty = gen.pick(rng, list(ALL) + ["LIN", "RNDWAVES"])
        mon.note(type=ty)
        if ty in PERIODIC:
            periodic(mon, rng, ty)
        elif ty == "LIN":
            linear(mon, rng)
        elif ty in OTHER:
            shaped(mon, rng, ty)
        else:
            rnd(mon, rng, ty)
    if idx % 10 == 5:
        jumps(mon, rng)
    if idx % 20 == 0:
        refused(mon, rng)
