"""C18: CRAB pulses are the documented function of their parameters."""
import numpy as np
from .. import gen, build, runs, instr
from ..runs import Run
import qutip_qtrl.pulsegen as pg

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every CRAB pulse (stand-alone and at each evaluation of whole runs) compared online with an independent expansion of the parameter vector"
CASES = {"quick": 5000, "thorough": 60000}
NEED = {"pulses": 3000, "run_evals": 2000, "runs": 200, "later_runs": 100, "multi_ctrl": 100, "free_freq": 300, "guess": 500, "ramp": 300, "bounded": 500, "reinit": 100, "estimated": 100}
RULE = ("stand-alone CRAB generators over sizes, frequency options, guess pulses and actions, ramping and bounds, fed random coefficient "
        "vectors; and whole CRAB runs whose every evaluated amplitude array is re-derived from the parameter vector given by the method; "
        "distinct = (mode, frequencies fixed, action, ramping, bound form, number of coefficients)")
ASSUMPTIONS = ["one-sided bounds squeeze the part of the pulse beyond the reference level with tanh, as the code documents"]


def squeeze(v, lb, ub, scaling, nc, guess):
    lb = None if lb is None or np.isinf(lb) else lb
    ub = None if ub is None or np.isinf(ub) else ub
    if lb is None and ub is None:
        return v
    if lb is not None and ub is not None:
        return np.tanh(v) * (ub - lb) / 2 + (ub + lb) / 2
    gs = 0.0
    if guess is not None:
        gs = max(guess.max() - guess.min(), guess.max())
    big = scaling * nc + gs
    if lb is None:
        scale, mean = (ub, 0.0) if ub > 0 else (big, ub - abs(big))
        return np.where(v > mean, np.tanh(v) * scale + mean, v)
    scale, mean = (abs(lb), 0.0) if lb < 0 else (big, lb + abs(big))
    return np.where(v < mean, np.tanh(v) * scale + mean, v)


def expand(x, nc, fixed, freqs, t, guess, action, ramp, lb, ub, scaling):
    c = np.asarray(x, float).reshape(nc, 2 if fixed else 3)
    v = np.zeros(len(t))
    for i in range(nc):
        f = freqs[i] if fixed else c[i, 2]
        v = v + c[i, 0] * np.sin(f * t) + c[i, 1] * np.cos(f * t)
    if guess is not None:
        if action in (None, "MODULATE"):
            v = (1 + v) * guess
        elif action == "ADD":
            v = v + guess
    if ramp is not None:
        v = v * ramp
    return squeeze(v, lb, ub, scaling, nc, guess)


def slope(x, nc, fixed, freqs, guess):
    c = np.abs(np.asarray(x, float).reshape(nc, -1))
    f = np.abs(freqs) if fixed else c[:, 2]
    return float(((c[:, 0] + c[:, 1]) * f).sum()) * (1 + (0 if guess is None else np.abs(guess).max()))


def compare(mon, got, want, alt, key, what, tol):
    """One-sided squeezing is discontinuous at its reference level: accept either branch within time resolution."""
    got = np.asarray(got)
    if got.shape != want.shape:
        return mon.fail(key, "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    d = np.abs(got - want)
    for a in alt:
        d = np.minimum(d, np.abs(got - a))
    mon.count("oracle_checks")
    if not np.all(np.isfinite(got)) or d.max() > tol:
        i = int(np.argmax(d))
        mon.fail(key, "%s: pulse[%d] is %.8g, expected %.8g (%d of %d values differ)" % (what, i, got.flat[i], want.flat[i], int((d > tol).sum()), d.size))


def inside(mon, v, lb, ub, what):
    e = 1e-9 * max(1, abs(lb or 0) if lb not in (None, -np.inf) else 1, abs(ub or 0) if ub not in (None, np.inf) else 1)
    mon.check((lb is None or v.min() >= lb - e) and (ub is None or v.max() <= ub + e), "bounds",
              lambda: "%s: pulse %.6g..%.6g outside (%s, %s)" % (what, v.min(), v.max(), lb, ub))


def alone(mon, rng):
    fixed = gen.chance(rng, .6)
    nc = gen.pick(rng, [None, 1, 2, 3, 5])
    n = int(gen.pick(rng, [1, 2, 5, 20]))
    exact, dyn, N = True, None, None
    pre = {}
    route = gen.pick(rng, ["num", "tau", "dyn"])
    T = float(rng.uniform(.3, 8))
    if route == "num":
        tau = np.ones(n) * T / n
        pre.update(num_tslots=n, pulse_time=T)
        exact = False
    elif route == "tau":
        tau = gen.taus(rng, n, total=T)
        pre["tau"] = tau.copy()
    else:
        p = gen.problem(rng, n_ts=n, max_ctrls=1, td=False)
        dyn = build.optim(p, **({"fid_type": "TRACEDIFF"} if p.kind != "UNIT" else {})).dynamics
        tau, T, N = p.tau, float(np.sum(p.tau)), p.N
    t = np.concatenate([[0.], np.cumsum(tau)])[:-1]
    sc = gen.pick(rng, [None, float(rng.uniform(.1, 3)), float(rng.uniform(.1, 3)), -float(rng.uniform(.1, 3))])
    if sc is not None:
        pre["scaling"] = sc
    s = 1.0 if sc is None else sc
    rf, rc = gen.chance(rng, .5), gen.chance(rng, .6)
    if not rf:
        pre["randomize_freqs"] = False
    if not rc:
        pre["randomize_coeffs"] = False
    guess = action = ramp = None
    if gen.chance(rng, .5):
        guess = rng.normal(size=n) * 2
        action = gen.pick(rng, [None, "ADD", "MODULATE", "add", "Modulate", "SOMETHING"])
        mon.count("guess")
    if gen.chance(rng, .35):
        ramp = rng.uniform(0, 1, size=n)
        mon.count("ramp")
    lb = ub = None
    form = "none"
    if gen.chance(rng, .6):
        mon.count("bounded")
        form = gen.pick(rng, ["both", "lower", "upper", "inf", "lower_pos", "upper_neg", "infl", "upper0", "lower0"])
        x, y = float(rng.uniform(.1, 2)), float(rng.uniform(.1, 2))
        lb, ub = {"both": (-x, y), "lower": (-x, None), "upper": (None, x), "inf": (-np.inf, y), "lower_pos": (x, None),
                  "upper_neg": (None, -x), "infl": (-x, np.inf), "upper0": (None, 0.0), "lower0": (0, None)}[form]
    kw = {} if fixed and gen.chance(rng, .5) else {"fix_freqs": fixed}
    if gen.chance(rng, .8) or not fixed:
        g = pg.PulseGenCrabFourier(dyn, num_coeffs=nc, params=pre or None, **kw)
    else:
        g = pg.create_pulse_gen("CRAB_FOURIER", dyn, pulse_params=dict(pre, num_coeffs=nc) if nc else dict(pre))
    if lb is not None or ub is not None:
        g.lbound, g.ubound = lb, ub
    if guess is not None:
        g.guess_pulse = guess.copy()
        if action:
            g.guess_pulse_action = action
    if ramp is not None:
        g.ramping_pulse = ramp.copy()
    want_nc = nc or (max(2, N - 1) if dyn is not None else 4)
    if nc is None and dyn is not None:
        mon.count("estimated")
    nb = 2 if fixed else 3
    init = gen.pick(rng, ["auto", "init", "coeffs", "num"])
    x0 = None
    if init == "init":
        g.init_pulse()
    elif init == "coeffs":
        x0 = rng.normal(size=want_nc * nb)
        if gen.chance(rng, .5):
            x0 = x0.reshape(want_nc, nb)
        g.init_pulse(init_coeffs=x0.copy())
    elif init == "num":
        want_nc = int(rng.integers(1, 5))
        g.init_pulse(num_coeffs=want_nc)
    else:
        g.gen_pulse()
    what = "CRAB (fixed frequencies %s, coefficients %s, guess %s, ramp %s, bounds %s, %s/%s)" % (fixed, nc, action if guess is not None else None, ramp is not None, form, route, init)
    act = "ignored" if action == "SOMETHING" else action.upper() if action else None
    ok = mon.check(g.num_coeffs == want_nc, "num_coeffs", lambda: "%s: %s coefficients, expected %s" % (what, g.num_coeffs, want_nc))
    ok &= mon.check(g.num_optim_vars == want_nc * nb, "num_optim_vars", lambda: "%s: %s variables, expected %s" % (what, g.num_optim_vars, want_nc * nb))
    if not ok:
        return
    x = np.asarray(g.get_optim_var_vals(), float)
    if not mon.check(x.shape == (want_nc * nb,), "var_shape", lambda: "%s: variables of shape %s" % (what, x.shape)):
        return
    if x0 is not None:
        mon.close(x, np.ravel(x0), "init_coeffs", what + ": given initial coefficients", 1e-12, 1e-12)
    elif not rc:
        mon.close(x, np.full(want_nc * nb, s), "equal_coeffs", what + ": coefficients without randomisation", 1e-12, 1e-12)
    else:
        mon.check(np.abs(x).max() <= abs(s) * (1 + 1e-12), "coeff_range", lambda: "%s: coefficient %.4g beyond scaling %.4g" % (what, np.abs(x).max(), s))
        if len(x) >= 2:
            mon.check(len(np.unique(x)) > 1, "coeff_random", "%s: random coefficients are all equal" % what)
        big = []
        for _ in range(12):
            g.init_coeffs()
            big.append(np.asarray(g.get_optim_var_vals()))
        g.set_optim_var_vals(x.copy())
        big = np.concatenate(big)
        if big.size >= 24:
            mon.check(big.max() > .2 * abs(s) and big.min() < -.2 * abs(s) and np.abs(big).max() <= abs(s) * (1 + 1e-12), "coeff_spread",
                      lambda: "%s: %d random coefficients span %.3g..%.3g of scaling %.3g" % (what, big.size, big.min(), big.max(), s))
    freqs = np.array(g.freqs, float)
    if fixed:
        h = 2 * np.pi * np.arange(1, want_nc + 1) / T
        mon.check(freqs.shape == h.shape and np.all(np.abs(freqs - h) <= (.5 if rf else 0) + 1e-6 * h), "freqs",
                  lambda: "%s: frequencies %s, harmonics %s" % (what, freqs, h))
        if rf:
            off = freqs - h
            for _ in range(8):
                g.init_freqs()
                off = np.concatenate([off, np.array(g.freqs) - h])
            mon.check(np.abs(off).max() <= .5 + 1e-6 * h.max() and len(np.unique(off.round(9))) > len(off) // 2, "freq_random", lambda: "%s: frequency offsets %s" % (what, off[:6]))
            freqs = np.array(g.freqs, float)
    else:
        mon.count("free_freq")
    terr = 1e-9 if exact else 3e-7 * T

    def judge(x, pulse, step):
        mon.count("pulses")
        terr = 1e-9 if exact else 3e-7 * T
        v = np.asarray(pulse)
        base = dict(nc=want_nc, fixed=fixed, freqs=freqs, guess=guess, action=act, ramp=ramp, lb=lb, ub=ub, scaling=s)
        want = expand(x, t=t, **base)
        alts = [expand(x, t=t + d, **base) for d in (-terr, terr)]
        sl = slope(x, want_nc, fixed, freqs, guess)
        compare(mon, v, want, alts, "pulse", "%s, %s" % (what, step), 1e-8 + 3 * terr * sl * (1 + (0 if form == "none" else 3)))
        if v.shape == (n,) and np.all(np.isfinite(v)):
            inside(mon, v, lb, ub, what)
    judge(x, g.gen_pulse(), "initial coefficients")
    for step in range(3):
        y = rng.normal(size=want_nc * nb) * gen.pick(rng, [.3, 1, 4])
        how = gen.pick(rng, ["set", "arg", "arg2d", "list"])
        given = y.copy()
        if how == "set":
            g.set_optim_var_vals(given)
            pulse = g.gen_pulse()
        elif how == "list":
            g.set_optim_var_vals(list(y))
            pulse = g.gen_pulse()
        else:
            pulse = g.gen_pulse(coeffs=given.reshape(want_nc, nb) if how == "arg2d" else given)
        judge(y, pulse, "coefficients by " + how)
        mon.close(np.asarray(g.get_optim_var_vals(), float), y, "roundtrip", what + ": parameters read back", 1e-12, 1e-12)
        mon.check(np.array_equal(given, y), "args_changed", "%s: coefficients passed were modified" % what)
        mon.check(np.array_equal(np.asarray(pulse), np.asarray(g.gen_pulse())), "repeat", "%s: regenerating gives another pulse" % what)
    if gen.chance(rng, .4):
        # initialised again, with other settings
        mon.count("reinit")
        if guess is not None:
            if gen.chance(rng, .4):
                g.guess_pulse_action = gen.pick(rng, ["ADD", "MODULATE", "SOMETHING", "", None])
                act = {"SOMETHING": "ignored", "": "ignored", None: "ignored"}.get(g.guess_pulse_action, g.guess_pulse_action)
            if gen.chance(rng, .4):
                guess = rng.normal(size=n)
                g.guess_pulse = guess.copy()
        if gen.chance(rng, .4):
            form = gen.pick(rng, ["none", "both", "lower", "upper", "lower_pos", "upper_neg"])
            x, y = float(rng.uniform(.1, 2)), float(rng.uniform(.1, 2))
            lb, ub = {"none": (None, None), "both": (-x, y), "lower": (-x, None), "upper": (None, x), "lower_pos": (x, None), "upper_neg": (None, -x)}[form]
            g.lbound, g.ubound = lb, ub
        if gen.chance(rng, .3):
            s = float(rng.uniform(.1, 3))
            g.scaling = s
        if gen.chance(rng, .3):
            rc = not rc
            g.randomize_coeffs = rc
        if gen.chance(rng, .3):
            ramp = None if ramp is not None else rng.uniform(0, 1, size=n)
            g.ramping_pulse = None if ramp is None else ramp.copy()
        before = np.array(g.get_optim_var_vals(), float)
        if gen.chance(rng, .4):
            want_nc = int(rng.integers(1, 6))
            g.init_pulse(num_coeffs=want_nc)
        else:
            g.init_pulse()
        x = np.asarray(g.get_optim_var_vals(), float)
        if not mon.check(x.shape == (want_nc * nb,), "reinit_shape", lambda: "%s, initialised again: variables of shape %s" % (what, x.shape)):
            return
        if rc:
            mon.check(np.abs(x).max() <= abs(s) * (1 + 1e-12) and not (x.shape == before.shape and np.array_equal(x, before)), "reinit_coeffs", lambda: "%s: coefficients %s after initialising again (scaling %g), before %s" % (what, x[:4], s, before[:4]))
        else:
            mon.close(x, np.full(want_nc * nb, s), "reinit_equal", what + ": coefficients without randomisation", 1e-12, 1e-12)
        freqs = np.array(g.freqs, float)
        judge(x, g.gen_pulse(), "initialised again")
        y = rng.normal(size=want_nc * nb)
        g.set_optim_var_vals(y.copy())
        judge(y, g.gen_pulse(), "initialised again, coefficients set")
    if guess is not None:
        mon.check(np.array_equal(g.guess_pulse, guess), "guess_changed", "%s: guess pulse was modified" % what)
    if ramp is not None:
        mon.check(np.array_equal(g.ramping_pulse, ramp), "ramp_changed", "%s: ramping pulse was modified" % what)
    mon.sig("alone", fixed, act, ramp is not None, form, want_nc, route)


def whole(mon, rng):
    sp = runs.spec(rng, alg="CRAB", max_ctrls=3, limits=gen.chance(rng, .5))
    kw = sp.kw
    kw["max_iter"] = int(rng.integers(1, 25))
    ap = dict(kw.get("alg_params", {}))
    if gen.chance(rng, .3):
        ap["crab_pulse_params"] = gen.pick(rng, [{"randomize_freqs": False}, {"randomize_coeffs": False}, {"randomize_freqs": False, "randomize_coeffs": False},
                                                 {"scaling": .7}, {"num_coeffs": 2}])
    if gen.chance(rng, .08):
        ap["init_coeff_scaling"] = 0.0          # starts from the guess pulse alone
    if ap:
        kw["alg_params"] = ap
    if gen.chance(rng, .3):
        kw["ramping_pulse_type"] = "GAUSSIAN_EDGE"
        if gen.chance(rng, .5):
            kw["ramping_pulse_params"] = {"decay_time": float(rng.uniform(.05, 1))}
    if gen.chance(rng, .3):
        kw["init_pulse_type"] = gen.pick(rng, ["SINE", "GAUSSIAN", "RND", "SAW"])
        kw["init_pulse_params"] = gen.pick(rng, [None, {"pulse_action": "ADD"}, {"pulse_action": "MODULATE"}, {"pulse_action": "ADD", "scaling": .5}])
        kw["pulse_scaling"] = float(rng.uniform(.2, 2))
        if gen.chance(rng, .5):
            kw["pulse_offset"] = float(rng.uniform(-.5, .5))
    mon.note(**sp.describe())
    nc_each = None
    run = Run(sp, clock_step=0.0)
    if gen.chance(rng, .25) and sp.p.n_ctrls > 1:
        # a different number of coefficients for each control
        nc_each = [int(rng.integers(1, 4)) for _ in range(sp.p.n_ctrls)]
        sp.route = "steps"
        create = run.create

        def create2():
            o = create()
            for g, k in zip(o.pulse_generator, nc_each):
                g.num_coeffs = k
            return o
        run.create = create2
    run.go()
    if run.exc is not None:
        if run.diverged():
            return mon.count("diverged")
        with mon.guard("run", "CRAB optimisation"):
            raise run.exc
        return
    mon.count("runs")
    o, d, p = run.optim, run.optim.dynamics, sp.p
    if p.n_ctrls > 1:
        mon.count("multi_ctrl")
    t = np.concatenate([[0.], np.cumsum(p.tau)])[:-1]
    T = float(np.sum(p.tau))
    cpp = ap.get("crab_pulse_params", {})
    fixed = ap.get("fix_frequency", True)
    gens = o.pulse_generator
    if not mon.check(len(gens) == p.n_ctrls, "gen_count", "%d generators for %d controls" % (len(gens), p.n_ctrls)):
        return
    s = cpp.get("scaling", ap.get("init_coeff_scaling", 1.0))
    dn = cpp.get("num_coeffs", ap.get("num_coeffs")) or max(2, p.N - 1)
    nc = nc_each or [dn] * p.n_ctrls
    ramp = None
    if kw.get("ramping_pulse_type"):
        td = (kw.get("ramping_pulse_params") or {}).get("decay_time", T / 10)
        ramp = 1 - np.exp(-t ** 2 / td) - np.exp(-(t - T) ** 2 / td)
    ty = kw.get("init_pulse_type")
    act = (kw.get("init_pulse_params") or {}).get("pulse_action")
    blocks, i = [], 0
    nb = 2 if fixed else 3
    for j in range(p.n_ctrls):
        blocks.append((i, i + nc[j] * nb))
        i += nc[j] * nb
    lbs = [runs.bound_of(kw.get("amp_lbound"), j) for j in range(p.n_ctrls)]
    ubs = [runs.bound_of(kw.get("amp_ubound"), j) for j in range(p.n_ctrls)]
    guesses = []
    for j, g in enumerate(gens):
        if g.num_coeffs != nc[j]:
            mon.fail("run_num_coeffs", "control %d has %s coefficients, expected %s" % (j, g.num_coeffs, nc[j]))
            return
        h = 2 * np.pi * np.arange(1, nc[j] + 1) / T
        lim = 0 if cpp.get("randomize_freqs") is False else .5
        if fixed:
            mon.check(np.all(np.abs(np.asarray(g.freqs) - h) <= lim + 1e-9 * h), "run_freqs", lambda: "control %d frequencies %s, harmonics %s" % (j, g.freqs, h))
        if not ty or ty == "DEF":
            guesses.append(None)
            continue
        gs, go = kw.get("pulse_scaling", 1.0), kw.get("pulse_offset", 0.0)
        if (kw.get("init_pulse_params") or {}).get("scaling") is not None:
            gs = kw["init_pulse_params"]["scaling"]
        if ty == "RND":
            G = np.asarray(g.guess_pulse, float)
        else:
            raw = {"SINE": np.sin(2 * np.pi * t), "GAUSSIAN": np.exp(-(t - T / 2) ** 2 / T), "SAW": 2 * (t - np.floor(t + .5)),
                   "SQUARE": np.where(t - np.floor(t) < .5, 1., -1.)}[ty] * gs
            G = raw + go
            lb, ub = lbs[j], ubs[j]
            if not ((lb is None or G.min() >= lb) and (ub is None or G.max() <= ub)):
                if lb is None:
                    G = raw + ub - raw.max()
                elif ub is None:
                    G = raw + lb - raw.min()
                else:
                    r = raw.max() - raw.min()
                    raw = raw * (ub - lb) / r if r > ub - lb else raw
                    G = raw + lb - raw.min()
            mon.close(np.asarray(g.guess_pulse, float), G, "run_guess", "guess pulse of control %d (%s)" % (j, ty), 1e-9, 1e-9) if ty not in ("SAW", "SQUARE") else None
            G = np.asarray(g.guess_pulse, float)
        guesses.append(G)

    def amps_of(x):
        return np.stack([expand(x[a:b], nc[j], fixed, gens[j].freqs, t, guesses[j], act, ramp, lbs[j], ubs[j], s) for j, (a, b) in enumerate(blocks)], axis=1)
    tot = blocks[-1][1]

    def judge(r):
        for e in r.log.of("f"):
            if not mon.check(e.x.shape == (tot,), "param_count", lambda: "%s parameters, expected %d" % (e.x.shape, tot)):
                return False
            mon.count("run_evals")
            want = amps_of(e.x)
            alts = [amps_of(e.x * (1 + q)) for q in (-1e-12, 1e-12)]
            compare(mon, e.amps, want, alts, "run_pulse", "amplitudes evaluated for parameters %s" % np.round(e.x[:4], 3), 1e-8 * (1 + np.abs(want).max()))
            for j in range(p.n_ctrls):
                inside(mon, e.amps[:, j], lbs[j], ubs[j], "control %d" % j)
        return True
    ev = run.log.of("f")
    if not judge(run):
        return
    if ev:
        x = ev[0].x
        if cpp.get("randomize_coeffs") is False:
            mon.close(x, np.full(tot, s), "run_equal_coeffs", "initial parameters without randomisation", 1e-12, 1e-12)
        else:
            mon.check(np.abs(x).max() <= s * (1 + 1e-9), "run_coeff_range", lambda: "initial parameter %.4g beyond scaling %.4g" % (np.abs(x).max(), s))
        mon.close(np.asarray(run.result.initial_amps), amps_of(x), "run_initial", "initial amplitudes of the result", 1e-8, 1e-8)
    # a further run, the amplitudes of the dynamics having been set to something
    # that is not a CRAB pulse meanwhile
    if gen.chance(rng, .4):
        foreign = rng.uniform(-1, 1, size=(p.n_ts, p.n_ctrls))
        how = gen.pick(rng, ["update", "init", "nothing", "params"])
        x = None
        if how == "params":
            x = rng.normal(size=tot) * .3
            if not fixed:
                for (a, b), c in zip(blocks, nc):
                    x[a + 2 * c:b] = 2 * np.pi * rng.uniform(.5, 3, size=c) / T

        def change(o):
            if how == "update":
                o.dynamics.update_ctrl_amps(foreign)
            elif how == "init":
                o.dynamics.initialize_controls(foreign)
            elif how == "params":
                for g, (a, b) in zip(gens, blocks):
                    g.set_optim_var_vals(x[a:b].copy())
        nxt = run.again(change)
        if nxt.exc is not None:
            if nxt.diverged():
                return mon.count("diverged")
            with mon.guard("rerun", "second CRAB optimisation"):
                raise nxt.exc
            return
        mon.count("later_runs")
        if judge(nxt) and x is not None and nxt.log.of("f"):
            mon.close(nxt.log.of("f")[0].x, x, "run_start", "parameters the run starts from", 1e-12, 1e-12)
    mon.sig("run", fixed, act, ramp is not None, bool(sp.bounded), tuple(nc), p.kind)


def case(mon, rng, idx, tier):
    if idx % 5 == 0:
        whole(mon, rng)
    else:
        alone(mon, rng)
