"""C19: the stand-alone GRAPE functions."""
import copy
import numpy as np
from scipy.linalg import expm
from scipy.interpolate import interp1d
from qutip import Qobj, QobjEvo
from .. import gen
import qutip_qtrl.grape as gr
import qutip_qtrl.cy_grape as cyg

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the control history returned by each call replayed step by step against an independent first-order gradient, plus twin calls of the two fixed-step implementations"
CASES = {"quick": 8000, "thorough": 120000}
NEED = {"calls": 400, "other_system": 300, "steps": 1500, "adaptive": 100, "limits": 80, "clipped": 30, "alpha": 80, "beta": 80, "interp": 80, "terminated": 10, "regressed": 5, "ladder": 1000,
        "small_steps": 50, "single_row": 10, "inner": 100}
RULE = ("random targets, Hamiltonians, controls, iteration counts, even time grids, step sizes, start pulses, limits, penalties, "
        "interpolation and phase sensitivity; distinct = (function, options present, size class)")
ASSUMPTIONS = ["time grids are evenly spaced"]


def ov(A, B):
    return np.vdot(A, B) / A.shape[0]


class Prob:
    def __init__(self, rng):
        self.dims, self.N = gen.pick(rng, [([[2], [2]], 2), ([[3], [3]], 3), ([[2, 2], [2, 2]], 4)])
        N = self.N
        fl = gen.pick(rng, ["random", "pauli", "zero"])
        self.H0 = np.zeros((N, N), complex) if fl == "zero" else gen.herm(rng, N)
        self.Hs = [gen.herm(rng, N) for _ in range(int(rng.integers(1, 4)))]
        if fl == "pauli" and N == 2:
            self.H0 = float(rng.uniform(.5, 2)) * gen.SZ
            self.Hs = [gen.SX, gen.SY][:len(self.Hs)]
        self.U = gen.haar(rng, N)
        self.M = int(rng.integers(2, 14))
        T = float(rng.uniform(.2, 4))
        self.times = np.linspace(0, T, self.M)
        if gen.chance(rng, .2):
            self.times = self.times.tolist()
        self.J = len(self.Hs)
        self.dt = T / (self.M - 1)
        self.T = T
        self.fmt = gen.pick(rng, ["Dense", "Dense", "CSR", "Dia"])

    def args(self):
        q = lambda a: Qobj(a.copy(), dims=self.dims) if self.fmt == 'Dense' else Qobj(a.copy(), dims=self.dims).to(self.fmt)
        return q(self.U), q(self.H0), [q(h) for h in self.Hs], copy.copy(self.times)

    def props(self, row):
        return [expm(-1j * self.dt * (self.H0 + sum(row[j, m] * self.Hs[j] for j in range(self.J)))) for m in range(self.M - 1)]

    def final(self, row):
        F = np.eye(self.N, dtype=complex)
        for u in self.props(row):
            F = u @ F
        return F

    def grad(self, row, sensitive, alpha, beta):
        """First-order gradient of the overlap (squared when phase insensitive) minus penalties, slots x controls."""
        M, J, dt = self.M, self.J, self.dt
        U = self.props(row)
        F = [np.eye(self.N, dtype=complex)]
        for u in U:
            F.append(u @ F[-1])
        B = [None] * (M - 1)          # remaining evolution after slot m
        X = np.eye(self.N, dtype=complex)
        for m in range(M - 2, -1, -1):
            B[m] = X
            X = X @ U[m]
        g = np.zeros((J, M - 1))
        o = ov(self.U, F[-1])
        for j in range(J):
            for m in range(M - 1):
                d = ov(self.U, B[m] @ (-1j * dt * self.Hs[j]) @ F[m + 1])
                g[j, m] = d.real if sensitive else 2 * (np.conj(o) * d).real
                g[j, m] -= 2 * (alpha or 0) * row[j, m] * dt + 2 * (beta or 0) * m ** 2 * row[j, m] * dt
        return g


def snap(args):
    U, H0, Hs, t = args
    return [U.full().copy(), H0.full().copy()] + [h.full().copy() for h in Hs] + [np.array(t, dtype=float)]


def hamiltonian(mon, P, res, row, interp, what, kind="linear"):
    """The returned time-dependent Hamiltonian describes the final controls."""
    H = res.H_t
    if not mon.check(isinstance(H, list) and len(H) == P.J + 1, "H_t_form", "%s: Hamiltonian has the wrong number of terms" % what):
        return
    h0 = H[0]
    mon.close(h0.full(), P.H0, "H_t", what + ": static term", 1e-12, 1e-12)
    t = np.asarray(P.times, float)
    for j in range(P.J):
        op, c = H[j + 1]
        mon.close(op.full(), P.Hs[j], "H_t", what + ": operator of control %d" % j, 1e-12, 1e-12)
        v = np.array([float(np.real(c(x))) for x in t]) if callable(c) else np.asarray(c)
        mon.close(v, row[j], "H_t_coeff", what + ": coefficients of control %d" % j, 1e-9, 1e-9)
        if interp and callable(c):
            x = (t[:-1] + t[1:]) / 2 + .1 * (t[1] - t[0])
            mon.close(np.array([float(np.real(c(y))) for y in x]), interp1d(t, row[j], kind=kind)(x), "H_t_between", what + ": control %d between the grid times (%s)" % (j, kind), 1e-8, 1e-8)
            mon.close(float(np.real(c(t[-1] * 1.2))), row[j, -1], "H_t_after", what + ": control %d after the last time" % j, 1e-9, 1e-9)
    if interp:
        mon.count("interp")
        Q = QobjEvo(H)
    else:
        Q = QobjEvo(H, tlist=t, order=0)
    for m in range(P.M - 1):
        want = P.H0 + sum(row[j, m] * P.Hs[j] for j in range(P.J))
        x = t[m] if interp else (t[m] + t[m + 1]) / 2
        mon.close(Q(float(x)).full(), want, "H_t_eval", what + ": Hamiltonian at time %d" % m, 1e-8, 1e-8)


def options(rng, P, mon, adaptive):
    kw, tags = {}, []
    if gen.chance(rng, .6):
        kw["eps"] = float(10 ** rng.uniform(-2, 0.7))
    if gen.chance(rng, .6):
        kw["u_start"] = rng.normal(size=(P.J, P.M)) * gen.pick(rng, [.1, 1, 3])
        if gen.chance(rng, .2):
            kw["u_start"] = kw["u_start"].tolist()
        if gen.chance(rng, .2):
            kw["u_start"] = rng.normal(size=(P.J, 1)) * np.ones((1, P.M))
        if gen.chance(rng, .1):
            kw["u_start"] = rng.integers(-2, 3, size=(P.J, P.M))
        tags.append("start")
    if gen.chance(rng, .35):
        w = float(rng.uniform(.05, 1.5))
        kw["u_limits"] = gen.pick(rng, [(-w, w), [-w, w / 2], (0.0, w), [-1, 1]])
        mon.count("limits")
        tags.append("limits")
    if gen.chance(rng, .3):
        kw["alpha"] = float(10 ** rng.uniform(-3, -.3))
        mon.count("alpha")
        tags.append("alpha")
    if gen.chance(rng, .3):
        kw["beta"] = float(10 ** rng.uniform(-4, -1.5))
        mon.count("beta")
        tags.append("beta")
    if gen.chance(rng, .3):
        kw["use_interp"] = True
        if gen.chance(rng, .5):
            kw["interp_kind"] = gen.pick(rng, ["linear", "nearest", "slinear", "previous"] + (["cubic", "quadratic"] if P.M >= 5 else []))
        tags.append("interp")
    if gen.chance(rng, .5):
        kw["phase_sensitive"] = gen.chance(rng, .5)
        tags.append("ps%d" % kw["phase_sensitive"])
    if adaptive and gen.chance(rng, .4):
        kw["overlap_terminate"] = float(gen.pick(rng, [.3, .6, .9, .05]))
        tags.append("term")
    if gen.chance(rng, .3):
        kw["progress_bar"] = False
    return kw, tags


def call(mon, fn, P, R, kw, what):
    args = P.args()
    before = snap(args)
    k = dict(kw)
    ub, lb = copy.deepcopy(kw.get("u_start")), copy.deepcopy(kw.get("u_limits"))
    res = fn(*args[:3], R, args[3], **k)
    mon.count("calls")
    for a, b in zip(before, snap(args)):
        mon.check(np.array_equal(a, b), "args_changed", "%s: an operator or the time grid passed was modified" % what)
    if ub is not None:
        mon.check(np.array_equal(np.asarray(ub), np.asarray(k["u_start"])), "start_changed", "%s: start pulses passed were modified" % what)
    mon.check(lb == k.get("u_limits"), "limits_changed", "%s: limits passed were modified" % what)
    return res


def first_row(P, kw):
    row = np.zeros((P.J, P.M))
    if kw.get("u_start") is not None:
        row = np.array(kw["u_start"], dtype=float)
        if kw.get("u_limits") is not None:
            row = np.clip(row, *kw["u_limits"])
    return row


def with_last(v):
    return np.column_stack([v, v[:, -1]])


def clip(kw, v):
    return np.clip(v, *kw["u_limits"]) if kw.get("u_limits") is not None else v


def finish(mon, P, res, row, kw, what):
    hamiltonian(mon, P, res, row, kw.get("use_interp"), what, kw.get("interp_kind", "linear"))
    mon.check(isinstance(res.U_f, Qobj) and res.U_f.dims == P.dims, "U_f_type", "%s: final propagator is %s" % (what, getattr(res.U_f, "dims", type(res.U_f))))
    if isinstance(res.U_f, Qobj):
        mon.close(res.U_f.full(), P.final(row), "U_f", what + ": final propagator", 1e-8, 1e-8)


def fixed(mon, rng):
    P = Prob(rng)
    R = int(gen.pick(rng, [1, 2, 3, 5, 8]))
    kw, tags = options(rng, P, mon, False)
    name, fn = gen.pick(rng, [("grape_unitary", gr.grape_unitary), ("cy_grape_unitary", gr.cy_grape_unitary)])
    what = "%s(%s)" % (name, ",".join(tags))
    mon.note(fn=name, R=R, M=P.M, J=P.J, N=P.N, tags=tags)
    res = call(mon, fn, P, R, kw, what)
    u = np.asarray(res.u)
    if not mon.check(u.shape == (R, P.J, P.M), "u_shape", lambda: "%s: controls of shape %s, expected %s" % (what, u.shape, (R, P.J, P.M))):
        return
    if R == 1:
        mon.count("single_row")
    eps = kw.get("eps", .1 * 2 * np.pi / P.T)
    sens = kw.get("phase_sensitive", True)
    mon.close(u[0], first_row(P, kw), "row0", what + ": first row", 1e-12, 1e-12)
    for r in range(R - 1):
        mon.count("steps")
        g = P.grad(u[r], sens, kw.get("alpha"), kw.get("beta"))
        raw = u[r][:, :-1] + eps * g
        want = clip(kw, raw)
        if not np.array_equal(raw, want):
            mon.count("clipped")
        mon.close(u[r + 1][:, :-1], want, "step", what + ": row %d" % (r + 1), 1e-8, 1e-9)
        mon.check(np.array_equal(u[r + 1][:, -1], u[r + 1][:, -2]), "last_column", "%s: last column of row %d" % (what, r + 1))
    finish(mon, P, res, u[-1], kw, what)
    other = gr.cy_grape_unitary if fn is gr.grape_unitary else gr.grape_unitary
    res2 = call(mon, other, P, R, kw, what + " twin")
    mon.close(np.asarray(res2.u), u, "twin", what + ": other implementation", 1e-8, 1e-9)
    finish(mon, P, res2, np.asarray(res2.u)[-1], kw, what + " twin")
    if gen.chance(rng, .3):
        # another system with the same pulses on the same grid
        mon.count("other_system")
        Q = copy.copy(P)
        Q.H0 = P.H0 + .7 * P.Hs[0]
        Q.Hs = [1.5 * h for h in P.Hs]
        f3 = gen.pick(rng, [gr.grape_unitary, gr.cy_grape_unitary, gr.grape_unitary_adaptive])
        k3 = dict(kw, u_start=u[-1].copy())
        res3 = call(mon, f3, Q, 1, k3, what + " then another system")
        u3 = np.asarray(res3.u)
        mon.close(u3[0], first_row(Q, k3), "row0", what + " then another system: first row", 1e-12, 1e-12)
        finish(mon, Q, res3, u3[-1], k3, what + " then another system")
    mon.sig(name, *tags, P.N, R > 1, P.M > 2)


def small(mon, rng):
    """Small steps on a fine grid increase the overlap as the gradient predicts."""
    P = Prob(rng)
    P.M, P.T = 12, .4
    P.times = np.linspace(0, P.T, P.M)
    P.dt = P.T / (P.M - 1)
    sens = gen.chance(rng, .5)
    start = rng.normal(size=(P.J, P.M)) * .5
    fn = gen.pick(rng, [gr.grape_unitary, gr.cy_grape_unitary, gr.grape_unitary_adaptive])
    eps = 1e-2
    kw = dict(eps=eps, u_start=start, phase_sensitive=sens)
    R = 6
    res = call(mon, fn, P, R, kw, "small steps")
    mon.count("small_steps")

    def F(row):
        o = ov(P.U, P.final(row))
        return o.real if sens else abs(o) ** 2
    a, b = F(start), F(np.asarray(res.u)[-1])
    g = P.grad(start, sens, None, None)
    pred = eps * (R - 1) * float((g ** 2).sum())
    if pred > 1e-9:
        mon.check(b - a >= .5 * pred - 1e-12, "ascent", lambda: "%s: overlap went from %.8g to %.8g, gradient predicts +%.3g" % (fn.__name__, a, b, pred))
        if fn is not gr.grape_unitary_adaptive:
            mon.check(b - a <= 2 * pred, "ascent", lambda: "%s: overlap went from %.8g to %.8g, gradient predicts +%.3g" % (fn.__name__, a, b, pred))
    mon.sig("small", fn.__name__, sens)


def adaptive(mon, rng):
    P = Prob(rng)
    R = int(gen.pick(rng, [1, 2, 4, 8, 15]))
    kw, tags = options(rng, P, mon, True)
    what = "grape_unitary_adaptive(%s)" % ",".join(tags)
    mon.note(fn="adaptive", R=R, M=P.M, J=P.J, N=P.N, tags=tags)
    mon.count("adaptive")
    res = call(mon, gr.grape_unitary_adaptive, P, R, kw, what)
    u = np.asarray(res.u)
    term = kw.get("overlap_terminate", 1.0)
    ok = mon.check(u.ndim == 3 and u.shape[1:] == (P.J, P.M) and 1 <= u.shape[0] <= R, "u_shape", lambda: "%s: controls of shape %s" % (what, u.shape))
    if not ok:
        return
    n = u.shape[0]
    if R == 1:
        mon.count("single_row")
    eps0 = kw.get("eps", .1 * 2 * np.pi / P.T)
    sens = kw.get("phase_sensitive", False)

    def F(row):
        o = ov(P.U, P.final(row))
        return o.real if sens else abs(o) ** 2
    log = np.asarray(res.overlap, float)
    mon.check(log.shape == (R,), "overlap_shape", "%s: overlap log of shape %s" % (what, log.shape))
    mon.close(u[0], first_row(P, kw), "row0", what + ": first row", 1e-12, 1e-12)
    f = [F(row) for row in u]
    mid = eps0          # each iteration tries half of this step, this step and twice this step
    for r in range(n - 1):
        mon.count("steps")
        d = u[r + 1] - u[r]
        g = P.grad(u[r], sens, kw.get("alpha"), kw.get("beta"))
        mon.check(f[r + 1] >= f[r] - 1e-9, "overlap_fell", lambda: "%s: overlap fell from %.8g to %.8g at iteration %d" % (what, f[r], f[r + 1], r))
        moved = not np.array_equal(u[r + 1], u[r])
        if not moved:
            mon.check(log[r] <= f[r] + 1e-9, "kept_row", lambda: "%s: iteration %d logged %.8g but kept a row with overlap %.8g" % (what, r, log[r], f[r]))
            if np.abs(g).max() > 1e-9:
                mon.count("regressed")
            if mid is not None:
                best = max(F(with_last(clip(kw, u[r][:, :-1] + c * mid * g))) for c in (.5, 1, 2))
                mon.check(best <= f[r] + 1e-7, "missed_step", lambda: "%s: iteration %d kept overlap %.8g though a step tried gives %.8g" % (what, r, f[r], best))
                if abs(best - f[r]) < 1e-9:
                    mid = None       # rounding decides whether this counts as a regression
                else:
                    mid /= 2
            continue
        mon.close(f[r + 1], log[r], "overlap_log", what + ": logged overlap of iteration %d" % r, 1e-8, 1e-8)
        mon.check(np.array_equal(u[r + 1][:, -1], u[r + 1][:, -2]), "last_column", "%s: last column of row %d" % (what, r + 1))
        # the step is along the gradient, with a step size from the halved/doubled ladder
        D = d[:, :-1]
        free = np.ones_like(D, bool)
        if kw.get("u_limits") is not None:
            lo, hi = kw["u_limits"]
            free = (u[r + 1][:, :-1] > lo) & (u[r + 1][:, :-1] < hi)
        G = g[free]
        if not (G.size and np.abs(G).max() > 1e-7):
            mid = None
        if G.size and np.abs(G).max() > 1e-7:
            i = int(np.argmax(np.abs(G)))
            e = D[free][i] / G[i]
            k = np.log2(e / eps0) if e > 0 else np.nan
            mon.check(e > 0 and abs(k - round(k)) < 1e-5 and abs(k) <= 2 * R + 2, "step_size", lambda: "%s: step size %.6g is not the given %.6g halved or doubled" % (what, e, eps0))
            if e > 0:
                if mid is not None:
                    mon.count("ladder")
                    c = e / mid
                    if mon.check(min(abs(c - x) for x in (.5, 1, 2)) < 1e-4, "ladder", lambda: "%s: iteration %d takes step %.6g, expected half, once or twice %.6g" % (what, r, e, mid)):
                        best = max(F(with_last(clip(kw, u[r][:, :-1] + x * mid * g))) for x in (.5, 1, 2))
                        mon.check(f[r + 1] >= best - 1e-7, "best_step", lambda: "%s: iteration %d takes a step to overlap %.8g, another tried gives %.8g" % (what, r, f[r + 1], best))
                mid = e
                want = clip(kw, u[r][:, :-1] + e * g)
                mon.close(u[r + 1][:, :-1], want, "step", what + ": row %d" % (r + 1), 1e-7, 1e-8)
    if n < R:
        mon.count("terminated")
        mon.check(term < 1 and log[n - 2] > term, "terminate", lambda: "%s: stopped after %d of %d rows at overlap %.6g" % (what, n, R, log[n - 2]))
    if term < 1:
        mon.check(np.all(log[:n - 2] <= term) if n > 2 else True, "terminate_late", lambda: "%s: went on after overlap %s" % (what, log[:n - 2]))
        if n == R and R > 1:
            pass
    mon.check(np.all(log[n - 1:] == 0), "overlap_tail", "%s: overlap logged for iterations that did not happen" % what)
    e = np.asarray(res.eps, float)
    mon.check(e.shape == (R,) and np.all(e[:n - 1] > 0), "eps_log", "%s: step size log %s" % (what, e))
    finish(mon, P, res, u[-1], kw, what)
    mon.sig("adaptive", *tags, P.N, R > 1, n < R)


def inner(mon, rng):
    """The inner routines called directly."""
    mon.count("inner")
    P = Prob(rng)
    A, B = rng.normal(size=(P.N, P.N)) + 1j * rng.normal(size=(P.N, P.N)), gen.haar(rng, P.N)
    mon.close(complex(cyg.cy_overlap(Qobj(A).data, Qobj(B).data)), ov(A, B), "cy_overlap", "cy_overlap", 1e-10, 1e-10)
    mon.close(complex(gr._overlap(Qobj(A), Qobj(B))), ov(A, B), "overlap", "_overlap", 1e-10, 1e-10) if hasattr(gr, "_overlap") else None
    mon.raises(lambda: gen.pick(rng, [gr.grape_unitary, gr.cy_grape_unitary, gr.grape_unitary_adaptive])(*P.args()[:3], 3, P.times, u_limits=gen.pick(rng, [[1], [0, 1, 2]])),
               "limits_length", "limits that are not two values", (ValueError,))


def case(mon, rng, idx, tier):
    k = idx % 8
    if k in (0, 1, 2):
        fixed(mon, rng)
    elif k in (3, 4, 5):
        adaptive(mon, rng)
    elif k == 6:
        small(mon, rng)
    else:
        inner(mon, rng)
