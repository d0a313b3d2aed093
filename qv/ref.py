"""Independent reference model (numpy/scipy only)."""
import numpy as np
from scipy.linalg import expm


_Q = {}


def basis_change(N):
    if N not in _Q:
        g = np.random.default_rng(N)
        _Q[N] = np.linalg.qr(g.normal(size=(N, N)) + 1j * g.normal(size=(N, N)))[0]
    return _Q[N]


class Ref:
    def __init__(self, p, amps, tau=None, phase_app=None):
        self.p, self.amps = p, np.array(amps, dtype=float)
        self.tau = np.array(p.tau if tau is None else tau, dtype=float)
        self.phase_app = phase_app
        n = len(self.tau)
        self.gen = [p.drift_k(k) + sum((self.amps[k, j] * p.ctrl_kj(k, j) for j in range(p.n_ctrls)),
                                       np.zeros_like(p.drift_k(k))) for k in range(n)]
        self.phased = [self.phase(g) for g in self.gen]
        self.prop = [expm(self.phased[k] * self.tau[k]) for k in range(n)]
        self.fwd = [p.initial.astype(complex)]
        for k in range(n):
            self.fwd.append(self.prop[k] @ self.fwd[-1])
        self.onwd = [None] * n
        acc = np.eye(p.N, dtype=complex)
        for k in range(n - 1, -1, -1):
            acc = acc @ self.prop[k]
            self.onwd[k] = acc
        self.final = self.fwd[-1]

    def phase(self, g):
        if self.p.kind == "UNIT":
            return -1j * g
        if self.p.kind == "SYMPL":
            from .gen import omega
            om = omega(g.shape[0] // 2)
            if self.phase_app == "preop":
                return om @ g
            return g @ (-om)
        if getattr(self.p, "gphase", None) is not None:
            return self.p.gphase(g)
        return g

    def onto_target(self):
        t = self.p.target
        if self.p.kind == "UNIT" or t.shape[0] != t.shape[1]:
            return t.conj().T
        return np.linalg.inv(t)

    def prop_grad(self, k, j):
        """d prop_k / d amp_kj by the block-triangular (Van Loan) exponential."""
        N = self.p.N
        A = self.phased[k] * self.tau[k]
        E = self.phase(self.p.ctrl_kj(k, j)) * self.tau[k]
        # The mean of the diagonal is taken out and the basis changed, as
        # scipy's exponential of triangular matrices loses digits when
        # elements of the diagonal are close
        m = np.trace(A) / N
        Q = basis_change(N)
        A = Q @ (A - m * np.eye(N)) @ Q.conj().T
        M = np.zeros((2 * N, 2 * N), complex)
        M[:N, :N] = A
        M[N:, N:] = A
        M[:N, N:] = Q @ E @ Q.conj().T
        return Q.conj().T @ (expm(M)[:N, N:] * np.exp(m)) @ Q

    def d_final(self, k, j):
        d = self.prop_grad(k, j) @ self.fwd[k]
        if k + 1 < len(self.tau):
            d = self.onwd[k + 1] @ d
        return d

    # fidelity measures -------------------------------------------------
    def prenorm(self):
        return np.trace(self.onto_target() @ self.final)

    def fid_err(self, measure, scale=None):
        """measure PSU | SU | TD"""
        t, u = self.p.target, self.final
        if measure == "TD":
            s = 1.0 / (2 * self.p.N) if scale is None else scale
            d = t - u
            return float(np.real(s * np.trace(d.conj().T @ d)))
        norm = float(np.real(np.trace(t.conj().T @ t)))
        f = self.prenorm()
        fid = abs(f) / norm if measure == "PSU" else np.real(f) / norm
        return float(abs(1 - fid))

    def fidelity(self, measure):
        t = self.p.target
        norm = float(np.real(np.trace(t.conj().T @ t)))
        f = self.prenorm()
        return abs(f) / norm if measure == "PSU" else np.real(f) / norm

    def grad(self, measure, scale=None):
        n, m = len(self.tau), self.p.n_ctrls
        g = np.zeros((n, m))
        t, u = self.p.target, self.final
        if measure != "TD":
            norm = float(np.real(np.trace(t.conj().T @ t)))
            f = self.prenorm()
            fid = self.fidelity(measure)
            ot = self.onto_target()
        for k in range(n):
            for j in range(m):
                d = self.d_final(k, j)
                if measure == "TD":
                    s = 1.0 / (2 * self.p.N) if scale is None else scale
                    g[k, j] = -2 * s * np.real(np.trace((t - u).conj().T @ d))
                else:
                    df = np.trace(ot @ d)
                    if measure == "PSU":
                        dfid = np.real(df * np.exp(-1j * np.angle(f))) / norm
                    else:
                        dfid = np.real(df) / norm
                    g[k, j] = dfid if fid >= 1 else -dfid
        return g
