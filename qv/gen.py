"""Random control problems, as plain numpy data plus the Qobj built from them."""
import numpy as np
from qutip import Qobj

I2 = np.eye(2)
SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]], complex)
SZ = np.array([[1, 0], [0, -1]], complex)


def herm(rng, n, s=1.0):
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return s * (a + a.conj().T) / 2


def haar(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    return q * (np.diag(r) / abs(np.diag(r)))


def ket(rng, n):
    v = rng.normal(size=(n, 1)) + 1j * rng.normal(size=(n, 1))
    return v / np.linalg.norm(v)


def symm(rng, n, s=1.0):
    a = rng.normal(size=(n, n))
    return s * (a + a.T) / 2


def omega(n):
    """Symplectic form in the (q1,p1,q2,p2..) ordering."""
    return np.kron(np.eye(n), np.array([[0.0, 1.0], [-1.0, 0.0]]))


def lindblad(H, cs):
    """Superoperator acting on column-stacked density matrices."""
    n = H.shape[0]
    I = np.eye(n)
    L = -1j * (np.kron(I, H) - np.kron(H.T, I))
    for c in cs:
        cd = c.conj().T @ c
        L = L + np.kron(c.conj(), c) - 0.5 * np.kron(I, cd) - 0.5 * np.kron(cd.T, I)
    return L


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


WIDE = .04


class Problem:
    """One control problem.

    kind      UNIT | GEN_MAT | SYMPL
    drift     array or list of arrays (one per slot)
    ctrls     list of arrays or [n_ts][n_ctrls] nested list
    tau       float array
    initial, target   arrays (square, or a column)
    dims      qutip dims of the generators, idims of initial/target
    """

    def __init__(self, **kw):
        self.__dict__.update(kw)

    @property
    def n_ts(self):
        return len(self.tau)

    @property
    def n_ctrls(self):
        return len(self.ctrls[0]) if self.td_ctrl else len(self.ctrls)

    @property
    def N(self):
        return (self.drift[0] if self.td_drift else self.drift).shape[0]

    def drift_k(self, k):
        return self.drift[k] if self.td_drift else self.drift

    def ctrl_kj(self, k, j):
        return self.ctrls[k][j] if self.td_ctrl else self.ctrls[j]

    fmt = ("Dense",)

    def _q(self, a, dims, i=0):
        """Qobj in one of the storage formats of the problem."""
        q, f = Qobj(a.copy(), dims=dims), self.fmt[i % len(self.fmt)]
        return q if f == "Dense" else q.to(f)

    @property
    def spare(self):
        """Elements beyond the last slot, in a few of the lists for the slots: slot k uses element k."""
        return (int(abs(float(np.asarray(self.tau)[0])) * 1e6) % 7 == 0) * 2

    # --- Qobj views (fresh objects every time)
    def q_drift(self, spare=0):
        if self.td_drift:
            return [self._q(d, self.dims, k) for k, d in enumerate(list(self.drift) + [7.7 * d for d in self.drift[:1]] * spare)]
        return self._q(self.drift, self.dims)

    def q_ctrls(self, spare=0):
        if self.td_ctrl:
            rows = list(self.ctrls) + [[-3.3 * c for c in self.ctrls[0]]] * spare
            if self.td_ctrl == "list":
                return [[self._q(c, self.dims, k + j + 1) for j, c in enumerate(row)] for k, row in enumerate(rows)]
            a = np.empty((len(rows), self.n_ctrls), dtype=object)
            for k in range(len(rows)):
                for j in range(self.n_ctrls):
                    a[k, j] = self._q(rows[k][j], self.dims, k + j + 1)
            return a
        return [self._q(c, self.dims, j + 1) for j, c in enumerate(self.ctrls)]

    def q_initial(self):
        return self._q(self.initial, self.idims, 2)

    def q_target(self):
        return self._q(self.target, self.idims, 3)

    def describe(self):
        return dict(kind=self.kind, N=self.N, n_ts=self.n_ts, n_ctrls=self.n_ctrls,
                    td_drift=self.td_drift, td_ctrl=bool(self.td_ctrl), state=self.state,
                    flavour=self.flavour, fmt="/".join(self.fmt), equal_tau=bool(np.allclose(self.tau, self.tau[0])))


def taus(rng, n, equal=None, total=None):
    total = total or float(rng.uniform(0.5, 6.0))
    if equal is None:
        equal = chance(rng, 0.4)
    if equal:
        return np.ones(n) * total / n
    w = rng.uniform(0.2, 1.8, size=n)
    return w / w.sum() * total


def problem(rng, kind=None, max_ts=7, max_ctrls=3, state=None, td=None, big=False, flavour=None,
            n_ts=None, n_ctrls=None, dims_small=False, wide=WIDE):
    kind = kind or pick(rng, ["UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    # a small share of cases is far outside the usual sizes, one dimension at a time
    size = pick(rng, ["slots", "ctrls", "dim", "tiny", "strong"]) if chance(rng, wide) else None
    if size == "slots" and n_ts is None:
        n_ts, n_ctrls, dims_small = int(rng.integers(12, 70)), n_ctrls or int(rng.integers(1, min(max_ctrls, 3) + 1)), True
    if size == "ctrls" and n_ctrls is None and max_ctrls > 1:
        n_ctrls = int(rng.integers(4, 11))
        n_ts = n_ts or int(rng.integers(1, min(3, max_ts) + 1))
    if size == "dim":
        n_ctrls = n_ctrls or 1
        n_ts = n_ts or int(rng.integers(1, min(3, max_ts) + 1))
    n_ts = n_ts or int(rng.integers(1, max_ts + 1))
    n_c = n_ctrls or int(rng.integers(1, max_ctrls + 1))
    tau = taus(rng, n_ts)
    if size == "tiny":
        tau = tau * 1e-3
    td_drift = chance(rng, 0.3) if td is None else bool(td)
    td_ctrl = pick(rng, [False, False, "array", "list"]) if td is None else ("array" if td else False)
    p = Problem(kind=kind, tau=tau, td_drift=td_drift, td_ctrl=td_ctrl, state=False, flavour="random", size=size)
    if kind == "UNIT":
        p.dims, N = pick(rng, [([[2], [2]], 2), ([[2, 2], [2, 2]], 4), ([[3], [3]], 3)] +
                         ([] if dims_small else [([[2, 3], [2, 3]], 6), ([[5], [5]], 5)]) +
                         ([([[2, 2, 2], [2, 2, 2]], 8)] if big else []))
        if size == "dim":
            p.dims, N = pick(rng, [([[2, 2, 2], [2, 2, 2]], 8), ([[3, 3], [3, 3]], 9), ([[3, 4], [3, 4]], 12),
                                   ([[2, 2, 2, 2], [2, 2, 2, 2]], 16), ([[11], [11]], 11)])
        if size == "strong":
            tau *= 4
        fl = flavour or pick(rng, ["random", "random", "pauli", "degenerate", "zero_drift"])
        p.flavour = fl

        def one(role):
            if fl == "pauli" and N in (2, 4):
                s = pick(rng, [SX, SY, SZ])
                if N == 2:
                    return s * 0.5 * float(rng.uniform(.5, 2))
                a, b = [(s, I2), (I2, s), (s, pick(rng, [SX, SY, SZ]))][int(rng.integers(3))]
                return np.kron(a, b).astype(complex) * 0.5
            if fl == "degenerate":
                # few distinct eigenvalues, sometimes a common eigenbasis
                d = rng.integers(-1, 2, size=N).astype(float)
                if chance(rng, 0.5):
                    return np.diag(d).astype(complex)
                u = haar(rng, N)
                m = u @ np.diag(d) @ u.conj().T
                return (m + m.conj().T) / 2
            if fl == "zero_drift" and role == "drift":
                return np.zeros((N, N), complex)
            return herm(rng, N)
        st = chance(rng, 0.3) if state is None else state
        p.state = st
        if st:
            p.initial, p.target = ket(rng, N), ket(rng, N)
            p.idims = [p.dims[0], [1] * len(p.dims[0])]
        else:
            p.initial = np.eye(N, dtype=complex) if chance(rng, 0.7) else haar(rng, N)
            p.target = haar(rng, N)
            p.idims = p.dims
    elif kind == "GEN_MAT":
        fl = flavour or pick(rng, ["lindblad", "lindblad", "real", "closed"])
        p.flavour = fl
        if fl in ("lindblad", "closed"):
            n = 3 if size == "dim" or big and chance(rng, .25) else 2
            p.dims, N = [[[n], [n]], [[n], [n]]], n * n
            if size == "strong":
                tau *= 4

            def one(role):
                H = herm(rng, n)
                if role == "drift":
                    cs = []
                    if fl == "lindblad":
                        cs = [np.sqrt(float(rng.uniform(.02, .3))) * (rng.normal(size=(n, n)) +
                              1j * rng.normal(size=(n, n))) * .5 for _ in range(int(rng.integers(1, 3)))]
                    return lindblad(H, cs)
                return lindblad(H, [])
        else:
            N = int(rng.integers(8, 13)) if size == "dim" else int(rng.integers(2, 6))
            p.dims = [[N], [N]]

            def one(role):
                return (rng.normal(size=(N, N)) * (.5 if role == "drift" else .7) * min(1, (5 / N) ** .5)).astype(complex)
        st = chance(rng, 0.25) if state is None else state
        p.state = st
        if st:
            if fl in ("lindblad", "closed"):
                def rho():
                    v = ket(rng, n)
                    w = float(rng.uniform(.6, 1))
                    r = w * (v @ v.conj().T) + (1 - w) * np.eye(n) / n
                    return r.reshape(-1, 1, order="F")
                p.initial, p.target = rho(), rho()
                p.idims = [[[n], [n]], [1]]
            else:
                p.initial, p.target = ket(rng, N), ket(rng, N)
                p.idims = [[N], [1]]
        else:
            p.idims = p.dims
            p.initial = np.eye(N, dtype=complex)
            other = chance(rng, .3)
            if fl in ("lindblad", "closed"):
                u = haar(rng, n)
                p.target = np.kron(u.conj(), u)
                if other:
                    u = haar(rng, n)
                    p.initial = np.kron(u.conj(), u)
            else:
                if other:
                    p.initial = np.eye(N) + .3 * rng.normal(size=(N, N)) + 0j
                p.target = np.eye(N) + .4 * rng.normal(size=(N, N)) + 0j
    else:
        n = int(rng.integers(4, 7)) if size == "dim" else int(rng.integers(1, 4 if big else 3))
        N = 2 * n
        p.dims = [[N], [N]]
        p.flavour = flavour or pick(rng, ["random", "oscillator"])

        def one(role):
            if p.flavour == "oscillator" and role == "drift":
                return np.diag(np.repeat(rng.uniform(.5, 2, size=n), 2)).astype(complex)
            return symm(rng, N, .5 * min(1, (6 / N) ** .5)).astype(complex)
        p.state = False
        p.idims = p.dims
        from scipy.linalg import expm
        p.initial = np.eye(N, dtype=complex)
        if chance(rng, .3):
            p.initial = expm(symm(rng, N, .4) @ omega(n)).astype(complex)
        p.target = expm(-symm(rng, N, .5) @ omega(n)).astype(complex)
        if state:
            p.state = True
            p.idims = [[N], [1]]
            p.initial, p.target = rng.normal(size=(N, 1)) + 0j, rng.normal(size=(N, 1)) + 0j
    p.drift = [one("drift") for _ in range(n_ts)] if td_drift else one("drift")
    p.ctrls = ([[one("ctrl") for _ in range(n_c)] for _ in range(n_ts)] if td_ctrl
               else [one("ctrl") for _ in range(n_c)])
    p.fmt = pick(rng, [("Dense",), ("Dense",), ("CSR",), ("Dia",), ("CSR", "Dense"), ("Dense", "CSR", "Dia")])
    return p


def amps(rng, p, s=1.0, kind=None):
    shp = (p.n_ts, p.n_ctrls)
    kind = kind or pick(rng, ["random", "random", "random", "zero", "sparse", "equal", "large"])
    if kind == "zero":
        return np.zeros(shp)
    if kind == "sparse":
        a = np.zeros(shp)
        a[int(rng.integers(shp[0])), int(rng.integers(shp[1]))] = float(rng.normal()) * s
        return a
    if kind == "equal":
        return np.ones(shp) * float(rng.normal()) * s
    if kind == "large":
        return rng.normal(size=shp) * 6 * s
    return rng.normal(size=shp) * s
