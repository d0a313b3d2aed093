"""Interrupt the numerical routines that an evaluation goes through, after a given number of their calls."""
import contextlib, sys
import numpy.linalg as nl
import scipy.linalg as sl
from qutip import Qobj
import qutip.core.data as qdata


class Interrupted(KeyboardInterrupt):
    pass


@contextlib.contextmanager
def interrupt(after):
    """Every matrix exponential / diagonalisation counts; number `after` (from 0) raises Interrupted."""
    state = {"n": 0, "hit": False}

    def wrap(f):
        def w(*a, **k):
            if state["n"] == after:
                state["hit"] = True
                state["n"] += 1
                raise Interrupted()
            state["n"] += 1
            return f(*a, **k)
        return w

    wrapped = {id(f): (f, wrap(f)) for f in (sl.expm, sl.expm_frechet, sl.eigh, nl.eigh, sl.eig, nl.eig)}
    put = []

    def patch(obj, name, new):
        put.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    try:
        mods = [sl, nl] + [m for n, m in list(sys.modules.items()) if n.startswith("qutip_qtrl") and m is not None]
        for m in mods:
            for name, v in list(vars(m).items()):
                if id(v) in wrapped:
                    patch(m, name, wrapped[id(v)][1])
        patch(Qobj, "expm", wrap(Qobj.expm))
        patch(qdata, "eigs", wrap(qdata.eigs))
        yield state
    finally:
        for obj, name, old in reversed(put):
            setattr(obj, name, old)
