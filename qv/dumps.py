"""Runs with dumping switched on, and what the dumps had to record."""
import numpy as np
from . import gen, runs
from .ref import Ref

OPT_FLAGS = ["dump_summary", "dump_fid_err", "dump_grad_norm", "dump_grad"]
DYN_FLAGS = ["dump_summary", "dump_amps", "dump_dyn_gen", "dump_prop", "dump_prop_grad", "dump_fwd_evo", "dump_onwd_evo", "dump_onto_evo"]
ITEM = {"dump_amps": "ctrl_amps", "dump_dyn_gen": "dyn_gen", "dump_prop": "prop", "dump_prop_grad": "prop_grad",
        "dump_fwd_evo": "fwd_evo", "dump_onwd_evo": "onwd_evo", "dump_onto_evo": "onto_evo"}


class Truth:
    """What happened since the last clear(), as seen by the hooks."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.f, self.g, self.it, self.evo = [], [], [], []


def flags(names, level, rng=None):
    if level == "FULL":
        return dict.fromkeys(names, True)
    d = dict.fromkeys(names, False)
    d["dump_summary"] = True
    if level == "CUSTOM" and rng is not None:
        for n in names:
            d[n] = gen.chance(rng, .5)
    return d


class Cfg:
    """Dump configuration of one object (optimiser or dynamics)."""

    def __init__(self, names, level, rng):
        self.names, self.level = names, level
        self.flags = flags(names, level, rng) if level != "NONE" else dict.fromkeys(names, False)

    def apply(self, dump):
        if self.level == "CUSTOM":
            for n, v in self.flags.items():
                setattr(dump, n, v)

    @property
    def on(self):
        return self.level != "NONE"


class DumpRun(runs.Run):
    """Run a spec with dumping; self.truth is what the dumps should hold."""

    def __init__(self, sp, ocfg, dcfg, late=False, oparams=None, dparams=None, **kw):
        self.ocfg, self.dcfg, self.late = ocfg, dcfg, late
        self.truth = Truth()
        self.cur = {}
        self.config = None
        super().__init__(sp, **kw)
        self.hooks = self.dump_hooks
        op = dict(self.kw.get("optim_params") or {})
        dp = dict(self.kw.get("dyn_params") or {})
        for par, cfg, extra in ((op, ocfg, oparams), (dp, dcfg, dparams)):
            if cfg.on and not late:
                par["dumping"] = cfg.level
            par.update(extra or {})
        if op:
            self.kw["optim_params"] = op
        if dp:
            self.kw["dyn_params"] = dp

    def dump_hooks(self, r, run, clock):
        T, cur = self.truth, self.cur
        cur["nf"] = cur["ng"] = cur["nit"] = 0

        def fstart(o, a, k):
            cur["nf"] += 1

        def fdone(o, a, k, ret):
            T.f.append(cur["err"])

        def gstart(o, a, k):
            cur["ng"] += 1

        def gdone(o, a, k, ret):
            T.g.append(cur["grad"])

        def err(o, a, k, ret):
            cur["err"] = float(ret)

        def grad(o, a, k, ret):
            cur["grad"] = np.array(ret)

        def it(o, a, k):
            cur["nit"] += 1

        def itdone(o, a, k, ret):
            T.it.append(dict(iter_num=cur["nit"], nf=cur["nf"], ng=cur["ng"], err=T.f[-1] if cur["nf"] else None,
                             gn=float(np.linalg.norm(T.g[-1])) if cur["ng"] else None, t=clock.t))

        def evo(o, a, k, ret):
            T.evo.append(dict(amps=np.array(o.parent.ctrl_amps), nf=cur["nf"], ng=cur["ng"], nit=cur["nit"], in_run=run.log.in_run))

        r.on_before("fid_err_func_wrapper", fstart)
        r.on_after("fid_err_func_wrapper", fdone)
        r.on_exc("fid_err_func_wrapper", fdone)
        r.on_before("fid_err_grad_wrapper", gstart)
        r.on_after("fid_err_grad_wrapper", gdone)
        r.on_exc("fid_err_grad_wrapper", gdone)
        r.on_after("get_fid_err", err)
        r.on_after("get_fid_err_gradient", grad)
        r.on_before("iter_step_callback_func", it)
        r.on_after("iter_step_callback_func", itdone)
        r.on_exc("iter_step_callback_func", itdone)
        r.on_after("recompute_evolution", evo)

    def create(self):
        o = super().create()
        if self.late:
            if self.ocfg.on:
                o.dumping = self.ocfg.level
            if self.dcfg.on:
                o.dynamics.dumping = self.dcfg.level
        if o.dump is not None:
            self.ocfg.apply(o.dump)
        if o.dynamics.dump is not None:
            self.dcfg.apply(o.dynamics.dump)
        if self.config:
            self.config(o)
        return o

    def again(self, change=None, dt=None):
        hooks, self.hooks = self.hooks, self.dump_hooks
        r = runs.Run.again(self, change, dt)
        self.log = r.log
        self.result, self.exc = r.result, r.exc
        return r


def expected_item(run, e):
    """Independent values of one dynamics dump item."""
    return Ref(run.sp.p, e["amps"], tau=np.asarray(run.optim.dynamics.tau, dtype=float))


def onto_of(ref):
    n = len(ref.tau)
    out = [None] * (n + 1)
    out[n] = ref.onto_target()
    for k in range(n - 1, -1, -1):
        out[k] = out[k + 1] @ ref.prop[k]
    return out
