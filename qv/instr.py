"""Runtime instrumentation at the public boundary of qutip_qtrl.

Public methods are wrapped on every class that defines them; a wrapper only
reports while a Recorder is active and only for the outermost call on an
object (super() calls and self-calls of the same name are one event).
"""
import contextlib, functools, inspect, logging, sys, time, timeit

METHODS = [
    # Dynamics
    "update_ctrl_amps", "compute_evolution", "initialize_controls", "save_amps",
    # fidelity computers
    "get_fid_err", "get_fid_err_gradient", "get_fidelity", "get_fidelity_prenorm",
    "compute_fid_grad", "compute_fid_err_grad",
    # timeslot computers
    "compare_amps", "recompute_evolution", "dump_current",
    # optimisers
    "fid_err_func_wrapper", "fid_err_grad_wrapper", "iter_step_callback_func",
    "run_optimization", "init_optim",
    # pulse generators
    "gen_pulse", "init_pulse",
]
MODULES = ["dynamics", "fidcomp", "tslotcomp", "optimizer", "pulsegen", "propcomp", "dump", "stats"]

_installed = False
_active = []


def install():
    global _installed
    if _installed:
        return
    import importlib
    for m in MODULES:
        mod = importlib.import_module("qutip_qtrl." + m)
        for _, cls in inspect.getmembers(mod, inspect.isclass):
            if cls.__module__ != mod.__name__:
                continue
            for name in METHODS:
                f = cls.__dict__.get(name)
                if inspect.isfunction(f):
                    setattr(cls, name, _wrap(name, f))
    _installed = True


def _wrap(name, f):
    @functools.wraps(f)
    def w(self, *a, **k):
        if not _active:
            return f(self, *a, **k)
        recs = list(_active)
        outer = []
        for r in recs:
            key = (id(self), name)
            if key in r.depth:
                continue
            r.depth.add(key)
            outer.append((r, key))
        try:
            for r, _ in outer:
                for h in r.before.get(name, ()):
                    h(self, a, k)
            try:
                ret = f(self, *a, **k)
            except Exception as e:
                for r, _ in outer:
                    for h in r.onexc.get(name, ()):
                        h(self, a, k, e)
                raise
            for r, _ in outer:
                r.n[name] = r.n.get(name, 0) + 1
                for h in r.after.get(name, ()):
                    h(self, a, k, ret)
            return ret
        finally:
            for r, key in outer:
                r.depth.discard(key)
    w.__qv_wrapped__ = f
    return w


class Recorder:
    def __init__(self):
        self.before, self.after, self.onexc = {}, {}, {}
        self.depth = set()
        self.n = {}

    def on_before(self, name, h):
        self.before.setdefault(name, []).append(h)

    def on_after(self, name, h):
        self.after.setdefault(name, []).append(h)

    def on_exc(self, name, h):
        self.onexc.setdefault(name, []).append(h)

    def __enter__(self):
        install()
        _active.append(self)
        return self

    def __exit__(self, *a):
        if self in _active:
            _active.remove(self)


class _Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, rec):
        self.records.append((rec.name, rec.levelno, rec.getMessage()))


def qtrl_loggers():
    return [l for n, l in list(logging.root.manager.loggerDict.items())
            if n.startswith("qutip") and isinstance(l, logging.Logger)]


@contextlib.contextmanager
def capture_logs():
    h = _Capture()
    ls = qtrl_loggers()
    for l in ls:
        l.addHandler(h)
    try:
        yield h.records
    finally:
        for l in ls:
            l.removeHandler(h)


class FakeClock:
    """Virtual time: every clock the library could read returns self.t."""
    NAMES = [(timeit, "default_timer"), (time, "time"), (time, "perf_counter"),
             (time, "monotonic"), (time, "process_time")]

    def __init__(self, t=1000.0, step=0.0):
        self.t, self.step, self.reads = t, step, 0

    def __call__(self):
        self.reads += 1
        self.t += self.step
        return self.t

    def __enter__(self):
        self.saved = []
        olds = []
        for mod, n in self.NAMES:
            old = getattr(mod, n)
            olds.append(old)
            self.saved.append((mod, n, old))
            setattr(mod, n, self)
        for mn, mod in list(sys.modules.items()):
            if mn.startswith("qutip_qtrl") and mod is not None:
                for n, v in list(vars(mod).items()):
                    if any(v is o for o in olds):
                        self.saved.append((mod, n, v))
                        setattr(mod, n, self)
        return self

    def __exit__(self, *a):
        for mod, n, old in self.saved:
            setattr(mod, n, old)


def reset_all():
    del _active[:]
    for l in qtrl_loggers():
        if l.level not in (0, logging.WARNING):
            l.setLevel(logging.WARNING)
        l.setLevel(logging.WARNING)


class FileMonitor:
    """Every file or directory the process creates, opens for writing, renames or removes."""
    _installed = False
    _live = []

    def __init__(self):
        self.events = []

    @classmethod
    def _hook(cls, event, args):
        if not cls._live:
            return
        try:
            import os
            if event == "open":
                path, mode, flags = args
                if isinstance(path, int) or path is None:
                    return
                w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or bool(
                    flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
                if not w:
                    return
                kind, p = "write", path
            elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.symlink", "os.link", "os.chmod", "os.truncate"):
                kind, p = event[3:], args[0] if event not in ("os.symlink", "os.link", "os.rename") else args[1]
            elif event.startswith("shutil.") or event in ("subprocess.Popen", "os.system"):
                kind, p = event, args[0] if args else ""
            else:
                return
            p = os.fsdecode(p) if isinstance(p, (str, bytes, os.PathLike)) else str(p)
            if "__pycache__" in p or p == os.devnull:
                return
            p = os.path.abspath(p)
            for m in cls._live:
                m.events.append((kind, p))
        except Exception:
            pass

    def __enter__(self):
        if not FileMonitor._installed:
            sys.addaudithook(FileMonitor._hook)
            FileMonitor._installed = True
        FileMonitor._live.append(self)
        return self

    def __exit__(self, *a):
        FileMonitor._live.remove(self)

    def paths(self, kinds=None):
        return [p for k, p in self.events if kinds is None or k in kinds]
