import os as _os, sys as _sys, types as _types
_src = _os.environ.get("QV_REPO_SRC", "/repo/src")
if not _os.path.exists(_os.path.join(_src, "qutip_qtrl", "version.py")):
    # version.py is generated by the build and git-ignored; only its text is used
    _m = _types.ModuleType("qutip_qtrl.version")
    _m.version = _m.short_version = "0.0.0"
    _sys.modules["qutip_qtrl.version"] = _m
