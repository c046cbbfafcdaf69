"""The modules as a build without compiled extensions exports them."""
import builtins
import importlib.util
import os
import sys

_cache = {}


def load(modname):
    """Import a second copy of geoana's module with its compiled extension blocked; None where that cannot be done."""
    if modname in _cache:
        return _cache[modname]
    mod = None
    try:
        spec0 = importlib.util.find_spec(modname)
        path = spec0.origin
        if path and path.endswith(".py") and os.path.exists(path):
            real = builtins.__import__

            def blocked(name, globals=None, locals=None, fromlist=(), level=0):
                if "_extensions" in name or (fromlist and any("_extensions" in str(f) for f in fromlist)):
                    raise ImportError(f"{name} blocked")
                return real(name, globals, locals, fromlist, level)
            hidden = {k: sys.modules[k] for k in list(sys.modules) if "geoana.kernels._extensions" in k}
            spec = importlib.util.spec_from_file_location(modname + "_pure", path)
            mod = importlib.util.module_from_spec(spec)
            builtins.__import__ = blocked
            try:
                spec.loader.exec_module(mod)
            finally:
                builtins.__import__ = real
                sys.modules.update(hidden)
    except Exception:
        mod = None
    _cache[modname] = mod
    return mod
