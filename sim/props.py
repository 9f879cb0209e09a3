"""Registry of the property workloads (runs inside the simulated process)."""
import importlib

MODULES = {}
_MODS = ['p_io', 'p_thr', 'p_fail', 'p_mem', 'p_model', 'p_plot', 'p_prim', 'p_hist']


def preload(cfg):
    import core
    for m in _MODS:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if hasattr(mod, 'preload'):
            mod.preload(cfg)
        MODULES.update(mod.PROPS)


def get(name):
    return MODULES[name]
