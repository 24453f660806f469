"""Optional packages of the simulated installation: missing, failing, coming back."""
import builtins, importlib, sys
import engine, world
from world import harness, seam
from oracles import oracle, ORACLES

PACKAGES = ["matplotlib", "xarray", "pywt", "falwa"]
_away = {}          # package -> its modules, while it is missing


class Missing:
    """Stands before all other finders: the package is not installed."""
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in _away:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None

def lose(p):
    if p not in _away:
        _away[p] = {n: sys.modules.pop(n) for n in list(sys.modules) if n == p or n.startswith(p + ".")}

def regain(p):
    sys.modules.update(_away.pop(p, {}))

def guard():
    """Imports of optional packages by the package under test are fault points."""
    orig = builtins.__import__
    def guarded(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and engine.CURRENT is not None and name.split(".")[0] in PACKAGES and globals \
                and str(globals.get("__name__", "")).startswith("barotropic"):
            seam("import", name)
        return orig(name, globals, locals, fromlist, level)
    builtins.__import__ = guarded

def setup(blocked):
    """In the process of a run: the package is imported anew where some optional
    packages are missing.  Returns None or what went wrong."""
    sys.meta_path.insert(0, Missing())
    for p in blocked:
        lose(p)
    for n in list(sys.modules):
        if n == "barotropic" or n.startswith("barotropic."):
            del sys.modules[n]
    try:
        world.bt = importlib.import_module("barotropic")
    except Exception as e:
        return f"import without {', '.join(blocked) or 'nothing'}: {type(e).__name__}: {e}"
    guard()

@harness
def missing(env, p):
    lose(p)
    return "lost"

@harness
def available(env, p):
    regain(p)
    return "back"

@oracle
def optional(spec, op, c, ctx):
    """Fails while a package it needs is missing, else is as with all packages."""
    if op["missing"]:
        if c[0] != "E":
            return f"worked without {op['missing']}: {world.short(c)}"
        return None
    return ORACLES["pristine"](spec, op, c, ctx)
