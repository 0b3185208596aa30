"""Fresh copies of the code under test.

A simulated process owns its own set of ``bpmn_python`` modules: module state is reset by a
simulated restart exactly as a real one resets it.  Source is read from the repository's working
tree once per host process, compiled once, and executed anew for every simulated process.
"""
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
PKG = "bpmn_python"
PKG_DIR = os.path.join(REPO, PKG)

MODULES = ["bpmn_diagram_rep", "bpmn_diagram_export", "bpmn_diagram_import", "bpmn_diagram_layouter",
           "bpmn_diagram_metrics", "diagram_layout_metrics", "bpmn_process_csv_export",
           "bpmn_process_csv_import", "bpmn_import_utils", "bpmn_diagram_exception",
           "bpmn_diagram_visualizer", "bpmn_python_consts"]


class _Loader(importlib.abc.Loader):
    def __init__(self, code):
        self.code = code

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Serves bpmn_python from the working tree, compiling each file once."""

    def __init__(self):
        self.cache = {}

    def _code(self, path):
        if path not in self.cache:
            with open(path, "rb") as f:
                src = f.read()
            self.cache[path] = compile(src, path, "exec", dont_inherit=True)
        return self.cache[path]

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = fullname.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(fullname, _Loader(self._code(p)), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            p = base + ".py"
            spec = importlib.util.spec_from_loader(fullname, _Loader(self._code(p)), origin=p)
        else:
            return None
        spec.has_location = True
        return spec


FINDER = Finder()


def _stub_pyplot():
    """There is no screen: keep matplotlib (and its font cache) out of the simulation; whatever is called does nothing."""
    if "matplotlib" not in sys.modules:
        mpl = types.ModuleType("matplotlib")
        mpl.pyplot = types.ModuleType("matplotlib.pyplot")

        def missing(name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: None
        mpl.pyplot.__getattr__ = missing
        sys.modules["matplotlib"] = mpl
        sys.modules["matplotlib.pyplot"] = mpl.pyplot


def install():
    _stub_pyplot()
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)


def purge():
    out = {}
    for k in list(sys.modules):
        if k == PKG or k.startswith(PKG + "."):
            out[k] = sys.modules.pop(k)
    return out


def fresh():
    """Imports a new copy of the whole package; returns {name: module} of that copy."""
    install()
    saved = purge()
    try:
        importlib.import_module(PKG)
        for m in MODULES:
            full = PKG + "." + m
            if importlib.util.find_spec(full) is not None:
                importlib.import_module(full)
        mods = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}
        f = mods[PKG + ".bpmn_diagram_rep"].__file__
        if not f.startswith(REPO + os.sep):
            raise RuntimeError("code under test comes from %s" % f)
        return mods
    finally:
        purge()
        sys.modules.update(saved)


def activate(mods):
    """Makes this copy the one that ``import bpmn_python...`` finds; new submodules join it later."""
    purge()
    sys.modules.update(mods)
