"""Executes /repo's tftb package from its current source with symbolic
stand-ins for numpy/scipy/math/matplotlib and the numeric builtins."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import shim

REPO = os.environ.get("TFTB_REPO", "/repo")


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code = compile(src, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = shim.make_builtins()
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "tftb" and not fullname.startswith("tftb."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        ini = os.path.join(base, "__init__.py")
        if os.path.isfile(ini):
            return importlib.util.spec_from_file_location(
                fullname, ini, loader=_Loader(ini), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_Loader(base + ".py"))
        return None


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, _Finder())
        _installed = True


# --------------------------------------------------------- executed functions
FUNCS = set()


def trace_functions():
    try:
        mon = sys.monitoring
        mon.use_tool_id(3, "symtf")
        root = os.path.join(REPO, "tftb") + os.sep

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(root) and "/tests/" not in fn and not code.co_name.startswith("<"):
                FUNCS.add(fn[len(REPO) + 1:] + ":" + getattr(code, "co_qualname", code.co_name))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    except Exception:
        pass
