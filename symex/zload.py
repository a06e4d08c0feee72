"""Make z3 importable from the pre-installed tool venv without exposing any other package of it."""
import importlib.machinery
import importlib.util
import sys

_VT = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "z3":
            return importlib.machinery.PathFinder.find_spec(name, _VT)
        return None


if importlib.util.find_spec("z3") is None:
    sys.meta_path.append(_Finder)
import z3  # noqa: E402,F401
