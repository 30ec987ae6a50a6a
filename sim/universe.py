"""Pristine, isolated instances ("universes") of the meent package, built from /repo's working tree.

Every simulated run gets its own universe, so nothing a run leaves behind in module globals, class
attributes, default arguments or memo tables can reach another run; every *reference* evaluation gets a
brand-new universe too, so process-wide state polluted by the system under test can never leak into the
oracle and hide the violation.  Source text is read from /repo and compiled once per worker process;
making a universe is only the execution of the (already compiled) module bodies.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'meent')

_code_cache = {}          # (flavour, path) -> code object


def _code(flavour, path):
    key = (flavour, path)
    if key not in _code_cache:
        with open(path, 'rb') as f:
            src = f.read()
        _code_cache[key] = compile(src, path, 'exec', dont_inherit=True)
    return _code_cache[key]


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_code(_current[0], self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'meent' and not name.startswith('meent.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(PKG, *rel)
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, _Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + '.py'):
            spec = importlib.machinery.ModuleSpec(name, _Loader(base + '.py'), origin=base + '.py')
        elif os.path.isdir(base):
            return None
        else:
            return None
        spec.has_location = True
        return spec


_current = ['ref']        # flavour of the universe being built / active
_stack = []


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def _pop_meent():
    out = {}
    for k in [k for k in sys.modules if k == 'meent' or k.startswith('meent.')]:
        out[k] = sys.modules.pop(k)
    return out


BACKENDS = {0: 'on_numpy', 1: 'on_jax', 2: 'on_torch'}


class Universe:
    """A private copy of the package.  Use as a context manager around every call into it."""

    def __init__(self, flavour, backends=(0,)):
        install()
        self.flavour = flavour
        self.mods = {}
        with self:
            import meent
            self.meent = meent
            for b in backends:
                importlib.import_module(f'meent.{BACKENDS[b]}')
                importlib.import_module(f'meent.{BACKENDS[b]}.mee')

    def mod(self, name):
        with self:
            return importlib.import_module(name)

    def modeling(self, b):
        return self.mod(f'meent.{BACKENDS[b]}.modeler.modeling')

    def primitives(self, b):
        return self.mod(f'meent.{BACKENDS[b]}.emsolver.primitives')

    def __enter__(self):
        if _stack and _stack[-1][2] is self:                 # already active (an operation inside another one)
            _stack.append((None, _current[0], self))
            return self
        saved = _pop_meent()
        _stack.append((saved, _current[0], self))
        sys.modules.update(self.mods)
        _current[0] = self.flavour
        return self

    def __exit__(self, *exc):
        saved, flavour, _ = _stack.pop()
        if saved is None:
            return False
        self.mods = _pop_meent()
        sys.modules.update(saved)
        _current[0] = flavour
        return False


def is_meent_file(path):
    return path.startswith(PKG + os.sep)
