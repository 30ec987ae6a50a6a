"""Numerical-library seam: the factorisations of numpy, torch and JAX behind a switch the simulator owns.

The wrappers are installed before any universe is created and pass straight through unless armed, so every
spelling used by the code under test (np.linalg.inv, torch.linalg.inv, from-imports, ...) goes through them.
When armed, the n-th factorisation made by the operation fails the way the real library fails.
"""
import threading

import numpy as np

from . import model as md

NAMES = ('eig', 'inv', 'pinv', 'solve', 'svd', 'lstsq', 'eigh', 'qr')


class Lib:
    def __init__(self):
        self.installed = set()
        self.mode = 'off'
        self.n = 0
        self.at = ()
        self.fired = []
        self.thread = None
        self.per = None

    def install(self, b):
        if b in self.installed:
            return
        self.installed.add(b)
        if b == 0:
            self._wrap(np.linalg, NAMES, lambda: np.linalg.LinAlgError('simulated: did not converge'))
        elif b == 2:
            self.install(0)                     # the torch backend falls back to numpy
            self.tmode = torch_mode(self)
        elif b == 1:
            j = md.jnp()
            try:
                from jaxlib.xla_extension import XlaRuntimeError as X
            except Exception:
                X = RuntimeError
            # eig is left alone: the code jits it, so whether Python reaches it depends on JAX's trace cache
            self._wrap(j.linalg, ('inv', 'pinv', 'solve'), lambda: X('simulated: INTERNAL: factorisation failed'))

    tmode = None

    def event(self, name, exc):
        """One factorisation by the operation under test; True if it must fail."""
        self.n += 1
        self.names.append(name)
        if self.mode == 'fault':
            hit = self.n in self.at
            if not hit and self.per:
                k = self.per_n[name] = self.per_n.get(name, 0) + 1
                hit = 'all' in self.per.get(name, ()) or k in self.per.get(name, ())
            if hit:
                self.fired.append((self.n, name))
                return True
        return False

    def _wrap(self, mod, names, exc):
        for name in names:
            f = getattr(mod, name, None)
            if f is not None:
                setattr(mod, name, self._wrapper(f, name, exc, mod))

    def _wrapper(self, f, name, exc, mod):
        lib = self

        def call(*a, **k):
            if lib.mode != 'off' and threading.get_ident() == lib.thread and not lib.inside:
                if lib.event('np.' + name if mod is np.linalg else name, exc):
                    raise exc()
                lib.inside = True
                try:
                    return f(*a, **k)
                finally:
                    lib.inside = False
            return f(*a, **k)
        call.__name__ = name
        call.__wrapped__ = f
        return call

    inside = False

    def _begin(self, mode, at=(), per=None):
        self.mode, self.n, self.at, self.per, self.per_n = mode, 0, frozenset(at), per, {}
        self.fired, self.names, self.cond = [], [], 1.
        self.thread, self.inside = threading.get_ident(), False

    def _call(self, fn, torch):
        if torch:
            with self.tmode:
                return fn()
        return fn()

    def count(self, fn, torch=False):
        self._begin('count')
        try:
            self._call(fn, torch)
        except Exception:
            pass
        finally:
            self.mode = 'off'
        return self.n

    def run(self, fn, at=(), per=None, torch=False):
        self._begin('fault', at, per)
        try:
            return self._call(fn, torch), None, list(self.fired)
        except Exception as e:
            return None, e, list(self.fired)
        finally:
            self.mode = 'off'


T_INV = {'linalg_inv': 'inv', 'inverse': 'inv', 'linalg_inv_ex': 'inv', 'linalg_pinv': 'pinv', 'pinverse': 'pinv',
         'linalg_solve': 'solve', 'linalg_solve_ex': 'solve', 'linalg_eig': 'eig', 'linalg_svd': 'svd', 'svd': 'svd',
         'linalg_lstsq': 'lstsq', 'linalg_lu_factor': 'lu', 'linalg_eigh': 'eigh'}


def torch_mode(lib):
    t = md.torch()
    from torch.overrides import TorchFunctionMode

    class Mode(TorchFunctionMode):
        def __torch_function__(self, func, types, args=(), kwargs=None):
            n = T_INV.get(getattr(func, '__name__', ''))
            kwargs = kwargs or {}
            if n is not None and lib.mode != 'off' and threading.get_ident() == lib.thread and not lib.inside:
                fail = lib.event(n, None)
                if lib.mode == 'count' and n in ('inv', 'pinv'):
                    try:
                        with t.no_grad():
                            lib.cond = max(lib.cond, float(t.linalg.cond(args[0].detach().to(t.complex128)).max()))
                    except Exception:
                        lib.cond = float('inf')
                if fail:
                    if func.__name__.endswith('_ex'):
                        out, info = func(*args, **kwargs)[:2]
                        return t.full_like(out, float('nan')), t.ones_like(info)
                    raise t.linalg.LinAlgError(f'linalg.{n}: simulated: the algorithm failed to converge')
                lib.inside = True
                try:
                    return func(*args, **kwargs)
                finally:
                    lib.inside = False
            return func(*args, **kwargs)
    return Mode()


LIB = Lib()
