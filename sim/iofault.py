"""Python side of the file-system simulation (see shim/iofault.c) and generated material trees."""
import ctypes
import errno
import os
import random
import shutil
import tempfile

import numpy as np

from . import universe

ACT = {'err': 1, 'short': 2, 'eintr': 3, 'sticky': 4}
KIND = {1: 'opendir', 2: 'readdir', 3: 'open', 4: 'read'}
KNUM = {'': 0, **{v: k for k, v in KIND.items()}}
NK = os.path.join(universe.PKG, 'nk_data')
_lib = None


def lib():
    global _lib
    if _lib is None:
        path = os.environ.get('VERIF_SHIM')
        if not path or path not in os.environ.get('LD_PRELOAD', ''):
            raise RuntimeError('the I/O shim is not preloaded')
        _lib = ctypes.CDLL(path)
        _lib.sim_count.restype = ctypes.c_long
        _lib.sim_count.argtypes = [ctypes.c_int]
        _lib.sim_log.restype = ctypes.c_long
        _lib.sim_add.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.sim_mode.argtypes = [ctypes.c_uint, ctypes.c_int, ctypes.c_long]
    return _lib


class IO:
    """Context manager: simulate file operations below `prefix` with the given mode and fault list.

    faults: [{'at': n, 'act': 'err'|'short'|'eintr'|'sticky', 'e': errno name or length}]
    """

    def __init__(self, prefix, mode=None, faults=()):
        self.prefix, self.mode, self.faults = prefix, mode or {}, faults
        self.log, self.count = [], {}

    def __enter__(self):
        L = lib()
        L.sim_reset()
        L.sim_prefix(self.prefix.encode())
        L.sim_mode(self.mode.get('order', 0), int(self.mode.get('unknown', 0)), self.mode.get('cap', 0))
        for f in self.faults:
            e = f.get('e', 0)
            L.sim_add(f['at'], ACT[f['act']], getattr(errno, e) if isinstance(e, str) else int(e), KNUM[f.get('on', '')])
        L.sim_arm(1)
        return self

    def __exit__(self, *a):
        L = lib()
        L.sim_arm(0)
        self.count = {'': L.sim_count(0), **{n: L.sim_count(k) for k, n in KIND.items()}}
        inv = {v: k for k, v in ACT.items()}
        for i in range(L.sim_nlog()):
            at, kind, act, err = (L.sim_log(i, j) for j in range(4))
            self.log.append((at, KIND[kind], inv[act], errno.errorcode.get(err, str(err)) if act == 1 else ''))
        return False

    @property
    def hard(self):
        """Faults that fired and that the caller cannot be shielded from."""
        return [x for x in self.log if x[2] == 'err']


def gen_mode(rng):
    m = {}
    if rng.random() < .6:
        m['order'] = rng.randint(1, 10 ** 6)
    if rng.random() < .2:
        m['unknown'] = 1
    if rng.random() < .25:
        m['cap'] = rng.choice([1, 7, 64, 500])
    return m


ERRS = ['EIO', 'EACCES', 'EMFILE', 'ENFILE', 'ENOMEM', 'ESTALE', 'EPERM', 'ENOENT', 'ETIMEDOUT', 'ENXIO', 'EISDIR',
        'EINVAL', 'ENOTDIR']


def gen_faults(rng, n=None):
    out = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        on = rng.choice(['', 'opendir', 'readdir', 'open', 'open', 'read'])
        if r < .55:
            out.append({'pos': round(rng.random(), 6), 'act': 'err', 'e': rng.choice(ERRS), 'on': on})
        elif r < .75:
            out.append({'pos': round(rng.random(), 6), 'act': 'sticky', 'e': rng.choice(ERRS), 'on': on})
        elif r < .9:
            out.append({'pos': round(rng.random(), 6), 'act': 'short', 'e': rng.randint(0, 63), 'on': 'read'})
        else:
            out.append({'pos': round(rng.random(), 6), 'act': 'eintr', 'on': rng.choice(['open', 'read'])})
    return out


def place(faults, n):
    """Positions are fractions of the event count of a fault-free twin."""
    out = []
    for f in faults:
        g = dict(f)
        if 'at' not in g:
            g['at'] = 1 + int(g.pop('pos') * n[g.get('on', '')])
        out.append(g)
    return out


# ------------------------------------------------------------------------------------ generated trees
_roots = {}
_base = None


def base():
    global _base
    if _base is None:
        import atexit
        _base = tempfile.mkdtemp(prefix='verif-nk-')
        atexit.register(shutil.rmtree, _base, True)
    return _base


def gen_tree(rng):
    files = []
    names = [f'MAT{chr(65 + i)}_{rng.choice(["x", "Palik", "2008", "long-name"])}' for i in range(14)]
    rng.shuffle(names)
    dirs = ['', 'a', 'b', 'a/c', 'empty'][:rng.choice([1, 2, 3, 4, 5])]
    for i in range(rng.randint(1, 7)):
        kind = rng.choice(['table', 'table', 'table', 'big', 'formula', 'mat'])
        files.append({'d': rng.choice([d for d in dirs if d != 'empty']), 'n': names[i], 'k': kind,
                      'seed': rng.randint(0, 10 ** 6), 'rows': rng.randint(2, 9) if kind != 'big' else rng.randint(300, 900),
                      'meta': rng.random() < .6})
    return {'dirs': dirs, 'files': files, 'junk': rng.random() < .5}


def content(f):
    r = np.random.RandomState(f['seed'])
    wl = np.round(3e-7 + 1e-8 * np.cumsum(1 + r.randint(0, 5, size=f['rows'])), 12)
    n = np.round(1 + 2 * r.rand(f['rows']), 6)
    k = np.round(r.rand(f['rows']), 6)
    return np.stack([wl, n, k], axis=1)


def build_tree(spec, at=None, keep=0):
    """A directory holding the tree: one of its own, or a place `at` whose earlier content is replaced."""
    import json
    key = json.dumps(spec, sort_keys=True)
    if at is None and key in _roots:
        return _roots[key]
    if keep:                                               # same files, other content: rewritten where they are
        for dp, _, fs in os.walk(os.path.join(base(), at)):
            for n in fs:
                os.truncate(os.path.join(dp, n), 0)
    root = os.path.join(base(), f't{len(_roots):05d}' if at is None else at)
    if at is not None and not keep:
        shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root, exist_ok=bool(keep))
    for d in spec['dirs']:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    if spec['junk']:
        with open(os.path.join(root, 'README.md'), 'w') as fh:
            fh.write('not a table\n')
    for f in spec['files']:
        p = os.path.join(root, f['d'], f['n'])
        a = content(f)
        if f['k'] == 'mat':
            from scipy.io import savemat
            savemat(p + '.mat', {'WL': a[:, :1], 'n': a[:, 1:2], 'k': a[:, 2:3]})
            continue
        with open(p + '.txt', 'w') as fh:
            fh.write('Wavelength(m)\tn\tk\n')
            if f['meta'] or f['k'] == 'formula':
                fh.write(f'# source: simulated {f["seed"]}\n# conditions: run {f["seed"] % 7}\n')
            if f['k'] == 'formula':
                fh.write('# type: formula 1\n# range: 2.1000e-07 - 6.7000e-06 m\n'
                         f'# coefficients: 0 {a[0, 1]} {a[0, 0]:.4e}\n')
            else:
                for row in a:
                    fh.write('%.12e\t%.6f\t%.6f\n' % tuple(row))
    if keep:                                               # (later than before, whatever the clock's resolution)
        for dp, _, fs in os.walk(root):
            for n in fs:
                os.utime(os.path.join(dp, n), (1e9 + keep, 1e9 + keep))
    if at is None:
        _roots[key] = root
    return root


def expected(spec):
    """The complete table data, straight from the generator (independent of the code under test)."""
    out = {}
    for f in spec['files']:
        a = content(f)
        if f['k'] == 'formula':
            out[f['n'].upper()] = ('formula', a[0, 1], float(f'{a[0, 0]:.4e}'))
        else:
            out[f['n'].upper()] = a
    return out


def check_table(spec, got, single=False):
    """None if `got` (a mapping) holds the complete data of every table file, else a description."""
    exp = expected(spec)
    if set(got) != set(exp):
        return f'tables {sorted(set(exp) - set(got))} missing, {sorted(set(got) - set(exp))} unexpected'
    for name, e in exp.items():
        g = got[name]
        if isinstance(e, tuple):
            if not isinstance(g, dict) or [float(x) for x in g['coefficients']] != [0., e[1], e[2]]:
                return f'{name}: coefficients {g}'
            continue
        g = np.asarray(g.detach().cpu().numpy() if type(g).__module__.startswith('torch') else g)
        if g.shape != e.shape:
            return f'{name}: shape {g.shape} != {e.shape}'
        if not np.allclose(g, e, rtol=1e-5 if single else 1e-9, atol=1e-12):
            return f'{name}: data differ'
    return None
