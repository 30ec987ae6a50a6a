"""Settings model, value realisation and observation, shared by the system under test and the oracle.

A *model* M is the plain-data record of what the caller last successfully asked a solver to be; the
reference for any observation is a brand-new solver built from M in a pristine universe.
"""
import copy
import json

import numpy as np

ATTRS = ('n_top', 'n_bot', 'theta', 'phi', 'fto', 'period', 'wavelength', 'thickness', 'ucell',
         'type_complex', 'fourier_type', 'enhanced_dfs', 'use_pinv')

_torch = _jnp = None


def torch():
    global _torch
    if _torch is None:
        import torch as t
        t.set_num_threads(1)
        _torch = t
    return _torch


def jnp():
    global _jnp
    if _jnp is None:
        import jax
        jax.config.update('jax_enable_x64', True)
        import jax.numpy as j
        _jnp = j
    return _jnp


def native(arr, b):
    if b == 0:
        return np.array(arr)
    if b == 1:
        return jnp().array(arr)
    return torch().tensor(arr)


# ---------------------------------------------------------------------------------- realisation
DT = {'f8': np.float64, 'f4': np.float32, 'i8': np.int64, 'i4': np.int32, 'c16': np.complex128,
      'c8': np.complex64, 'b1': np.bool_, 'i1': np.int8, 'u1': np.uint8}


def raster(spec):
    if 'data' in spec:
        a = np.array(spec['data'], dtype=np.float64)
        for idx, val in spec.get('e', ()):
            a[tuple(idx)] = val
        return a
    L, ny, nx = spec['L'], spec['ny'], spec['nx']
    r = np.random.RandomState(spec['seed'])
    dt = DT[spec.get('dt', 'f8')]
    shape = (L, ny, nx) + ((3,) if spec.get('an') else ())
    if spec.get('nd'):                       # wrong dimensionality, for rejected assignments
        shape = (L,) * spec['nd']
    a = np.where(r.rand(*shape) < 0.5, 1.0, 1.5 + 0.25 * r.randint(0, 8, size=shape))
    a.reshape(-1)[0], a.reshape(-1)[-1] = 1.0, 2.25      # never a homogeneous cell by accident
    if spec.get('dt', 'f8') in ('c16', 'c8'):
        a = a - 0.05j * r.randint(0, 3, size=shape)
    a = a.astype(dt)
    if spec.get('e') and a.dtype.kind in 'iub':
        a = a.astype(np.float64)
    if spec.get('tr'):                       # the same numbers, arranged another way
        a = np.ascontiguousarray({'flipx': lambda: a[:, :, ::-1], 'rollx': lambda: np.roll(a, 1, axis=2), 'layers': lambda: a[::-1],
                                  'shape': lambda: a.reshape((L, nx, ny) + shape[3:]), 'conj': lambda: a.conj() - .0}[spec['tr']]())
    for idx, val in spec.get('e', ()):
        a[tuple(idx)] = val
    return a


def entry(x, b):
    """One value inside a vector instruction: a number, or {'c'} complex, {'t'} one-element array, {'v'} index per axis."""
    if not isinstance(x, dict):
        return x
    if 'c' in x:
        return complex(*x['c'])
    if 'v' in x:
        return list(x['v'])
    if 'vt' in x:
        return torch().tensor(x['vt'], dtype=torch().float64)
    return torch().tensor([x['t']], dtype=torch().float64) if b == 2 else native(np.array([x['t']]), b)


def realise_ucell(spec, form, b):
    if spec is None:
        return None
    if isinstance(spec, str):                # invalid kinds of object
        return {'str': 'abc', 'tuple': ((1., 2.),), 'int': 3, 'dict': {}}[spec]
    if spec['k'] == 'v':
        return [[entry(base, b), [[entry(x, b) for x in o] for o in objs]] for base, objs in spec['layers']]
    a = raster(spec)
    return native(a, b) if form == 'native' else a


def realise(attr, v, form, b):
    if attr == 'ucell':
        return realise_ucell(v, form, b)
    if v is None or form == 'py':
        if isinstance(v, dict):              # {'c': [re, im]}
            return complex(*v['c'])
        return copy.deepcopy(v)
    if form == 'tuple':
        return tuple(v)
    if form == 'np':
        return np.array(v)
    if form == 'np0':                        # a numpy scalar
        return np.float64(v)
    if form == 'len1':
        return [v[0]]
    if form == 'native':
        return native(v, b)
    if form == 'scalar':
        return v[0]
    if form == 'str':
        return 'bad'
    if form == 'flt':
        return float(v)
    if form == 'obj':
        return object()
    raise KeyError(form)


def kwargs_of(M, b, reg=None):
    kw = {}
    for a, (v, f) in M.items():
        if a == 'pp':
            continue
        kw[a] = reg(a, v, f, b) if reg else realise(a, v, f, b)
    if 'pp' in M:
        kw[M['pp'][0][0]] = M['pp'][0][1]
    return kw


def build(u, b, M, reg=None):
    return u.meent.call_mee(backend=b, **kwargs_of(M, b, reg))


# ---------------------------------------------------------------------------------- observation
FIELDS = ('R_s', 'R_p', 'T_s', 'T_p', 'de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')


def to_np(x):
    if x is None:
        return None
    if type(x).__module__.startswith('torch'):
        return x.detach().cpu().resolve_conj().resolve_neg().numpy().copy()
    return np.array(x)


def obs_result(res):
    out = {}
    for part in ('res', 'res_te_inc', 'res_tm_inc'):
        sub = getattr(res, part)
        if sub is None:
            out[part] = None
        else:
            for f in FIELDS:
                out[f'{part}.{f}'] = to_np(getattr(sub, f))
    out['de_ri'] = to_np(res.de_ri)
    out['de_ti'] = to_np(res.de_ti)
    return out


def obs_tree(x):
    """Plain numpy structure of nested lists/tuples/dicts of arrays."""
    if isinstance(x, dict):
        return {str(k): obs_tree(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [obs_tree(v) for v in x]
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, (float, complex)):
        return np.array(x)
    return to_np(x)


def result_leaves(res):
    """Every array object reachable from a returned result (live objects, not copies)."""
    out = []
    for part in ('res', 'res_te_inc', 'res_tm_inc'):
        sub = getattr(res, part, None)
        if sub is not None:
            for f in FIELDS:
                out.append((f'{part}.{f}', getattr(sub, f)))
    return out


def tree_leaves(x, path='v'):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from tree_leaves(v, f'{path}.{k}')
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from tree_leaves(v, f'{path}[{i}]')
    else:
        yield path, x


def diff(a, b, tol, floor=1.0, precision=True):
    """None if observation a matches reference b, else a short description of the first difference."""
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return f'structure {sorted(a) if isinstance(a, dict) else type(a).__name__} != {sorted(b)}'
        for k in b:
            d = diff(a[k], b[k], tol, floor, precision)
            if d:
                return f'{k}: {d}'
        return None
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return f'length {len(a) if isinstance(a, list) else type(a).__name__} != {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, floor, precision)
            if d:
                return f'[{i}] {d}'
        return None
    if b is None or isinstance(b, (str, bool, int)):
        if isinstance(a, np.ndarray) or a != b:
            return f'{a!r:.60} != {b!r:.60}'
        return None
    if a is None:
        return 'missing'
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} != {b.shape}'
    if a.size == 0:
        return None
    if a.dtype == object or b.dtype == object:
        return None if bool(np.all(a == b)) else 'object arrays differ'
    if precision and a.dtype.kind in 'fc' and b.dtype.kind in 'fc' and a.real.dtype != b.real.dtype:
        return f'precision {a.dtype} != {b.dtype}'
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return 'NaN pattern differs'
    with np.errstate(all='ignore'):
        fin = np.isfinite(a) & np.isfinite(b)
        if not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return 'finite pattern differs'
        if not fin.any():
            return None
        scale = max(floor, float(np.max(np.abs(b[fin]))))
        err = float(np.max(np.abs(a[fin].astype(complex) - b[fin].astype(complex))))
    if err > tol * scale:
        return f'differs by {err:.3g} (scale {scale:.3g})'
    return None


def all_finite(x):
    if isinstance(x, dict):
        return all(all_finite(v) for v in x.values())
    if isinstance(x, list):
        return all(all_finite(v) for v in x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return bool(np.all(np.isfinite(x)))
    return True


def maxabs(x):
    if isinstance(x, dict):
        return max([maxabs(v) for v in x.values()] or [0.])
    if isinstance(x, list):
        return max([maxabs(v) for v in x] or [0.])
    if isinstance(x, np.ndarray) and x.dtype != object and x.size:
        return float(np.max(np.abs(x)))
    return 0.


def jkey(*parts):
    return json.dumps(parts, sort_keys=True, default=str)
