"""Execution of one simulated world: real meent solvers driven by a plan of operations and faults."""
import contextlib
import copy
import hashlib
import json
import random
import sys

import numpy as np

from . import model as md
from .events import SEAM, SimDeadlock, StepLimit
from .libfault import LIB
from .universe import Universe

TOL = {0: 2e-8, 1: 2e-3}


# ------------------------------------------------------------------------------------- injected faults
class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class SimOSError(OSError):
    pass


class SimTimeout(Exception):
    """Raised by the caller's signal handler (an alarm), so an ordinary exception at an arbitrary line."""


_lin = {}


def exc_for(kind, b):
    if kind == 'int':
        return SimInterrupt
    if kind == 'mem':
        return SimMemoryError
    if kind == 'tmo':
        return lambda: SimTimeout('simulated: alarm')
    if kind == 'oom':
        return lambda: oom(b)
    if kind == 'io':
        return lambda: SimOSError(5, 'simulated I/O error')
    if kind == 'lin':
        if b not in _lin:
            if b == 0:
                base = np.linalg.LinAlgError
            elif b == 2:
                base = md.torch().linalg.LinAlgError
            else:
                try:
                    from jaxlib.xla_extension import XlaRuntimeError as base
                except Exception:
                    base = RuntimeError
            _lin[b] = type('SimLinAlgError', (base,), {})
        cls = _lin[b]
        return lambda: cls('simulated failure inside the numerical library')
    raise KeyError(kind)


def oom(b):
    """An allocation failure the way the backend's own library reports it."""
    if b == 2:
        return RuntimeError("[enforce fail at alloc_cpu.cpp:83] err == 0. DefaultCPUAllocator: can't allocate memory: you "
                            'tried to allocate 68719476736 bytes. Error code 12 (Cannot allocate memory)')
    if b == 1:
        try:
            from jaxlib.xla_extension import XlaRuntimeError as X
        except Exception:
            X = RuntimeError
        return X('RESOURCE_EXHAUSTED: Out of memory allocating 68719476736 bytes.')
    return np.core._exceptions._ArrayMemoryError((65536, 65536), np.dtype(np.complex128))


CALL_ONLY = {'int': False, 'tmo': False, 'oom': True, 'mem': True, 'io': True, 'lin': True}
# kinds: tmo  an alarm handler's exception, likewise      oom  allocation failure as the numerical library reports it
#        int  interrupt before any source line          mem  allocation failure at a line that makes a call
#        lin  numerical-library failure at a call line   lib  the n-th factorisation itself fails (libfault.py)
#        fs   simulated file-system faults (iofault.py)


# ------------------------------------------------------------------------------------- operations
def material(u, m):
    if not isinstance(m, dict):
        return m
    if 'g' in m:
        return u.meent.graphene_falkovsky(*m['g'])
    return {'formula': m['s'][0], 'coefficients': list(m['s'][1]), 'wavelength_range': tuple(m['s'][2])}


def mat_args(u, b, a):
    r = np.random.RandomState(a['seed'])
    ucell = r.randint(0, len(a['mats']), size=a['shape']).astype(float)
    mats = []
    for m in a['mats']:
        mats.append(material(u, m))
    return ucell, mats, a['wl']


def draw_args(obj, b, op):
    """Object lists made with the solver's own shape functions; edges deliberately coincide."""
    layers = []
    for base, shapes in op['u']['layers']:
        objs = []
        for sh in shapes:
            objs += getattr(obj, sh[0])(*sh[1:])
        layers.append([base, objs])
    return layers


def nk_args(u, b, op):
    from . import iofault
    table = u.modeling(b).read_material_table(iofault.build_tree(op['tree']))
    names = sorted(table)
    mat = op['mat']
    if isinstance(mat, dict):
        mat = material(u, mat)
    else:
        mat = names[mat % len(names)] + ('__real' if op.get('real') else '')
    wl = op['wl']
    return table, mat, (np.array(wl) if isinstance(wl, list) else wl)


_losses = {}


def make_loss(b, lid):
    """One function object per loss, as a caller would have, so that anything keyed on it is exposed."""
    if (b, lid) not in _losses:
        _losses[b, lid] = _make_loss(b, lid)
    return _losses[b, lid]


def _make_loss(b, lid):
    """Fixed, non-symmetric functional of the diffraction efficiencies (lid selects the weights)."""
    def loss(res):
        tot = 0.
        for k, arr in enumerate((res.de_ri, res.de_ti)):
            n = 1
            for d in arr.shape:
                n *= int(d)
            w = np.cos(0.7 * np.arange(n) + lid + k).reshape([int(d) for d in arr.shape])
            if b == 2:
                w = md.torch().tensor(w, dtype=arr.dtype)
            tot = tot + (arr * w).sum()
        return tot
    return loss


def act(u, obj, b, op, reg):
    """Perform op on a live solver through its public API.  Returns (live value, plain observation)."""
    k = op['op']
    if k == 'solve':
        kw = {a: reg(a, v, f, b) for a, (v, f) in (op.get('kw') or {}).items() if a != 'pp'}
        if 'pp' in (op.get('kw') or {}):
            n, v = op['kw']['pp'][0]
            kw[n] = v
        res = obj.conv_solve(**kw)
        return res, md.obs_result(res)
    if k == 'field':
        f = obj.calculate_field(res_x=op['r'][0], res_y=op['r'][1], res_z=op['r'][2],
                                set_field_input=tuple(op['sfi']))
        return f, md.obs_tree(f)
    if k == 'sf':
        res, f = obj.conv_solve_field(op['r'][0], op['r'][1], op['r'][2], tuple(op['sfi']))
        return [res, f], [md.obs_result(res), md.obs_tree(f)]
    if k == 'mat':
        ucell, mats, wl = reg.mat(u, b, op['m']) if hasattr(reg, 'mat') else mat_args(u, b, op['m'])
        r = obj.put_refractive_index_in_ucell(ucell, mats, wl)
        return r, md.obs_tree(r)
    if k == 'vec':
        layers = reg('ucell', op['u'], 'py', b)
        r = obj.modeling_vector_instruction(layers)
        return r, md.obs_tree(r)
    if k == 'grad':
        pois = list(op['pois'])
        fwd = obj.conv_solve
        if op.get('fwdraise'):
            def fwd(**kw):
                obj.conv_solve(**kw)
                raise SimOSError(5, 'simulated failure inside the caller-supplied forward')
        g = obj.grad(pois, fwd, op_loss(b, op))
        return g, md.obs_tree(g)
    if k == 'vgrad':
        g = vgrad(obj, b, op)
        return g, md.obs_tree(g)
    if k == 'graphene':
        spec = u.meent.graphene_falkovsky(*op['g'])
        wl = op['wl']
        r = u.modeling(b).find_nk_index(spec, {}, np.array(wl) if isinstance(wl, list) else wl)
        return [spec, r], md.obs_tree([spec, r])
    if k == 'fit':
        r = fit(obj, b, op)
        return r, {a: md.to_np(getattr(obj, a)) for a in op['pois']}
    if k == 'draw':
        layers = reg.draw(u, obj, b, op) if hasattr(reg, 'draw') else draw_args(obj, b, op)
        r = obj.draw(layers)
        return r, md.obs_tree(r)
    if k == 'nk':
        m = u.modeling(b)
        table, mat, wl = reg.nk(u, b, op) if hasattr(reg, 'nk') else nk_args(u, b, op)
        r = m.find_nk_index(mat, table, wl)
        return r, md.obs_tree(r)
    if k == 'table':
        from . import iofault
        r = u.modeling(b).read_material_table(iofault.build_tree(op['tree']))
        return r, md.obs_tree(r)
    if k == 'list':
        from . import iofault, tables
        r = tables.call(u, b, op, iofault.build_tree(op['tree']) if op['tree'] else None)
        return r, md.obs_tree(r)
    if k == 'set':
        a, v, f = op['a'], op['v'], op['f']
        if a == 'pp':
            setattr(obj, v[0], v[1])
        else:
            setattr(obj, a, reg(a, v, f, b))
        return None, None
    raise KeyError(k)


def fit(obj, b, op, loss=None):
    loss = loss or op_loss(b, op)
    pois = list(op['pois'])
    if b == 2:
        return obj.fit(pois, obj.conv_solve, loss, md.torch().optim.SGD, {'lr': op['lr']}, op['n'])
    import optax
    return obj.fit(pois, obj.conv_solve, loss, optax.sgd(op['lr']), op['n'])


def vgrad(obj, b, op):
    """d loss / d (sizes inside a vector cell) by the caller's own autograd; the cell stays assigned."""
    loss = make_loss(b, op['loss'])
    num = md.realise_ucell(op['u'], 'py', b)
    vals = [num[l][1][o][j] for l, o, j in op['par']]

    def cell(ps):
        c = md.realise_ucell(op['u'], 'py', b)
        for (l, o, j), p in zip(op['par'], ps):
            c[l][1][o][j] = p
        return c
    if b == 2:
        t = md.torch()
        ps = [t.tensor([v], dtype=t.float64, requires_grad=True) for v in vals]
        obj.ucell = cell(ps)
        loss(obj.conv_solve()).backward()
        obj.ucell = num
        return [p.grad for p in ps]
    import jax

    def f(ps):
        obj.ucell = cell(ps)
        return loss(obj.conv_solve())
    try:
        return jax.grad(f)([md.jnp().array([v]) for v in vals])
    finally:
        obj.ucell = num


def op_loss(b, op):
    base = make_loss(b, op.get('loss', 0))
    if not op.get('lossraise'):
        return base

    def loss(res):
        raise SimOSError(5, 'simulated failure inside the caller-supplied loss')
    return loss


def plain(a, v, f, b):
    return md.realise(a, v, f, b)


# ------------------------------------------------------------------------------------- references
class Outcome:
    __slots__ = ('obs', 'exc')

    def __init__(self, obs=None, exc=None):
        self.obs, self.exc = obs, exc


_ref_memo = {}


def prepare(u, b, M, op, reg=plain):
    obj = md.build(u, b, M, reg)
    if op['op'] == 'field':
        obj.conv_solve()
    return obj


def reference(b, M, op):
    """Outcome of op on a brand-new solver with settings M in a pristine universe."""
    o = {k: v for k, v in op.items() if k not in ('s', 'fault', 'own')}
    key = md.jkey(b, M, o)
    if key in _ref_memo:
        return _ref_memo[key]
    u = Universe('ref', (b,))
    with u:
        try:
            obj = prepare(u, b, M, op)
            _, obs = act(u, obj, b, op, plain)
            out = Outcome(obs, None)
        except Exception as e:
            out = Outcome(None, e)
    if len(_ref_memo) > 4000:
        _ref_memo.clear()
    _ref_memo[key] = out
    return out


def crash_point(b, M, op, fault, call_only):
    """Where in op the fault strikes, measured on a throw-away twin."""
    u = Universe('sut', (b,))
    SEAM.instrument()
    with u:
        try:
            obj = prepare(u, b, M, op)
        except Exception:
            return 1
        fn = lambda: act(u, obj, b, op, plain)
        try:
            SEAM.count(fn, call_only)
        except BaseException:
            pass
        return SEAM.place(fault)


def count_lib(b, M, op):
    """Number of factorisations op makes (measured on a throw-away twin)."""
    LIB.install(b)
    key = md.jkey('lib', b, M, {k: v for k, v in op.items() if k not in ('s', 'fault', 'own')})
    if key in _ref_memo:
        return _ref_memo[key]
    u = Universe('ref', (b,))
    with u:
        try:
            obj = prepare(u, b, M, op)
        except Exception:
            return 0
        _ref_memo[key] = LIB.count(lambda: act(u, obj, b, op, plain), torch=b == 2)
    return _ref_memo[key]


_fs_memo = {}


def fs_events(b, op, mode):
    from . import iofault
    key = (b, (mode or {}).get('cap', 0))
    if key not in _fs_memo:
        u = Universe('ref', (b,))
        with u, iofault.IO(iofault.NK, mode) as io:
            u.modeling(b).read_material_table()
        _fs_memo[key] = io.count
    return _fs_memo[key]


def metric(op, tol):
    """(tolerance, scale floor, compare precisions): gradients are judged relative to their own size, and have the
    precision of the parameter, which a later change of type_complex leaves alone."""
    return (max(tol, 1e-6), 1e-5, False) if op['op'] in ('grad', 'vgrad') else (tol, 1.0, True)


def unstable(b, M, op, tol):
    """True if the reference itself is ill-conditioned here: an input change of 1e-11 moves it by more than tol/10
    (Wood anomalies, degenerate modes under differentiation).  Consulted only after a mismatch."""
    base = reference(b, M, op)
    if base.exc is not None:
        return False
    for a, f in (('wavelength', 1e-11), ('thickness', 1e-11), ('period', 1e-11)):
        M1 = copy.deepcopy(M)
        v = M1[a][0]
        M1[a][0] = v * (1 + f) if not isinstance(v, list) else [x * (1 + f) for x in v]
        r = reference(b, M1, op)
        if r.exc is not None or md.diff(r.obs, base.obs, metric(op, tol)[0] / 10, metric(op, tol)[1]):
            return True
    return False


# ------------------------------------------------------------------------------------- registries
class Inputs:
    """Caller-owned objects handed to the library, with bit-exact snapshots."""

    def __init__(self):
        self.d = {}
        self.extra = []

    def __call__(self, a, v, f, b):
        key = md.jkey(a, v, f, b if f == 'native' or isinstance(v, dict) and v.get('k') == 'v' else 0)
        if key not in self.d:
            live = md.realise(a, v, f, b)
            self.d[key] = (live, snap(live), a)
        return self.d[key][0]

    def mat(self, u, b, m):
        key = md.jkey('mat', m)
        if key not in self.d:
            live = mat_args(u, b, m)
            self.d[key] = (live, snap(live), 'material arguments')
        return self.d[key][0]

    def draw(self, u, obj, b, op):
        key = md.jkey('draw', op['u'], b, id(obj))
        if key not in self.d:
            live = draw_args(obj, b, op)
            self.d[key] = (live, snap(live), 'object list given to draw')
        return self.d[key][0]

    def nk(self, u, b, op):
        key = md.jkey('nk', {k: op.get(k) for k in ('tree', 'mat', 'wl', 'real')}, b)
        if key not in self.d:
            live = nk_args(u, b, op)
            self.d[key] = (live, snap(live), 'material table / specification / wavelengths given to find_nk_index')
        return self.d[key][0]

    def changed(self):
        for key, (live, s, a) in self.d.items():
            if not same(live, s):
                return f'{a} ({key[:120]})'
        return None


@contextlib.contextmanager
def grad_mode():
    t = sys.modules.get('torch')
    with t.enable_grad() if t else contextlib.nullcontext():
        yield


def scribble(x, seen):
    """Overwrite everything in a returned value that can be overwritten."""
    if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, complex, bool, np.generic)):
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, seen)
        for k in list(x)[:1]:
            del x[k]
        x['scribbled'] = 0.
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v, seen)
        if isinstance(x, list):
            x.append(None)
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                scribble(v, seen)
        elif x.flags.writeable and x.dtype.kind in 'fciub':
            x[...] = 1
    elif type(x).__module__.startswith('torch'):
        try:
            with md.torch().no_grad():
                x.detach().fill_(1)
        except RuntimeError:
            pass
    elif type(x).__module__.startswith('meent'):
        for k, v in list(vars(x).items()):
            scribble(v, seen)
            setattr(x, k, None)


def snap(x):
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.copy()
    if type(x).__module__.startswith('torch'):
        return md.to_np(x)
    if type(x).__module__.startswith('jax'):
        return np.array(x)
    return copy.copy(x)


def same(x, s):
    if isinstance(x, (list, tuple)):
        return isinstance(s, list) and len(x) == len(s) and all(same(a, b) for a, b in zip(x, s))
    if isinstance(x, dict):
        return isinstance(s, dict) and list(x) == list(s) and all(same(x[k], s[k]) for k in x)
    if isinstance(s, np.ndarray):
        y = md.to_np(x)
        return y is not None and y.shape == s.shape and y.dtype == s.dtype and y.tobytes() == np.ascontiguousarray(
            s).tobytes()
    try:
        return type(x) is type(s) and (x == s or (x != x and s != s))
    except Exception:
        return x is s


# ------------------------------------------------------------------------------------- the world
class Slot:
    def __init__(self, obj, b, M, own=()):
        self.obj, self.b, self.M = obj, b, M
        self.own = set(own)
        self.field_ok = False        # a solve completed and nothing changed since
        self.faulted = False
        self.c64 = False
        self.graded = False
        self.last = self.last_M = None
        self.track()

    def track(self):
        if self.M.get('type_complex', [0])[0] == 1 or \
                (isinstance(self.M['ucell'][0], dict) and self.M['ucell'][0].get('dt') in ('c8', 'f4')):
            self.c64 = True

    @property
    def tol(self):
        return TOL[1] if self.c64 else TOL[0]


class Violation(Exception):
    def __init__(self, kind, detail, step):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail, self.step = kind, detail, step


class Stats:
    def __init__(self):
        self.ops = {}
        self.faults = {}
        self.sites = set()
        self.states = set()
        self.n = {}

    def inc(self, d, k, n=1):
        getattr(self, d)[k] = getattr(self, d).get(k, 0) + n


class World:
    needs_reference = True

    def __init__(self, plan, kinds, stats=None):
        self.plan = plan
        self.kinds = set(kinds)
        self.backends = tuple(plan['backends'])
        self.u = Universe('sut', self.backends)
        SEAM.instrument()
        self.slots = []
        self.inputs = Inputs()
        self.results = []
        self.mine = []
        self.scribbled = None
        self.log = []
        self.stats = stats or Stats()
        self.any_fault = False
        self.i = -1
        self.hooks = plan.get('hooks', {})
        self.after_op = None
        self.last_sig = None

    # -------------------------------------------------------------- reporting
    def fail(self, kind, detail):
        if kind in self.kinds:
            raise Violation(kind, detail, self.i)
        self.log.append(f'ignored {kind}')

    def note(self, s):
        self.log.append(f'{self.i}:{s}')

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]

    # -------------------------------------------------------------- driver
    def run(self):
        for self.i, op in enumerate(self.plan['ops']):
            self.step(op)
        self.final()

    def final(self):
        self.check_passive(None)

    def check_passive(self, op):
        if 'input' in self.kinds:
            c = self.inputs.changed()
            if c:
                self.fail('input', f'caller-owned {c} was modified by {op and op["op"]}')
        if 'result' in self.kinds:
            for live, s, what in self.results:
                try:
                    now = live()
                except Exception as e:
                    self.fail('result', f'{what} is no longer readable: {type(e).__name__}')
                    continue
                if not same(now, s):
                    self.fail('result', f'{what} changed after {op and op["op"]}')

    def keep(self, op, live):
        if 'owned' in self.kinds and live is not None:
            self.mine.append((live, op['op'], self.i))
        if 'result' not in self.kinds or live is None:
            return
        k = op['op']
        if k == 'solve':
            fn = lambda: md.obs_result(live)
        elif k == 'sf':
            fn = lambda: [md.obs_result(live[0]), md.obs_tree(live[1])]
        else:
            fn = lambda: md.obs_tree(live)
        self.results.append((fn, fn(), f'the value returned by op {self.i} ({k})'))
        if len(self.results) > 14:
            self.results.pop(0)

    def slot(self, op):
        if not self.slots:
            return None
        return self.slots[op.get('s', 0) % len(self.slots)]

    # -------------------------------------------------------------- one step
    def step(self, op):
        k = op['op']
        self.stats.inc('ops', k)
        if k == 'new':
            self.op_new(op)
        else:
            s = self.slot(op)
            if s is None:
                return
            fn = getattr(self, 'op_' + k, None)
            if fn is not None:
                fn(s, op)
            else:
                self.plain_op(s, op)
        self.check_passive(op)
        if self.after_op:
            self.after_op(op)

    def sig(self, s, op, extra=''):
        M = s.M
        uc = M['ucell'][0]
        g = uc['k'] + (str(min(uc.get('ny', 9), 2))) if isinstance(uc, dict) else str(uc)
        t = (s.b, op['op'], op.get('a', ''), g, M['pp'][0][0], str(M['pp'][0][1])[:1], M['phi'][0] is None,
             M['fourier_type'][0], M['enhanced_dfs'][0], M['use_pinv'][0], M['type_complex'][0], extra)
        self.stats.states.add((self.last_sig, t))
        self.last_sig = t

    def op_new(self, op):
        b, M = op['b'], copy.deepcopy(op['M'])
        u = self.u
        try:
            with u:
                obj = md.build(u, b, M, self.reg_for(op))
        except Exception as e:
            self.note(f'new raised {type(e).__name__}')
            return
        self.slots.append(Slot(obj, b, M, M.keys() if op.get('own') else ()))
        self.note(f'new {b}')

    def reg_for(self, op):
        return plain if op.get('own') else self.inputs

    def execute(self, s, op):
        """Run op on slot s with its fault (if any).  Returns (live, Outcome, fired_site)."""
        u, b, fault = self.u, s.b, op.get('fault')
        reg = self.reg_for(op)
        fn = lambda: act(u, s.obj, b, op, reg)
        if op.get('nest'):
            return self.execute_nest(s, op, fn)
        if not fault:
            with u:
                try:
                    live, obs = fn()
                    return live, Outcome(obs, None), None
                except (SimDeadlock, StepLimit) as e:
                    self.fail('deadlock', f'{op["op"]}: {e}')
                    return None, Outcome(None, RuntimeError('deadlock')), None
                except Exception as e:
                    return None, Outcome(None, e), None
        if fault['kind'] == 'lib':
            return self.execute_lib(s, op, fn)
        if fault['kind'] == 'fs':
            return self.execute_fs(s, op, fn)
        call_only = CALL_ONLY[fault['kind']]
        if 'at' in fault:
            at = fault['at']
        else:
            at = crash_point(b, s.M, op, fault, call_only)
        with u:
            val, e, site = SEAM.run_with_fault(fn, at, exc_for(fault['kind'], b), call_only)
        return self.faulted(s, op, val, e, site)

    def execute_nest(self, s, op, fn):
        """op, with operations on other solvers run in the middle of it, in the same thread (as a signal handler, a
        finaliser or a callback would)."""
        nest = op['nest']
        at = nest['at'] if 'at' in nest else crash_point(s.b, s.M, op, nest, False)
        held = []

        def action():
            for o in nest['ops']:
                t = self.slot(o)
                if held or t is None or (t is s and o['op'] != 'new'):
                    continue
                try:
                    with grad_mode():
                        self.step(o)
                    self.stats.inc('n', 'operations run inside another one')
                except Violation as e:
                    e.detail = f'(inside {op["op"]}) ' + e.detail
                    held.append(e)
        with self.u:
            val, e, site = SEAM.run_with_fault(fn, at, None, False, action)
        if held:
            raise held[0]
        if site is not None:
            self.stats.inc('faults', 'nested operations')
            self.stats.sites.add(site)
            self.note(f'nested @ {site[0]}:{site[1]}:{site[2]}')
        if isinstance(e, (SimDeadlock, StepLimit)):
            self.fail('deadlock', f'{op["op"]}: {e}')
            e = RuntimeError('deadlock')
        if e is not None:
            if not isinstance(e, Exception):
                raise e
            return None, Outcome(None, e), None
        return val[0], Outcome(val[1], None), None

    def execute_lib(self, s, op, fn):
        fault, b = op['fault'], s.b
        LIB.install(b)
        if 'at' in fault:
            at = fault['at']
        else:
            n = count_lib(b, s.M, op)
            at = 1 + int(fault['pos'] * n)
        with self.u:
            val, e, fired = LIB.run(fn, at=(at,), torch=b == 2)
        return self.faulted(s, op, val, e, ('library', fired[0][1], fired[0][0]) if fired else None)

    def execute_fs(self, s, op, fn):
        from . import iofault
        fault = op['fault']
        faults = iofault.place(fault['f'], fs_events(s.b, op, fault.get('mode')))
        with self.u:
            io = iofault.IO(iofault.NK, fault.get('mode'), faults)
            val = e = None
            with io:
                try:
                    val = fn()
                except Exception as x:
                    e = x
        for _, kind, act_, err in io.log:
            self.stats.inc('faults', f'fs:{kind}:{act_}' + (f':{err}' if err else ''))
        hard = io.hard
        if not hard:
            self.stats.inc('faults', 'fs (no hard fault)' if io.log else 'fs (not reached)')
            if e is not None:
                return None, Outcome(None, e), None
            return val[0], Outcome(val[1], None), None
        return self.faulted(s, op, val, e, ('fs', hard[0][1], 0), count=False)

    def faulted(self, s, op, val, e, site, count=True):
        kind = op['fault']['kind']
        if site is not None:
            if count:
                self.stats.inc('faults', kind)
            self.stats.sites.add(site)
            self.any_fault = True
            s.faulted = True
            s.field_ok = False
            self.note(f'fault {kind} @ {site[0]}:{site[1]}:{site[2]}')
        else:
            self.stats.inc('faults', kind + ' (not reached)')
        if e is not None:
            if isinstance(e, (SimDeadlock, StepLimit)):
                self.fail('deadlock', f'{op["op"]}: {e}')
            elif not isinstance(e, Exception) and not isinstance(e, KeyboardInterrupt):
                raise e
            return None, Outcome(None, e), site
        return val[0], Outcome(val[1], None), site

    def judge(self, s, op, out, ref, site):
        k = op['op']
        if site is not None:                       # the fault fired inside this operation
            if out.exc is None and ref.exc is None:
                d = md.diff(out.obs, ref.obs, *metric(op, max(s.tol, 1e-6)))
                if d and not self.shaky(s, op, max(s.tol, 1e-6)):
                    self.fail('failstop', f'{k} returned normally after an injected {op["fault"]["kind"]} fault at '
                                          f'{site[0]}:{site[1]} but with a wrong value: {d}')
            self.note(f'{k} faulted -> {"returned" if out.exc is None else "raised"}')
            return
        tag = 'recover' if self.any_fault else 'value'
        if 'owned' in self.kinds:
            if self.scribbled is None:
                self.note(f'{k} {"ok" if out.exc is None else "raised"}')
                return
            tag, k = 'owned', f'(after the caller edited the value {self.scribbled} had returned) {k}'
        if out.exc is not None and ref.exc is None:
            self.fail(tag, f'{k} raised {type(out.exc).__name__}: {str(out.exc)[:160]} where a fresh solver with the '
                           f'same settings succeeds')
        elif out.exc is None and ref.exc is not None:
            self.fail(tag, f'{k} returned a value where a fresh solver with the same settings raises '
                           f'{type(ref.exc).__name__}: {str(ref.exc)[:100]}')
        elif out.exc is None and op['op'] != 'set':
            d = md.diff(out.obs, ref.obs, *metric(op, s.tol))
            if d and not self.shaky(s, op, s.tol):
                self.fail(tag, f'{k} differs from a fresh solver with the same settings: {d}')
        self.note(f'{k} {"ok" if out.exc is None else "raised"}')
        if out.exc is None and out.obs is not None:
            self.note(f'{md.maxabs(out.obs):.6g}')

    def shaky(self, s, op, tol):
        if op['op'] not in ('solve', 'field', 'sf', 'grad', 'vgrad', 'fit') or not (self.kinds & {'value', 'recover', 'failstop', 'field', 'owned'}):
            return False
        if unstable(s.b, s.M, {**op, 'kw': None}, tol):
            self.stats.inc('n', 'ill-conditioned comparisons skipped')
            return True
        return False

    def plain_op(self, s, op):
        if op['op'] == 'field' and 'field' in self.kinds:
            return self.field_op(s, op)
        if op['op'] == 'field' and not s.field_ok:
            return
        if op['op'] in ('mat', 'sf') and s.b == 1:
            return
        if op['op'] == 'grad' and (s.b == 0 or not self.grad_ok(s, op)):
            return
        M0 = s.M
        if op.get('kw'):
            if s.b == 0:
                op = dict(op, kw=None)      # the numpy solver documents that it ignores them
            else:
                M1 = copy.deepcopy(s.M)
                for a, vf in op['kw'].items():
                    M1[a] = list(vf)
                s.own -= set(op['kw'])
                s.M = M1
                s.field_ok = False
                s.track()
                M0 = M1
        self.sig(s, op)
        ref = reference(s.b, M0, {**op, 'kw': None}) if self.needs_reference else Outcome()
        watch = op['op'] == 'grad' and 'param' in self.kinds
        before = self.readback(s) if watch else None
        live, out, site = self.execute(s, op)
        if watch:
            after = self.readback(s)
            for name in before:
                if not same(after[name], before[name]):
                    self.fail('param', f'asking for a gradient changed the reported {name}'
                                       + (f' ({after[name]})' if isinstance(after[name], str) else ''))
        self.judge(s, op, out, ref, site)
        if site is not None and op.get('kw'):
            # the caller retries the interrupted call
            op2 = {k: v for k, v in op.items() if k != 'fault'}
            live2, out2, _ = self.execute(s, op2)
            self.judge(s, op2, out2, ref, None)
            live, out, site = live2, out2, None
        k = op['op']
        if k in ('solve', 'sf'):
            if out.exc is None:
                s.field_ok = True
                s.last, s.last_M = 'done', copy.deepcopy(s.M)
            else:
                s.field_ok = False
                if site is None or (k == 'solve' and site[0] == 'library'):
                    s.last = 'failed'       # the attempt itself broke down part-way
                elif s.last == 'done' and s.last_M == s.M:
                    s.last = 'maybe'        # cut short somewhere; the previous solve had the same settings
                elif s.last != 'failed' or k == 'sf':
                    s.last = 'unknown'
        elif k == 'grad':
            s.field_ok = False
            s.graded = True
            s.last = 'unknown'
        if out.exc is None:
            self.keep(op, live)

    def op_vgrad(self, s, op):
        if s.b == 0 or s.M['period'][0] is None:
            return
        self.sig(s, op)
        ref = reference(s.b, s.M, op) if self.needs_reference else Outcome()
        live, out, site = self.execute(s, op)
        self.judge(s, op, out, ref, site)
        s.field_ok = False
        s.graded = True
        s.last = 'unknown'
        if out.exc is None:
            self.keep(op, live)
        # whatever happened, the caller now assigns the plain cell
        self.op_set(s, {'op': 'set', 'a': 'ucell', 'v': op['u'], 'f': 'py', 'own': True})

    def op_scribble(self, s, op):
        """The caller overwrites a value it was given earlier."""
        if not self.mine:
            return
        live, what, i = self.mine.pop(op['j'] % len(self.mine))
        before = [self.readback(x) for x in self.slots]
        scribble(live, set())
        self.scribbled = f'op {i} ({what})'
        for x, y in zip(before, self.slots):
            now = self.readback(y)
            for name in x:
                if not same(now[name], x[name]):
                    self.fail('owned', f'editing the value returned by {self.scribbled} changed the {name} of a solver')
        c = self.inputs.changed()
        if c:
            self.fail('owned', f'editing the value returned by {self.scribbled} changed what the caller had passed: {c}')
        self.stats.inc('n', f'returned values overwritten: {what}')
        self.note(f'scribble {what}')

    def op_renew(self, s, op):
        """The solver is dropped and another one made in its place (addresses are reused)."""
        s.obj = None
        M = copy.deepcopy(op['M'])
        with self.u:
            obj = md.build(self.u, s.b, M, self.reg_for(op))
        s.__init__(obj, s.b, M, M.keys() if op.get('own') else ())
        self.note('renew')

    def op_fit(self, s, op):
        """A completed fit leaves the parameters a fresh solver's fit leaves; they become the current settings."""
        if s.b == 0 or not self.grad_ok(s, op) or s.M['type_complex'][0] != 0 or s.c64:
            return
        for a in op['pois']:
            if s.M[a][1] == 'native' and s.b == 2 and a not in s.own:
                return                  # optimising a tensor the caller passed writes to it, by design
        self.sig(s, op)
        ref = reference(s.b, s.M, op) if self.needs_reference else Outcome()
        live, out, site = self.execute(s, op)
        s.field_ok = False
        s.graded = True
        s.last = 'unknown'
        if ref.exc is not None or out.exc is not None:
            self.judge(s, op, out, ref, site)
            if out.exc is not None and ref.exc is not None:
                return
        else:
            self.judge(s, op, out, ref, site)
        for a in op['pois']:
            v = md.to_np(getattr(s.obj, a))
            if not np.all(np.isfinite(v)):
                v = np.nan_to_num(v)
            if a == 'ucell':
                old = s.M[a][0]
                s.M[a] = [{'k': 'r', 'L': old['L'], 'ny': old['ny'], 'nx': old['nx'], 'dt': 'f8',
                           'data': v.tolist()}, 'np']
            else:
                s.M[a] = [v.tolist(), 'py']
            s.own.add(a)

    def field_op(self, s, op):
        """C13: after a completed solve the map is right, after a failed one it is refused."""
        if s.last in ('unknown', None) or (s.last in ('done', 'maybe') and s.last_M != s.M):
            return
        self.sig(s, op, s.last)
        self.stats.inc('n', f'field requested after: {s.last}')
        live, out, site = self.execute(s, op)
        if s.last == 'failed':
            if out.exc is None:
                self.fail('field', 'the latest solve failed part-way, yet calculate_field returned a map of shape '
                                   f'{getattr(live, "shape", None)}')
            self.note('field refused')
            return
        ref = reference(s.b, s.M, op)
        if site is None and ref.exc is None:
            if out.exc is not None:
                if s.last == 'done':
                    self.fail('field', f'calculate_field raised {type(out.exc).__name__}: {str(out.exc)[:120]} after a '
                                       'completed solve')
            else:
                d = md.diff(out.obs, ref.obs, *metric(op, s.tol))
                if d and not self.shaky(s, op, s.tol):
                    self.fail('field', f'the field map differs from that of a fresh solver: {d}')
        elif site is not None and out.exc is None and ref.exc is None:
            d = md.diff(out.obs, ref.obs, *metric(op, max(s.tol, 1e-6)))
            if d and not self.shaky(s, op, max(s.tol, 1e-6)):
                self.fail('field', f'an interrupted calculate_field returned a wrong map: {d}')
        self.note('field ' + ('ok' if out.exc is None else 'raised'))
        if out.exc is None:
            self.keep(op, live)

    def grad_ok(self, s, op):
        uc = s.M['ucell'][0]
        if not isinstance(uc, dict) or uc['k'] != 'r':
            return 'ucell' not in op['pois'] and isinstance(uc, dict)
        return uc.get('dt') in ('f8', 'f4', 'i8', 'i4') or 'ucell' not in op['pois']

    def op_set(self, s, op):
        a = op['a']
        self.sig(s, op)
        M1 = copy.deepcopy(s.M)
        M1[a] = [op['v'], op['f']]
        bad = op.get('bad')
        before = self.readback(s) if (bad and 'reject' in self.kinds) else None
        live, out, site = self.execute(s, op)
        if site is not None:
            if out.exc is not None:
                # the caller repeats the assignment that was cut short
                op2 = {k: v for k, v in op.items() if k != 'fault'}
                _, out, _ = self.execute(s, op2)
            elif 'recover' not in self.kinds:
                pass
        s.field_ok = False
        if out.exc is None:
            s.M = M1
            (s.own.add if op.get('own') else s.own.discard)(a)
            s.track()
            self.note(f'set {a} ok')
        else:
            self.note(f'set {a} rejected {type(out.exc).__name__}')
            if before is not None:
                after = self.readback(s)
                for name in before:
                    if not same(after[name], before[name]):
                        self.fail('reject', f'rejected assignment to {a} changed the reported {name}')

    def readback(self, s):
        out = {}
        for a in md.ATTRS + ('pol', 'psi'):
            try:
                v = getattr(s.obj, a)
            except Exception as e:
                out[a] = f'raises {type(e).__name__}'
                continue
            out[a] = snap(v) if a != 'type_complex' else str(v)
        return out

    def op_edit(self, s, op):
        """In-place edit of an array the solver reports (thickness[i] = x, ucell[...] = n)."""
        a = op['a']
        v, f = s.M[a]
        if s.b == 1 and not (isinstance(v, dict) and v.get('k') == 'v'):
            return
        if f == 'native' and s.b == 2 and a not in s.own:
            return
        M1 = copy.deepcopy(s.M)
        try:
            if a == 'thickness':
                i = op['i'] % len(v)
                nv = [float(np.float32(x)) for x in v] if f == 'native' and s.b == 2 else list(v)
                nv[i] = op['v']
                M1[a] = [nv, 'py']
                tgt, idx = s.obj.thickness, (i,)
            else:
                if not isinstance(v, dict):
                    return
                if v['k'] == 'v':
                    if a not in s.own:
                        return
                    l = op['i'] % len(v['layers'])
                    if not v['layers'][l][1]:
                        return
                    o = op['j'] % len(v['layers'][l][1])
                    M1[a][0]['layers'][l][1][o][5] = op['v2']
                    s.obj.ucell[l][1][o][5] = op['v2']
                    s.M = M1
                    s.field_ok = False
                    self.note('edit vec')
                    return
                ny, nx = (v['nx'], v['ny']) if v.get('tr') == 'shape' else (v['ny'], v['nx'])
                idx = (op['i'] % v['L'], op['j'] % ny, op['k'] % nx)
                M1[a][0].setdefault('e', []).append([list(idx), op['v2']])
                tgt = s.obj.ucell
            val = op['v'] if a == 'thickness' else op['v2']
            if s.b == 2:
                with md.torch().no_grad():
                    tgt[idx] = val
            else:
                tgt[idx] = val
        except Exception as e:
            self.note(f'edit failed {type(e).__name__}')
            return
        s.M = M1
        s.field_ok = False
        self.note('edit')

    def op_copy(self, s, op):
        how = op['how']
        if s.b == 2 and s.graded:
            return                      # torch refuses to copy tensors that carry an autograd graph
        try:
            with self.u:
                obj = copy_solver(s, how, self.u)
        except Exception as e:
            if s.b != 1 or how == 'pytree':
                self.fail('copy', f'{how} of the solver raised {type(e).__name__}: {str(e)[:120]}')
            self.note(f'copy {how} raised {type(e).__name__}')
            return
        n = Slot(obj, s.b, copy.deepcopy(s.M), s.M.keys() if how in ('deepcopy', 'pickle') else ())
        n.faulted, n.c64 = s.faulted, s.c64
        n.field_ok = s.field_ok and how != 'pytree'
        n.copied = True
        self.slots.append(n)
        self.note(f'copy {how}')


def copy_solver(s, how, u):
    if how == 'deepcopy':
        return copy.deepcopy(s.obj)
    if how == 'pickle':
        import pickle
        return pickle.loads(pickle.dumps(s.obj))
    if how == 'pytree':
        import jax
        leaves, tree = jax.tree_util.tree_flatten(s.obj)
        return jax.tree_util.tree_unflatten(tree, leaves)
    raise KeyError(how)
