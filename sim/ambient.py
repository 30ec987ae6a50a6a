"""C15: process-wide state before and after every operation, started from caller-chosen odd configurations."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import stat
import sys
import tempfile
import warnings

import numpy as np
import scipy.fft, scipy.integrate, scipy.interpolate, scipy.io, scipy.linalg, scipy.optimize, scipy.sparse, scipy.special  # noqa: E401
# (loaded up front: importing them adds warning filters, which is theirs to do, not the package's)

from . import histories, model as md
from .world import Outcome, Violation, World

CHOICES = {
    'np.seterr': [{'all': 'ignore'}, {'all': 'warn'}, {'divide': 'raise'}, {'over': 'raise', 'invalid': 'ignore'},
                  {'all': 'raise'}],
    'np.printoptions': [{'precision': 3}, {'threshold': 7, 'linewidth': 40}, {'suppress': True}],
    'np.random': [1, 2, 77],
    'random': [1, 2, 77],
    'torch.seed': [1, 2, 77],
    'torch.default_dtype': ['float64', 'float32'],
    'torch.grad': [False, True],
    'torch.threads': [1, 2],
    'torch.deterministic': [True, False],
    'torch.anomaly': [True, False],
    'torch.print': [{'precision': 3}],
    'warnings': ['error', 'ignore', 'always', 'once'],
    'environ': ['VERIF_A', 'OMP_NUM_THREADS', 'MPLBACKEND'],
    'cwd': ['scratch'],
    'sigint': ['ignore', 'default', 'own'],
    'recursionlimit': [1500, 3000],
    'gc': [False, True],
    'decimal': [12, 40],
    'jax.debug_nans': [False],
    'jax.matmul': ['float32', 'highest'],
    'jax.disable_jit': [False],
}
TORCH_ONLY = ('torch.',)
JAX_ONLY = ('jax.',)


def _t():
    return sys.modules.get('torch')


def apply(key, val, ctx):
    if key == 'np.seterr':
        np.seterr(**val)
    elif key == 'np.printoptions':
        np.set_printoptions(**val)
    elif key == 'np.random':
        np.random.seed(val)
    elif key == 'random':
        random.seed(val)
    elif key == 'torch.seed':
        _t().manual_seed(val)
    elif key == 'torch.default_dtype':
        _t().set_default_dtype(getattr(_t(), val))
    elif key == 'torch.grad':
        _t().set_grad_enabled(val)
    elif key == 'torch.threads':
        _t().set_num_threads(val)
    elif key == 'torch.deterministic':
        _t().use_deterministic_algorithms(val, warn_only=True)
    elif key == 'torch.anomaly':
        _t().autograd.set_detect_anomaly(val)
    elif key == 'torch.print':
        _t().set_printoptions(**val)
    elif key == 'warnings':
        warnings.simplefilter(val)
    elif key == 'environ':
        os.environ[val] = os.environ.get(val, '') + '1' if val == 'VERIF_A' else os.environ.get(val, '2')
    elif key == 'cwd':
        if not ctx.get('dir'):
            ctx['dir'] = tempfile.mkdtemp(prefix='verif-c15-')
            if val == 'decoy':
                decoy(ctx['dir'])
        os.chdir(ctx['dir'])
    elif key == 'sigint':
        signal.signal(signal.SIGINT, {'ignore': signal.SIG_IGN, 'default': signal.SIG_DFL, 'own': _handler}[val])
    elif key == 'recursionlimit':
        sys.setrecursionlimit(val)
    elif key == 'gc':
        gc.enable() if val else gc.disable()
    elif key == 'decimal':
        decimal.getcontext().prec = val
    elif key.startswith('jax.'):
        import jax
        jax.config.update({'jax.debug_nans': 'jax_debug_nans', 'jax.matmul': 'jax_default_matmul_precision',
                           'jax.disable_jit': 'jax_disable_jit'}[key], val)


def decoy(root):
    """Material tables of the user's own, lying about in the working directory."""
    from .gen import MATERIALS
    for d in ('', 'nk_data', 'meent/nk_data'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
        for n in MATERIALS:
            with open(os.path.join(root, d, n + '.txt'), 'w') as f:
                f.write('wl n k\n1e-07 7.5 0.25\n9e-06 8.5 0.5\n')


def _handler(*a):
    pass


def _rng_np():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def files():
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            st = os.stat(int(fd))
            if stat.S_ISREG(st.st_mode) or stat.S_ISDIR(st.st_mode):
                t = os.readlink(f'/proc/self/fd/{fd}')
                if not t.startswith('/proc/'):
                    out.append(f'{fd}:{t}')
        except OSError:
            continue
    return sorted(out)


SIGS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGFPE, signal.SIGPIPE)]


def state(fds=True):
    """Everything process-wide a numerical library might touch, as plain comparable data."""
    d = {
        'numpy floating-point error handling': dict(np.geterr()),
        'numpy error callback': repr(np.geterrcall()),
        'numpy print options': {k: str(v) for k, v in np.get_printoptions().items()},
        'numpy buffer size': np.getbufsize(),
        'numpy random state': _rng_np(),
        'python random state': random.getstate(),
        'warning filters': [str(f) for f in warnings.filters],
        'warning display': id(warnings.showwarning),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'signal handlers': [repr(signal.getsignal(s)) for s in SIGS],
        'interval timer': signal.getitimer(signal.ITIMER_REAL),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'import path': list(sys.path),
        'hooks': (id(sys.excepthook), id(sys.displayhook), repr(sys.gettrace()), repr(sys.getprofile())),
        'garbage collector': (gc.isenabled(), gc.get_threshold()),
        'decimal context': str(decimal.getcontext()),
        'locale': locale.setlocale(locale.LC_ALL),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
    }
    u = os.umask(0o22)
    os.umask(u)
    d['umask'] = u
    if fds:
        d['open files'] = files()
    t = _t()
    if t is not None:
        d.update({
            'torch default dtype': str(t.get_default_dtype()),
            'torch default device': str(t.get_default_device()) if hasattr(t, 'get_default_device') else
            str(t.empty(0).device),
            'torch gradient mode': t.is_grad_enabled(),
            'torch inference mode': t.is_inference_mode_enabled(),
            'torch thread count': t.get_num_threads(),
            'torch deterministic mode': (t.are_deterministic_algorithms_enabled(),
                                         t.is_deterministic_algorithms_warn_only_enabled()),
            'torch anomaly detection': (t.is_anomaly_enabled(), t.is_anomaly_check_nan_enabled()),
            'torch random state': t.random.get_rng_state().numpy().tobytes(),
            'torch matmul precision': t.get_float32_matmul_precision(),
            'torch print options': str(vars(t._tensor_str.PRINT_OPTS)),
            'torch autocast': t.is_autocast_cpu_enabled(),
            'torch flush-denormal': float(t.tensor([1e-310], dtype=t.float64) * 1) == 1e-310,
        })
    j = sys.modules.get('jax')
    if j is not None:
        try:
            d['JAX configuration'] = {k: str(v) for k, v in j.config.values.items()}
        except Exception:
            pass
        for k in ('jax_default_device', 'jax_enable_x64', 'jax_disable_jit', 'jax_debug_nans',
                  'jax_default_matmul_precision', 'jax_platforms', 'jax_default_prng_impl'):
            try:
                d[k] = str(getattr(j.config, k))
            except AttributeError:
                pass
    return d


def changed(a, b):
    out = []
    for k in a:
        if k in b and a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [n for n in set(x) | set(y) if x.get(n) != y.get(n)]
                out.append(f'{k} ({", ".join(f"{n}: {x.get(n)!s:.40} -> {y.get(n)!s:.40}" for n in sorted(ks)[:4])})')
            elif isinstance(x, list):
                out.append(f'{k} (gone {[v for v in x if v not in y][:2]}, new {[v for v in y if v not in x][:2]})')
            elif len(str(x)) < 80:
                out.append(f'{k} ({x} -> {y})')
            else:
                out.append(k)
    return out


class AmbientWorld(World):
    needs_reference = False

    def __init__(self, plan, kinds, stats=None, salt=None):
        super().__init__(plan, kinds, stats)
        self.ctx = {}
        self.salt = salt
        self.seen = []
        self.op_i = -1

    def judge(self, s, op, out, ref, site):
        self.note(f'{op["op"]} {"ok" if out.exc is None else type(out.exc).__name__}')
        if site is None:
            self.seen.append((self.i, op['op'], out.obs, None if out.exc is None else type(out.exc).__name__))

    def step(self, op):
        if op['op'] == 'cfg':
            if self.salt is None:
                apply(op['k'], op['v'], self.ctx)
                self.stats.inc('n', 'configuration ' + op['k'])
                self.note(f'cfg {op["k"]}')
            return
        if self.salt is not None:
            random.seed(self.salt)
            np.random.seed(self.salt)
            if _t() is not None:
                _t().manual_seed(self.salt)
        before = state()
        super().step(op)
        after = state()
        ch = changed(before, after)
        if ch and any(c.startswith('open files') for c in ch):
            gc.collect()
            after = state()
            ch = changed(before, after)
        if ch:
            self.fail('ambient', f'{op["op"]} changed process-wide state: ' + '; '.join(ch)[:400])


def baseline():
    t = _t()
    return {
        'err': np.geterr(), 'po': np.get_printoptions(), 'np': np.random.get_state(), 'py': random.getstate(),
        'filters': list(warnings.filters), 'env': dict(os.environ), 'cwd': os.getcwd(),
        'sig': {s: signal.getsignal(s) for s in SIGS}, 'rec': sys.getrecursionlimit(), 'gc': gc.isenabled(),
        'dec': decimal.getcontext().copy(), 'out': (sys.stdout, sys.stderr), 'path': list(sys.path),
        'sw': sys.getswitchinterval(), 'show': warnings.showwarning,
        'torch': None if t is None else (t.get_default_dtype(), t.is_grad_enabled(), t.get_num_threads(),
                                         t.random.get_rng_state().clone()),
    }


def restore(b, ctx):
    np.seterr(**b['err'])
    np.seterrcall(None)
    np.set_printoptions(**b['po'])
    np.random.set_state(b['np'])
    random.setstate(b['py'])
    warnings.filters[:] = b['filters']
    warnings._filters_mutated()
    warnings.showwarning = b['show']
    for k in list(os.environ):
        if k not in b['env']:
            del os.environ[k]
    os.environ.update(b['env'])
    os.chdir(b['cwd'])
    for s, h in b['sig'].items():
        if h is not None:
            signal.signal(s, h)
    sys.setrecursionlimit(b['rec'])
    gc.enable() if b['gc'] else gc.disable()
    decimal.setcontext(b['dec'])
    sys.stdout, sys.stderr = b['out']
    sys.path[:] = b['path']
    sys.setswitchinterval(b['sw'])
    t = _t()
    if t is not None:
        dt, g, n, rs = b['torch'] or (t.float32, True, 1, None)
        t.set_default_dtype(dt)
        t.set_grad_enabled(g)
        t.set_num_threads(n)
        t.use_deterministic_algorithms(False)
        t.autograd.set_detect_anomaly(False)
        t.set_printoptions(profile='default')
        t.set_flush_denormal(False)
        t.set_float32_matmul_precision('highest')
        if hasattr(t, 'set_default_device'):
            t.set_default_device(None)
        if rs is not None:
            t.random.set_rng_state(rs)
    j = sys.modules.get('jax')
    if j is not None:
        j.config.update('jax_debug_nans', False)
        j.config.update('jax_default_matmul_precision', None)
        j.config.update('jax_disable_jit', False)
        j.config.update('jax_enable_x64', True)
        j.config.update('jax_default_device', None)
    if ctx.get('dir'):
        try:
            os.rmdir(ctx['dir'])
        except OSError:
            pass


class Ambient:
    def __init__(self, hist):
        self.hist = hist

    def gen(self, rng, group, tier):
        plan = self.hist.gen(rng, group, tier)
        name = group.split('-')[0]
        keys = [k for k in CHOICES if (name in ('torch', 'mix') or not k.startswith(TORCH_ONLY))
                and (name == 'jax' or not k.startswith(JAX_ONLY))]
        keys = rng.sample(keys, rng.randint(0, 6))
        if rng.random() < .35:
            plan['twin'] = True
        for k in keys:
            v = rng.choice(CHOICES[k])
            if v == {'all': 'raise'} and rng.random() < .6:
                v = {'divide': 'raise'}
            plan['ops'].insert(rng.randint(0, len(plan['ops'])), {'op': 'cfg', 'k': k, 'v': v})
        return plan

    def run(self, plan, stats):
        if 2 in plan['backends']:
            md.torch()
        if 1 in plan['backends']:
            md.jnp()
        base = baseline()
        for attempt in (0, 1):          # the first import of a third-party module may add warning filters and the like;
            w = AmbientWorld(plan, {'ambient'}, stats)          # a change counts if it happens with everything loaded
            try:
                w.run()
                break
            except Violation:
                if attempt:
                    raise
            finally:
                restore(base, w.ctx)
        if plan.get('twin'):
            runs = []
            for salt in (11, 29, 11):
                x = AmbientWorld(plan, (), stats, salt)
                try:
                    x.run()
                finally:
                    restore(base, x.ctx)
                runs.append(x.seen)
            stats.inc('n', 'histories repeated under two random-number states')
            for (i, k, oa, ea), (_, _, ob, eb), (_, _, oc, ec) in zip(*runs):
                if ea != ec or (oa is not None and oc is not None and md.diff(oa, oc, 1e-12, 1.0)):
                    break               # not reproducible even from the same state: rounding noise of the libraries
                if ea != eb or (ea is None and oa is not None and
                                md.diff(oa, ob, 1e-7 if k == 'grad' else 1e-9, 1.0)):
                    raise Violation('rng', f'{k} depends on the state of the random-number generators: '
                                           f'{ea or eb or md.diff(oa, ob, 1e-9, 1.0)}', i)
        return w.digest()
