"""C17: the same plan executed in two processes that differ in everything a program must not depend on.

The worker runs the plan; a sibling process (another hash seed, other libraries loaded first, other time zone, other
thread counts) runs it too, each from an ambient configuration the plan chooses for it: clock, working directory,
garbage collection, print options, error handling, directory listing order, random state.  What the operations
return must agree to rounding.
"""
import base64
import copy
import gc
import os
import pickle
import random
import subprocess
import sys
import tempfile
import time
import warnings

import numpy as np

from . import ambient, histories, iofault
from . import model as md
from .world import Violation, World, metric, unstable

HASH = ['4711', '12', '901']
CHILD_ENV = {'TZ': 'Asia/Kolkata', 'LC_ALL': 'C', 'OMP_NUM_THREADS': '2', 'HOME': '/nonexistent',
             'USER': 'nobody', 'COLUMNS': '40', 'VERIF_TWIN': '1'}
CHOICES = {
    'np.seterr': [{'all': 'ignore'}, {'all': 'warn'}], 'np.printoptions': ambient.CHOICES['np.printoptions'],
    'np.random': [1, 2, 77], 'random': [1, 2, 77], 'torch.seed': [1, 2, 77], 'torch.threads': [1, 2],
    'torch.deterministic': [True], 'torch.print': [{'precision': 3}], 'warnings': ['ignore', 'always', 'once'],
    'environ': ['VERIF_A', 'MPLBACKEND'], 'cwd': ['decoy'], 'recursionlimit': [2000, 5000], 'gc': [False],
    'decimal': [12, 40],
}


class Recorder(World):
    needs_reference = False

    def __init__(self, plan, stats, env):
        super().__init__(plan, (), stats)
        self.env = env
        self.seen = []
        if env.get('collect'):
            self.after_op = lambda op: gc.collect(0)

    def judge(self, s, op, out, ref, site):
        if out.exc is not None:
            res = type(out.exc).__name__
        else:
            res = out.obs
        self.seen.append((self.i, {k: v for k, v in op.items() if k != 's'}, s.b, copy.deepcopy(s.M), s.tol, res))
        self.note(f'{op["op"]} {res if isinstance(res, str) else "%.6g" % md.maxabs(res)}')


class Clock:
    """time.* shifted by years, or standing still, while the plan runs."""
    NAMES = ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time')

    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        self.real = {n: getattr(time, n) for n in self.NAMES}
        if self.mode:
            for n, f in self.real.items():
                setattr(time, n, self.fake(n, f))
        return self

    def fake(self, n, f):
        unit = 10 ** 9 if n.endswith('_ns') else 1
        t0, k = f(), [0]

        def now():
            k[0] += 1
            if self.mode == 'frozen':
                return t0
            if self.mode == 'years':
                return f() + 86400 * 3650 * unit
            return t0 - k[0] * unit                          # runs backwards
        return now

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(time, n, f)
        return False


def one(plan, env, stats):
    """Run the plan from the ambient configuration env; the recorded observations."""
    if 2 in plan['backends']:
        md.torch()
    if 1 in plan['backends']:
        md.jnp()
    base = ambient.baseline()
    ctx = {}
    w = Recorder(plan, stats, env)
    try:
        for k, v in env.get('cfg', ()):
            ambient.apply(k, v, ctx)
        with Clock(env.get('clock')), iofault.IO(iofault.NK + ':' + iofault.base(), {'order': env.get('order', 0)}):
            w.run()
    finally:
        ambient.restore(base, ctx)
    return w


_children = {}


class Child:
    def __init__(self, seed):
        e = dict(os.environ)
        e.update(CHILD_ENV, PYTHONHASHSEED=seed)
        self.p = subprocess.Popen([sys.executable, '-m', 'sim.twins'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL, env=e,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def send(self, plan, env):
        self.p.stdin.write(base64.b64encode(pickle.dumps((plan, env))) + b'\n')
        self.p.stdin.flush()

    def receive(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('the twin process died')
        return pickle.loads(base64.b64decode(line))


def child(seed):
    if seed not in _children or _children[seed].p.poll() is not None:
        _children[seed] = Child(seed)
    return _children[seed]


class Twins:
    def __init__(self, hist):
        self.hist = hist

    def gen(self, rng, group, tier):
        plan = self.hist.gen(rng, group, tier)
        name = group.split('-')[0]

        def env():
            keys = [k for k in CHOICES if name in ('torch', 'mix') or not k.startswith('torch.')]
            keys = rng.sample(keys, rng.randint(0, 5))
            return {'cfg': [[k, rng.choice(CHOICES[k])] for k in keys], 'clock': rng.choice([None, 'years', 'frozen', 'back']),
                    'order': rng.choice([0, rng.randint(1, 10 ** 6)]), 'collect': rng.random() < .3}
        plan['env'] = [env(), dict(env(), hash=rng.choice(HASH))]
        plan['drop'] = []
        return plan

    def run(self, plan, stats):
        c = child(plan['env'][1].get('hash', HASH[0]))
        c.send(plan, plan['env'][1])
        try:
            mine = one(plan, plan['env'][0], stats)
        finally:
            r = c.receive()
        if 'err' in r:
            raise RuntimeError('twin: ' + r['err'])
        stats.inc('n', 'operations compared between two processes', len(mine.seen))
        for (i, op, b, M, tol, x), (_, _, _, _, _, y) in zip(mine.seen, r['seen']):
            if isinstance(x, str) or isinstance(y, str):
                d = None if isinstance(x, str) and isinstance(y, str) and x == y else \
                    f'{x if isinstance(x, str) else "a value"} here, {y if isinstance(y, str) else "a value"} there'
            else:
                d = md.diff(y, x, *metric(op, tol))
            if d:
                if op['op'] in ('solve', 'field', 'sf', 'grad', 'vgrad', 'fit') and unstable(b, M, {**op, 'kw': None}, tol):
                    stats.inc('n', 'ill-conditioned comparisons skipped')
                    break                                    # what follows (after a fit, say) may differ as well
                raise Violation('process', f'{op["op"]} gives another result in another process (hash seed, environment, '
                                           f'load order {plan["env"][1]}): {d}', i)
        if len(mine.seen) != len(r['seen']):
            raise Violation('process', f'{len(mine.seen)} operations returned here, {len(r["seen"])} in the other process', -1)
        return mine.digest()


def main():
    out = os.fdopen(os.dup(1), 'wb')
    inp = os.fdopen(os.dup(0), 'rb')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    warnings.simplefilter('ignore')
    import traceback

    import torch                                             # the other load order; two threads
    torch.set_num_threads(2)
    from . import universe
    from .events import SEAM
    from .world import Stats
    universe.install()
    SEAM.install()
    time.tzset()
    for line in inp:
        plan, env = pickle.loads(base64.b64decode(line))
        random.seed(99)
        np.random.seed(99)
        torch.manual_seed(99)
        try:
            r = {'seen': one(plan, env, Stats()).seen}
        except BaseException:
            r = {'err': traceback.format_exc()[-2000:]}
        out.write(base64.b64encode(pickle.dumps(r)) + b'\n')
        out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
