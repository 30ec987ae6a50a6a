"""C12: optimisation runs cut short at chosen points, against trajectories recomputed from fresh solvers' gradients."""
import copy
import hashlib
import io as pyio
import random
import sys
import time

import numpy as np

from . import model as md
from . import world as W
from .events import SEAM, SimDeadlock, StepLimit
from .gen import Pools, R4
from .universe import Universe
from .world import SimOSError, Violation

B = {'torch': 2, 'jax': 1}


# ----------------------------------------------------------------------------------------- the clock seam
class Clock:
    """time.time & co. as seen by everything while a fit runs: a seeded clock that jumps."""
    NAMES = ('time', 'perf_counter', 'monotonic', 'process_time')

    def __init__(self):
        self.real = {n: getattr(time, n) for n in self.NAMES}
        self.mode = None
        for n in self.NAMES:
            setattr(time, n, self._make(n))
        import tqdm.std
        tqdm.std.time = time.time
        tqdm.tqdm.monitor_interval = 0            # no background thread

    def _make(self, n):
        real = self.real[n]

        def clock():
            if self.mode is None:
                return real()
            self.calls += 1
            r = self.rng.random()
            if self.mode == 'frozen':
                pass
            elif self.mode == 'jump':
                self.now += r * 10 if r < .8 else 1e5 * r
            elif self.mode == 'back':
                self.now += r * 5 if r < .6 else -300. * r
            else:
                self.now += .001 + .2 * r
            return self.now
        clock.__name__ = n
        return clock

    def arm(self, spec):
        self.mode, self.rng, self.now, self.calls = spec['mode'], random.Random(spec['seed']), 1e9, 0

    def disarm(self):
        self.mode = None


CLOCK = Clock()


class FailingErr(pyio.StringIO):
    def __init__(self, at):
        super().__init__()
        self.n, self.at, self.fired = 0, at, False

    def write(self, s):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise SimOSError(5, 'simulated failure of the progress output')
        return super().write(s)


# ----------------------------------------------------------------------------------------- generation
def gen(rng, group, tier):
    b = B[group]
    p = Pools(rng, b, {'tc': [0], 'dims': (['1'] if b == 1 else rng.choice([['1'], ['1', '2'], ['1', '2', 'v']]))})
    if b == 1:
        p.fourier_type = [0]
    for u in p.ucells:
        if u['k'] == 'r':
            u['dt'] = rng.choice(['f8', 'f8', 'c16'])
    p.forms = [f for f in p.forms if f != 'native'] or ['py']
    ops = [{'op': 'new', 'M': p.initial()}]
    for _ in range(rng.randint(1, 4) if b == 2 else rng.randint(1, 2)):
        k = rng.choices(['fit', 'solve', 'grad', 'set'], [6, 1, 1, 1.5])[0]
        if k == 'set':
            a = rng.choice(['wavelength', 'thickness', 'theta', 'pp'])
            v, f = ([rng.choice(p.pp), 'py'] if a == 'pp' else p.value(a))
            ops.append({'op': 'set', 'a': a, 'v': v, 'f': f})
            continue
        if k == 'solve':
            ops.append({'op': 'solve'})
            continue
        pois = rng.choice([['thickness'], ['thickness'], ['period'], ['ucell'], ['thickness', 'period'],
                           ['thickness', 'ucell']])
        if k == 'grad':
            ops.append({'op': 'grad', 'pois': pois, 'loss': rng.randint(0, 3)})
            continue
        op = {'op': 'fit', 'pois': pois, 'loss': rng.randint(0, 3), 'n': rng.randint(1, 4) if b == 2 else rng.randint(1, 3),
              'lr': .02 if 'ucell' in pois else rng.choice([.5, 5., 50.]),
              'clock': {'mode': rng.choice(['steady', 'frozen', 'jump', 'back']), 'seed': rng.randint(0, 10 ** 6)}}
        r = rng.random()
        if r < .4:
            op['fault'] = {'kind': rng.choice(['int', 'int', 'mem', 'lin', 'tmo', 'oom']), 'pos': round(rng.random(), 6),
                           'how': rng.choice(['', 's', 'g'])}
        elif r < .55:
            op['fault'] = {'kind': rng.choice(['loss', 'forward', 'after']), 'k': rng.randint(1, 4)}
        elif r < .65:
            op['fault'] = {'kind': 'stderr', 'k': rng.randint(1, 8)}
        ops.append(op)
        if rng.random() < .5:
            ops.append({'op': rng.choice(['solve', 'grad', 'solve'])})
            if ops[-1]['op'] == 'grad':
                ops[-1].update(pois=pois, loss=rng.randint(0, 3))
    return {'kind': 'fit', 'backends': [b], 'ops': ops}


# ----------------------------------------------------------------------------------------- oracle
def setting(M, a, arr):
    M = copy.deepcopy(M)
    if a == 'ucell':
        old = M[a][0]
        M[a] = [{'k': 'r', 'L': old['L'], 'ny': old['ny'], 'nx': old['nx'], 'dt': 'f8', 'data': arr.tolist()}, 'np']
    else:
        M[a] = [arr.tolist(), 'py']
    return M


def current(b, M, a):
    if a == 'ucell':
        return md.raster(M[a][0]).astype(float)
    v = np.atleast_1d(np.array(md.realise(a, M[a][0], 'py' if M[a][1] in ('tuple',) else M[a][1], 0), dtype=float))
    if a == 'period' and v.size == 1:
        v = np.repeat(v, 2)
    return v


def trajectory(b, M, op):
    """[(M_k, {poi: value})] for k = 0..n by explicit gradient steps with fresh solvers; None if not applicable."""
    out = []
    g = {'op': 'grad', 'pois': op['pois'], 'loss': op['loss']}
    vals = {a: current(b, M, a) for a in op['pois']}
    for k in range(op['n'] + 1):
        out.append((M, vals))
        if k == op['n']:
            break
        r = W.reference(b, M, g)
        if r.exc is not None:
            return None
        new = {}
        for a in op['pois']:
            d = np.asarray(r.obs[a])
            if d.shape != vals[a].shape or not np.all(np.isfinite(d)):
                return None
            new[a] = vals[a] - op['lr'] * np.real(d)
            M = setting(M, a, new[a])
        vals = new
    return out


def run(plan, stats):
    b = plan['backends'][0]
    u = Universe('sut', (b,))
    SEAM.instrument()
    log = []
    obj = M = None
    faulted = False

    def fail(i, kind, detail):
        raise Violation(kind, detail, i)

    for i, op in enumerate(plan['ops']):
        k = op['op']
        stats.inc('ops', k)
        if k == 'new':
            M = copy.deepcopy(op['M'])
            with u:
                obj = md.build(u, b, M)
            continue
        if obj is None:
            continue
        uc = M['ucell'][0]
        if k in ('grad', 'fit') and 'ucell' in op['pois'] and (uc['k'] != 'r' or uc.get('dt') != 'f8' or uc.get('an')):
            continue
        if k == 'set':
            with u:
                W.act(u, obj, b, op, W.plain)
            M[op['a']] = [op['v'], op['f']]
            continue
        if k in ('solve', 'grad'):
            ref = W.reference(b, M, op)
            with u:
                try:
                    _, obs = W.act(u, obj, b, op, W.plain)
                    exc = None
                except Exception as e:
                    obs, exc = None, e
            if (exc is None) != (ref.exc is None):
                fail(i, 'usable', f'{k} after the optimisation ' + (f'raised {type(exc).__name__}: {str(exc)[:120]}' if exc
                     else 'succeeded where a fresh solver raises'))
            if exc is None:
                d = md.diff(obs, ref.obs, *W.metric(op, W.TOL[0]))
                if d and not W.unstable(b, M, op, W.TOL[0]):
                    fail(i, 'usable', f'{k} after the optimisation differs from a fresh solver: {d}')
                log.append(f'{i} {k} {md.maxabs(obs):.6g}')
            continue
        # ---- fit
        tr = trajectory(b, M, op)
        if tr is None:
            continue
        fault = op.get('fault')
        st = {'calls': 0, 'done': 0, 'exec': 0}
        base = W.make_loss(b, op['loss'])

        def make(o, target, st):
            def forward(**kw):
                st['fwd'] = st.get('fwd', 0) + 1
                if target and fault['kind'] == 'forward' and st['fwd'] == fault['k']:
                    st['fired'] = True
                    raise SimOSError(5, 'simulated failure inside the caller-supplied forward')
                r = o.conv_solve(**kw)
                if target and fault['kind'] == 'after' and st['fwd'] == fault['k']:
                    st['fired'] = True
                    raise SimOSError(5, 'simulated failure at the end of the caller-supplied forward')
                return r

            def loss(res):
                st['calls'] += 1
                if target and fault['kind'] == 'loss' and st['calls'] == fault['k']:
                    st['fired'] = True
                    raise SimOSError(5, 'simulated failure inside the caller-supplied loss')
                v = base(res)
                if b == 1:
                    import jax

                    def tick(_):
                        st['exec'] += 1
                    jax.debug.callback(tick, v)
                else:
                    st['exec'] += 1
                return v
            return forward, loss

        def go(o, target, st):
            forward, loss = make(o, target, st)
            if b == 2:
                return o.fit(list(op['pois']), forward, loss, md.torch().optim.SGD, {'lr': op['lr']}, op['n'])
            import optax
            return o.fit(list(op['pois']), forward, loss, optax.sgd(op['lr']), op['n'])

        site = None
        err = FailingErr(fault['k'] if fault and fault['kind'] == 'stderr' else -1)
        at = None
        if fault and fault['kind'] in W.CALL_ONLY:
            if 'at' in fault:
                at = fault['at']
            else:
                tw = Universe('sut', (b,))
                SEAM.instrument()
                with tw:
                    o2 = md.build(tw, b, M)
                    old, sys.stderr = sys.stderr, pyio.StringIO()
                    CLOCK.arm(op['clock'])
                    try:
                        SEAM.count(lambda: go(o2, False, {'calls': 0, 'exec': 0}), W.CALL_ONLY[fault['kind']])
                    except Exception:
                        pass
                    finally:
                        CLOCK.disarm()
                        sys.stderr = old
                    at = SEAM.place(fault)
        val = e = None
        with u:
            old, sys.stderr = sys.stderr, err
            CLOCK.arm(op['clock'])
            try:
                if at is not None:
                    val, e, site = SEAM.run_with_fault(lambda: go(obj, False, st), at, W.exc_for(fault['kind'], b),
                                                       W.CALL_ONLY[fault['kind']])
                else:
                    try:
                        val = go(obj, bool(fault), st)
                    except Exception as x:
                        e = x
            finally:
                CLOCK.disarm()
                sys.stderr = old
            if b == 1:
                import jax
                jax.effects_barrier()
        if isinstance(e, (SimDeadlock, StepLimit)):
            fail(i, 'usable', f'fit makes no progress: {e}')
        if e is not None and not isinstance(e, (Exception, KeyboardInterrupt)):
            raise e
        stats.inc('n', 'clock readings answered', CLOCK.calls)
        stats.inc('faults', 'clock ' + op['clock']['mode'])
        fired = bool(site or st.get('fired') or err.fired)
        if fault:
            stats.inc('faults', fault['kind'] + ('' if fired else ' (not reached)'))
        if site:
            stats.sites.add(site)
        name = type(e).__name__ if e is not None else None
        msg = str(e)[:140] if e is not None else ''
        if e is not None and not fired:
            if not W.unstable(b, M, {'op': 'grad', 'pois': op['pois'], 'loss': op['loss']}, 1e-6):
                fail(i, 'fit', f'fit raised {name}: {msg} although nothing failed')
        if e is None and fault and fault['kind'] in ('loss', 'forward', 'after') and fired:
            fail(i, 'fit', f'the caller\'s {fault["kind"]} failed but fit returned normally')
        e = None
        # what the solver holds now
        now = {}
        for a in op['pois']:
            try:
                now[a] = np.asarray(md.to_np(getattr(obj, a)), dtype=float)
            except Exception as x:
                fail(i, 'fit', f'after fit ({name}) the parameter {a} is unreadable: {type(x).__name__}')
        # tolerance: relative to the size of the parameter and of the steps taken
        match = []
        for kk, (Mk, vals) in enumerate(tr):
            if all(now[a].shape == vals[a].shape and np.allclose(now[a], vals[a], rtol=1e-8, atol=1e-8) for a in op['pois']):
                match.append(kk)
        if fired and (name is not None or fault['kind'] not in ('loss', 'forward', 'after')):
            if name is None:
                allowed = {op['n']}
            elif fault['kind'] in ('loss', 'forward', 'after') and b == 2:
                allowed = {fault['k'] - 1}
            elif fault['kind'] in ('loss', 'forward', 'after'):
                allowed = {0}
            else:
                allowed = {max(0, st['exec'] - 1), st['exec']}
        else:
            allowed = {op['n']}
        stats.states.add((b, tuple(op['pois']), fault and fault['kind'], fired, name, site and site[1], tuple(sorted(allowed)),
                          op['n']))
        log.append(f'{i} fit {name} {match} {site}')
        if not allowed & set(match):
            shaky = any(W.unstable(b, Mk, {'op': 'grad', 'pois': op['pois'], 'loss': op['loss']}, 1e-6) for Mk, _ in tr[:-1])
            if shaky:
                stats.inc('n', 'ill-conditioned comparisons skipped')
                return 'skipped'
            what = f'after {sorted(allowed)} completed steps' if len(allowed) > 1 else f'after {min(allowed)} step(s)'
            got = f'they are those after {match} steps' if match else 'they match no whole number of steps'
            fail(i, 'fit', f'fit({op["n"]}) {"raised " + name if name else "returned"}; parameters are not those {what}: {got}')
        for a in op['pois']:
            M = setting(M, a, now[a])
    return hashlib.sha256('\n'.join(log).encode()).hexdigest()[:16]
