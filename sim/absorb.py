"""C08: torch inversions fail at chosen calls; results and gradients must agree with the failure-free ones."""
import hashlib

from . import model as md
from .gen import Pools
from .libfault import LIB
from .universe import Universe
from .world import Outcome, Violation, act, plain, prepare, reference


def gen(rng, group, tier):
    ops = []
    opts = {'tc': [1]} if group == 'single' else {'tc': [0]}
    p = Pools(rng, 2, opts)
    for _ in range(rng.randint(3, 7)):
        M = p.initial()
        k = rng.choices(['solve', 'field', 'sf', 'grad'], [4, 1, 1, 5])[0]
        a = {'op': k}
        if k in ('field', 'sf'):
            a.update(r=[3, 2, 2], sfi=[True, False, False])
        if k == 'grad':
            a.update(pois=rng.choice([['thickness'], ['period'], ['ucell'], ['thickness', 'ucell']]), loss=rng.randint(0, 3))
        fr = lambda n: sorted(round(rng.random(), 6) for _ in range(n))
        r = rng.random()
        per = {}
        if r < .35:
            per['inv'] = fr(1)
        elif r < .55:
            per['inv'] = fr(rng.randint(2, 4))
        elif r < .65:
            per['inv'] = ['all']
        elif r < .8:
            per['inv'] = fr(1) if rng.random() < .5 else ['all']
            per['pinv'] = ['all']
        elif r < .9:
            per['inv'] = ['all']
            per['pinv'] = fr(rng.randint(1, 3))
        else:
            per.update({'inv': fr(1), 'pinv': ['all'], 'np.pinv': ['all']})
        ops.append({'op': 'case', 'M': M, 'act': a, 'per': per})
        if rng.random() < .12:                       # failures keep coming, for as long as the process lives
            ops[-1].update(rep=rng.choice([3, 10, 30]) if k != 'grad' else rng.choice([3, 8]), per={'inv': ['all']})
    return {'kind': 'absorb', 'backends': [2], 'ops': ops}


def tolerance(M, cond):
    single = M['type_complex'][0] == 1 or (M['ucell'][0].get('dt') in ('f4', 'c8'))
    if single:
        return (None if cond > 1e3 else min(max(6e-5 * cond, 1e-3), 5e-2)), True
    return (None if cond > 1e5 else min(max(1e-11 * cond ** 2, 1e-9), 1e-4)), False


def place(per, names):
    out = {}
    for k, v in per.items():
        if v == ['all']:
            out[k] = ['all']
        else:
            # pseudo-inversions follow failed inversions, so their number is bounded by that of all inversions
            n = names.count('inv') if k == 'inv' else max(names.count('pinv'), names.count('inv'), 1)
            out[k] = sorted({1 + int(f * n) for f in v if n})
    return out


def run(plan, stats):
    LIB.install(2)
    log = []
    live = Universe('ref', (2,))
    for i, op in enumerate(plan['ops']):
        M, a = op['M'], op['act']
        stats.inc('ops', a['op'])
        uc = M['ucell'][0]
        if a['op'] == 'grad' and 'ucell' in a['pois'] and (uc['k'] != 'r' or uc.get('dt') not in ('f8', 'f4', 'i8')):
            continue
        ref = reference(2, M, a)
        if ref.exc is not None:
            continue
        u = Universe('ref', (2,))
        with u:
            obj = prepare(u, 2, M, a)
            LIB.count(lambda: act(u, obj, 2, a, plain), torch=True)
        names, cond = list(LIB.names), LIB.cond
        stats.inc('n', 'inversions observed', names.count('inv') + names.count('pinv'))
        tol, single = tolerance(M, cond)
        if tol is None:
            stats.inc('n', 'ill-conditioned cases skipped')
            continue
        per = place(op['per'], names)
        with live:
            obj = prepare(live, 2, M, a)
            for _ in range(op.get('rep', 1)):
                val, e, fired = LIB.run(lambda: act(live, obj, 2, a, plain), per=per, torch=True)
                if e is not None:
                    break
        for _, n in fired:
            stats.inc('faults', f'{n} fails')
        if not fired:
            stats.inc('faults', 'factorisation failure (not reached)')
        hard = {'inv', 'pinv', 'np.pinv'} <= set(op['per'])
        stats.states.add((a['op'], tuple(a.get('pois', ())), uc['k'], M['use_pinv'][0], M['fourier_type'][0], single,
                          tuple(sorted({n for _, n in fired})), len(fired)))
        log.append(f'{i} {a["op"]} {fired} {"raised" if e is not None else "returned"}')
        if e is not None:
            if fired and hard and any(n == 'np.pinv' for _, n in fired):
                continue                    # every method failed for a matrix: raising is the required outcome
            raise Violation('absorb', f'{a["op"]} raised {type(e).__name__}: {str(e)[:120]} although only '
                                      f'{fired[:4]} failed', i)
        fl = 1e-3 if a['op'] == 'grad' else 1.0
        d = md.diff(val[1], ref.obs, tol, fl) or dtypes(val[1], ref.obs)
        if d and sensitive(M, a, ref, tol, fl):
            stats.inc('n', 'ill-conditioned cases skipped')
            continue
        if d:
            raise Violation('absorb', f'{a["op"]} with {fired[:4]} failing differs from the failure-free result: {d} '
                                      f'(tolerance {tol:.1g}, cond {cond:.1g})', i)
        log.append(f'{md.maxabs(val[1]):.4g}')
    return hashlib.sha256('\n'.join(log).encode()).hexdigest()[:16]


def sensitive(M, a, ref, tol, fl):
    """The reference itself moves by more than a tenth of the tolerance under a tiny input change."""
    import copy
    rel = 1e-6 if M['type_complex'][0] == 1 else 1e-11
    M1 = copy.deepcopy(M)
    M1['wavelength'][0] *= 1 + rel
    r = reference(2, M1, a)
    return r.exc is not None or bool(md.diff(r.obs, ref.obs, tol / 10, fl))


def dtypes(a, b):
    if isinstance(b, dict):
        for k in b:
            d = dtypes(a[k], b[k])
            if d:
                return f'{k}: {d}'
    elif isinstance(b, list):
        for x, y in zip(a, b):
            d = dtypes(x, y)
            if d:
                return d
    elif hasattr(b, 'dtype') and a.dtype != b.dtype:
        return f'dtype {a.dtype} != {b.dtype}'
    return None
