"""C19: a look-up outside the range a table covers is reported each time, one inside never."""
import hashlib
import os
import warnings

import numpy as np

from . import iofault
from . import model as md
from .events import SEAM
from .gen import R4, small_tree
from .universe import Universe
from .world import SimInterrupt, Violation, oom

B = {'numpy': 0, 'torch': 2, 'jax': 1}
SHIPPED = ['SI_GREEN-2008', 'SIO2_MALITSON', 'AU_JOHNSON', 'OPTPROP_AU', 'OPTPROP_CAF2', 'SI_ASPNES', 'TIO2_SIEFKE',
           'WAVNK_MGO_PALIK', 'AG_JOHNSON', 'ITO_MINENKOV-GLASS']
_range = {}


def shipped_range(name):
    """Range of a shipped table, read straight from its file."""
    if not _range:
        for d, _, fs in os.walk(iofault.NK):
            for f in fs:
                if f.endswith('.txt'):
                    rng, rows = None, []
                    with open(os.path.join(d, f), encoding='utf-8') as fh:
                        for line in fh:
                            if line.startswith('# range:'):
                                p = line.split(':', 1)[1].replace('m', '').split(' - ')
                                rng = float(p[0]), float(p[1])
                            elif not line.startswith('#'):
                                try:
                                    rows.append(float(line.split()[0]))
                                except (ValueError, IndexError):
                                    pass
                    if rows:
                        rng = min(rows), max(rows)
                    _range[f[:-4].upper()] = rng
    return _range[name.upper()]


def tree_range(tree, name):
    for f in tree['files']:
        if f['n'].upper() == name.upper():
            if f['k'] == 'formula':
                return 2.1e-7, 6.7e-6
            a = iofault.content(f)[:, 0]
            return float(f'{a.min():.12e}'), float(f'{a.max():.12e}')


def gen(rng, group, tier):
    b = B[group]
    trees = [small_tree(rng) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    mats = rng.sample(SHIPPED, 3)
    shape = lambda: [rng.choice(['in', 'in', 'low', 'high', 'lo', 'hi', 'below', 'above']), R4(rng.random())]
    pool = [shape() for _ in range(rng.choice([2, 3, 4]))]
    for _ in range(rng.randint(4, 12)):
        at = rng.choice(pool + [shape()])
        if b != 1 and rng.random() < .35:
            op = {'op': 'mat', 'mats': [rng.choice(mats) for _ in range(rng.choice([1, 2, 2]))] + rng.choice([[], [1.5]]),
                  'of': 0, 'at': at, 's': rng.choice([0, 0, 1])}
        else:
            t = rng.randrange(len(trees))
            op = {'op': 'nk', 'tree': trees[t], 'i': rng.randint(0, 5), 'at': at, 'real': rng.random() < .25,
                  'form': rng.choice(['py', 'np', 'native', 'array', 'array']), 'low': rng.random() < .3,
                  'reread': rng.random() < .4}
        op['filter'] = rng.choice(['always', 'always', 'error'])
        if rng.random() < .2:
            op['fault'] = {'kind': rng.choice(['int', 'int', 'oom']), 'pos': round(rng.random(), 6),
                           'how': rng.choice(['', '', 's', 'g'])}
        ops.append(op)
    return {'kind': 'ranges', 'backends': [b], 'ops': ops}


def place(at, lo, hi):
    kind, x = at
    return {'in': lo + (hi - lo) * (.001 + .998 * x), 'lo': lo, 'hi': hi, 'low': lo * (.2 + .7 * x), 'high': hi * (1.05 + 3 * x),
            'below': lo * (1 - 1e-6), 'above': hi * (1 + 1e-6)}[kind]


def inside(w, r):
    return r[0] <= w <= r[1]


def run(plan, stats):
    b = plan['backends'][0]
    u = Universe('sut', (b,))
    SEAM.instrument()
    solvers, tables, log = {}, {}, []
    for i, op in enumerate(plan['ops']):
        stats.inc('ops', op['op'])
        key = None
        if op['op'] == 'nk':
            names = sorted(f['n'] for f in op['tree']['files'])
            name = names[op['i'] % len(names)]
            r = tree_range(op['tree'], name)
            wl = place(op['at'], *r)
            out = [name] if not inside(wl, r) else []
            key = md.jkey(op['tree'])
            if key not in tables or op.get('reread'):
                with u:
                    tables[key] = u.modeling(b).read_material_table(iofault.build_tree(op['tree']))
            if op['form'] == 'array':
                mid = (r[0] + r[1]) / 2
                wl = np.array([mid, wl, mid])
                if b and op.get('dev', True):
                    wl = md.native(wl, b)
            elif op['form'] == 'np':
                wl = np.float64(wl)
            elif op['form'] == 'native':
                wl = md.native(np.float64(wl), b)
            ask = (name.lower() if op.get('low') else name) + ('__real' if op['real'] else '')
            fn = lambda: u.modeling(b).find_nk_index(ask, tables[key], wl)
            known = [name]
        else:
            known = [m for m in op['mats'] if isinstance(m, str)]
            wl = place(op['at'], *shipped_range(known[op['of'] % len(known)]))
            out = [m for m in known if not inside(wl, shipped_range(m))]
            if op['s'] not in solvers:
                with u:
                    solvers[op['s']] = u.meent.call_mee(backend=b, period=[500., 500.])
            cell = np.array([[[float(j) for j in range(len(op['mats']))]]])
            fn = lambda: solvers[op['s']].put_refractive_index_in_ucell(cell, list(op['mats']), wl)
        fault = op.get('fault')
        at = 0
        if fault:
            with u, warnings.catch_warnings():
                warnings.simplefilter('ignore')
                SEAM.count(fn, fault['kind'] == 'oom')
                at = fault['at'] if 'at' in fault else SEAM.place(fault)
        e = site = None
        with u, warnings.catch_warnings(record=True) as got:
            warnings.simplefilter(op['filter'])
            if fault:
                _, e, site = SEAM.run_with_fault(fn, at, SimInterrupt if fault['kind'] == 'int' else lambda: oom(b),
                                                 fault['kind'] == 'oom')
            else:
                try:
                    fn()
                except Exception as x:
                    e = x
        name = type(e).__name__ if e is not None else None
        warned = isinstance(e, UserWarning)
        if site:
            stats.inc('faults', fault['kind'])
            stats.sites.add(site)
        e = None
        msgs = [str(w.message) for w in got if issubclass(w.category, UserWarning)]
        stats.states.add((b, op['op'], op['at'][0], op['filter'], bool(out), name, bool(site)))
        log.append(f'{i} {op["op"]} {name} {len(msgs)} {site}')
        if site:
            continue                              # whether it got as far as the warning is open; the next call is judged
        where = f'{op["op"]} at {op["at"][0]} (out of range for {out or "nothing"}), filter {op["filter"]}'
        if op['filter'] == 'error':
            if bool(out) != warned:
                raise Violation('warn', f'{where}: ' + ('no warning was raised' if out else f'raised {name} although the '
                                                        'wavelength is inside every table'), i)
            continue
        if name is not None:
            raise Violation('warn', f'{where}: raised {name}', i)
        for m in known:
            said = any(m.lower() in t.lower() for t in msgs)
            if said != (m in out):
                raise Violation('warn', f'{where}: {m} ' + ('was not reported' if m in out else 'was reported although the '
                                                            f'wavelength is inside its range: {msgs[:1]}'), i)
        if not out and msgs:
            raise Violation('warn', f'{where}: warned {msgs[:1]}', i)
    return hashlib.sha256('\n'.join(log).encode()).hexdigest()[:16]
