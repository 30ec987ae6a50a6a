"""C09: reading material tables, comments and listings on a simulated file system."""
import contextlib
import copy
import gc
import hashlib
import io as pyio
import os

import numpy as np

from . import iofault
from . import model as md
from .events import SEAM
from .universe import Universe
from .world import SimInterrupt, SimMemoryError, Violation

B = {'numpy': 0, 'torch': 2, 'jax': 1}


def gen(rng, group, tier):
    b = B[group]
    trees = [iofault.gen_tree(rng) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .4:                                 # the same tree after somebody edited or added files
        t = copy.deepcopy(trees[-1])
        f = rng.choice(t['files'])
        r = rng.random()
        if r < .5:
            f['seed'] += 1
        elif r < .75 and len(t['files']) > 1:
            t['files'].remove(f)
        else:
            t['files'].append(dict(f, n=f['n'] + 'new', seed=f['seed'] + 2))
        trees.append(t)
    if rng.random() < .15:
        trees[0] = None                                   # the shipped tables
    ops = []
    rate = rng.choice([.3, .6, .9])
    for _ in range(rng.randint(3, 9)):
        op = {'op': 'call', 'fn': rng.choice(['table', 'table', 'comments', 'list', 'print'] if b == 0 else ['table']),
              'tree': rng.choice(trees), 'mode': iofault.gen_mode(rng)}
        if op['fn'] == 'table' and rng.random() < .25:
            op['single'] = True
        if rng.random() < rate:
            r = rng.random()
            if r < .75:
                op['faults'] = iofault.gen_faults(rng)
            else:
                op['cut'] = {'kind': rng.choice(['int', 'mem']), 'pos': round(rng.random(), 6), 'how': rng.choice(['', '', 's', 'g'])}
        ops.append(op)
    ops.append({'op': 'call', 'fn': 'table', 'tree': trees[0], 'mode': {}})
    return {'kind': 'tables', 'backends': [b], 'ops': ops, 'live': rng.random() < .45}


def call(u, b, op, path):
    m = u.modeling(b)
    fn = op['fn']
    if fn == 'table':
        if op.get('single'):
            tc = {0: np.complex64, 1: np.complex64, 2: None}[b]
            if b == 2:
                tc = md.torch().complex64
            elif b == 1:
                tc = md.jnp().complex64
            return m.read_material_table(path, tc) if path else m.read_material_table(type_complex=tc)
        return m.read_material_table(path) if path else m.read_material_table()
    if fn == 'comments':
        return m.read_table_comments(path) if path else m.read_table_comments()
    if fn == 'list':
        return m.list_materials(path) if path else m.list_materials()
    out = pyio.StringIO()
    with contextlib.redirect_stdout(out):
        m.print_materials(path) if path else m.print_materials()
    return out.getvalue()


def expected_comments(spec):
    out = {}
    for f in spec['files']:
        if f['k'] == 'mat':
            continue
        e = {}
        if f['meta'] or f['k'] == 'formula':
            e = {'source': f'simulated {f["seed"]}', 'conditions': f'run {f["seed"] % 7}'}
        if f['k'] == 'formula':
            a = iofault.content(f)
            e.update({'type': 'formula 1', 'range': '2.1000e-07 - 6.7000e-06 m',
                      'coefficients': f'0 {a[0, 1]} {a[0, 0]:.4e}'})
        out[f['n'].upper()] = e
    return out


def expected_list(spec):
    com = expected_comments(spec)
    out = []
    for f in sorted(spec['files'], key=lambda f: f['n'].upper()):
        n = f['n'].upper()
        a = iofault.content(f)
        lo, hi = (2.1e-7, 6.7e-6) if f['k'] == 'formula' else (a[:, 0].min(), a[:, 0].max())
        out.append((n, lo, hi, com.get(n, {}).get('source', ''), com.get(n, {}).get('conditions', '')))
    return out


_shipped = {}


def shipped(b, op):
    key = (b, op['fn'], bool(op.get('single')))
    if key not in _shipped:
        u = Universe('ref', (b,))
        with u, iofault.IO(iofault.NK):
            r = call(u, b, op, None)
        _shipped[key] = md.obs_tree(r)
        n = sum(name[-3:] in ('txt', 'mat') for _, _, fs in os.walk(iofault.NK) for name in fs)
        if op['fn'] == 'table' and len(r) != n:
            raise Violation('table', f'{len(r)} of the {n} shipped tables are read without any fault', -1)
    return _shipped[key]


def wrong(b, op, got):
    spec = op['tree']
    if spec is None:
        return md.diff(md.obs_tree(got), shipped(b, op), 1e-12, 1e-12)
    if op['fn'] == 'table':
        return iofault.check_table(spec, got, op.get('single'))
    if op['fn'] == 'comments':
        exp = expected_comments(spec)
        return None if got == exp else f'comments of {sorted(k for k in exp if got.get(k) != exp[k])} or extra entries differ'
    exp = expected_list(spec)
    if op['fn'] == 'list':
        if [m['name'] for m in got] != [e[0] for e in exp]:
            return f'listed {[m["name"] for m in got]}, the tree holds {[e[0] for e in exp]}'
        for m, e in zip(got, exp):
            if not (np.isclose(m['wl_min'], e[1]) and np.isclose(m['wl_max'], e[2])) or m['source'] != e[3] or \
                    m['conditions'] != e[4]:
                return f'entry {m} != {e}'
        return None
    for e in exp:
        row = [ln for ln in got.splitlines() if ln.split() and ln.split()[0] == e[0]]
        if len(row) != 1 or f'{e[1]:.4e}' not in row[0] or f'{e[2]:.4e}' not in row[0] or (e[3] or '-') not in row[0]:
            return f'printed listing lacks a complete row for {e[0]}'
    return None


def layout(spec):
    return sorted((f['d'], f['n'], f['k']) for f in spec['files']), sorted(spec['dirs']), spec['junk']


def open_fds():
    return {int(x) for x in os.listdir('/proc/self/fd')}


def run(plan, stats):
    b = plan['backends'][0]
    u = Universe('sut', (b,))
    SEAM.instrument()
    L = iofault.lib()
    log = []
    there = None
    for i, op in enumerate(plan['ops']):
        stats.inc('ops', op['fn'])
        path = None
        if op['tree'] and plan.get('live'):               # every tree of this run appears at the same place
            if op['tree'] != there:
                keep = i if there and layout(there) == layout(op['tree']) else 0
                iofault.build_tree(op['tree'], 'live', keep)
                there = op['tree']
            path = os.path.join(iofault.base(), 'live')
        elif op['tree']:
            path = iofault.build_tree(op['tree'])
        if op['tree'] is None:
            shipped(b, op)
        prefix = path or iofault.NK
        faults = op.get('faults') or []
        cut = op.get('cut')
        at = None
        if faults or cut:
            tw = Universe('sut', (b,))
            SEAM.instrument()
            with tw, iofault.IO(prefix, op.get('mode')) as c:
                if cut:
                    SEAM.count(lambda: call(tw, b, op, path), cut['kind'] == 'mem')
                    at = cut['at'] if 'at' in cut else SEAM.place(cut)
                else:
                    call(tw, b, op, path)
            faults = iofault.place(faults, c.count)
        gc.collect(0)
        before = open_fds()
        val = e = site = None
        with u:
            sim = iofault.IO(prefix, op.get('mode'), faults)
            with sim:
                if cut:
                    exc = SimInterrupt if cut['kind'] == 'int' else SimMemoryError
                    val, e, site = SEAM.run_with_fault(lambda: call(u, b, op, path), at, exc, cut['kind'] == 'mem')
                    if site:
                        stats.inc('faults', cut['kind'])
                        stats.sites.add(site)
                else:
                    try:
                        val = call(u, b, op, path)
                    except Exception as x:
                        e = x
        name = type(e).__name__ if e is not None else None
        msg = str(e)[:140] if e is not None else ''
        e = None
        for _, kind, a, err in sim.log:
            stats.inc('faults', f'{kind}:{a}' + (f':{err}' if err else ''))
        hard = sim.hard or site
        stats.states.add((op['fn'], b, name, tuple(sorted({(k, a) for _, k, a, _ in sim.log})),
                          bool(op['mode'].get('order')), bool(op['mode'].get('unknown')), op['mode'].get('cap', 0), site))
        log.append(f'{i} {op["fn"]} {name} {sim.log} {site}')
        if name is not None and not hard:
            raise Violation('table', f'{op["fn"]} raised {name}: {msg} although no operation failed '
                                     f'(mode {op["mode"]}, log {sim.log})', i)
        if name is None:
            d = wrong(b, op, val)
            if d:
                raise Violation('table', f'{op["fn"]} returned incomplete data' +
                                (f' after {sim.log or site}' if hard or sim.log else '') + f': {d}', i)
        val = None
        fds, dirs = L.sim_open_fds(), L.sim_open_dirs()
        extra = open_fds() - before
        if fds or dirs or extra:
            gc.collect()
            fds, dirs = L.sim_open_fds(), L.sim_open_dirs()
            extra = open_fds() - before
        if fds or dirs or extra:
            raise Violation('fd', f'{op["fn"]} left {max(fds + dirs, len(extra))} descriptor(s) open', i)
    return hashlib.sha256('\n'.join(log).encode()).hexdigest()[:16]
