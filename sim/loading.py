"""C18: loading the package and its backends when libraries are missing, broken or slow to arrive, or a load is cut short.

The import seam: every import statement executed by code of the package (and importlib.import_module / find_spec called
from it) asks the simulator first.  A library may be denied for a while (not installed, broken installation, unreadable
file), or one import may fail once; interrupts and allocation failures strike at seeded lines while modules execute.
The module bodies are the real ones, executed afresh by the real import machinery.
"""
import builtins
import contextlib
import hashlib
import importlib
import importlib.util
import sys

import numpy as np

from . import iofault
from . import model as md
from . import universe
from .events import SEAM
from .universe import Universe
from .world import SimInterrupt, SimMemoryError, Violation, make_loss

OPTIONAL = ['jax', 'jaxlib', 'torch', 'optax', 'tqdm', 'matplotlib']
NEEDS = {0: {'scipy'}, 1: {'jax', 'jaxlib', 'optax', 'tqdm', 'scipy'}, 2: {'torch', 'tqdm', 'scipy'}}
ERR = {
    'absent': lambda n: ModuleNotFoundError(f"No module named '{n}'", name=n),
    'broken': lambda n: ImportError(f'simulated: {n}: undefined symbol', name=n),
    'oserror': lambda n: OSError(f'simulated: lib{n}.so: cannot open shared object file'),
    'runtime': lambda n: RuntimeError(f'simulated: {n} is incompatible with its native library'),
    'attr': lambda n: AttributeError(f"simulated: module '{n}' has no attribute 'core'"),
}
ONCE = {'int': SimInterrupt, 'mem': SimMemoryError, 'io': lambda: OSError(5, 'simulated I/O error'),
        'imp': lambda: ImportError('simulated: transient failure of an import')}


class Imports:
    def __init__(self):
        self.deny = {}
        self.at = ()
        self.kind = None
        self.n = 0
        self.fired = []
        self.armed = False

    def caller(self, depth=2):
        return str(sys._getframe(depth).f_globals.get('__name__', '')).split('.')[0] == 'meent'

    def ask(self, name, level=0, event=True):
        top = name.split('.')[0]
        if event:
            self.n += 1
            if top == self.lib and not level:
                self.nlib += 1
            if self.n in self.at or (top == self.lib and not level and self.skip < self.nlib <= self.skip + self.first):
                self.fired.append((self.n, name, self.kind))
                raise ONCE[self.kind]()
        if not level and top in self.deny:
            self.fired.append((0, top, self.deny[top]))
            raise ERR[self.deny[top]](name)

    @contextlib.contextmanager
    def active(self, at=(), fault=None):
        fault = fault or {}
        self.at, self.kind, self.n, self.fired = frozenset(at), fault.get('kind'), 0, []
        self.lib, self.first, self.skip, self.nlib = fault.get('lib'), fault.get('first', 0), fault.get('skip', 0), 0
        imp, mod, spec = builtins.__import__, importlib.import_module, importlib.util.find_spec
        me = self

        def _import(name, globals=None, locals=None, fromlist=(), level=0):
            if globals is not None and str(globals.get('__name__', '')).split('.')[0] == 'meent':
                me.ask(name, level)
            return imp(name, globals, locals, fromlist, level)

        def _module(name, package=None):
            if me.caller():
                me.ask(name, 1 if name.startswith('.') else 0)
            return mod(name, package)

        def _spec(name, package=None):
            if me.caller() and name.split('.')[0] in me.deny and me.deny[name.split('.')[0]] == 'absent':
                return None
            return spec(name, package)
        builtins.__import__, importlib.import_module, importlib.util.find_spec = _import, _module, _spec
        try:
            yield self
        finally:
            builtins.__import__, importlib.import_module, importlib.util.find_spec = imp, mod, spec


TREE = {'dirs': [''], 'junk': False, 'files': [{'d': '', 'n': 'MATA', 'k': 'table', 'seed': 4, 'rows': 5, 'meta': True},
                                               {'d': '', 'n': 'MATB', 'k': 'mat', 'seed': 5, 'rows': 4, 'meta': False},
                                               {'d': '', 'n': 'MATC', 'k': 'formula', 'seed': 6, 'rows': 4, 'meta': True}]}
WHAT = {0: ['solve', 'solve', 'field', 'mat', 'vec'], 1: ['solve', 'solve', 'field', 'grad'],
        2: ['solve', 'solve', 'field', 'grad', 'mat', 'fit']}


def gen(rng, group, tier):
    bs = {'numpy': [0, 0, 0, 2], 'torch': [2, 2, 0], 'jax': [1, 1, 0]}[group]
    present = {'numpy': [0, 2], 'torch': [0, 2], 'jax': [0, 1]}[group]
    ops = []
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        if r < .22:
            names = rng.sample(OPTIONAL, rng.choice([1, 1, 2, 3, 6])) if rng.random() < .8 else ['scipy']
            ops.append({'op': 'deny', 'names': names, 'how': rng.choice(list(ERR))})
            if rng.random() < .5:                           # out of reach, tried all the same, back again
                b = rng.choice(bs)
                o = {'op': 'lookup', 'fn': rng.choice(['nk', 'au', 'graphene'])} if 'scipy' in names or rng.random() < .3 else \
                    {'op': 'use', 'b': b, 'what': rng.choice(WHAT[b]), 'v': rng.randint(0, 3)}
                ops += [o, {'op': 'allow'}, dict(o)]
        elif r < .34:
            ops.append({'op': 'allow'})
        elif r < .48:
            ops.append({'op': 'import'})
        elif r < .62:
            ops.append({'op': 'lookup', 'fn': rng.choice(['nk', 'table', 'list', 'graphene', 'au'])})
        else:
            b = rng.choice(bs)
            ops.append({'op': 'use', 'b': b, 'what': rng.choice(WHAT[b]), 'v': rng.randint(0, 3)})
        if ops[-1]['op'] not in ('deny', 'allow') and rng.random() < .45:
            r = rng.random()
            if r < .6:
                op = ops[-1]
                op['fault'] = {'kind': rng.choice(list(ONCE)), 'pos': [round(rng.random(), 6) for _ in
                                                                       range(rng.choice([1, 1, 1, 2, 3]))]}
                if rng.random() < .35:                    # one library is out of reach for its first few imports
                    op['fault'] = {'kind': op['fault']['kind'], 'lib': rng.choice({0: ['jax', 'scipy', 'scipy'], 1: ['jax', 'jax', 'tqdm'],
                                                                                   2: ['torch', 'jax', 'tqdm']}[op.get('b', 0)]),
                                   'first': rng.randint(1, 6), 'skip': rng.choice([0, 0, 0, 1, 3])}
                elif rng.random() < .4:                     # the first few imports, where the libraries are
                    op['fault']['at'] = sorted(rng.sample(range(1, 7), rng.choice([1, 2, 3])))
            else:
                ops[-1]['cut'] = {'kind': rng.choice(['int', 'mem']), 'pos': round(rng.random(), 6),
                                  'how': rng.choice(['', '', 's', 'g'])}
            if rng.random() < .4:                           # the same again, undisturbed
                ops.append({k: v for k, v in ops[-1].items() if k not in ('fault', 'cut')})
    ops.append({'op': 'allow'})
    for b in present:
        ops.append({'op': 'use', 'b': b, 'what': 'solve', 'v': 0})
    ops.append({'op': 'lookup', 'fn': rng.choice(['nk', 'au', 'graphene'])})
    return {'kind': 'loading', 'backends': present, 'ops': ops}


def settings(b, v):
    u = np.array([[[1., 1., 1., 3., 3., 1.5]]]) if v % 2 == 0 or b == 1 else np.array([[[1., 3., 1.], [2., 2., 1.], [1., 1., 1.]]])
    return dict(wavelength=700. + 50 * v, period=[900., 900.], thickness=[210.], fto=[2, 0] if u.shape[1] == 1 else [1, 1],
                ucell=u, pol=[0, 1, .3, 1][v], theta=.1 * v, phi=None if u.shape[1] == 1 and v < 2 else .2, n_bot=1.5)


def act(op):
    """Runs inside a universe (and inside the import seam)."""
    if op['op'] == 'import':
        import meent
        return str(meent.__version__)
    import meent
    if op['op'] == 'lookup':
        if op['fn'] == 'graphene':
            return md.obs_tree(meent.find_nk_index(meent.graphene_falkovsky(.3), {}, 1.55e-6))
        if op['fn'] == 'au':
            mee = meent.call_mee(backend=0)
            return md.obs_tree(mee.put_refractive_index_in_ucell(np.array([[[0., 1.]]]), ['OPTPROP_AU', 1.5], 6e-7))
        path = iofault.build_tree(TREE)
        if op['fn'] == 'list':
            return [m['name'] for m in meent.list_materials(path)]
        table = meent.read_material_table(path)
        if op['fn'] == 'table':
            return md.obs_tree(table)
        return [md.obs_tree(meent.find_nk_index(n, table, 3.3e-7)) for n in ('mata', 'MATB__real', 'MATC')]
    b, what = op['b'], op['what']
    mee = meent.call_mee(backend=b, **settings(b, op['v']))
    if what == 'solve':
        return md.obs_result(mee.conv_solve())
    if what == 'field':
        mee.conv_solve()
        return md.obs_tree(mee.calculate_field(res_x=3, res_y=1, res_z=2))
    if what == 'mat':
        return md.obs_tree(mee.put_refractive_index_in_ucell(np.array([[[0., 1.]]]), ['SIO2_MALITSON', 1.5], 6e-7))
    if what == 'vec':
        return md.obs_tree(mee.modeling_vector_instruction([[1., [['rectangle', 400., 400., 200., 100., 2., 0.]]]]))
    if what == 'grad':
        return md.obs_tree(mee.grad(['thickness'], mee.conv_solve, make_loss(b, 0)))
    mee.fit(['thickness'], mee.conv_solve, make_loss(b, 0), md.torch().optim.SGD, {'lr': 1.}, 2)
    return md.obs_tree(mee.thickness)


def raw():
    """A universe in which nothing of the package has been loaded."""
    u = Universe.__new__(Universe)
    u.flavour, u.mods = 'sut', {}
    return u


_ref = {}
_n = {}


def key(op):
    return md.jkey({k: v for k, v in op.items() if k in ('op', 'b', 'what', 'v', 'fn')})


def reference(op):
    k = key(op)
    if k not in _ref:
        with Universe('ref', (op['b'],) if 'b' in op else (0,)):
            _ref[k] = act(op)
    return _ref[k]


def counts(op, cut=None):
    """Import statements of the operation in a package nothing of which is loaded; or where the cut strikes."""
    k = key(op)
    if cut is None and k in _n:
        return _n[k]
    u = raw()
    SEAM.instrument()
    sim = Imports()
    with u, sim.active():
        if cut is None:
            act(op)
            _n[k] = sim.n
            return sim.n
        SEAM.count(lambda: act(op), cut['kind'] == 'mem')
        return SEAM.place(cut)


_warm = set()


def warm(backends):
    for b in backends:
        if b not in _warm:
            _warm.add(b)
            Universe('sut', (b,))
    SEAM.instrument()


def x64(on):
    j = sys.modules.get('jax')
    if j is not None:
        j.config.update('jax_enable_x64', on)


def run(plan, stats):
    if 2 in plan['backends']:
        md.torch()
    if 1 in plan['backends']:
        md.jnp()
    warm(plan['backends'])
    todo = []
    for op in plan['ops']:                       # everything the oracle needs, before the run starts
        op = dict(op)
        if op['op'] not in ('deny', 'allow'):
            reference(op)
            if op.get('fault') and 'pos' in op['fault'] and 'at' not in op['fault']:
                n = counts(op)
                op['at'] = sorted({1 + int(p * n) for p in op['fault']['pos']})
            elif op.get('fault') and 'at' in op['fault']:
                op['at'] = op['fault']['at']
            if op.get('cut'):
                op['cut_at'] = op['cut'].get('at') or counts(op, op['cut'])
        todo.append(op)
    x64(False)                                   # as in a new process: the package is responsible for double precision
    u = raw()
    sim = Imports()
    log = []
    try:
        for i, op in enumerate(todo):
            stats.inc('ops', op['op'] + (f'-{op["b"]}' if 'b' in op else ''))
            if op['op'] == 'deny':
                sim.deny = {n: op['how'] for n in op['names']}
                continue
            if op['op'] == 'allow':
                sim.deny = {}
                continue
            val = e = site = None
            with u, sim.active(op.get('at', ()), op.get('fault')):
                if op.get('cut'):
                    val, e, site = SEAM.run_with_fault(lambda: act(op), op['cut_at'], ONCE[op['cut']['kind']],
                                                       op['cut']['kind'] == 'mem')
                    if site:
                        stats.inc('faults', 'line ' + op['cut']['kind'])
                        stats.sites.add(site)
                else:
                    try:
                        val = act(op)
                    except (Exception, KeyboardInterrupt) as x:
                        e = x
            name, msg = (type(e).__name__, str(e)[:120]) if e is not None else (None, '')
            if e is not None and not isinstance(e, (Exception, KeyboardInterrupt)):
                raise e
            e = None
            for n, what, kind in sim.fired:
                stats.inc('faults', f'{"import" if n else "library " + what}: {kind}')
            once = site or [x for x in sim.fired if x[0]]
            stats.states.add((op['op'], op.get('b'), op.get('what') or op.get('fn'), tuple(sorted(sim.deny)), name,
                              bool(once)))
            log.append(f'{i} {op["op"]} {name} {sim.fired} {site}')
            missing = set(sim.deny) & NEEDS[op.get('b', 0)]
            if name is None:
                d = md.diff(val, reference_only(op), 2e-8, 1.0) if not isinstance(val, str) else \
                    (None if val == reference_only(op) else f'{val} != {reference_only(op)}')
                if d:
                    raise Violation('load', f'{op["op"]} {op.get("what") or op.get("fn") or ""} on backend {op.get("b", 0)} '
                                            f'returned a different result than in an undisturbed process '
                                            f'({what_happened(sim, site)}): {d}', i)
            elif not once and not missing:
                raise Violation('load', f'{op["op"]} {op.get("what") or op.get("fn") or ""} on backend {op.get("b", 0)} '
                                        f'raised {name}: {msg} although everything that backend needs is available '
                                        f'(unavailable: {sorted(sim.deny) or "nothing"})', i)
    finally:
        x64(True)
    return hashlib.sha256('\n'.join(log).encode()).hexdigest()[:16]


def reference_only(op):
    return _ref[key(op)]


def what_happened(sim, site):
    return f'failed imports {sim.fired}, cut at {site}, unavailable {sorted(sim.deny)}'
