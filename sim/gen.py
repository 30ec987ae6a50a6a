"""Seeded generation of worlds (swarm style): every run draws its own sizes, value pools, op mix and faults."""
import copy
import math

R4 = lambda x: round(x, 4)

MATERIALS = ['SI_GREEN-2008', 'sio2_malitson', 'AU_JOHNSON', 'OPTPROP_AU', 'Al2O3_malitson-o', 'OPTPROP_CAF2',
             'si_aspnes__real', 'TIO2_SIEFKE', 'WAVNK_MGO_PALIK', 'OPTPROP_TI', 'AG_JOHNSON__real',
             'GRAPHENE_SONG', 'ITO_MINENKOV-GLASS', 'SIO2_GHOSH-O', 'sio2_ghosh-e']
HALF = math.pi / 2


class Pools:
    """Per-run value pools: few values per attribute so that histories revisit earlier settings."""
    plain = False

    def __init__(self, rng, b, opts):
        self.rng, self.b = rng, b
        self.opts = opts
        dims = opts.get('dims') or rng.choice([['1'], ['2'], ['1', '2'], ['1', '2'], ['1', '2', 'v'], ['v']]
                                              if b != 1 else [['1'], ['2'], ['2'], ['1', '2'], ['1', '2', 'v']])
        if b != 1 and 'v' not in dims and rng.random() < opts.get('vec', 0.):
            dims = dims + ['v']
        self.dims = dims
        self.L = rng.choice([1, 1, 2, 2, 3]) if b != 1 else rng.choice([1, 1, 2])
        self.P0 = R4(rng.uniform(400., 1300.))
        k = lambda: rng.choice([1, 2, 2, 3])
        self.wavelength = [R4(rng.uniform(450., 1100.)) for _ in range(k() + 1)]
        self.theta = [R4(rng.uniform(0.01, 0.7)) for _ in range(k())] + [0.]
        if b != 1 and rng.random() < .1:
            self.theta.append({'c': [R4(math.pi / 2), R4(rng.uniform(.1, .5))]})
        self.phi = [None, R4(rng.uniform(0.05, 1.2)), None, 0., R4(rng.uniform(0.05, 1.2))][:rng.choice([1, 2, 3, 5])]
        self.pp = [['pol', 0], ['pol', 1], ['pol', R4(rng.uniform(.1, .9))], ['psi', R4(rng.uniform(.1, 1.4))],
                   ['pol', 0.], ['pol', 1.]]
        rng.shuffle(self.pp)
        self.pp = self.pp[:rng.choice([1, 2, 3, 6])]
        self.n_top = [1., R4(rng.uniform(1., 1.6))]
        self.n_bot = [1., R4(rng.uniform(1., 2.2))] + ([{'c': [R4(rng.uniform(1., 2.)), -R4(rng.uniform(.01, .3))]}]
                                                       if rng.random() < .4 else [])
        self.period = [[self.P0, R4(rng.uniform(400., 1300.))], [R4(rng.uniform(400., 1300.))] * 2]
        if 'v' not in dims:
            self.period.append([R4(rng.uniform(400., 1300.))])
        self.thickness = [[R4(rng.uniform(40., 500.)) for _ in range(self.L)] for _ in range(k() + 1)]
        if b == 1:
            self.fto = [[1, 0], [1, 1]] if dims != ['1'] else [[1, 0], [2, 0]]
        else:
            self.fto = []
            if '1' in dims:
                self.fto += [[rng.randint(1, 3), 0], [rng.randint(1, 4), 0]]
            if '2' in dims or 'v' in dims:
                self.fto += [[1, 1], rng.choice([[2, 1], [1, 2], [1, 1], [0, 1], [2, 0]])]
        self.ucells = []
        n_uc = rng.choice([2, 2, 3, 4])
        for i in range(n_uc):
            self.ucells.append(self.gen_ucell(dims[i % len(dims)]))
        if rng.random() < .4:
            self.add_near()
        if rng.random() < .3:                # a cell holding the same numbers as another, arranged differently
            u = rng.choice(self.ucells)
            if u['k'] == 'r' and not u.get('e'):
                tr = ['flipx', 'rollx'] + (['layers'] if self.L > 1 else []) + (['conj', 'conj'] if u['dt'] in ('c16', 'c8') else []) + \
                     (['shape'] if u['ny'] > 1 and u['ny'] != u['nx'] else [])
                self.ucells.append(dict(u, tr=rng.choice(tr)))
            elif u['k'] == 'v' and self.L > 1:
                self.ucells.append({'k': 'v', 'layers': u['layers'][::-1]})
        if b != 1 and '1' in dims and rng.random() < .07:       # long cells that differ in one pixel in the middle
            u = {'k': 'r', 'L': self.L, 'ny': 1, 'nx': rng.choice([1100, 1500]), 'seed': rng.randint(0, 10 ** 6), 'dt': 'f8'}
            self.ucells += [u, dict(u, e=[[[0, 0, u['nx'] // 2 - 20 + j], 2.5] for j in range(40)])]
        self.tc = opts.get('tc') or ([0] if rng.random() < (.8 if b != 1 else .93) else rng.choice([[1], [0, 1]]))
        self.fourier_type = rng.choice([[0], [0, 1], [1], [0, 1]])
        self.enh = rng.choice([[True], [True, False], [False]])
        self.pinv = rng.choice([[False], [False], [False, True]])
        self.pert = rng.choice([[], [], [1e-10, 1e-5], [1e-3, 1e-7]]) if b == 2 else []
        self.forms = rng.choice([['py'], ['py', 'np'], ['py', 'np', 'native', 'tuple']])

    def add_near(self):
        """Values that nearly equal earlier ones, and equal values of another type."""
        rng = self.rng
        for name in rng.sample(['wavelength', 'theta', 'n_bot', 'period', 'thickness', 'ucell'], rng.randint(1, 3)):
            pool = self.ucells if name == 'ucell' else getattr(self, name)
            v = rng.choice(pool)
            if name == 'ucell' and v.get('dt') in ('f8', 'i8') and not v.get('an') and rng.random() < .3:
                pool.append(dict(v, dt='i8' if v['dt'] == 'f8' else 'f8'))
                continue
            w = self.nearly(name, v)
            if w is not None:
                pool.append(w)

    def nearly(self, a, v):
        """A value of setting `a` that differs from v by a few parts in a million (None if there is none)."""
        rng = self.rng
        f = 1 + rng.choice([1e-6, 3e-6, -2e-6])
        near = lambda x: round(x * f, 9)
        if a == 'ucell':
            if not isinstance(v, dict) or v.get('an') or v.get('tr') or v.get('data') is not None:
                return None
            w = copy.deepcopy(v)
            if v['k'] == 'v':
                o = (w['layers'][rng.randrange(len(w['layers']))][1] or [None])[0]
                if o is None:
                    return None
                j = rng.choice([3, 4, 5])
                if isinstance(o[j], dict):
                    return None
                o[j] = near(o[j])
                return w
            if v['dt'] not in ('f8', 'c16') or v.get('e'):
                return None
            w['e'] = [[[0, 0, 0], near(1.)]]            # that pixel is 1 in every generated cell
            return w
        if a == 'pp':
            return [v[0], near(v[1])] if isinstance(v[1], float) and 0 < v[1] < .99 else None
        if isinstance(v, list):
            if not v or a == 'fto':
                return None
            j = rng.randrange(len(v))
            same = len(set(v)) == 1
            return [near(x) if i == j or same else x for i, x in enumerate(v)]
        return near(v) if isinstance(v, float) and v else None

    def gen_ucell(self, dim):
        rng = self.rng
        if dim == 'v':
            u = {'k': 'v', 'layers': [self.gen_layer() for _ in range(self.L)]}
            if self.b == 2 and rng.random() < .12:          # diagonal anisotropy, per object or as background
                axes = lambda: {rng.choice(['v', 'v', 'vt']): [R4(rng.uniform(1.4, 3.)) for _ in range(3)]}
                l = rng.choice(u['layers'])
                if rng.random() < .4 or not l[1]:
                    l[0] = axes()
                else:
                    rng.choice(l[1])[5] = axes()
            return u
        if self.b == 1:
            nx, ny = (6, 1) if dim == '1' else (4, 4)
            dt = rng.choice(['f8', 'f8', 'f8', 'c16'])
        else:
            nx, ny = (rng.choice([4, 6, 6, 8, 10]), 1) if dim == '1' else (rng.choice([3, 4, 6]), rng.choice([3, 4, 5]))
            dt = rng.choice(['f8', 'f8', 'f8', 'c16', 'f4', 'i8', 'c8'])
        d = {'k': 'r', 'L': self.L, 'ny': ny, 'nx': nx, 'seed': rng.randint(0, 10 ** 6), 'dt': dt}
        if self.b == 2 and rng.random() < .12:
            d['an'] = 1
            d['dt'] = rng.choice(['f8', 'c16'])
        return d

    def gen_layer(self):
        rng = self.rng
        p = self.P0
        objs = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(['rectangle', 'rectangle', 'ellipse'])
            ang = rng.choice([0, 0, 0., R4(rng.uniform(.1, 1.4)), R4(rng.uniform(.1, 6.2)),
                              rng.choice([1e-6, HALF, 2 * HALF, 3 * HALF, HALF - 1e-6, -.4, -HALF])])
            n = rng.choice([2., 3.5, R4(rng.uniform(1.5, 3.5))])
            if rng.random() < .15:
                n = {'c': [n, -.1]}
            ob = [kind, R4(p * rng.uniform(.35, .65)), R4(p * rng.uniform(.35, .65)),
                  R4(p * rng.uniform(.15, .4)), R4(p * rng.uniform(.15, .4)), n, ang, rng.choice([2, 2, 3]), 2]
            if kind == 'ellipse' and rng.random() < .95:    # (fewer than four, or unequal, splits are refused)
                ob[7:] = [rng.choice([4, 4, 5, 6])] * 2
            elif rng.random() < .25:              # defaults for the angle and/or the splitting
                ob = ob[:rng.choice([6, 7, 8])]
            if not self.plain and rng.random() < .2:        # sizes and angle as one-element arrays the caller keeps
                for j in rng.sample([3, 4, 6][:2 + (len(ob) > 6)], rng.choice([1, 2])):
                    if j == 6 and rng.random() < .5:        # any angle is allowed
                        ob[j] = R4(rng.uniform(-7., 13.))
                    ob[j] = {'t': float(ob[j])}
            objs.append(ob)
        if not self.plain and rng.random() < .05:
            objs = []                                       # a homogeneous film
        return [rng.choice([1., 1.45]), objs]

    # ------------------------------------------------------------------ values
    def form_for(self, a, v):
        rng = self.rng
        if v is None or isinstance(v, dict) and a != 'ucell':
            return 'py'
        fs = [f for f in self.forms]
        if 'native' in fs and rng.random() < .25:
            if a in ('wavelength', 'n_top', 'n_bot', 'theta', 'phi'):
                return 'np0'
            if a == 'thickness' and len(v) == 1 or a == 'period' and len(set(v)) == 1 or a == 'fto' and v[1] == 0:
                return rng.choice(['scalar', 'len1'])
        if a == 'ucell':
            if v['k'] == 'v':
                return 'py'
            return rng.choice(['np', 'native']) if 'native' in fs else 'np'
        if a in ('theta', 'phi'):
            fs = [f for f in fs if f != 'tuple']
        elif a == 'fto':
            if self.b == 0:
                fs = [f for f in fs if f != 'native']
        elif a in ('period', 'thickness'):
            if self.b == 0:
                pass
        else:
            return 'py'
        if self.b == 1 and a == 'theta':
            fs = [f for f in fs]
        return rng.choice(fs)

    def value(self, a):
        rng = self.rng
        v = {
            'wavelength': lambda: rng.choice(self.wavelength),
            'theta': lambda: rng.choice(self.theta),
            'phi': lambda: rng.choice(self.phi),
            'n_top': lambda: rng.choice(self.n_top),
            'n_bot': lambda: rng.choice(self.n_bot),
            'period': lambda: rng.choice(self.period),
            'thickness': lambda: rng.choice(self.thickness),
            'fto': lambda: rng.choice(self.fto),
            'ucell': lambda: rng.choice(self.ucells),
            'type_complex': lambda: rng.choice(self.tc),
            'fourier_type': lambda: rng.choice(self.fourier_type),
            'enhanced_dfs': lambda: rng.choice(self.enh),
            'use_pinv': lambda: rng.choice(self.pinv),
        }[a]()
        return [v, self.form_for(a, v)]

    def settables(self):
        out = ['wavelength', 'wavelength', 'theta', 'n_top', 'n_bot', 'period', 'thickness', 'thickness', 'fto',
               'ucell', 'ucell', 'ucell', 'phi', 'pp', 'pp']
        if len(self.tc) > 1:
            out += ['type_complex']
        if len(self.fourier_type) > 1:
            out += ['fourier_type']
        if len(self.enh) > 1:
            out += ['enhanced_dfs']
        if len(self.pinv) > 1:
            out += ['use_pinv']
        return out

    def initial(self):
        M = {a: self.value(a) for a in ('wavelength', 'theta', 'phi', 'n_top', 'n_bot', 'period', 'thickness',
                                        'fto', 'ucell', 'type_complex', 'fourier_type', 'enhanced_dfs', 'use_pinv')}
        M['pp'] = [self.rng.choice(self.pp), 'py']
        if self.pert and self.rng.random() < .6:
            M['perturbation'] = [self.rng.choice(self.pert), 'py']
        return M


_ANY = [('zzz', 'py'), (None, 'obj'), ({}, 'py'), ([], 'py'), ([], 'np'), (['a'], 'py'), ([None], 'py'), ([[1., 2.], [3.]], 'py'),
        (True, 'py'), (-1, 'py'), (0.3, 'py'), (2, 'py'), (0.3, 'np'), (0.3, 'native'), (2, 'np'), ([0.3], 'py'),
        ([0.3], 'np'), ([0.3], 'native'), ([0.3, 0.4], 'tuple'), ([0.3, 0.4, 0.5, 0.6], 'py'), ([[0.3, 0.4]], 'np'),
        ([[[0.3]]], 'native'), ({'c': [.3, .1]}, 'py'), ([0.3, 'x'], 'py'), ('nan', 'flt'), ('0.3', 'py')]
BAD = {
    # attribute -> candidate values that at least one backend rejects; nothing is assumed about which do
    'fto': [([1, 2, 3], 'py'), ([1, 2, 3], 'np'), ([], 'py'), ([[1, 1], [1, 1], [1, 1]], 'np'), (None, 'str'),
            (None, 'py'), ([2, 'x'], 'py'), ([None, 1], 'py'), ([1, 2, 3], 'native'), ([[1], [2]], 'py'), (['1', 'b'], 'tuple'),
            ([1.5, None], 'py')],
    'period': [(None, 'str'), (None, 'obj'), (['a', 2.], 'py'), (None, 'py'), ([], 'py'), ([500., None], 'py'),
               ([[500., 400.], [3.]], 'py'), ([500., 'b'], 'tuple')],
    'thickness': [(None, 'str'), (['a', 2.], 'py'), (None, 'obj'), ([[1., 2.], [3.]], 'py'), (None, 'py'),
                  ([100., 'b'], 'tuple'), ([100., {}], 'py')],
    'pp': [(['pol', 1.5], 'py'), (['pol', -0.2], 'py'), (['pol', 7], 'py'), (['pol', 'x'], 'py'), (['psi', 'x'], 'py'),
           (['psi', [0.1, 'a']], 'py'), (['psi', [0.3]], 'py'), (['psi', [0.3, 0.4]], 'py'), (['pol', [0.3]], 'py'),
           (['pol', [0.3, 0.4]], 'py'), (['pol', None], 'py'), (['psi', {}], 'py'), (['pol', {}], 'py'),
           (['pol', '0.5'], 'py'), (['psi', '0.5'], 'py'), (['psi', [[0.1], [0.2, 0.3]]], 'py')],
    'theta': [(None, 'str'), (['a'], 'py'), (None, 'obj')] + _ANY,
    'phi': [('zzz', 'py'), (['a'], 'py'), (None, 'obj')] + _ANY,
    'type_complex': [(7, 'py'), ('float', 'py'), (None, 'obj'), (None, 'py'), ([0], 'py'), ('complex128', 'py'), (2, 'py'),
                     (-1, 'py'), (0.5, 'py'), ({}, 'py')],
    'ucell': [('str', 'py'), ('tuple', 'py'), ('int', 'py'), ('dict', 'py'),
              ({'k': 'r', 'L': 1, 'ny': 4, 'nx': 4, 'seed': 3, 'dt': 'b1'}, 'np'),
              ({'k': 'r', 'L': 1, 'ny': 4, 'nx': 4, 'seed': 4, 'dt': 'i1'}, 'np'),
              ({'k': 'r', 'L': 2, 'ny': 1, 'nx': 6, 'seed': 4, 'dt': 'u1'}, 'native'),
              ({'k': 'r', 'L': 2, 'ny': 1, 'nx': 6, 'seed': 5, 'dt': 'f8', 'nd': 2}, 'np'),
              ({'k': 'r', 'L': 2, 'ny': 1, 'nx': 6, 'seed': 5, 'dt': 'f8', 'nd': 1}, 'np'),
              ({'k': 'r', 'L': 2, 'ny': 1, 'nx': 6, 'seed': 5, 'dt': 'f8', 'nd': 5}, 'np'),
              ({'k': 'r', 'L': 3, 'ny': 1, 'nx': 6, 'seed': 5, 'dt': 'f8', 'nd': 4}, 'native'),
              ({'k': 'r', 'L': 2, 'ny': 1, 'nx': 6, 'seed': 5, 'dt': 'f8', 'nd': 4}, 'np')],
}


def gen_fault(rng, kinds):
    kind = rng.choice(kinds)
    if kind == 'mem' and rng.random() < .4:
        kind = 'oom'
    elif kind == 'int' and rng.random() < .2:
        kind = 'tmo'
    if kind == 'fs':
        from . import iofault
        return {'kind': 'fs', 'f': iofault.gen_faults(rng), 'mode': iofault.gen_mode(rng)}
    return {'kind': kind, 'pos': round(rng.random(), 6), 'how': rng.choice(HOW)}


HOW = ['', '', 's', 'g']                  # see events.Seam.place


def gen_spec(rng):
    """A dispersion specification the caller wrote."""
    f = rng.choice([1, 2])
    c = [0., R4(rng.uniform(.5, 1.5)), 1e-7 if f == 1 else 1e-14]
    return {'s': [f, c + ([R4(rng.uniform(.1, .5)), 1.2e-7 if f == 1 else 1.5e-14] if rng.random() < .4 else []), [2e-7, 6e-6]]}


def gen_mat(rng, unknown=0.):
    n = rng.choice([2, 2, 3])
    mats = []
    for _ in range(n):
        r = rng.random()
        if rng.random() < unknown:
            mats.append('NO_SUCH_MATERIAL')
        elif r < .7:
            mats.append(rng.choice(MATERIALS))
        elif r < .82:
            mats.append(R4(rng.uniform(1., 3.)))
        elif r < .9:
            mats.append(gen_spec(rng))
        else:
            mats.append({'g': [R4(rng.uniform(.1, .6)), 10000., 300.]})
    return {'shape': rng.choice([[1, 1, 6], [2, 1, 5], [1, 3, 3], [2, 2, 4]]), 'seed': rng.randint(0, 10 ** 6),
            'mats': mats, 'wl': rng.choice([5.0e-7, 6.33e-7, R4(rng.uniform(4.5, 8.)) * 1e-7])}


def gen_draw(rng, p):
    """Shapes on a coarse grid, so edges coincide and the overlap handling is exercised."""
    q = lambda: R4(p * rng.choice([.25, .375, .5, .625]))
    layers = []
    for _ in range(rng.choice([1, 1, 2])):
        objs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            if rng.random() < .85:
                objs.append(['rectangle', q(), q(), R4(p * .25), R4(p * .25), rng.choice([2., 3.5]), 0])
            else:
                objs.append(['ellipse', R4(p * .5), R4(p * .5), R4(p * .3), R4(p * .2), 2.5, rng.choice([0, .4]), 4, 4])
        layers.append([rng.choice([1., 1.45]), objs])
    return {'k': 'v', 'layers': layers}


def small_tree(rng):
    return {'dirs': [''], 'junk': False, 'files': [
        {'d': '', 'n': f'MAT{i}', 'k': rng.choice(['table', 'table', 'table', 'formula', 'mat']), 'seed': rng.randint(0, 50),
         'rows': rng.randint(2, 6), 'meta': rng.random() < .5} for i in range(rng.choice([1, 2, 3]))]}


def gen_nk(rng, tree):
    return {'op': 'nk', 'tree': tree, 'mat': rng.randint(0, 5) if rng.random() < .8 else
            rng.choice([{'g': [R4(rng.uniform(.1, .6)), 10000., 300.]}, gen_spec(rng)]), 'real': rng.random() < .3,
            'wl': rng.choice([5e-7, [4e-7, 5e-7, 6e-7], R4(rng.uniform(3., 5.)) * 1e-7])}


def gen_vgrad(rng, p):
    """Gradient with respect to sizes inside a vector cell, driven by the caller's own autograd."""
    p.plain = True
    u = p.gen_ucell('v')
    p.plain = False
    par = []
    for l, (_, objs) in enumerate(u['layers']):
        for o in range(len(objs)):
            for j in (3, 4):
                if rng.random() < .5:
                    par.append([l, o, j])
    return {'op': 'vgrad', 'u': u, 'par': par or [[0, 0, 3]], 'loss': rng.randint(0, 3)}


def gen_graphene(rng):
    return {'op': 'graphene', 'g': [rng.choice([.2, .4, R4(rng.uniform(.1, .6))]), rng.choice([10000., 2000.]), 300.],
            'wl': rng.choice([1.55e-6, [1e-6, 2e-6, 5e-6]])}
