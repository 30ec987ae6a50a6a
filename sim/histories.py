"""Plan generators for sequential worlds."""
from .gen import BAD, Pools, R4, gen_draw, gen_fault, gen_graphene, gen_mat, gen_nk, gen_vgrad, small_tree


def gen_plan(rng, b, cfg):
    """cfg: op weights + fault configuration.  Returns a JSON plan (pure data)."""
    backends = [b]
    if cfg.get('mix') and b != 1 and rng.random() < cfg['mix']:
        backends = [0, 2]
    pools = {x: Pools(rng, x, cfg.get('pool', {})) for x in backends}
    nsol = rng.choice(cfg.get('nsoljax' if b == 1 else 'nsol', [1, 1, 2, 2, 3]))
    ops = []
    slot_b = []
    cur = []                               # last value asked for, per solver and setting
    pois_pool = [rng.choice([['thickness'], ['thickness'], ['period'], ['ucell'], ['thickness', 'period'],
                             ['thickness', 'ucell']]) for _ in range(rng.choice([1, 1, 2, 4]))]
    loss_pool = [rng.randint(0, 3) for _ in range(rng.choice([1, 1, 2, 3]))]

    def new():
        x = rng.choice(backends)
        if len(slot_b) and rng.random() < .5:
            M = pools[x].initial()
        else:
            M = pools[x].initial()
        ops.append({'op': 'new', 'b': x, 'M': M, 'own': rng.random() < .4})
        slot_b.append(x)
        cur.append({a: v for a, (v, f) in M.items()})

    trees = [small_tree(rng) for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(nsol):
        new()
    lo, hi = cfg.get('len', (5, 22)) if b != 1 else cfg.get('lenjax', (3, 8))
    n = rng.randint(lo, hi)
    w = dict(cfg['weights'])
    for k in list(w):                      # swarm: mute some op kinds in this run
        if k not in ('solve', 'set') and rng.random() < .3:
            w[k] = 0
    if b == 1:
        w['mat'] = 0
        w['sf'] = 0
        w['grad'] = w.get('grad', 0) * .4
        w['fit'] = 0
        w['vgrad'] = w.get('vgrad', 0) * .04
        w.update(cfg.get('wjax', {}))
    elif b == 0:
        w['vgrad'] = 0
    kinds = cfg.get('faults') or []
    if kinds:
        kinds = [k for k in kinds if rng.random() < .7] or [rng.choice(kinds)]
    prate = cfg.get('prate', 0.) * rng.choice([.5, 1., 1.6])
    names, weights = zip(*[(k, v) for k, v in w.items() if v > 0])
    while len(ops) < n + nsol:
        s = rng.randrange(len(slot_b))
        x = slot_b[s]
        p = pools[x]
        k = rng.choices(names, weights)[0]
        op = None
        if k == 'solve':
            op = {'op': 'solve', 's': s}
            if x != 0 and rng.random() < .25:
                op['kw'] = {}
                for _ in range(rng.choice([1, 1, 2])):
                    a = rng.choice(['wavelength', 'thickness', 'period', 'ucell', 'theta', 'n_bot', 'fto', 'phi', 'pp'])
                    op['kw'][a] = [rng.choice(p.pp), 'py'] if a == 'pp' else p.value(a)
        elif k == 'set':
            a = rng.choice(p.settables())
            v, f = ([rng.choice(p.pp), 'py'] if a == 'pp' else p.value(a))
            if rng.random() < .12 and cur[s].get(a) is not None:
                w_ = p.nearly(a, cur[s][a])
                if w_ is not None:
                    v, f = w_, ('py' if a == 'pp' else p.form_for(a, w_))
            cur[s][a] = v
            op = {'op': 'set', 's': s, 'a': a, 'v': v, 'f': f}
            if rng.random() < .35:
                op['own'] = True
        elif k == 'bad':
            a = rng.choice(list(BAD))
            v, f = rng.choice(BAD[a])
            op = {'op': 'set', 's': s, 'a': a, 'v': v, 'f': f, 'bad': True}
        elif k in ('field', 'sf'):
            op = {'op': k, 's': s, 'r': rng.choice([[3, 2, 2], [4, 1, 3], [2, 3, 2], [5, 2, 1]]) if x != 1 else [3, 2, 2],
                  'sfi': rng.choice([[True, False, False], [True, False, False], [True, True, True],
                                     [False, True, False], [False, False, True]]) if x != 1 else
                  [True, False, False]}
            if k == 'field' and rng.random() < .6:
                ops.append({'op': 'solve', 's': s})
        elif k == 'mat':
            op = {'op': 'mat', 's': s, 'm': gen_mat(rng, cfg.get('unknown', 0.))}
        elif k == 'vec':
            op = {'op': 'vec', 's': s, 'u': p.gen_ucell('v')}
        elif k == 'grad':
            op = {'op': 'grad', 's': s, 'pois': rng.choice(pois_pool), 'loss': rng.choice(loss_pool)}
            if kinds and rng.random() < .25:
                op[rng.choice(['lossraise', 'fwdraise'])] = True
        elif k == 'fit':
            op = {'op': 'fit', 's': s, 'pois': rng.choice([['thickness'], ['thickness'], ['period'], ['ucell']]),
                  'loss': rng.randint(0, 3), 'lr': rng.choice([.5, 5.]), 'n': rng.choice([1, 1, 2])}
            if op['pois'] == ['ucell']:
                op['lr'] = .02
        elif k == 'edit':
            op = {'op': 'edit', 's': s, 'a': rng.choice(['thickness', 'ucell', 'ucell']), 'i': rng.randrange(4),
                  'j': rng.randrange(6), 'k': rng.randrange(10 ** 6), 'v': R4(rng.uniform(50., 450.)),
                  'v2': rng.choice([1.5, 2., 3.])}
        elif k == 'draw':
            op = {'op': 'draw', 's': s, 'u': gen_draw(rng, p.P0)}
        elif k == 'nk':
            op = dict(gen_nk(rng, rng.choice(trees)), s=s)
            if rng.random() < .5:              # the same question to another table
                ops.append(dict(op, tree=rng.choice(trees)))
        elif k == 'table':
            op = {'op': 'table', 's': s, 'tree': rng.choice(trees)}
        elif k == 'list':
            op = {'op': 'list', 's': s, 'tree': rng.choice(trees + [None]),
                  'fn': rng.choice(['list', 'list', 'comments', 'print', 'table'] if b == 0 else ['table'])}
        elif k == 'vgrad':
            op = dict(gen_vgrad(rng, p), s=s) if len(p.period[0]) == 2 else None
        elif k == 'graphene':
            op = dict(gen_graphene(rng), s=s)
        elif k == 'renew':
            op = {'op': 'renew', 's': s, 'M': p.initial(), 'own': rng.random() < .6}
            cur[s] = {a: v for a, (v, f) in op['M'].items()}
        elif k == 'natural' and rng.random() < .4:
            # a solve that breaks down by itself: no such Fourier analysis
            a, v = rng.choice([('fourier_type', 7), ('connecting_algo', 'SMM')])
            ops.append({'op': 'set', 's': s, 'a': a, 'v': v, 'f': 'py'})
            ops.append({'op': 'solve', 's': s})
            ops.append({'op': 'field', 's': s, 'r': [3, 2, 2], 'sfi': [True, False, False]})
            v, f = p.value(a) if a == 'fourier_type' else ('TMM', 'py')
            op = {'op': 'set', 's': s, 'a': a, 'v': v, 'f': f}
        elif k == 'natural':
            # a solve that breaks down by itself: more thicknesses than layers
            ops.append({'op': 'set', 's': s, 'a': 'thickness', 'v': [R4(rng.uniform(50., 400.)) for _ in range(p.L + 2)],
                        'f': 'py'})
            ops.append({'op': 'solve', 's': s})
            ops.append({'op': 'field', 's': s, 'r': [3, 2, 2], 'sfi': [True, False, False]})
            v, f = p.value('thickness')
            op = {'op': 'set', 's': s, 'a': 'thickness', 'v': v, 'f': f}
        elif k == 'copy':
            how = 'pytree' if x == 1 else rng.choice(['deepcopy', 'pickle'])
            op = {'op': 'copy', 's': s, 'how': how}
            slot_b.append(x)
            cur.append(dict(cur[s]))
        elif k == 'new':
            if len(slot_b) < 5:
                new()
            continue
        if op is None:
            continue
        if kinds and op['op'] not in ('edit', 'copy', 'fit', 'renew') and rng.random() < prate:
            op['fault'] = gen_fault(rng, kinds)
            if op['fault']['kind'] == 'fs' and op['op'] != 'mat':
                op['fault'] = gen_fault(rng, ['int', 'mem'])
            if op['fault']['kind'] == 'lib' and op['op'] not in ('solve', 'sf', 'field', 'grad'):
                op['fault']['kind'] = 'int' if 'int' in kinds else 'mem'
        ops.append(op)
        if op.get('fault') or (k in ('set', 'edit', 'bad', 'copy', 'renew') and rng.random() < cfg.get('follow', .5)):
            ops.append({'op': 'solve', 's': s if k != 'copy' else rng.choice([s, len(slot_b) - 1])})
            if rng.random() < cfg.get('follow_field', .15):
                ops.append({'op': 'field', 's': s, 'r': [3, 2, 2], 'sfi': [True, False, False]})
    if cfg.get('sweep') and b != 1 or cfg.get('sweep') == 2:       # finally every solver is asked once more
        ops += [{'op': 'solve', 's': i} for i in range(len(slot_b))]
    return {'kind': 'history', 'backends': backends, 'ops': ops}
