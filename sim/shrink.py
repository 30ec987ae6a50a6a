"""Simplifications tried by the minimiser after ddmin over the operation list."""
import copy


def candidates(plan):
    ops = plan['ops']
    for i, op in enumerate(ops):
        for key in ('fault', 'kw', 'own', 'lossraise', 'per', 'mode'):
            if op.get(key):
                c = copy.deepcopy(plan)
                del c['ops'][i][key]
                yield c
        if isinstance(op.get('faults'), list) and op['faults']:
            for j in range(len(op['faults'])):
                c = copy.deepcopy(plan)
                del c['ops'][i]['faults'][j]
                yield c
        if op.get('nest'):
            for j in range(len(op['nest']['ops'])):
                c = copy.deepcopy(plan)
                del c['ops'][i]['nest']['ops'][j]
                if not c['ops'][i]['nest']['ops']:
                    del c['ops'][i]['nest']
                yield c
        M = op.get('M')
        if M:
            for a in list(M):
                if a not in ('wavelength', 'period', 'thickness', 'ucell', 'pp', 'fto', 'type_complex') and \
                        M[a] != DEFAULT.get(a):
                    c = copy.deepcopy(plan)
                    if a in DEFAULT:
                        c['ops'][i]['M'][a] = copy.deepcopy(DEFAULT[a])
                    else:
                        del c['ops'][i]['M'][a]
                    yield c
    sw = (plan.get('sched') or {}).get('list')
    if sw:
        n = len(sw)
        size = max(1, n // 2)
        while size:
            for i in range(0, n, size):
                c = copy.deepcopy(plan)
                c['sched']['list'] = sw[:i] + sw[i + size:]
                yield c
            size //= 2
    for k in plan.get('drop', ()):
        if plan.get(k):
            c = copy.deepcopy(plan)
            c[k] = type(c[k])()
            yield c


DEFAULT = {'theta': [0.1, 'py'], 'phi': [None, 'py'], 'n_top': [1.0, 'py'], 'n_bot': [1.0, 'py'],
           'fourier_type': [0, 'py'], 'enhanced_dfs': [True, 'py'], 'use_pinv': [False, 'py']}
