"""One object per property: gen(rng, group, tier) -> plan (plain data), run(plan, stats) -> digest or Violation."""
from . import absorb, ambient, fitting, histories, loading, longrun, ranges, tables, threads, twins, universe
from .events import SEAM
from .world import World

universe.install()
SEAM.install()

B = {'numpy': 0, 'jax': 1, 'torch': 2, 'mix': 2}
BASE = {'solve': 5, 'set': 8, 'field': 2, 'sf': 1, 'mat': .7, 'vec': .5, 'grad': .7, 'edit': 1, 'copy': .4, 'new': .4,
        'draw': .4, 'nk': .5, 'table': .2, 'fit': .3, 'vgrad': .3, 'graphene': .2, 'renew': .5, 'natural': .15, 'list': .2}


class History:
    """Sequential histories of public operations, judged by fresh solvers in pristine universes."""

    def __init__(self, kinds, weights=None, faults=(), world=World, **cfg):
        self.kinds = set(kinds)
        self.cfg = dict(cfg, weights=weights or BASE, faults=list(faults))
        self.world = world

    def gen(self, rng, group, tier):
        cfg = dict(self.cfg)
        name = group.split('-')[0]
        cfg['mix'] = 1. if name == 'mix' else cfg.get('mix', 0.)
        if tier == 'thorough':
            lo, hi = cfg.get('len', (5, 22))
            cfg['len'] = (lo, int(hi * 1.7))
            cfg['lenjax'] = (3, 12)
        return histories.gen_plan(rng, B[name], cfg)

    def run(self, plan, stats):
        w = self.world(plan, self.kinds, stats)
        w.run()
        return w.digest()


RETURNS = ('solve', 'field', 'sf', 'mat', 'vec', 'grad', 'nk', 'table', 'draw', 'list', 'graphene', 'vgrad')


class Owned(History):
    """The caller overwrites values it was given and asks again."""

    def gen(self, rng, group, tier):
        plan = super().gen(rng, group, tier)
        rate = rng.choice([.25, .45])
        out, again = [], []
        for op in plan['ops']:
            out.append(op)
            if again and rng.random() < .4:
                out.append(again.pop(rng.randrange(len(again))))
            if op['op'] in RETURNS and not op.get('fault') and rng.random() < rate:
                out.append({'op': 'scribble', 's': op['s'], 'j': rng.choice([-1, -1, -1, rng.randint(0, 9)])})
                o = {k: v for k, v in op.items() if k != 'kw'}
                r = rng.random()
                if r < .6:
                    out.append(o)
                elif r < .8:
                    again.append(o)
                if op['op'] in ('solve', 'sf') and rng.random() < .4:
                    out.append({'op': 'field', 's': op['s'], 'r': [3, 2, 2], 'sfi': [True, False, False]})
        plan['ops'] = out
        return plan


class Nested(History):
    """Operations on other solvers run in the middle of an operation, in the same thread."""

    def gen(self, rng, group, tier):
        plan = super().gen(rng, group, tier)
        ops = plan['ops']
        if 2 in plan['backends']:               # (solvers sharing one tensor share its .grad; not the package's doing)
            for o in ops:
                o['own'] = True
        pool = [o for o in ops if o['op'] not in ('new', 'copy', 'edit', 'renew')]
        rate = rng.choice([.3, .6])
        nslots = 0
        out = []
        for op in ops:
            nslots += op['op'] in ('new', 'copy')
            same = [o for o in pool if o['op'] == op['op']]
            if pool and nslots > 1 and op['op'] not in ('new', 'copy', 'edit', 'renew', 'vgrad') and rng.random() < rate:
                inner = []
                for _ in range(rng.choice([1, 1, 2])):
                    o = dict(rng.choice(same) if rng.random() < .5 else rng.choice(pool))
                    o['s'] = (op['s'] + rng.randint(1, nslots - 1)) % nslots
                    if o['op'] == 'field':
                        inner.append({'op': 'solve', 's': o['s']})
                    elif o.get('kw'):
                        o.pop('kw')
                    inner.append(o)
                    if o['op'] == 'set' and rng.random() < .6:
                        inner.append({'op': 'solve', 's': o['s']})
                op = dict(op, nest={'pos': round(rng.random(), 6), 'how': rng.choice(['', 's']), 'ops': inner})
            out.append(op)
        plan['ops'] = out
        return plan


def w_(**k):
    d = dict(BASE)
    d.update(k)
    return d


FAULTS = ('int', 'int', 'mem', 'lin', 'lib')

PROPS = {
    'C01': History({'value', 'deadlock'}, mix=.15, sweep=1),
    'C02': History({'recover', 'deadlock'}, w_(set=5), FAULTS, prate=.45, len=(4, 14), follow=.4, mix=.1, sweep=1),
    'C03': History({'failstop'}, {'solve': 6, 'set': 4, 'field': 3, 'sf': 2, 'mat': 1.5, 'vec': 1, 'grad': 2, 'edit': .3,
                                  'new': .3, 'draw': 1, 'nk': 1, 'table': .7, 'list': .5},
                   ('int', 'mem', 'mem', 'lin', 'lib', 'lib'), prate=.7, len=(4, 14), follow=.1, mix=.1),
    'C04': History({'reject', 'value'}, {'solve': 3, 'set': 7, 'bad': 7, 'edit': .5, 'field': .5, 'new': .2, 'copy': .2,
                                         'natural': .3},
                   len=(5, 18), follow=.75, sweep=1),
    'C05': threads,
    'C06': History({'input'}, w_(mat=2, vec=1.5, draw=2, nk=2, table=.6, grad=1.5, fit=1.2, bad=1, solve=4),
                   ('int', 'mem', 'lin', 'lib'), prate=.2, follow=.3, mix=.15),
    'C07': History({'result'}, w_(mat=2, vec=1, draw=1, nk=1.5, table=1, grad=2.5, fit=.8, solve=4, field=3, sf=1.5),
                   ('int', 'mem', 'lin', 'lib'), prate=.15, follow=.4, mix=.15),
    'C08': absorb,
    'C09': tables,
    'C10': History({'value', 'recover', 'failstop', 'deadlock'},
                   {'mat': 10, 'solve': 1, 'set': 1.5, 'new': .8, 'nk': 1, 'copy': .5}, ('fs', 'fs', 'fs', 'int', 'mem'),
                   prate=.45, len=(4, 12), follow=.0, unknown=.04, mix=.2),
    'C11': History({'value', 'recover', 'param', 'deadlock'}, {'solve': 2, 'set': 3, 'grad': 7, 'edit': .6, 'field': .5,
                                                               'sf': .4, 'new': .3, 'fit': .5, 'vgrad': 1.2, 'renew': .2},
                   ('int', 'int', 'mem', 'lin', 'lib'), prate=.25, len=(4, 12), lenjax=(4, 8), follow=.2, nsoljax=[1, 1, 1, 2],
                   wjax={'grad': 7, 'set': 4, 'renew': 0, 'solve': 1, 'field': .3, 'new': 0}),
    'C12': fitting,
    'C13': History({'field'}, {'solve': 5, 'set': 2.5, 'field': 8, 'sf': 1, 'edit': .3, 'new': .3, 'copy': .3, 'grad': .3,
                               'natural': 1, 'mat': .3, 'vec': .3},
                   ('lib', 'lib', 'int', 'lin'), prate=.25, follow=.6, follow_field=.6, mix=.15),
    'C14': History({'value', 'recover', 'copy'}, {'solve': 4, 'set': 6, 'copy': 4, 'edit': 2.5, 'field': 1.5, 'mat': .5,
                                                  'vec': .4, 'new': .2, 'fit': .2, 'renew': .3},
                   ('int', 'lib'), prate=.12, follow=.7, len=(5, 18), sweep=2, pool={'vec': .5}),
    'C15': ambient.Ambient(History({'ambient'}, w_(mat=1.5, vec=1, draw=1, nk=1, table=.6, grad=1.2, fit=.8, bad=1,
                                                   list=.8, solve=4), FAULTS, prate=.35, follow=.1, mix=.15, len=(4, 14))),
    'C16': longrun.LongRun(History({'growth'}, w_(mat=1.2, vec=1, draw=.8, nk=.8, table=.4, grad=1.2, fit=.6, bad=1.2,
                                                  solve=4, field=2), FAULTS, prate=.3, follow=.1, mix=.15, len=(3, 9),
                                   lenjax=(2, 4), nsol=[1, 1, 2], nsoljax=[1, 1, 2])),
    'C20': Owned({'owned'}, w_(mat=2, vec=1, draw=1, nk=1.5, table=1, grad=1.5, fit=.4, solve=4, field=3, sf=1.5, list=1,
                               graphene=.6, natural=0), ('int', 'mem', 'lib'), prate=.05, follow=.3, mix=.15, len=(4, 14)),
    'C21': Nested({'value', 'deadlock'}, w_(mat=2, vec=1.2, draw=1, nk=1, table=.6, grad=1.5, fit=.5, field=3, sf=1.5, list=.3,
                                            natural=0, solve=6), mix=.2, len=(4, 14), nsol=[2, 2, 3], sweep=1),
    'C18': loading,
    'C19': ranges,
    'C17': twins.Twins(History({'process'}, w_(mat=3, vec=1, draw=1, nk=1.5, table=1, grad=1.2, fit=.6, graphene=.5, list=.8), mix=.2)),
}
