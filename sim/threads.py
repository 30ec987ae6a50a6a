"""C05: several threads, each driving its own solvers, under a simulated scheduler."""
import copy
import hashlib
import random
import zlib

from . import model as md
from .events import SEAM, Scheduler, SimDeadlock, StepLimit
from .gen import Pools, gen_draw, gen_mat, gen_nk, small_tree
from .universe import Universe
from .world import Inputs, Outcome, SimInterrupt, SimMemoryError, TOL, Violation, act, metric, plain

B = {'numpy': [0], 'torch': [2], 'jax': [1], 'mix': [0, 2]}


# ----------------------------------------------------------------------------------------- generation
def gen(rng, group, tier):
    backends = B[group.split('-')[0]]
    jax = backends == [1]
    nthr = rng.choice([2, 2, 2, 3]) if not jax else 2
    shared = rng.random() < .6                 # threads draw from the same value pool, hence share input objects
    pools = {}
    tree = small_tree(rng)
    same_b = rng.choice(backends)
    ops = []
    progs = []
    focus = None                               # all threads do the same kind of thing, in different ways
    if rng.random() < .4:
        focus = rng.choice(['field', 'field', 'sf', 'mat', 'vec', 'grad', 'nk', 'table', 'draw', 'set'] if not jax else
                           ['field', 'grad', 'vec', 'nk', 'table'])
    tcs = rng.choice([[0, 1, 0], [1, 0, 0], [0, 0, 1]]) if focus and rng.random() < .4 else None
    for t in range(nthr):
        b = rng.choice(backends) if len(backends) > 1 else same_b
        key = b if shared else (b, t)
        if key not in pools:
            pools[key] = Pools(rng, b, {})
        p = pools[key]
        prog = [{'op': 'new', 'b': b, 'M': p.initial()}]
        prog[0]['own'] = b == 2 or rng.random() < .3
        if tcs:
            prog[0]['M']['type_complex'] = [tcs[t], 'py']
        w = {'solve': 5, 'set': 4, 'field': 1.5, 'sf': 1, 'mat': 1, 'vec': .7, 'grad': 1.5, 'nk': .8, 'table': .3,
             'draw': .5, 'new': .3}
        if jax:
            w.update(mat=0, sf=0, grad=.3, table=.2)
        for k in list(w):
            if k != 'solve' and rng.random() < .35:
                w[k] = 0
        if focus:
            w = {'solve': .5, focus: 4} if focus != 'set' else {'solve': 1, 'set': 4}
        names, ws = zip(*[(k, v) for k, v in w.items() if v > 0])
        n = rng.randint(1, 4) if not jax else rng.randint(1, 2)
        for _ in range(n):
            k = rng.choices(names, ws)[0]
            op = {'op': k}
            if k == 'solve':
                if b != 0 and rng.random() < .3:
                    a = rng.choice(['wavelength', 'thickness', 'ucell', 'theta'])
                    op['kw'] = {a: p.value(a)}
                    op['own'] = b == 2
            elif k == 'set':
                a = rng.choice(p.settables())
                v, f = ([rng.choice(p.pp), 'py'] if a == 'pp' else p.value(a))
                op.update(a=a, v=v, f=f, own=b == 2)
                prog.append(op)
                op = {'op': 'solve'}
            elif k in ('field', 'sf'):
                op.update(r=[3, 2, 2], sfi=[True, False, False])
                if k == 'field':
                    prog.append({'op': 'solve'})
            elif k == 'mat':
                op['m'] = gen_mat(rng)
            elif k == 'vec':
                op['u'] = p.gen_ucell('v')
            elif k == 'grad':
                op.update(pois=rng.choice([['thickness'], ['thickness'], ['period'], ['thickness', 'period']]),
                          loss=rng.randint(0, 3))
                if b == 0:
                    op = {'op': 'solve'}
            elif k == 'nk':
                op = gen_nk(rng, tree)
            elif k == 'table':
                op['tree'] = tree
            elif k == 'draw':
                op['u'] = gen_draw(rng, p.P0)
            elif k == 'new':
                op.update(b=b, M=p.initial(), own=b == 2)
            prog.append(op)
        if all(o['op'] in ('new', 'set') for o in prog):
            prog.append({'op': 'solve'})
        progs.append(prog)
    for t, prog in enumerate(progs):
        ops += [dict(o, t=t) for o in prog]
    kind = rng.choice(['random', 'random', 'pct', 'pct', 'site', 'site'])
    sched = {'kind': kind, 'seed': rng.randint(0, 10 ** 9)}
    if kind == 'random':
        sched['p'] = rng.choice([.5, .1, .02, .005])
    elif kind == 'pct':
        sched['d'] = rng.choice([1, 1, 2, 3, 5])
    else:
        sched['m'] = rng.choice([3, 10, 30, 100])
    plan = {'kind': 'threads', 'backends': backends, 'ops': ops, 'sched': sched,
            'instr': (not jax) and rng.random() < .2}
    if rng.random() < .25:
        plan['victim'] = {'t': rng.randrange(nthr), 'pos': round(rng.random(), 6), 'kind': rng.choice(['int', 'mem'])}
    plan['drop'] = ['victim']
    return plan


# ----------------------------------------------------------------------------------------- execution
def programs(plan):
    out = {}
    for op in plan['ops']:
        out.setdefault(op['t'], []).append(op)
    return [out[t] for t in sorted(out)]


class Runner:
    """Executes one thread's program; outcomes are collected, nothing is judged here."""

    def __init__(self, u, prog, inputs):
        self.u, self.prog, self.inputs = u, prog, inputs
        self.slots = []
        self.out = []
        self.dead = None
        self.cut = None              # index of the operation an injected fault struck

    def __call__(self):
        for i, op in enumerate(self.prog):
            try:
                self.out.append(self.one(op))
            except (SimDeadlock, StepLimit) as e:
                self.dead = (i, e)
                return
            except (SimInterrupt, SimMemoryError) as e:
                self.cut = i if self.cut is None else self.cut
                self.out.append(Outcome(None, RuntimeError(type(e).__name__)))
            except Exception as e:
                self.out.append(Outcome(None, e))

    def one(self, op):
        u = self.u
        reg = plain if op.get('own') else self.inputs
        if op['op'] == 'new':
            self.slots.append((md.build(u, op['b'], op['M'], reg), op['b']))
            return Outcome('built')
        if not self.slots:
            return Outcome('no solver')
        obj, b = self.slots[-1]
        if op['op'] in ('mat', 'sf') and b == 1 or op['op'] == 'grad' and b == 0:
            return Outcome('skipped')
        _, obs = act(u, obj, b, op, reg)
        return Outcome(obs)


def solo(plan, prog, flavour='ref'):
    u = Universe(flavour, tuple(plan['backends']))
    with u:
        r = Runner(u, prog, Inputs())
        r()
    return r


def single(prog):
    for op in prog:
        M = op.get('M') or {}
        vals = [M.get('ucell', [None])[0]] + ([op.get('v')] if op.get('a') == 'ucell' else []) + \
               [v for a, (v, f) in (op.get('kw') or {}).items() if a == 'ucell']
        if M.get('type_complex', [0])[0] == 1 or (op.get('a') == 'type_complex' and op.get('v') == 1):
            return True
        if any(isinstance(v, dict) and v.get('dt') in ('f4', 'c8') for v in vals):
            return True
    return False


def nudge(prog):
    """The same program with all lengths moved by 1e-11: if that moves the results, they are ill-conditioned."""
    def sc(v):
        return [sc(x) for x in v] if isinstance(v, list) else v * (1 + 1e-11)
    out = copy.deepcopy(prog)
    for op in out:
        for d in (op.get('M'), op.get('kw')):
            for a in ('wavelength',):
                if d and a in d:
                    d[a][0] = sc(d[a][0])
        if op.get('a') == 'wavelength':
            op['v'] = sc(op['v'])
    return out


def decider(sched, total, n):
    kind = sched['kind'] if 'list' not in sched else 'list'
    rng = random.Random(sched.get('seed', 0))
    holder = {}
    if kind == 'random':
        p = sched['p']

        def decide(step, cur, run):
            if cur not in run or rng.random() < p:
                return rng.choice(run)
            return cur
    elif kind == 'pct':
        prio = list(range(n))
        rng.shuffle(prio)
        points = sorted(rng.randint(1, max(2, total)) for _ in range(sched['d']))
        low = [-1]

        def decide(step, cur, run):
            while points and step >= points[0]:
                points.pop(0)
                if cur is not None:
                    prio[cur] = low[0]
                    low[0] -= 1
            return max(run, key=lambda j: prio[j])
    elif kind == 'site':
        m, seed = sched['m'], sched['seed']
        cache = {}

        def decide(step, cur, run):
            if cur not in run:
                return rng.choice(run)
            site = holder['s'].where[cur]
            if site not in cache:
                cache[site] = zlib.crc32(f'{seed}{site}'.encode()) % m == 0
            if cache[site] and rng.random() < .7:
                return rng.choice(run)
            return cur
    else:
        todo = [tuple(x) for x in sched['list']]

        def decide(step, cur, run):
            while todo and todo[0][0] < step:
                todo.pop(0)
            if todo and todo[0][0] == step:
                to = todo[0][1]
                if to in run:
                    todo.pop(0)
                    return to
            return cur if cur in run else run[0]
    return decide, holder


def run(plan, stats):
    progs = programs(plan)
    n = len(progs)
    ref = [solo(plan, p) for p in progs]
    u = Universe('sut', tuple(plan['backends']))
    SEAM.instrument()
    SEAM.granularity(bool(plan.get('instr')))
    try:
        # length of each thread alone, for change points and fault positions
        lens = []
        v = plan.get('victim')
        u0 = Universe('sut', tuple(plan['backends']))
        SEAM.instrument()
        with u0:
            for p in progs:
                s = Scheduler([Runner(u0, p, Inputs())], lambda step, cur, run: run[0])
                s.run()
                lens.append(s.local_steps[0])
        faults = {}
        if v and v['t'] < n:
            at = v['at'] if 'at' in v else 1 + int(v['pos'] * lens[v['t']])
            faults[v['t']] = (at, SimInterrupt if v['kind'] == 'int' else SimMemoryError)
        inputs = Inputs()
        with u:
            rs = [Runner(u, p, inputs) for p in progs]
            decide, holder = decider(plan['sched'], sum(lens), n)
            s = Scheduler(rs, decide, max_steps=20 * sum(lens) + 200_000, faults=faults)
            holder['s'] = s
            s.run()
    finally:
        SEAM.granularity(False)
    for op in plan['ops']:
        stats.inc('ops', op['op'])
    stats.inc('n', 'context switches', len(s.trace))
    stats.inc('n', 'scheduling points', s.step)
    stats.inc('n', 'schedules ' + plan['sched']['kind'] + (' (bytecode)' if plan.get('instr') else ' (line)'))
    for x in s.sites:
        stats.sites.add((x[1], x[3]))
    for t, site in s.fired.items():
        stats.inc('faults', v['kind'] + ' in one thread')
    if v and not s.fired:
        stats.inc('faults', v['kind'] + ' (not reached)')
    trace = hashlib.sha256(repr(s.trace).encode()).hexdigest()[:16]
    stats.states.add(trace)
    log = [trace]

    def fail(kind, t, i, detail):
        idx = [k for k, op in enumerate(plan['ops']) if op['t'] == progs[t][i]['t']][i]
        e = Violation(kind, f'thread {t}: {detail}', idx)
        e.norm = dict(plan, sched={'kind': plan['sched']['kind'], 'list': [list(x) for x in s.trace]})
        if v and v['t'] in s.fired:
            e.norm['victim'] = dict(v, at=faults_at(v, lens))
        raise e

    for t, (r, q) in enumerate(zip(rs, ref)):
        if r.dead:
            fail('deadlock', t, r.dead[0], f'{progs[t][r.dead[0]]["op"]} can make no progress: {r.dead[1]}')
    for t, (r, q) in enumerate(zip(rs, ref)):
        tol = TOL[1] if single(progs[t]) else TOL[0]
        near = None
        for i, (a, b) in enumerate(zip(r.out, q.out)):
            if r.cut is not None and i >= r.cut:
                break
            k = progs[t][i]['op']
            if (a.exc is None) != (b.exc is None):
                fail('thread', t, i, f'{k} ' + (f'raised {type(a.exc).__name__}: {str(a.exc)[:120]}; running alone it '
                                                'succeeds' if a.exc is not None else 'succeeded; running alone it raises'))
            if a.exc is None:
                mt, fl, same = metric(progs[t][i], tol)
                d = md.diff(a.obs, b.obs, mt, fl, same)
                if d:
                    if near is None:
                        near = solo(plan, nudge(progs[t])).out
                    if near[i].exc is not None or md.diff(near[i].obs, b.obs, mt / 10, fl):
                        stats.inc('n', 'ill-conditioned comparisons skipped')
                        break
                    fail('thread', t, i, f'{k} differs from the same program running alone: {d}')
                log.append(f'{t}.{i} {md.maxabs(a.obs):.6g}')
        c = inputs.changed()
        if c:
            fail('thread', t, len(r.out) - 1, f'shared input {c} was modified')
    return hashlib.sha256('\n'.join(log).encode()).hexdigest()[:16]


def faults_at(v, lens):
    return v['at'] if 'at' in v else 1 + int(v['pos'] * lens[v['t']])
