"""C16: a cycle of operations (some faulted) is repeated; what solvers and package keep must stop growing."""
import copy
import gc
import sys
import types

import numpy as np

from . import ambient, model as md
from .world import Violation, World

DEFAULT = {'connecting_algo': ('TMM', 'py')}      # settings that only a history introduces

_LEAF = (str, bytes, int, float, complex, bool, type(None), types.BuiltinFunctionType, types.CodeType,
         types.FrameType, types.TracebackType)


def _nodes(t, seen):
    """Autograd graph behind a tensor."""
    n = 0
    todo = [t.grad_fn] if t.grad_fn is not None else []
    while todo:
        f = todo.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        n += 1
        todo += [g for g, _ in f.next_functions]
    return n


def reachable(roots, inside):
    """(objects, bytes, kinds) reachable from roots without leaving the package: containers count by their number of
    entries, arrays by their bytes.  `inside(module name)` says which modules/classes/functions belong to it."""
    seen, kinds, graph = set(), {}, set()
    todo = list(roots)
    size = count = 0
    torch = sys.modules.get('torch')
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.ModuleType):
            if inside(o.__name__):
                todo.append(vars(o))
            continue
        if isinstance(o, types.FunctionType):
            if not inside(getattr(o, '__module__', '') or ''):
                continue
        elif isinstance(o, type):
            if not inside(getattr(o, '__module__', '') or ''):
                continue
        count += 1
        name = type(o).__name__
        kinds[name] = kinds.get(name, 0) + 1
        if isinstance(o, (str, bytes, bytearray)):
            size += len(o)
            continue
        if isinstance(o, _LEAF):
            continue
        if isinstance(o, np.ndarray):
            size += o.nbytes
            if o.base is not None:
                todo.append(o.base)
            if o.dtype == object:
                todo += list(o.ravel())
            continue
        if torch is not None and isinstance(o, torch.Tensor):
            size += o.element_size() * o.nelement()
            n = _nodes(o, graph)
            count += n
            if n:
                kinds['autograd node'] = kinds.get('autograd node', 0) + n
            if o.is_leaf and o.grad is not None:
                todo.append(o.grad)
            hooks = getattr(o, '_backward_hooks', None)
            if hooks:
                todo.append(hooks)
            continue
        if type(o).__module__.startswith(('jax', 'jaxlib')):
            nb = getattr(o, 'nbytes', None)
            if isinstance(nb, int):
                size += nb
            cs = getattr(o, '_cache_size', None)
            if cs is not None:
                try:
                    c = cs()
                    kinds['compiled variants'] = kinds.get('compiled variants', 0) + c
                except Exception:
                    pass
            continue
        if isinstance(o, dict):
            size += 16 * len(o)
        elif isinstance(o, (list, tuple, set, frozenset)):
            size += 8 * len(o)
        todo += gc.get_referents(o)
    return count, size, kinds


def inside(name):
    return name == 'meent' or name.startswith('meent.')


class LongWorld(World):
    needs_reference = False

    def judge(self, s, op, out, ref, site):
        self.note(f'{op["op"]} {"ok" if out.exc is None else type(out.exc).__name__}')

    def measure(self):
        gc.collect()
        roots = [s.obj for s in self.slots] + [m for k, m in self.u.mods.items() if inside(k)]
        c, b, kinds = reachable(roots, inside)
        return c, b, len(ambient.files()), kinds

    def run_cycles(self, pro, cyc, n):
        out = []
        for self.i, op in enumerate(pro):
            self.step(op)
        keep = len(self.slots)
        base = [(s.obj, copy.deepcopy(s.M), set(s.own)) for s in self.slots]
        for _ in range(n):
            for j, op in enumerate(cyc):
                self.i = len(pro) + j
                self.step(op)
            del self.slots[keep:]
            for s, (obj, M, own) in zip(self.slots, base):
                for a, (v, f) in list(s.M.items()):       # every cycle starts from the same settings
                    if a in ('perturbation',):
                        continue
                    if a not in M:
                        M[a] = DEFAULT[a]
                    if s.M[a] != M[a] or a in ('ucell', 'thickness'):
                        self.op_set(s, {'op': 'set', 'a': a, 'v': M[a][0], 'f': M[a][1], 'own': a in own})
            self.results.clear()
            out.append(self.measure())
        return out


class LongRun:
    def __init__(self, hist, cycles=5):
        self.hist, self.cycles = hist, cycles

    def gen(self, rng, group, tier):
        plan = self.hist.gen(rng, group, 'quick')
        plan['n'] = self.cycles + (3 if tier == 'thorough' else 0)
        return plan

    def run(self, plan, stats):
        if 2 in plan['backends']:
            md.torch()
        if 1 in plan['backends']:
            md.jnp()
        pro = [o for o in plan['ops'] if o['op'] == 'new']
        cyc = [o for o in plan['ops'] if o['op'] != 'new']

        def go(n):
            w = LongWorld(plan, (), stats)
            return w, w.run_cycles(pro, cyc, n)

        w, m = go(plan['n'])
        g = growing(m)
        if g:
            _, m2 = go(3 * plan['n'])           # still growing, by as much, over three times the number of cycles?
            if growing(m2):
                g = growing(m2)
                raise Violation('growth', f'{g} grows with every repetition of the same cycle of {len(cyc)} operations: '
                                          f'{detail(m2, g)}', len(pro))
        stats.inc('n', 'cycles', len(m))
        stats.states.add((w.digest(), m[-1][0]))
        return w.digest()


def growing(m):
    """Which quantity has not stopped growing: strictly larger after every one of the last cycles."""
    for k, name in enumerate(('the number of objects kept', 'the memory kept', 'the number of open files')):
        v = [x[k] for x in m]
        tail = v[len(v) // 3:]
        if len(tail) >= 3 and all(b > a for a, b in zip(tail, tail[1:])):
            return name
        if len(v) >= 12 and v[-1] > v[len(v) // 2] > v[len(v) // 4]:
            inc = [b - a for a, b in zip(v[len(v) // 4:], v[len(v) // 4 + 1:])]
            if min(inc) >= 0 and sum(1 for x in inc if x > 0) >= len(inc) // 2:
                return name
    return None


def detail(m, g):
    k = {'the number of objects kept': 0, 'the memory kept': 1, 'the number of open files': 2}[g]
    a, b = m[len(m) // 3][3], m[-1][3]
    d = sorted(((b.get(n, 0) - a.get(n, 0), n) for n in set(a) | set(b)), reverse=True)[:3]
    return f'{[x[k] for x in m][::max(1, len(m) // 6)]} ({", ".join(f"{n}: +{c}" for c, n in d if c > 0)})'
