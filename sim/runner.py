"""Seeded search driver: hands run indices to workers, minimises and replays failures, writes evidence."""
import collections
import hashlib
import json
import os
import queue
import select
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Dead(Exception):
    pass


class Hang(Exception):
    pass


class Worker:
    def __init__(self):
        e = dict(os.environ)
        e['LD_PRELOAD'] = e['VERIF_SHIM']
        self.p = subprocess.Popen([sys.executable, '-m', 'sim.worker'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL, env=e, cwd=HERE)
        self.buf = b''
        self.history = []

    def ask(self, m, timeout):
        try:
            self.p.stdin.write((json.dumps(m) + '\n').encode())
            self.p.stdin.flush()
        except OSError:
            raise Dead()
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                self.kill()
                raise Hang()
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    self.kill()
                    raise Dead()
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


def once(prop, cmd, timeout=300, **kw):
    w = Worker()
    try:
        return w.ask({'cmd': cmd, 'prop': prop, **kw}, timeout)
    finally:
        w.kill()


def same_class(r, kind):
    return 'viol' in r and r['viol']['kind'] == kind


def minimise(prop, plan, kind, shrink, budget):
    """ddmin over the operation list, then property-specific simplifications, same violation class throughout."""
    end = time.monotonic() + budget
    w = [Worker()]
    tried = [0]

    def fails(p):
        if time.monotonic() > end:
            return False
        tried[0] += 1
        try:
            return same_class(w[0].ask({'cmd': 'plan', 'prop': prop, 'plan': p}, 120), kind)
        except (Dead, Hang):
            w[0] = Worker()
            return False

    cur = plan
    n = 2
    while len(cur['ops']) >= 2 and time.monotonic() < end:
        ops = cur['ops']
        size = max(1, len(ops) // n)
        hit = False
        for i in range(0, len(ops), size):
            cand = dict(cur, ops=ops[:i] + ops[i + size:])
            if cand['ops'] and fails(cand):
                cur, hit = cand, True
                n = max(2, n - 1)
                break
        if not hit:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    def simplify(cur):
        again = True
        while again and time.monotonic() < end:
            again = False
            for cand in shrink(cur):
                if fails(cand):
                    cur, again = cand, True
                    break
        return cur

    cur = simplify(cur)
    try:
        norm = w[0].ask({'cmd': 'plan', 'prop': prop, 'plan': cur}, 120).get('norm')
    except (Dead, Hang):
        w[0], norm = Worker(), None
    if norm and fails(norm):          # the seeded schedule written out as an explicit list of switches
        cur = simplify(norm)
    w[0].kill()
    return cur, tried[0]


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e.get('status') == 'known']


def matches(entry, prop, v):
    return entry['property'] == prop and entry['kind'] == v['kind'] and entry['detail'] in v['detail']


def main():
    prop = sys.argv[1]
    if '--replay' in sys.argv:
        return replay(prop, sys.argv[sys.argv.index('--replay') + 1])
    from . import props_meta
    meta = props_meta.META[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    workers = int(os.environ.get('VERIF_WORKERS', str(min(8, os.cpu_count() or 8))))
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    cap = float(os.environ.get('VERIF_CAP', '420' if tier == 'quick' else '7200'))
    t0 = time.monotonic()
    print(f'{prop}: deterministic simulation, VERIF_SEED={seed} tier={tier} workers={workers}', flush=True)

    queues = {'cpu': queue.Queue(), 'jax': queue.Queue()}
    total = 0
    for g, cls, nq, nt in meta['groups']:
        n = int((nq if tier == 'quick' else nt) * scale)
        for i in range(n):
            queues[cls].put((g, i))
        total += n
    agg = {'ops': collections.Counter(), 'faults': collections.Counter(), 'n': collections.Counter(), 'sites': set(),
           'states': set(), 'digests': {}, 't': 0., 'runs': collections.Counter(), 'samples': []}
    viols, errs, hangs = [], [], []
    lock = threading.Lock()
    stop = threading.Event()
    jaxn = meta.get('jax_workers', 4) if not queues['jax'].empty() else 0
    roles = ['jax'] * min(jaxn, max(1, workers - 1) if not queues['cpu'].empty() else workers)
    roles += ['cpu'] * max(0, workers - len(roles))
    known = load_known()
    known_hit = set()

    def serve(role):
        w = Worker()
        q = queues[role]
        while not stop.is_set():
            if time.monotonic() - t0 > cap:
                break
            try:
                g, i = q.get_nowait()
            except queue.Empty:
                other = queues['jax' if q is queues['cpu'] else 'cpu']
                if other.empty():
                    break
                q = other
                continue
            try:
                r = w.ask({'cmd': 'run', 'prop': prop, 'group': g, 'idx': i, 'seed': seed, 'tier': tier},
                          meta.get('timeout', 240))
            except Hang:
                with lock:
                    hangs.append((g, i))
                w = Worker()
                continue
            except Dead:
                with lock:
                    errs.append({'err': f'worker died in {g}/{i}'})
                w = Worker()
                continue
            with lock:
                for k in ('ops', 'faults', 'n'):
                    agg[k].update(r.get(k, {}))
                agg['sites'].update(r.get('sites', ()))
                agg['states'].update(r.get('states', ()))
                agg['t'] += r.get('t', 0)
                agg['runs'][g] += 1
                if r.get('digest'):
                    agg['digests'][f'{g}/{i}'] = r['digest']
                if 'viol' in r:
                    k = [e for e in known if matches(e, prop, r['viol'])]
                    if k:
                        known_hit.add(k[0]['what'])
                    else:
                        viols.append((g, i, r, list(w.history)))
                        if len(viols) >= meta.get('maxviol', 3):
                            stop.set()
                        else:
                            threading.Timer(meta.get('grace', 6), stop.set).start()
                elif 'err' in r:
                    errs.append(r)
                    if len(errs) > 20:
                        stop.set()
            w.history.append((g, i))
        w.kill()

    ts = [threading.Thread(target=serve, args=(r,), daemon=True) for r in roles]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    reported = 0
    unreproduced = 0
    # a hang that repeats in a fresh process is a liveness violation where the property speaks of progress
    for g, i in hangs[:2]:
        try:
            once(prop, 'run', timeout=meta.get('timeout', 240), group=g, idx=i, seed=seed, tier=tier)
            unreproduced += 1
        except Hang:
            if meta.get('liveness'):
                viols.append((g, i, {'viol': {'kind': 'hang', 'detail': 'the run makes no progress', 'step': -1},
                                     'plan': once(prop, 'gen', group=g, idx=i, seed=seed, tier=tier)['plan']}, []))
            else:
                errs.append({'err': f'run {g}/{i} hangs'})
        except Dead:
            errs.append({'err': f'run {g}/{i} kills its process'})
    minimised = {}
    viols.sort(key=lambda x: len(json.dumps(x[2]['plan'])))
    for g, i, r, hist in viols[:meta.get('maxviol', 3)]:
        kind = r['viol']['kind']
        if reported and kind in minimised:
            continue
        rep = {'property': prop, 'seed': r['plan'].get('seed'), 'kind': kind, 'group': g, 'index': i}
        if kind == 'hang':
            rep['plan'], rep['violation'] = r['plan'], r['viol']
            path = save(prop, rep)
            print(f'VIOLATION property={prop} replay={path}\n  hang: no progress in {g}/{i}', flush=True)
            reported += 1
            continue
        plan = r['plan']
        fresh = once(prop, 'plan', plan=plan)
        if same_class(fresh, kind):
            from . import shrink as sh
            small, tried = minimise(prop, plan, kind, sh.candidates, meta.get('min_budget', 60))
            fin = once(prop, 'plan', plan=small)
            if not same_class(fin, kind):
                small, fin = plan, fresh
            rep.update(plan=small, violation=fin['viol'], original_ops=len(plan['ops']), minimised_ops=len(small['ops']),
                       minimisation_runs=tried)
        else:
            # needs what earlier runs left in the process: replay the chain
            plans = [once(prop, 'gen', group=a, idx=b, seed=seed, tier=tier)['plan'] for a, b in hist[-40:]] + [plan]
            ch = once(prop, 'chain', plans=plans, timeout=600)
            if 'viol' not in ch:
                unreproduced += 1
                print(f'note: {g}/{i} {r["viol"]} did not reproduce in a fresh process; not reported', flush=True)
                continue
            rep.update(chain=plans, violation=ch['viol'])
        minimised[kind] = True
        path = save(prop, rep)
        reported += 1
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        print(f'  {rep["violation"]["kind"]}: {rep["violation"]["detail"]}', flush=True)
        if 'plan' in rep:
            for n, op in enumerate(rep['plan']['ops']):
                print(f'    {n}: {json.dumps(op)[:300]}', flush=True)

    for k in sorted(known_hit):
        print(f'KNOWN-FINDING: property={prop} {k}')
    wall = time.monotonic() - t0
    done = sum(agg['runs'].values())
    ev = evidence(prop, meta, tier, seed, agg, wall, done, total, reported, errs, unreproduced, workers, roles)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f'{prop}.json'))
    fired = {k: v for k, v in agg['faults'].items() if 'not reached' not in k}
    print(f'{prop}: {done}/{total} runs, {sum(agg["ops"].values())} operations, faults fired {dict(fired)}, '
          f'{len(agg["sites"])} sites, {len(agg["states"])} states, {wall:.1f}s', flush=True)
    if os.environ.get('VERIF_DIGESTS'):
        with open(os.environ['VERIF_DIGESTS'], 'w') as f:
            json.dump(agg['digests'], f, sort_keys=True, indent=0)
    if reported:
        return 1
    if errs:
        for e in errs[:3]:
            print('HARNESS ERROR', e['err'], file=sys.stderr)
            if 'plan' in e:
                print(json.dumps(e['plan'])[:3000], file=sys.stderr)
        return 2
    if done == 0:
        print('HARNESS ERROR nothing was run', file=sys.stderr)
        return 2
    return 0


def save(prop, rep):
    d = os.path.join(HERE, 'out', prop)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f'replay-{h}.json')
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    return path


def replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    if 'chain' in rep:
        r = once(prop, 'chain', plans=rep['chain'], timeout=900)
    else:
        try:
            r = once(prop, 'plan', plan=rep['plan'], timeout=300)
        except Hang:
            r = {'viol': {'kind': 'hang', 'detail': 'the run makes no progress', 'step': -1}}
    if 'viol' in r:
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {r["viol"]["kind"]}: {r["viol"]["detail"]} (operation {r["viol"]["step"]})')
        print('  identical to the recorded violation' if r['viol'] == rep['violation'] else
              f'  recorded: {rep["violation"]}')
        return 1
    if 'err' in r:
        print('HARNESS ERROR', r['err'], file=sys.stderr)
        return 2
    print('the recorded violation does not occur on this tree')
    return 0


def evidence(prop, meta, tier, seed, agg, wall, done, total, reported, errs, unrep, workers, roles):
    fired = {k: v for k, v in sorted(agg['faults'].items()) if 'not reached' not in k}
    samples = []
    for g, cls, _, _ in meta['groups'][:3]:
        if agg['runs'].get(g):
            try:
                p = once(prop, 'gen', group=g, idx=0, seed=seed, tier=tier, timeout=60)['plan']
                p['ops'] = p['ops'][:6]
                samples.append({'run': f'{seed}/{prop}/{g}/0', 'plan_prefix': p})
            except Exception:
                pass
    per_h = done / wall * 3600 if wall else 0
    return {
        'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'],
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(set(agg['digests'].values())),
            'rule': meta['rule'],
            'samples': samples,
            'runs_planned': total,
            'runs_per_group': dict(agg['runs']),
            'simulated_runs_per_hour (one seed each)': round(per_h),
            'simulated_time': meta.get('simtime', 'the code under test reads no clock; simulated time is counted in '
                                       'operations and interpreter steps'),
            'operations_executed': dict(sorted(agg['ops'].items())),
            'counters': dict(sorted(agg['n'].items())),
            'faults_fired': fired,
            'faults_armed_but_not_reached': sum(v for k, v in agg['faults'].items() if 'not reached' in k),
            'distinct_crash_sites_or_switch_points': len(agg['sites']),
            'distinct_states': len(agg['states']),
            'state_measure': meta['measure'],
            'worker_processes': len(roles),
            'components_real': meta['real'], 'components_stubbed': meta['stub'],
            'harness_errors': len(errs), 'unreproduced_alarms': unrep,
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': reported,
    }


if __name__ == '__main__':
    sys.exit(main())
