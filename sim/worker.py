"""Worker process: executes simulated runs on request (JSON lines on a private pipe)."""
import json
import os
import sys
import time
import traceback
import warnings


def cover(where):
    """Debugging aid: the lines of the package this worker executed, written to a file at exit."""
    m, seen = sys.monitoring, set()
    m.use_tool_id(3, 'verif-cov')

    def line(code, n):
        if '/meent/' in code.co_filename:
            seen.add((code.co_filename, n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    return lambda: open(os.path.join(where, f'{os.getpid()}.json'), 'w').write(json.dumps(sorted(seen)))


def main():
    out = os.fdopen(os.dup(1), 'w')
    inp = os.fdopen(os.dup(0), 'r')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    warnings.simplefilter('ignore')
    import random

    done = cover(os.environ['VERIF_COV']) if os.environ.get('VERIF_COV') else lambda: None
    from . import props
    from .world import Stats, Violation

    def reply(d):
        out.write(json.dumps(d, default=str) + '\n')
        out.flush()

    def reseed():
        import numpy as np
        random.seed(5)
        np.random.seed(5)
        if 'torch' in sys.modules:
            sys.modules['torch'].manual_seed(5)

    def execute(P, plan, stats):
        t = time.perf_counter()
        reseed()
        try:
            digest = P.run(plan, stats)
            r = {'ok': True, 'digest': digest}
        except Violation as v:
            r = {'viol': {'kind': v.kind, 'detail': v.detail, 'step': v.step}, 'plan': plan}
            if getattr(v, 'norm', None):
                r['norm'] = json.loads(json.dumps(v.norm))
        except BaseException as e:
            if isinstance(e, (SystemExit,)):
                raise
            r = {'err': traceback.format_exc()[-3000:], 'plan': plan}
        r['t'] = time.perf_counter() - t
        return r

    seen_sites, seen_states = set(), set()
    for line in inp:
        m = json.loads(line)
        if m['cmd'] == 'quit':
            break
        P = props.PROPS[m['prop']]
        st = Stats()
        if m['cmd'] == 'run':
            rng = random.Random(f'{m["seed"]}/{m["prop"]}/{m["group"]}/{m["idx"]}')
            try:
                plan = P.gen(rng, m['group'], m.get('tier', 'quick'))
            except Exception:
                reply({'err': 'gen: ' + traceback.format_exc()[-2000:]})
                continue
            plan['seed'] = f'{m["seed"]}/{m["prop"]}/{m["group"]}/{m["idx"]}'
            # freeze the plan exactly as it will be stored in a replay file
            plan = json.loads(json.dumps(plan))
            r = execute(P, plan, st)
            done()
        elif m['cmd'] == 'plan':
            r = execute(P, m['plan'], st)
        elif m['cmd'] == 'chain':
            # replay of a run together with the runs that preceded it in its process
            r = {'ok': True}
            for pl in m['plans']:
                r = execute(P, pl, st)
                if 'viol' in r:
                    break
        elif m['cmd'] == 'gen':
            rng = random.Random(f'{m["seed"]}/{m["prop"]}/{m["group"]}/{m["idx"]}')
            r = {'ok': True, 'plan': P.gen(rng, m['group'], m.get('tier', 'quick'))}
        r['ops'], r['faults'], r['n'] = st.ops, st.faults, st.n
        sites = {json.dumps(s) for s in st.sites} - seen_sites
        seen_sites |= sites
        states = {json.dumps(s, default=str) for s in st.states} - seen_states
        seen_states |= states
        r['sites'], r['states'] = sorted(sites), sorted(states)
        reply(r)
    os._exit(0)


if __name__ == '__main__':
    main()
