"""Budgets and evidence texts per property (no heavy imports: read by the parent process)."""

MEASURE = ('distinct ordered pairs of consecutive operations, each abstracted to (backend, operation, attribute, kind of '
           'cell, polarisation kind, conical or not, Fourier mode, precision, pinv flag)')
REAL = ['all of /repo/meent (compiled from the working tree, unmodified)', 'numpy/LAPACK', 'torch', 'jax/XLA (CPU)']
ASSUME = ['the reference is a brand-new solver of the same backend in a pristine copy of the package; a defect that '
          'changes a first solve of a fresh solver in the same way is outside these properties',
          'comparisons use a tolerance of 2e-8 (double) / 2e-3 (single) and skip inputs whose reference itself moves by '
          'more than a tenth of that under a 1e-11 relative input change']
LINE = ('raised from sys.monitoring LINE events at a seeded eligible step inside the package; clean-up code (finally, '
        'except, with headers) is not a crash point')


def h(nq, nt, jq=0, jt=0, mix=None):
    g = [('numpy', 'cpu', nq, nt), ('torch', 'cpu', nq, nt)]
    if mix:
        g.append(('mix', 'cpu', mix[0], mix[1]))
    if jq:
        g.append(('jax', 'jax', jq, jt))
    return g


def m(groups, rule, level='exploration', stub=(), assumptions=(), **k):
    return dict(groups=groups, level=level, rule=rule, measure=k.pop('measure', MEASURE), real=k.pop('real', REAL),
                stub=list(stub), assumptions=list(assumptions) or ASSUME, **k)


FAULT_STUB = ['interrupts, allocation and library failures: ' + LINE,
              'LAPACK factorisations behind a pass-through switch that fails the chosen call']

META = {
    'C01': m(h(640, 12000, 48, 900, (300, 8000)),
             'one evaluation = one simulated history; non-trivial = a new consecutive-operation pair reached with the '
             'result compared against a fresh solver'),
    'C02': m(h(420, 6000, 48, 700, (150, 2000)), 'one evaluation = one history with injected faults; non-trivial = a new '
             'crash site or operation pair after which results were compared', stub=FAULT_STUB, liveness=True),
    'C03': m(h(420, 6000, 48, 700, (100, 2000)), 'one evaluation = one history whose operations are faulted; non-trivial = '
             'a new crash site whose outcome (raise / exact value) was judged', stub=FAULT_STUB),
    'C04': m(h(900, 12000, 64, 900), 'one evaluation = one history of accepted and rejected assignments; non-trivial = a '
             'new operation pair followed by a comparison of all reported settings and the next result'),
    'C05': m([('numpy', 'cpu', 400, 6000), ('torch', 'cpu', 500, 8000), ('mix', 'cpu', 150, 2500), ('jax', 'jax', 24, 400)],
             'one evaluation = one multi-threaded run under one seeded schedule; non-trivial = distinct sequence of '
             'context switches and outcomes', stub=['the thread scheduler (one thread runs at a time, the simulator picks '
             'which, at every source line or bytecode)', 'threading.Lock/RLock as seen by the package',
             'faults in one thread: ' + LINE],
             measure='distinct complete context-switch sequences (hash of all (step, thread) pairs)',
             assumptions=['switches happen between source lines or bytecodes of the package, not inside numpy, torch or '
                          'JAX calls, which are treated as atomic', 'no switch is made while JAX is tracing'],
             liveness=True),
    'C06': m(h(460, 8000, 40, 700, (150, 3000)), 'one evaluation = one history; every caller-owned object is compared bit '
             'for bit after every operation', stub=FAULT_STUB),
    'C07': m(h(460, 8000, 40, 700, (150, 3000)), 'one evaluation = one history; every previously returned value is '
             'compared bit for bit after every operation', stub=FAULT_STUB),
    'C08': m([('double', 'cpu', 500, 8000), ('single', 'cpu', 250, 4000)],
             'one evaluation = one run of several torch operations, each with a chosen set of failing inversions / '
             'pseudo-inversions; non-trivial = distinct sequence of failed calls and outcomes', level='fault_enumeration',
             stub=['torch.linalg / numpy.linalg inv and pinv fail at the calls the plan names (TorchFunctionMode and '
                   'wrapped numpy.linalg); all other calls are the real libraries'],
             measure='distinct (operation, parameters, cell kind, pinv flag, Fourier mode, precision, set of failed '
                     'methods, number of failures)',
             assumptions=['agreement is judged with a tolerance that grows with the worst condition number of the '
                          'inverted matrices; cases with cond > 1e5 (double) or 1e3 (single) are skipped']),
    'C09': m([('numpy', 'cpu', 1100, 20000), ('torch', 'cpu', 350, 6000), ('jax', 'cpu', 200, 4000)],
             'one evaluation = one sequence of reads of generated or shipped table trees on a simulated file system; '
             'non-trivial = distinct sequence of outcomes and fired faults', level='fault_enumeration',
             stub=['the file system below the table tree (LD_PRELOAD shim between Python and libc)', FAULT_STUB[0]],
             measure='distinct (function, backend, exception, fault kinds fired, listing order/type mode, read cap, crash '
                     'site)',
             assumptions=['file names are unique across the directories of a tree',
                          'the expected data come from the generator of the tree, independently of the code']),
    'C10': m([('numpy', 'cpu', 350, 5000), ('torch', 'cpu', 350, 5000), ('mix', 'cpu', 100, 1500)],
             'one evaluation = one history of material look-ups with file-system faults, interrupts and allocation '
             'failures inside the (lazy) table load; non-trivial = distinct event log',
             stub=['the file system below nk_data (LD_PRELOAD shim between Python and libc: opendir/readdir/open/read '
                   'fail, return short, are interrupted, listings come in a simulated order)'] + FAULT_STUB[:1]),
    'C11': m([('torch', 'cpu', 560, 9000), ('jax', 'jax', 40, 900)], 'one evaluation = one history of gradient requests; '
             'non-trivial = a new crash site or operation pair with gradients, parameters and later results compared',
             stub=FAULT_STUB, liveness=True),
    'C12': m([('torch', 'cpu', 420, 9000), ('jax', 'jax', 36, 1500)],
             'one evaluation = one sequence of fits, some cut short; parameters are compared with the trajectory obtained by '
             'explicit gradient steps with fresh solvers; non-trivial = distinct sequence of outcomes',
             stub=FAULT_STUB[:1] + ['the clock (time, perf_counter, monotonic: steady, frozen, jumping, running backwards)',
                                    'the progress output (a stream that can fail)', 'the caller\'s forward and loss'],
             measure='distinct (backend, parameters, fault, exception, crash function, completed steps, iterations)',
             simtime='hours to months of simulated clock per fit (jumping clock); counted as clock readings answered',
             assumptions=['optimisers are plain stochastic gradient descent (stateless)'] + ASSUME[1:]),
    'C13': m(h(520, 9000, 40, 700, (150, 3000)), 'one evaluation = one history of solves (completed, failed, interrupted) '
             'and field maps', stub=FAULT_STUB),
    'C14': m(h(700, 9000, 64, 900), 'one evaluation = one history in which solvers are copied and both continue',
             stub=FAULT_STUB),
    'C15': m(h(380, 7000, 32, 700, (110, 2000)), 'one evaluation = one history; some thirty process-wide settings are '
             'compared before and after every operation, starting from configurations the plan changes at random; a third '
             'of the histories is repeated under two different random-number states and compared; non-trivial = distinct '
             'event log', stub=FAULT_STUB,
             assumptions=['switching on 64-bit mode when the JAX backend is first loaded is not an operation']),
    'C16': m(h(150, 3000, 14, 300, (40, 800)), 'one evaluation = one cycle of operations (some faulted) repeated 5 times '
             '(15 if it seems to grow); objects, array bytes, autograd nodes and open files reachable from solvers and '
             'package modules are counted after each repetition; non-trivial = distinct event log', stub=FAULT_STUB,
             assumptions=['memory held inside numpy, torch or JAX (allocator pools, compilation caches) is not counted']),
    'C17': m(h(200, 5000, 16, 300, (80, 2000)), 'one evaluation = one history executed in two processes (hash seed, time '
             'zone, locale, load order and thread counts differ; clock, working directory, listing order, garbage '
             'collection, print options, error handling and random state chosen per run), every result compared; '
             'non-trivial = distinct event log',
             stub=['time.* (shifted by years, frozen or running backwards in some runs)', 'the listing order of nk_data'],
             assumptions=['agreement is judged to rounding (2e-8 double, 2e-3 single), inputs whose reference itself moves '
                          'under a 1e-11 change are skipped', 'two processes per run: hash seeds 0 and 4711']),
    'C18': m([('numpy', 'cpu', 500, 8000), ('torch', 'cpu', 400, 6000), ('jax', 'jax', 80, 1200)],
             'one evaluation = one history of loading and using the package while libraries are missing, broken or back '
             'again and loads are cut short; non-trivial = distinct sequence of outcomes and fired faults',
             level='fault_enumeration',
             stub=['import statements executed by the package (a denied library raises what a missing or broken installation '
                   'raises)', FAULT_STUB[0]],
             measure='distinct (operation, backend, kind, unavailable libraries, exception, fault fired)',
             assumptions=['numpy is always present', 'libraries are loaded once per worker process; denial is '
                          'simulated at the import statements of the package']),
    'C20': m(h(520, 7000, 40, 600, (200, 3000)), 'one evaluation = one history in which the caller overwrites values it was '
             'given and asks again; non-trivial = a new consecutive-operation pair judged after such an edit',
             stub=FAULT_STUB),
    'C21': m([('numpy', 'cpu', 420, 6000), ('torch', 'cpu', 420, 6000), ('mix', 'cpu', 200, 3000)],
             'one evaluation = one history with operations run inside others; non-trivial = a new point of interruption whose '
             'inner and outer results were compared', stub=['the inner operation is started from a sys.monitoring LINE event '
             'at a seeded step, in the same thread']),
    'C19': m([('numpy', 'cpu', 800, 10000), ('torch', 'cpu', 500, 6000), ('jax', 'cpu', 300, 4000)],
             'one evaluation = one history of look-ups inside, at the edge of and outside the tables, under different warning '
             'filters, some cut short; non-trivial = distinct sequence of outcomes', stub=FAULT_STUB[:1],
             measure='distinct (backend, call, position, filter, out of range, exception, fault fired)',
             assumptions=['ranges come from the generator of the tables or straight from the shipped files',
                          'calls that were themselves cut short are not judged, the following ones are']),
}
