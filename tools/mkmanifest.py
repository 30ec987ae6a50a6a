"""Writes MANIFEST.json from the table below.   python3 tools/mkmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection: '
REF = (' Seeded search, not exhaustive. Oracle: a brand-new solver of the same backend in a pristine copy of the package; '
       'a defect that is the same in every fresh solver is outside the property.')
T = {
    'C01': ('seeded histories of public operations over several solvers, each result compared with a fresh solver',
            'Exploration of random histories on numpy, torch, numpy+torch and JAX.' + REF),
    'C02': ('interrupt / allocation / numerical-library failure raised at a seeded source line or factorisation inside any '
            'operation, then recovery judged against a fresh solver',
            'Crash points are source lines of the package (clean-up code excepted) and LAPACK calls.' + REF),
    'C03': ('same fault seam; a faulted call must raise or return the fault-free value', 'As C02.' + REF),
    'C04': ('seeded histories of accepted and rejected assignments; reported settings compared bit for bit around a '
            'rejection, results compared with a fresh solver after an acceptance',
            'Values come from a fixed catalogue of malformed settings plus generated good ones.' + REF),
    'C05': ('cooperative thread scheduler at source-line or bytecode granularity (random, PCT, site-directed schedules) '
            'with faults in one thread',
            'Each thread\'s results are compared with the same script run alone. Library calls are atomic; no switch is '
            'made while JAX traces. Seeded search, not exhaustive.'),
    'C06': ('seeded histories with faults; every caller-owned object compared bit for bit after every operation',
            'No oracle needed beyond a snapshot.'),
    'C07': ('seeded histories with faults; every returned value compared bit for bit after every later operation',
            'No oracle needed beyond a snapshot.'),
    'C08': ('chosen subsets of inv / pinv calls fail inside torch operations; results and gradients compared with the '
            'failure-free run', 'Ill-conditioned inversions are skipped (tolerance scales with the condition number).'),
    'C09': ('simulated file system below the table tree (LD_PRELOAD between Python and libc): errors, short reads, EINTR, '
            'listing order; plus interrupts and allocation failures',
            'Expected data come from the generator of the tree, not from the code. Real parsing code throughout.'),
    'C10': ('material look-ups through solvers on the simulated file system, with faults inside the lazy table load',
            'As C09 and C02.' + REF),
    'C11': ('seeded histories of gradient requests with failing losses, interrupts and library failures; gradients, '
            'parameters and later results compared with fresh solvers', 'torch and JAX.' + REF),
    'C12': ('fits cut short at seeded points under a simulated clock and failing progress output; parameters compared with '
            'the trajectory of explicit gradient steps', 'Plain SGD (torch, optax).' + REF),
    'C13': ('seeded histories of completed, failed and interrupted solves followed by field maps; map compared with a fresh '
            'solver or required to be refused', 'As C02.' + REF),
    'C14': ('seeded histories in which solvers are deep-copied, pickled or sent through a pytree and both sides continue',
            'JAX: pytree only.' + REF),
    'C15': ('process-wide state snapshot around every (possibly faulted) operation from randomly chosen ambient '
            'configurations; histories repeated under two random-number states',
            'Some thirty settings are observed; others are not.'),
    'C16': ('a cycle of (possibly faulted) operations is repeated; objects, array bytes, autograd nodes and descriptors '
            'reachable from solvers and package must stop growing', 'Memory inside the numerical libraries is not counted.'),
    'C17': ('each seeded history is executed in two processes that differ in hash seed, load order, time zone, locale, threads '
            'and in a seeded choice of clock, working directory, listing order, garbage collection and other ambient settings',
            'Results compared to rounding; one of three sibling hash seeds per run. Seeded search, not exhaustive.'),
    'C18': ('import seam: libraries denied (missing, broken) or single imports failing at seeded points, interrupts and '
            'allocation failures while modules execute; every use judged against an undisturbed load',
            'The libraries themselves are loaded once per process; denial is simulated at the import statements of the '
            'package. numpy and scipy always present.'),
    'C19': ('seeded histories of look-ups inside, at the edge of and outside generated and shipped tables, with interrupts, '
            'under recording and raising warning filters', 'Ranges come from the generator or straight from the shipped '
            'files. Traced JAX wavelengths are not covered.'),
    'C20': ('seeded histories in which the caller overwrites every array and container of a value it was given, then asks '
            'again; solvers, inputs and later results compared with fresh solvers', 'JAX arrays are immutable: only containers '
            'are overwritten there.' + REF),
    'C21': ('operations on other solvers started at a seeded source line inside an operation, in the same thread; inner and '
            'outer results compared with fresh solvers', 'numpy and torch; JAX stages everything that runs while it traces.' + REF),
}
LEVEL = {'C18': 'fault_enumeration', 'C08': 'fault_enumeration', 'C09': 'fault_enumeration'}
NA = {
    'C50': 'Energy conservation is a property of a pure function of the settings: no schedule, clock, I/O, crash or fault '
           'enters it, so simulation could only dress up input generation.',
    'C51': 'Agreement of the three backends is a differential property of pure functions; nothing nondeterministic to simulate.',
    'C52': 'Correctness of a derivative is a property of a pure function of the input (its repeatability and its survival of '
           'failures are claimed as C11 and C08).',
    'C53': 'Interpolated values are a pure function of table and wavelength (loading under faults is claimed as C09, C10, warnings as C19).',
    'C54': 'Equivalence of two descriptions of a structure is metamorphic testing of a pure function; no nondeterminism.',
}

man = {
    'version': 1,
    'setup_cmd': 'python3 check.py --build',
    'checks': [{
        'property': p,
        'quick_cmd': f'python3 check.py {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
        'technique': DST + t[0],
        'level': LEVEL.get(p, 'exploration'),
        'level_note': t[1],
    } for p, t in T.items()],
    'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
    'notes': 'No hooks in /repo: the seams are sys.monitoring line events, an LD_PRELOAD shim and patched library entry points. '
             'Replay: python3 check.py <id> --replay <file>.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
