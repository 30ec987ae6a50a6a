"""The scheduling / crash-point seam.

`sys.monitoring` (PEP 669) delivers an event before every source line (or every bytecode instruction)
executed by code that lives under /repo/meent.  Each event is a simulated step.  At a step the simulator may

  * raise a fault (interrupt, allocation failure, factorisation failure) exactly there, or
  * park the running thread and release another one (threads hold a baton: exactly one runs at a time).

Nothing in /repo is modified; nothing outside meent produces steps.  Only the code objects of the system
under test ('sut' universes) are instrumented, so reference evaluations are never perturbed.
"""
import ast
import sys
import threading

from . import universe

MON = sys.monitoring
TOOL = 4
EV = MON.events

_RealLock = threading.Lock
_RealRLock = threading.RLock


class SimDeadlock(BaseException):
    """The system under test can make no progress (a lock nobody will ever release)."""


class StepLimit(BaseException):
    """A simulated operation exceeded its step budget (bounded liveness)."""


# --------------------------------------------------------------------------------------- line metadata
_line_info = {}


def _analyse(path):
    """Lines where a fault must not be placed (clean-up code: finally bodies, except handlers, context
    exits, and the headers of try/with statements) and lines that contain a call."""
    with open(path, 'rb') as f:
        tree = ast.parse(f.read())
    shielded, calls, guarded = set(), set(), set()

    def span(nodes):
        for n in nodes:
            shielded.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    for node in ast.walk(tree):
        if isinstance(node, ast.Try) or node.__class__.__name__ == 'TryStar':
            span(node.finalbody)
            for h in node.handlers:
                span([h])
            shielded.add(node.lineno)
            if node.handlers:
                for n in node.body:
                    guarded.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            if any('suppress' in ast.dump(i.context_expr) for i in node.items):
                for n in node.body:
                    guarded.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
            end = node.body[0].lineno
            shielded.update(range(node.lineno, max(node.lineno + 1, end)))
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in (
                '__exit__', '__aexit__', '__del__', '__enter__'):
            span([node])
        elif isinstance(node, ast.Call):
            calls.update(range(node.lineno, (node.end_lineno or node.lineno) + 1))
    return shielded, calls, guarded


def line_info(path):
    if path not in _line_info:
        _line_info[path] = _analyse(path)
    return _line_info[path]


def _status(frame):
    """0 if this frame, or any meent frame below it on the stack, is executing clean-up code; 2 if one of them is
    inside a block whose handlers might absorb a fault; 1 otherwise."""
    f = frame
    res = 1
    while f is not None:
        fn = f.f_code.co_filename
        if universe.is_meent_file(fn):
            info = line_info(fn)
            if f.f_lineno in info[0]:
                return 0
            if f.f_lineno in info[2]:
                res = 2
        f = f.f_back
    return res


# --------------------------------------------------------------------------------------- the seam
class Seam:
    def __init__(self):
        self.mode = 'off'          # off | count | fault | sched
        self.steps = 0
        self.limit = None
        self.fault = None          # dict(at=int, exc=callable, call_only=bool)
        self.fired = None
        self.sched = None
        self.thread = None
        self.sites = set()
        self.events_seen = 0
        self._instr = False
        self._installed = False
        self._codes = {}
        self._seen = -1

    # -- installation
    def install(self):
        if self._installed:
            return
        MON.use_tool_id(TOOL, 'verif-sim')
        MON.register_callback(TOOL, EV.LINE, self._on_line)
        MON.register_callback(TOOL, EV.INSTRUCTION, self._on_instr)
        self._installed = True
        threading.Lock = _lock_factory
        threading.RLock = _rlock_factory

    def instrument(self):
        """Attach step events to every code object of the system under test loaded so far."""
        self.install()
        if self._seen == len(universe._code_cache):
            return
        self._seen = len(universe._code_cache)

        def rec(c):
            if id(c) in self._codes:
                return
            self._codes[id(c)] = c
            MON.set_local_events(TOOL, c, EV.LINE | (EV.INSTRUCTION if self._instr else 0))
            for k in c.co_consts:
                if hasattr(k, 'co_code'):
                    rec(k)
        for (flavour, _p), c in universe._code_cache.items():
            if flavour == 'sut':
                rec(c)

    def granularity(self, instr):
        """Switch between line and bytecode granularity for all instrumented code."""
        if instr == self._instr:
            return
        self._instr = instr
        for code in self._codes.values():
            MON.set_local_events(TOOL, code, EV.LINE | (EV.INSTRUCTION if instr else 0))

    # -- events
    def _on_line(self, code, line):
        if self.mode == 'off':
            return
        self._step(code, line)

    def _on_instr(self, code, off):
        if self.mode == 'sched' and self._instr:
            self._step(code, -off)

    def _step(self, code, line):
        if self.mode == 'sched':
            s = self.sched
            if s is not None:
                s.on_step(code, line)
            return
        if threading.get_ident() != self.thread:
            return
        if self.mode == 'count':
            e = line > 0 and self._eligible(code, line)
            if e:
                self.steps += 1
                self.events_seen += 1
                self.trail.setdefault((code.co_filename, line), []).append(self.steps)
                if e == 2:
                    self.guarded.append(self.steps)
            self._check_limit()
            return
        if self.mode == 'fault':
            if self.fault is None:
                return
            if line > 0 and self._eligible(code, line):
                self.steps += 1
                if self.steps >= self.fault['at']:
                    exc = self.fault['exc']
                    self.fired = (code.co_filename[len(universe.PKG) + 1:], code.co_name, line)
                    self.fault = None
                    if exc is None:
                        self.mode = 'off'
                        self.action()
                        self.mode = 'fault'
                        return
                    raise exc()

    def _check_limit(self):
        if self.limit is not None and self.steps > self.limit:
            self.limit = None
            raise StepLimit()

    def _eligible(self, code, line):
        call_only = self._call_only
        if call_only and line not in line_info(code.co_filename)[1]:
            return 0
        return _status(sys._getframe(3))

    _call_only = False

    # -- driving
    def count(self, fn, call_only=False):
        self.mode, self.steps, self.thread = 'count', 0, threading.get_ident()
        self._call_only = call_only
        self.trail, self.guarded = {}, []
        try:
            fn()
        finally:
            self.mode = 'off'
        return self.steps

    def place(self, fault):
        """The step a fault strikes at, from the last count: any step, any step of a line chosen first (lines of long
        loops do not crowd out the others), or a step where a handler might absorb the fault."""
        pos, how = fault['pos'], fault.get('how')
        if how == 'g' and self.guarded:
            return self.guarded[int(pos * len(self.guarded))]
        if how == 's' and self.trail:
            sites = list(self.trail.values())
            x = pos * len(sites)
            return sites[int(x)][int((x - int(x)) * len(sites[int(x)]))]
        return 1 + int(pos * self.steps)

    def run_with_fault(self, fn, at, exc, call_only, action=None):
        """Run fn; raise exc(), or run action(), at the at-th eligible step.  Returns (value, exception, fired_site)."""
        self.action = action
        self.mode, self.steps, self.thread = 'fault', 0, threading.get_ident()
        self.fault = {'at': at, 'exc': exc}
        self._call_only = call_only
        self.fired = None
        try:
            return fn(), None, self.fired
        except BaseException as e:      # noqa - the caller classifies
            return None, e, self.fired
        finally:
            self.mode = 'off'
            self.fault = None


SEAM = Seam()


# --------------------------------------------------------------------------------------- locks
def _from_meent(depth=2):
    f = sys._getframe(depth)
    return universe.is_meent_file(f.f_code.co_filename)


def _lock_factory(*a, **k):
    return SimLock(False) if _from_meent() else _RealLock(*a, **k)


def _rlock_factory(*a, **k):
    return SimLock(True) if _from_meent() else _RealRLock(*a, **k)


class SimLock:
    """threading.Lock/RLock as seen by code under meent: blocking is a simulator decision."""

    def __init__(self, reentrant):
        self.reentrant, self.owner, self.n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner, self.n = me, self.n + 1
                return True
            if not blocking or timeout >= 0:
                return False
            s = SEAM.sched if SEAM.mode == 'sched' else None
            if s is None or not s.block_on(self):
                raise SimDeadlock('lock is held and will never be released')

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == threading.get_ident()


def _inside_foreign_lock(frame):
    """True below JAX tracing or an import: those hold real locks, so the simulator must not park a thread there."""
    f = frame
    while f is not None:
        fn = f.f_code.co_filename
        if '/jax/' in fn or 'importlib' in fn:
            return True
        f = f.f_back
    return False


# --------------------------------------------------------------------------------------- scheduler
class Scheduler:
    """Runs N thread bodies one at a time; `decide(step, current, runnable)` picks who runs next."""

    def __init__(self, bodies, decide, max_steps=2_000_000, faults=None):
        self.bodies = bodies
        self.decide = decide
        self.max_steps = max_steps
        self.step = 0
        self.trace = []                # [(step, to_thread)] actual context switches
        self.sites = set()             # distinct (from site -> to thread site) switch pairs
        self.done = [False] * len(bodies)
        self.blocked = [None] * len(bodies)
        self.where = [None] * len(bodies)
        self.gates = [_RealLock() for _ in bodies]
        self.main = _RealLock()
        self.cur = None
        self.err = None
        self.ids = {}
        self.local_steps = [0] * len(bodies)
        self.faults = faults or {}     # thread -> (local step, exc factory)
        self.fired = {}
        self.abort = None
        self._switch_id = None

    def run(self):
        for g in self.gates:
            g.acquire()
        self.main.acquire()
        ts = []
        for i in range(len(self.bodies)):
            t = threading.Thread(target=self._body, args=(i,), daemon=True)
            t.start()
            ts.append(t)
        SEAM.sched = self
        SEAM.mode = 'sched'
        first = self.decide(0, None, list(range(len(self.bodies))))
        self.cur = first
        self.trace.append((0, first))
        self.gates[first].release()
        self.main.acquire()            # woken when every body is done
        SEAM.mode = 'off'
        SEAM.sched = None
        for t in ts:
            t.join(5)
        if self.err:
            raise self.err

    def _body(self, i):
        self.gates[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            self.bodies[i]()
        except BaseException as e:     # harness bodies catch everything they expect
            if self.err is None and not isinstance(e, (SimDeadlock, StepLimit)):
                self.err = e
        self.done[i] = True
        self._handoff(i, finished=True)

    def _runnable(self):
        out = []
        for j in range(len(self.bodies)):
            if self.done[j]:
                continue
            lk = self.blocked[j]
            if lk is not None and lk.owner is not None:
                continue
            out.append(j)
        return out

    def _handoff(self, i, finished=False):
        if all(self.done):
            self.main.release()
            return
        run = self._runnable()
        if not run:
            # deadlock: wake somebody so that it raises SimDeadlock and unwinds
            self.abort = SimDeadlock('every unfinished thread is blocked')
            run = [j for j in range(len(self.bodies)) if not self.done[j]]
        nxt = self.decide(self.step, i, run)
        if nxt not in run:
            nxt = run[0]
        self.cur = nxt
        self.trace.append((self.step, nxt))
        self.gates[nxt].release()
        if not finished:
            self.gates[i].acquire()

    def on_step(self, code, line):
        i = self.ids.get(threading.get_ident())
        if i is None or i != self.cur:
            return
        self.step += 1
        self.local_steps[i] += 1
        if self.step > self.max_steps:
            raise StepLimit()
        site = (code.co_name, line)
        self.where[i] = site
        f = self.faults.get(i)
        if f is not None and self.local_steps[i] >= f[0] and line > 0 and _status(sys._getframe(3)):
            del self.faults[i]
            self.fired[i] = (code.co_filename[len(universe.PKG) + 1:], code.co_name, line)
            raise f[1]()
        run = self._runnable()
        if len(run) > 1:
            nxt = self.decide(self.step, i, run)
            if nxt != i and nxt in run and not _inside_foreign_lock(sys._getframe(3)):
                self.sites.add((i, site, nxt, self.where[nxt]))
                self.cur = nxt
                self.trace.append((self.step, nxt))
                self.gates[nxt].release()
                self.gates[i].acquire()

    def block_on(self, lock):
        i = self.ids.get(threading.get_ident())
        if i is None:
            return False
        self.blocked[i] = lock
        self._handoff(i)
        self.blocked[i] = None
        if self.abort is not None:
            raise self.abort
        return True
