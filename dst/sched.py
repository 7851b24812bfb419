"""The simulated scheduler.

Tasks are OS threads of which exactly one runs at a time.  A task may lose the baton only at a *point*: an operation
boundary (Sim.boundary) or an event inside a kymatio frame, delivered by sys.monitoring.  Which task runs next is
decided by a seeded policy, and recorded.
"""
import _thread
import dis
import random
import sys
import threading
import types

from . import env

_orig_lock = _thread.allocate_lock
_orig_rlock = threading._RLock if threading._CRLock is None else threading._CRLock
_get_ident = _thread.get_ident

CUR = None          # the active Sim (at most one per process)


class SimAbort(BaseException):
    pass


# ------------------------------------------------------------------------------------------------ locks

def _cur_task():
    s = CUR
    if s is None:
        return None
    return s.by_ident.get(_get_ident())


class SimLock:
    """threading.Lock whose blocking acquire is a scheduling event inside a simulation."""

    def __init__(self):
        self._l = _orig_lock()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        t = _cur_task()
        if t is None:
            return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False):
                self._owner = t
                return True
            if not blocking or timeout == 0:
                return False
            if self._owner is None:          # held by a thread outside the simulation
                return self._l.acquire(True, timeout)
            if not t.sim.block(t, self, timeout):
                return False

    def release(self):
        self._owner = None
        self._l.release()
        s = CUR
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _orig_lock()
        self._owner = None


class SimRLock:
    def __init__(self):
        self._b = SimLock()
        self._own = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._own == me:
            self._n += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._own = me
            self._n = 1
            return True
        return False

    def release(self):
        if self._own != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._own = None
            self._b.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._own == _get_ident()

    def _release_save(self):
        st = (self._own, self._n)
        self._own, self._n = None, 0
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._own, self._n = st

    def _at_fork_reinit(self):
        self.__init__()


_SIMMED = (env.KYM, "/tensorflow/", "/keras/", "/jax/", "/sklearn/", "/joblib/")


def _wants_sim():
    f = sys._getframe(2)
    for _ in range(5):
        if f is None:
            return False
        fn = f.f_code.co_filename
        for p in _SIMMED:
            if p in fn:
                return True
        if not fn.endswith("threading.py"):
            return False
        f = f.f_back
    return False


def _lock_factory():
    return SimLock() if _wants_sim() else _orig_lock()


def _rlock_factory(*a, **k):
    return SimRLock() if _wants_sim() else _orig_rlock(*a, **k)


def install_locks():
    """Before the libraries are imported: locks they (and kymatio) create in Python become simulated locks."""
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._allocate_lock = _lock_factory


# ------------------------------------------------------------------------------------------------ instrumentation

MON = sys.monitoring
EV = MON.events
TOOL = 3
_STORES = {"STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_NAME", "DELETE_SUBSCR", "DELETE_ATTR", "STORE_SLICE"}


def _is_kym(fn):
    return fn.startswith(env.KYM) or "__autograph_generated_file" in fn


def all_codes():
    """All code objects of the loaded kymatio modules, in a deterministic order."""
    out, seen = [], set()

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    def visit(o, depth=0):
        if isinstance(o, types.FunctionType):
            if _is_kym(o.__code__.co_filename):
                walk(o.__code__)
            w = getattr(o, "__wrapped__", None)
            if w is not None:
                visit(w, depth + 1)
        elif isinstance(o, (staticmethod, classmethod)):
            visit(o.__func__)
        elif isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    visit(f)
        elif isinstance(o, type) and depth < 3:
            for k in list(vars(o)):
                visit(vars(o)[k], depth + 1)
        elif hasattr(o, "__wrapped__"):
            visit(o.__wrapped__)
        elif hasattr(o, "func") and callable(getattr(o, "func", None)) and depth < 3:
            try:
                visit(o.func, depth + 1)
            except Exception:
                pass

    for name in sorted(m for m in sys.modules if m == "kymatio" or m.startswith("kymatio.")):
        mod = sys.modules[name]
        if mod is None:
            continue
        for k in list(vars(mod)):
            o = vars(mod)[k]
            if isinstance(o, (types.FunctionType, type, staticmethod, classmethod, property)) or hasattr(o, "__wrapped__"):
                if isinstance(o, type) and not getattr(o, "__module__", "").startswith("kymatio"):
                    continue
                visit(o)
    return out


class CodeInfo:
    __slots__ = ("hot", "name", "module", "binops", "hotops")

    def __init__(self, code):
        self.name = code.co_name
        self.module = code.co_name == "<module>"
        self.hot = set()
        self.binops = set()
        self.hotops = set()
        line = None
        prev_store = False
        for ins in dis.get_instructions(code):
            if ins.positions is not None and ins.positions.lineno:
                line = ins.positions.lineno
            if prev_store:
                self.hotops.add(ins.offset)
                prev_store = False
            if ins.opname in _STORES:
                self.hot.add(line)
                prev_store = True
            if ins.opname == "BINARY_OP":
                self.binops.add(ins.offset)


INFO = {}          # code -> CodeInfo, filled once in the parent by prepare()
CODES = []


def prepare():
    CODES[:] = all_codes()
    for c in CODES:
        INFO[id(c)] = CodeInfo(c)


# ------------------------------------------------------------------------------------------------ tasks and policies

class Task:
    __slots__ = ("sim", "idx", "fn", "baton", "state", "blocked_on", "pts", "stack", "nopre", "error", "thread",
                 "fault", "counts", "wake_ok", "prio", "timed", "killed", "fs", "proc")

    def __init__(self, sim, idx, fn):
        self.sim, self.idx, self.fn = sim, idx, fn
        self.baton = _orig_lock()
        self.baton.acquire()
        self.state = "ready"
        self.blocked_on = None
        self.pts = 0
        self.stack = [0]
        self.nopre = 0
        self.error = None
        self.fault = None
        self.counts = {"line": 0, "lib": 0, "bin": 0}
        self.prio = 0
        self.timed = False
        self.killed = False
        self.fs = None             # what the file-system layer knows about the operation in progress
        self.proc = 0


class Policy:
    """Base: never preempts."""
    name = "none"
    hot = False

    def __init__(self, spec):
        self.rng = random.Random(spec.get("seed", 0))

    def start(self, sim):
        pass

    def at_point(self, sim, t, hot):
        return None

    def pick(self, sim, t, ready, why):
        return ready[self.rng.randrange(len(ready))]


class RandomWalk(Policy):
    name = "rw"

    def __init__(self, spec):
        super().__init__(spec)
        self.p = spec["p"]
        self.left = self._gap()

    def _gap(self):
        if self.p >= 1:
            return 1
        return int(self.rng.expovariate(self.p)) + 1

    def at_point(self, sim, t, hot):
        self.left -= 1
        if self.left > 0:
            return None
        self.left = self._gap()
        ready = sim.others(t)
        return ready[self.rng.randrange(len(ready))] if ready else None


class RoundRobin(Policy):
    name = "rr"

    def __init__(self, spec):
        super().__init__(spec)
        self.q = spec["q"]
        self.left = self.q

    def at_point(self, sim, t, hot):
        self.left -= 1
        if self.left > 0:
            return None
        self.left = self.q
        ready = sim.others(t)
        if not ready:
            return None
        for r in ready:
            if r.idx > t.idx:
                return r
        return ready[0]


class PCT(Policy):
    """Random priorities with d change points at global step numbers below n."""
    name = "pct"

    def __init__(self, spec):
        super().__init__(spec)
        self.points = sorted(self.rng.randrange(max(1, spec["n"])) for _ in range(spec["d"]))
        self.low = 0
        self.steps = 0

    def start(self, sim):
        order = list(sim.tasks)
        self.rng.shuffle(order)
        for i, t in enumerate(order):
            t.prio = i + 1

    def at_point(self, sim, t, hot):
        self.steps += 1
        if self.points and self.steps >= self.points[0]:
            self.points.pop(0)
            self.low -= 1
            t.prio = self.low
            ready = sim.others(t)
            if ready:
                return max(ready, key=lambda r: r.prio)
        return None

    def pick(self, sim, t, ready, why):
        return max(ready, key=lambda r: r.prio)


class HotStore(Policy):
    """Preempts right after stores to attributes, items or globals; the other task then runs for a while."""
    name = "hot"
    hot = True

    def __init__(self, spec):
        super().__init__(spec)
        self.p = spec["p"]
        self.q = spec["q"]
        self.left = 0

    def at_point(self, sim, t, hot):
        if self.left > 0:
            self.left -= 1
            if self.left:
                return None
        elif not hot:
            return None
        if self.rng.random() >= self.p:
            return None
        ready = sim.others(t)
        if not ready:
            return None
        u = self.rng.random()
        # run the other until its own next hot store, for a short while, or for a long while
        self.left = 0 if u < .4 else (1 + self.rng.randrange(self.q) if u < .8 else 1 + self.rng.randrange(50 * self.q))
        return ready[self.rng.randrange(len(ready))]


class Replay(Policy):
    """Takes exactly the recorded switches."""
    name = "replay"
    hot = True

    def __init__(self, spec):
        super().__init__(spec)
        self.sw = {}
        for t, n, why, to in spec["switches"]:
            self.sw[(t, n, why)] = to

    def at_point(self, sim, t, hot):
        to = self.sw.get((t.idx, t.pts, "p"))
        if to is None or to >= len(sim.tasks):
            return None
        r = sim.tasks[to]
        return r if r.state == "ready" else None

    def pick(self, sim, t, ready, why):
        to = self.sw.get((t.idx if t is not None else -1, t.pts if t is not None else 0, why))
        for r in ready:
            if r.idx == to:
                return r
        return ready[0]


POLICIES = {c.name: c for c in (Policy, RandomWalk, RoundRobin, PCT, HotStore, Replay)}


def gen_policy(rng, nsteps):
    """A policy spec drawn for a run of about nsteps points."""
    u = rng.random()
    seed = rng.randrange(1 << 30)
    gran = "op" if rng.random() < .12 and nsteps < 40000 else "line"
    if u < .34:
        import math
        lo, hi = math.log(1.5 / max(nsteps, 10)), math.log(.5)
        return {"name": "rw", "p": math.exp(rng.uniform(lo, hi)), "seed": seed, "gran": gran}
    if u < .5:
        return {"name": "rr", "q": rng.choice([1, 2, 3, 5, 10, 30, 100]), "seed": seed, "gran": gran}
    if u < .72:
        return {"name": "pct", "d": rng.choice([1, 1, 2, 3, 5]), "n": max(nsteps * (6 if gran == "op" else 1), 10), "seed": seed, "gran": gran}
    return {"name": "hot", "p": rng.choice([.15, .5, .9]), "q": rng.choice([3, 20, 100]), "seed": seed, "gran": gran}


def _importing():
    """An import is in progress in this thread: it holds an import lock, which the simulator cannot see."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


# ------------------------------------------------------------------------------------------------ the simulator

class Sim:
    def __init__(self, policy_spec, step_budget=20_000_000, invariant=None, inv_every=0, faults=None, wall=300.0):
        self.spec = policy_spec
        self.policy = POLICIES[policy_spec["name"]](policy_spec)
        self.gran = policy_spec.get("gran", "line")
        self.tasks = []
        self.by_ident = {}
        self.steps = 0
        self.budget = step_budget
        self.switches = []
        self.nswitch = 0
        self.invariant = invariant
        self.inv_every = inv_every
        self.ctrl = _orig_lock()
        self.ctrl.acquire()
        self.current = None
        self.verdict = None            # ('deadlock', ...), ('overrun', ...), ('wall', ...)
        self.faults = faults           # faults.Faults or None
        self.wall = wall
        self.digest = 0
        self.info = {}
        self.locksteps = 0
        self.share_info = True
        self.codes = []

    # -- set-up
    def task(self, fn):
        t = Task(self, len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def others(self, t):
        return [r for r in self.tasks if r.state == "ready" and r is not t]

    # -- events
    def _mask(self):
        m = 0
        if self.gran == "op":
            m |= EV.INSTRUCTION
        else:
            m |= EV.LINE
        if self.faults is not None:
            if self.faults.need_lib:
                m |= EV.CALL
            if self.faults.need_line:
                m |= EV.LINE
            if self.faults.need_bin:
                m |= EV.INSTRUCTION
        if self.policy.hot or self.gran != "op":
            m |= EV.PY_START | EV.PY_RETURN | EV.PY_RESUME | EV.PY_YIELD
        return m

    def instrument(self):
        MON.use_tool_id(TOOL, "dst")
        mask = self._mask()
        self.mask = mask
        self.codes = list(CODES) if CODES else all_codes()
        use_line = self.gran != "op"
        info = self.info = INFO if self.share_info else {}
        by_ident = self.by_ident
        sim = self
        faults = self.faults

        def get(code):
            ci = info.get(id(code))
            if ci is None:
                ci = info[id(code)] = CodeInfo(code)
            return ci

        def on_line(code, line):
            t = by_ident.get(_get_ident())
            if t is None or sim.current is not t:
                return
            if faults is not None and t.fault is not None:
                faults.at_line(t, code, line)
            if use_line:
                ci = info.get(id(code)) or get(code)
                was = t.stack[-1]
                t.stack[-1] = 1 if line in ci.hot else 0
                sim.point(t, was)

        def on_ins(code, off):
            t = by_ident.get(_get_ident())
            if t is None or sim.current is not t:
                return
            ci = info.get(id(code)) or get(code)
            if faults is not None and t.fault is not None and off in ci.binops:
                faults.at_bin(t, code, off)
            if not use_line:
                sim.point(t, off in ci.hotops)

        def on_call(code, off, fn, arg0):
            t = by_ident.get(_get_ident())
            if t is None or t.fault is None or sim.current is not t:
                return
            faults.at_call(t, code, off, fn, arg0)

        def on_start(code, off):
            t = by_ident.get(_get_ident())
            if t is not None:
                ci = info.get(id(code)) or get(code)
                t.stack.append(0)
                if ci.module:
                    t.nopre += 1

        def on_end(code, off, val):
            t = by_ident.get(_get_ident())
            if t is not None and len(t.stack) > 1:
                was = t.stack.pop()
                ci = info.get(id(code)) or get(code)
                if ci.module:
                    t.nopre -= 1
                elif was and use_line and sim.current is t:
                    sim.point(t, 1)

        def on_any_start(code, off):
            # code loaded after instrument() (lazy imports, generated code)
            if _is_kym(code.co_filename):
                get(code)
                sim.codes.append(code)
                known.add(id(code))
                MON.set_local_events(TOOL, code, mask)
                if mask & EV.PY_START:
                    on_start(code, off)
            return MON.DISABLE

        MON.register_callback(TOOL, EV.LINE, on_line)
        MON.register_callback(TOOL, EV.INSTRUCTION, on_ins)
        MON.register_callback(TOOL, EV.CALL, on_call)
        MON.register_callback(TOOL, EV.PY_RESUME, on_start)
        MON.register_callback(TOOL, EV.PY_RETURN, on_end)
        MON.register_callback(TOOL, EV.PY_YIELD, on_end)

        known = set(map(id, self.codes))

        def on_py_start(code, off):
            if id(code) in known:
                return on_start(code, off)
            return on_any_start(code, off)
        MON.register_callback(TOOL, EV.PY_START, on_py_start)
        for c in self.codes:
            get(c)
            MON.set_local_events(TOOL, c, mask)
        MON.set_events(TOOL, EV.PY_START)

    def uninstrument(self):
        MON.set_events(TOOL, 0)
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.free_tool_id(TOOL)

    # -- scheduling
    def boundary(self, t):
        """Operation boundary: always a possible switch."""
        t.stack = [0]
        t.nopre = 0
        self.point(t, 1)

    def point(self, t, hot):
        t.pts += 1
        self.steps += 1
        if self.steps > self.budget:
            self._stop("overrun")
        if self.inv_every and self.steps % self.inv_every == 0 and self.invariant is not None:
            self.invariant(t)
        if t.nopre:
            return
        to = self.policy.at_point(self, t, hot)
        if to is not None and to is not t and not _importing():
            self._switch(t, to, "p")

    def _note(self, t, why, to):
        self.nswitch += 1
        ti, tp = (t.idx, t.pts) if t is not None else (-1, 0)
        self.switches.append((ti, tp, why, to.idx))
        self.digest = (self.digest * 1000003 + ti * 7919 + tp * 31 + to.idx * 3 + ord(why[0])) & 0xFFFFFFFFFFFF

    def _switch(self, t, to, why):
        self._note(t, why, to)
        self.current = to
        to.baton.release()
        t.baton.acquire()
        if self.verdict is not None:
            self._park()

    def _park(self):
        while True:
            _orig_lock_block()

    def _stop(self, verdict):
        self.verdict = verdict
        self.ctrl.release()
        self._park()

    def block(self, t, lock, timeout):
        """t cannot get lock: run somebody else until it is released.  False: timed out (simulated)."""
        self.locksteps += 1
        t.state = "blocked"
        t.blocked_on = lock
        t.timed = timeout is not None and timeout >= 0
        t.pts += 1
        ready = self.others(t)
        if not ready:
            timed = [r for r in self.tasks if r.state == "blocked" and r.timed]
            if timed:                      # time passes until a timeout expires
                r = timed[0]
                r.state, r.blocked_on = "ready", None
                if r is t:
                    return False
                ready = [r]
            else:
                self._stop("deadlock")
        to = self.policy.pick(self, t, ready, "b")
        self._switch(t, to, "b")
        timed_out = t.timed and t.blocked_on is None and lock._l.locked()
        t.blocked_on = None
        return not timed_out

    def wake(self, lock):
        for r in self.tasks:
            if r.state == "blocked" and r.blocked_on is lock:
                r.state = "ready"

    def _finish(self, t):
        t.state = "done"
        self.by_ident.pop(_get_ident(), None)
        ready = [r for r in self.tasks if r.state == "ready"]
        if ready:
            t.pts += 1
            to = self.policy.pick(self, t, ready, "e")
            self._note(t, "e", to)
            self.current = to
            to.baton.release()
        else:
            timed = [r for r in self.tasks if r.state == "blocked" and r.timed]
            if timed:
                timed[0].state, timed[0].blocked_on = "ready", None
                self.current = timed[0]
                timed[0].baton.release()
                return
            if any(r.state == "blocked" for r in self.tasks):
                self.verdict = "deadlock"
            self.ctrl.release()

    def kill(self, t, tasks):
        """The process of the running task t dies here: none of its tasks ever runs again, no handler of theirs runs."""
        for r in tasks:
            if r.state != "done":
                r.killed = True
                r.state = "done"
        self._finish(t)
        self._park()

    def _body(self, t):
        t.baton.acquire()
        if self.verdict is not None:
            return
        self.by_ident[_get_ident()] = t
        try:
            t.fn(t)
        except BaseException as e:           # the interpreter catches what operations raise: this is a harness error
            import traceback
            t.error = "".join(traceback.format_exception(e))
        self._finish(t)

    def run(self):
        global CUR
        CUR = self
        self.instrument()
        try:
            self.policy.start(self)
            for t in self.tasks:
                t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
                t.thread.start()
            if not self.tasks:
                return
            first = self.policy.pick(self, None, list(self.tasks), "s")
            self._note(None, "s", first)
            self.current = first
            first.baton.release()
            if not self.ctrl.acquire(True, self.wall):
                self.verdict = "wall"
        finally:
            self.uninstrument()
            CUR = None
        if self.verdict is None:
            for t in self.tasks:
                if not t.killed:
                    t.thread.join()
        else:
            CUR = self      # parked threads must stay parked


def _orig_lock_block():
    l = _orig_lock()
    l.acquire()
    l.acquire()
