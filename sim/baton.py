"""Threads of one process under a scheduler: exactly one runs at any time.

The code under test is instrumented (sys.monitoring) so that the scheduler gets control before
each of its bytecode instructions (or lines).  There it hands the baton to another thread or
raises an exception in the running one, as its plan says.  Nothing else decides who runs.
Locks that the code under test makes are simulated, so that waiting for one is a hand-over too.
"""

import gc
import importlib
import os
import sys
import threading
import time
import traceback

TOOL = 3
CODES = []
ACTIVE = None  # the running scheduler
REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
# no hand-over while real locks of these are held: (end of file name, functions)
HOLDERS = (("<frozen importlib._bootstrap>", None), ("numba/core/compiler_lock.py", None),
           ("/tempfile.py", ("_gettempdir", "_get_candidate_names")))


class Timeout(Exception):
    """What a watchdog raises in a thread (PyThreadState_SetAsyncExc)"""


class Death(BaseException):
    """The thread ends here"""


class Deadlock(Exception):
    """Every thread waits for a lock"""


KINDS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "timeout": Timeout, "die": Death}


def find_codes(package):
    """Code objects of the package, also of functions that are made later"""
    top = os.path.dirname(package.__file__) + os.sep
    found, todo = {}, []
    for thing in gc.get_objects():
        code = getattr(thing, "__code__", None) if type(thing).__name__ == "function" else None
        if code is not None and code.co_filename.startswith(top):
            todo.append(code)
    while todo:
        code = todo.pop()
        if id(code) in found:
            continue
        found[id(code)] = code
        todo += [c for c in code.co_consts if type(c) is type(code)]
    CODES[:] = sorted(found.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def holding():
    """Whether the calling thread is inside something that holds a real lock"""
    frame = sys._getframe(2)
    while frame is not None:
        code = frame.f_code
        for end, functions in HOLDERS:
            if code.co_filename.endswith(end) and (functions is None or code.co_name in functions):
                return True
        frame = frame.f_back
    return False


# ------------------------------------------------------------------ locks
class SimLock:
    """A lock of the code under test"""

    def __init__(self, again):
        self.again, self.owner, self.depth = again, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if ACTIVE is not None:
            ACTIVE.on_call("lock")
        while self.owner is not None and not (self.again and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if ACTIVE is None or not ACTIVE.mine():
                raise Deadlock("a lock nobody is going to release")
            if not ACTIVE.wait_for(self, timeout >= 0):
                return False
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None or (self.again and self.owner != threading.get_ident()):
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            if ACTIVE is not None:
                ACTIVE.on_call("unlock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    # what Condition asks of an RLock
    def _is_owned(self):
        return self.owner == threading.get_ident()

    def _release_save(self):
        depth, self.depth, self.owner = self.depth, 0, None
        return depth

    def _acquire_restore(self, depth):
        self.acquire()
        self.depth = depth

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


def simulate_locks(top):
    """Locks made by files below top are simulated from now on"""

    def factory(real, again):
        def make():
            frame = sys._getframe(1)
            for _ in range(4):
                if frame is None:
                    break
                if frame.f_code.co_filename.startswith(top):
                    return SimLock(again)
                if not frame.f_code.co_filename.endswith("/threading.py"):
                    break
                frame = frame.f_back
            return real()

        return make

    threading.Lock = threading._allocate_lock = factory(REAL_LOCK, False)
    threading.RLock = factory(REAL_RLOCK, True)


class ModuleLock:
    """Stands in for the import system's lock of a module: waiting for one is a hand-over, too"""

    deadlocks = 0

    def __init__(self, name):
        self.name, self.owner, self.depth = name, None, 0

    def acquire(self):
        me = threading.get_ident()
        while self.owner not in (None, me):
            if ACTIVE is None or not ACTIVE.mine():
                raise Deadlock("a module lock nobody is going to release")
            lock = self
            while lock is not None and lock.owner in ACTIVE.idents:
                lock = ACTIVE.wanted[ACTIVE.idents.index(lock.owner)]
                if lock is not None and lock.owner == me:
                    ModuleLock.deadlocks += 1
                    raise importlib._bootstrap._DeadlockError("deadlock detected by %r" % self)
            ACTIVE.wait_for(self, False)
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def __repr__(self):
        return "_ModuleLock(%r)" % self.name


def simulate_imports():
    """Threads may be switched while they import"""
    global HOLDERS
    importlib._bootstrap._ModuleLock = ModuleLock
    HOLDERS = tuple(entry for entry in HOLDERS if "importlib" not in entry[0])


# ------------------------------------------------------------------ threads
class Scheduler:
    def __init__(self, count, segments, faults, granularity, instrument, visits=(), visit=None):
        # "line" or "instr", maybe with the ends of the files to which to restrict it
        granularity, _, files = granularity.partition(":")
        self.codes = [c for c in CODES if c.co_filename.endswith(tuple(files.split(",")))]
        self.count = count
        self.segments = [list(s) for s in segments]
        self.faults = {(t, item): [at, kind] for t, item, at, kind in faults}
        # other code that runs in the middle of an operation, in its thread
        self.visits, self.visit = {}, visit
        for t, item, at, visitor, then in visits:
            self.visits.setdefault((t, item), []).append([at, visitor, then])
        self.due = [[] for _ in range(count)]
        self.granularity, self.instrument = granularity, instrument
        self.locks = [REAL_LOCK() for _ in range(count)]
        for lock in self.locks:
            lock.acquire()
        self.over = REAL_LOCK()
        self.over.acquire()
        self.done = [False] * count
        self.waits = [None] * count
        self.wanted = [None] * count  # the lock a thread waits for
        self.idle = [False] * count  # waits until others did something
        self.idents = [None] * count
        self.current = None
        self.budget = self.calls = 1 << 60
        self.outside = False  # waiting for the simulator
        self.deadlock = False
        self.events = 0  # of all threads
        self.in_item = 0  # events since the running item of each thread began
        self.item_events = [0] * count
        self.fault = [None] * count
        self.switches = []
        self.fired = []
        self.inside = [False] * count

    # -------------------------------------------------------------- choice
    def runnable(self, number):
        if self.done[number]:
            return False
        if self.wanted[number] is not None and self.wanted[number].owner is not None:
            return False
        other = self.waits[number]
        return other is None or other >= self.count or self.done[other]

    def choose(self):
        """The next segment somebody can run; after the last one, one thread after the other"""
        while self.segments:
            number, length = self.segments.pop(0)
            if number < self.count and length and self.runnable(number):
                return number, length
        for number in range(self.count):
            if self.runnable(number):
                return number, 1 << 60
        for number in range(self.count):  # waiting for each other
            if not self.done[number] and self.wanted[number] is None:
                self.waits[number] = None
                return number, 1 << 60
        for number in range(self.count):
            if not self.done[number]:
                self.deadlock = True
                return number, 1 << 60
        return None, 0

    def mine(self):
        """Whether the calling thread is the one that runs"""
        return self.current is not None and self.idents[self.current] == threading.get_ident()

    def hand_over(self, where):
        """In the running thread: let the chosen one run, return when it is our turn again"""
        me = self.current
        number, length = self.choose()
        self.budget = self.calls = 1 << 60
        if length < 0:
            self.calls = -length
        else:
            self.budget = length
        if number == me:
            return
        self.switches.append([me, number, where])
        self.current = number
        if number is None:
            self.over.release()
            return
        self.locks[number].release()
        if not self.done[me]:
            self.locks[me].acquire()

    # -------------------------------------------------------------- points
    def on_event(self, code, offset):
        me = self.current
        if me is None or not self.inside[me] or self.idents[me] != threading.get_ident():
            return
        self.events += 1
        self.item_events[me] += 1
        fault = self.fault[me]
        if fault is not None and self.item_events[me] >= fault[0]:
            self.fault[me] = None
            self.fired.append([me, fault[1], code.co_qualname, offset])
            raise KINDS[fault[1]]()
        due = self.due[me]
        if due and self.item_events[me] >= due[0][0] and not holding():
            _, visitor, then = due.pop(0)
            if self.visit(visitor, True):
                self.fired.append([me, "visit", code.co_qualname, offset])
            self.visit(visitor)
            if then:
                self.due[me] = []
                self.fired.append([me, then, code.co_qualname, offset])
                raise KINDS[then]()
        self.budget -= 1
        if self.budget <= 0 and not holding():
            self.hand_over("%s:%d" % (code.co_qualname, offset))

    def on_call(self, name):
        """Before and after a system call"""
        if not self.mine() or not self.inside[self.current]:
            return
        self.events += 1
        self.calls -= 1
        self.budget -= 1
        if name not in ("flock", "sleep"):
            self.idle = [False] * self.count
        if (self.calls <= 0 or self.budget <= 0) and not holding():
            self.hand_over(name)

    def give_way(self):
        """In a thread that waits for something; False if nobody else can run"""
        if not self.mine() or holding():
            return False
        me = self.current
        others = [n for n in range(self.count)
                  if n != me and self.runnable(n) and not self.idle[n]]
        if not others:
            return False
        self.idle[me] = True
        if not self.segments or self.segments[0][0] == me:
            later = next((s for s in self.segments if s[0] in others), [others[0], 1 << 60])
            self.segments.insert(0, list(later))
        self.hand_over("waits")
        self.idle[me] = False
        return True

    def wait_for(self, lock, finite):
        """Until the lock is free; False if that will not happen (any more) in time"""
        me = self.current
        if finite and not any(n != me and self.runnable(n) for n in range(self.count)):
            return False
        self.wanted[me] = lock
        self.hand_over("waits for a lock")
        self.wanted[me] = None
        if self.deadlock and lock.owner is not None:
            raise Deadlock("every thread waits for a lock")
        return True

    def point(self):
        """Between two items"""
        self.budget -= 1
        if self.budget <= 0 or not self.runnable(self.current):
            self.hand_over("")

    # -------------------------------------------------------------- threads
    def body(self, number, program, perform):
        self.locks[number].acquire()
        self.idents[number] = threading.get_ident()
        results = []
        try:
            for index, item in enumerate(program):
                if item[0] == "wait":
                    self.waits[number] = item[1]
                    self.point()
                    self.waits[number] = None
                    results.append(["ok", None])
                    continue
                self.point()
                self.fault[number] = self.faults.get((number, index))
                self.due[number] = sorted(self.visits.get((number, index), []), key=lambda v: v[0])
                self.item_events[number] = 0
                self.inside[number] = True
                try:
                    result = ["ok", perform(number, item)]
                except Death:
                    results.append(["cut", "die"])
                    break
                except (KeyboardInterrupt, MemoryError, Timeout) as exc:
                    result = ["cut", type(exc).__name__]
                except Exception as exc:
                    self.inside[number] = False
                    # format_exc would import modules to make suggestions
                    text = "".join(traceback.format_tb(exc.__traceback__)) + "%s: %s" % (type(exc).__name__, exc)
                    result = ["error", type(exc).__name__, text[-1500:]]
                finally:
                    self.inside[number] = False
                    self.fault[number] = None
                    self.due[number] = []
                results.append(result)
        except BaseException as exc:
            results.append(["harness", repr(exc)])
        self.results[number] = results
        self.done[number] = True
        self.wanted[number] = None
        self.hand_over("")

    def run(self, programs, perform):
        monitoring = sys.monitoring
        event = {"instr": monitoring.events.INSTRUCTION, "line": monitoring.events.LINE}[self.granularity]
        if self.instrument:
            monitoring.use_tool_id(TOOL, "simulation")
            monitoring.register_callback(TOOL, event, self.on_event)
            for code in self.codes:
                monitoring.set_local_events(TOOL, code, event)
            self.watch(event)
        global ACTIVE
        ACTIVE = self
        self.results = [None] * self.count
        threads = [threading.Thread(target=self.body, args=(i, programs[i], perform), daemon=True)
                   for i in range(self.count)]
        for thread in threads:
            thread.start()
        self.begin()
        stuck = self.wait_over()
        ACTIVE = None
        if self.instrument:
            for code in self.codes:
                monitoring.set_local_events(TOOL, code, 0)
            monitoring.set_events(TOOL, 0)
            monitoring.free_tool_id(TOOL)
        return {"results": self.results, "switches": self.switches, "events": self.events,
                "fired": self.fired, "stuck": stuck}

    def watch(self, event):
        """For subclasses that watch code that is not there yet"""

    def begin(self):
        self.current, length = self.choose()
        if length < 0:
            self.calls = -length
        else:
            self.budget = length
        if self.current is not None:
            self.locks[self.current].release()

    def wait_over(self):
        """Until all threads ended; the stacks if the running one waits for a real lock forever"""
        idle, seen = 0, None
        while self.current is not None and not self.over.acquire(timeout=2):
            now = int(time.process_time() * 20), self.events, len(self.switches)
            idle = idle + 1 if now == seen and not self.outside else 0
            seen = now
            if idle == 15:
                return "".join("thread %d:\n%s" % (
                    n, "".join(traceback.format_stack(sys._current_frames().get(ident))[-8:]))
                    for n, ident in enumerate(self.idents))
        return None


class ImportScheduler(Scheduler):
    """Of threads that import: watches all lines below a directory, also of modules that are made yet"""

    def __init__(self, top, count, segments, faults):
        super().__init__(count, segments, faults, "line", True)
        self.top, self.codes = top, []

    def watch(self, event):
        sys.monitoring.set_events(TOOL, event)

    def on_event(self, code, offset):
        if not code.co_filename.startswith(self.top):
            return sys.monitoring.DISABLE
        return super().on_event(code, offset)
