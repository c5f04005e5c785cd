"""Owns every source of nondeterminism a mealpy run can see.

Must be imported before mealpy.  It replaces, by attribute, the entry points of
  * numpy.random.default_rng  -> a Generator over a BitGenerator implemented here
  * random.Random             -> a subclass that reads its words through here
  * time.perf_counter/time    -> a virtual clock (only while a Run asks for it)
  * concurrent.futures        -> executors whose completion order is chosen here
With no deviation requested every replacement yields exactly the stream / value
of the original, so the code under test behaves as it does in production.
"""
import ctypes
import os
import random as _random
import signal
import sys
import threading
import time as _time
import concurrent.futures as _cf

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("TQDM_DISABLE", "1")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

import numpy as np

REAL_DEFAULT_RNG = np.random.default_rng
REAL_RANDOM = _random.Random
REAL_PERF = _time.perf_counter
REAL_THREADPOOL = _cf.ThreadPoolExecutor
REAL_PROCESSPOOL = _cf.ProcessPoolExecutor
REAL_AS_COMPLETED = _cf.as_completed

_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _BG(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("u64", _U64), ("u32", _U32),
                ("dbl", _DBL), ("raw", _U64)]


_newcap = ctypes.pythonapi.PyCapsule_New
_newcap.restype = ctypes.py_object
_newcap.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]


class Horizon(BaseException):
    """The run exceeded its budget of random draws / CPU time (a hang)."""


# Deviations: what an adversarial but legal random word looks like.
# A deviation may also be a callable: kind ('dbl' | 'u32' | 'u64') -> the word itself.
DBL_LO, DBL_HI = 2.0 ** -30, 1.0 - 2.0 ** -30
U32_LO, U32_HI = 1, 0xFFFFFFFF
# ziggurat layout: low 8 bits strip index, bit 8 sign, the rest magnitude.
U64_LO = (0x000EF33D8025E000 << 9) | 0x100      # about -3.65 sigma
U64_HI = (0x000EF33D8025E000 << 9)              # about +3.65 sigma


class State:
    """Per-run control block (one run at a time per process)."""

    def __init__(self):
        self.reset()

    def reset(self, deviations=None, limit=None):
        self.n = 0                                # draws so far
        self.dev = deviations or {}               # draw index -> 'lo' | 'hi'
        self.limit = limit if limit is not None else 1 << 62
        self.kinds = None                         # optional list of draw kinds
        self.tripped = False


STATE = State()


def _trip():
    # An exception raised inside a ctypes callback would be swallowed, so arm a
    # repeating timer: one of its ticks lands in ordinary code.
    if not STATE.tripped:
        STATE.tripped = True
        signal.setitimer(signal.ITIMER_VIRTUAL, 0.001, 0.005)


sys.unraisablehook = lambda *_: None


class CtlBitGen:
    """A BitGenerator whose every word passes through STATE."""

    def __init__(self, seed=None):
        self._bg = np.random.PCG64(seed)
        self._install()

    def _install(self):
        iface = self._bg.ctypes
        st, n64, n32, nd = iface.state_address, iface.next_uint64, iface.next_uint32, iface.next_double
        S = STATE

        def u64(_):
            i = S.n
            S.n = i + 1
            v = n64(st)
            if i >= S.limit:
                _trip()
            if S.dev:
                d = S.dev.get(i)
                if d is not None:
                    return U64_LO if d == "lo" else U64_HI if d == "hi" else d("u64")
            return v

        def u32(_):
            i = S.n
            S.n = i + 1
            v = n32(st)
            if i >= S.limit:
                _trip()
            if S.dev:
                d = S.dev.get(i)
                if d is not None:
                    return U32_LO if d == "lo" else U32_HI if d == "hi" else d("u32")
            return v

        def dbl(_):
            i = S.n
            S.n = i + 1
            v = nd(st)
            if i >= S.limit:
                _trip()
            if S.dev:
                d = S.dev.get(i)
                if d is not None:
                    return DBL_LO if d == "lo" else DBL_HI if d == "hi" else d("dbl")
            return v

        self._cb = (_U64(u64), _U32(u32), _DBL(dbl))
        self._struct = _BG(None, self._cb[0], self._cb[1], self._cb[2], self._cb[0])
        self.capsule = _newcap(ctypes.addressof(self._struct), b"BitGenerator", None)
        self.lock = threading.RLock()
        self.seed_seq = self._seed_seq = self._bg.seed_seq

    @property
    def state(self):
        return self._bg.state

    @state.setter
    def state(self, v):
        self._bg.state = v

    def spawn(self, n):
        return [CtlBitGen(s) for s in self._bg.seed_seq.spawn(n)]

    def __getstate__(self):
        return {"bg": self._bg}

    def __setstate__(self, d):
        self._bg = d["bg"]
        self._install()

    def __deepcopy__(self, memo):
        import pickle
        return pickle.loads(pickle.dumps(self))


class CtlGenerator(np.random.Generator):
    """np.random.Generator that pickles through our BitGenerator."""

    def __reduce__(self):
        return (CtlGenerator, (self.bit_generator,))

    def __getstate__(self):
        return None

    def __setstate__(self, s):
        pass


def ctl_default_rng(seed=None):
    if isinstance(seed, np.random.Generator):
        return seed
    if isinstance(seed, CtlBitGen):
        return CtlGenerator(seed)
    if seed is None:
        seed = UNSEEDED[0]
        UNSEEDED[0] += 1
        seed = [0x5EED, seed]
    return CtlGenerator(CtlBitGen(seed))


import numpy.random._pickle as _np_pickle
_REAL_GCTOR = getattr(_np_pickle, "__generator_ctor")


def _generator_ctor(bg="MT19937", *a):
    # plain Generators built over our BitGenerator (scipy spawns them) must survive deepcopy and pickle
    return CtlGenerator(bg) if isinstance(bg, CtlBitGen) else _REAL_GCTOR(bg, *a)


UNSEEDED = [0]      # entropy handed to unseeded generators, reset for every run


class CtlRandom(REAL_RANDOM):
    def seed(self, a=None, version=2):
        if a is None:
            a = 1000003 + UNSEEDED[0]
            UNSEEDED[0] += 1
        super().seed(a, version)

    def random(self):
        S = STATE
        i = S.n
        S.n = i + 1
        v = super().random()
        if i >= S.limit:
            _trip()
        d = S.dev.get(i) if S.dev else None
        if d is not None:
            return DBL_LO if d == "lo" else DBL_HI if d == "hi" else d("dbl")
        return v

    def getrandbits(self, k):
        S = STATE
        i = S.n
        S.n = i + 1
        v = super().getrandbits(k)
        if i >= S.limit:
            _trip()
        d = S.dev.get(i) if S.dev else None
        if d is not None:
            # 'hi' would make a rejection loop spin on one word only once, since
            # the next word comes from the normal stream
            return 0 if d == "lo" else (1 << k) - 1
        return v


class Clock:
    """Virtual time: a scripted advance per reading."""

    def __init__(self):
        self.active = False
        self.now = 0.0
        self.step = 0.0

    def __call__(self):
        if self.active:
            self.now += self.step
            return self.now
        return REAL_PERF()


CLOCK = Clock()
REAL_TIME = _time.time
REAL_TIME_NS = _time.time_ns


def _vtime():
    return 1e9 + CLOCK() if CLOCK.active else REAL_TIME()


def _vtime_ns():
    return int(_vtime() * 1e9) if CLOCK.active else REAL_TIME_NS()

# --------------------------------------------------------------------- executors


class Sched:
    """Chooses the completion order of the tasks handed to one executor batch.

    order(n) -> a permutation of range(n); the k-th finished task is order[k].
    """

    def __init__(self):
        self.active = False
        self.order = None            # callable(batch_no, n) -> permutation
        self.batches = []            # (kind, n) seen
        self.workers = []            # (kind, max_workers)
        self.chooser = None          # callable(batch_no, options) -> index; turns on overlapping thread tasks
        self.opcodes = False         # switch points at every bytecode of mealpy, else at objective entry only
        self.steps = 0


SCHED = Sched()
_LOCAL = threading.local()


def yield_point():
    """Called where a parallel task may be preempted (objective entry; every bytecode in opcode mode)."""
    t = getattr(_LOCAL, "task", None)
    if t is not None:
        t.park()


class _Runner:
    """One in-flight task of an overlapping batch: a real thread that runs only when told to."""

    def __init__(self, task):
        self.task, self.go, self.back, self.over = task, threading.Semaphore(0), threading.Semaphore(0), False
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _main(self):
        self.go.acquire()
        _LOCAL.task = self
        if SCHED.opcodes:
            sys.settrace(self._trace)
        try:
            self.task.run(None)
        finally:
            sys.settrace(None)
            _LOCAL.task = None
            self.over = True
            self.back.release()

    def _trace(self, frame, event, arg):
        if "/mealpy/" not in frame.f_code.co_filename:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        if event == "opcode":
            self.park()
        return self._trace

    def park(self):
        self.back.release()
        self.go.acquire()

    def step(self):
        self.go.release()
        self.back.acquire()
        return self.over


class _Task:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.done_flag = False
        self.res = self.exc = None

    def run(self, isolate):
        if self.done_flag:
            return
        fn, args, kwargs = self.fn, self.args, self.kwargs
        try:
            if isolate:
                import pickle
                if isolate[0] is not fn:           # one picture of the callable per batch, a private copy per task
                    isolate[:] = [fn, pickle.dumps(fn)]
                fn = pickle.loads(isolate[1])
                args, kwargs = pickle.loads(pickle.dumps((args, kwargs)))
                self.res = pickle.loads(pickle.dumps(fn(*args, **kwargs)))
            else:
                self.res = fn(*args, **kwargs)
        except Horizon:
            raise
        except BaseException as e:     # as the real worker does
            self.exc = e
        self.done_flag = True

    # Future interface
    def result(self, timeout=None):
        self._batch.flush()
        if self.exc is not None:
            raise self.exc
        return self.res

    def exception(self, timeout=None):
        self._batch.flush()
        return self.exc

    def done(self):
        return self.done_flag

    def cancel(self):
        return False

    def add_done_callback(self, f):
        self._batch.flush()
        f(self)


class _Batch:
    def __init__(self, kind):
        self.kind, self.tasks, self.finish = kind, [], []

    def flush(self):
        todo = [t for t in self.tasks if not t.done_flag]
        if not todo:
            return
        no = len(SCHED.batches)
        SCHED.batches.append((self.kind, len(todo)))
        if self.kind == "thread" and SCHED.chooser is not None:
            return self._overlap(no, todo)
        perm = SCHED.order(no, len(todo)) if SCHED.order else range(len(todo))
        picture = [None, None] if self.kind == "process" else None
        for k in perm:
            todo[k].run(picture)
            self.finish.append(todo[k])


    def _overlap(self, no, todo):
        width = self.width or 4
        flying, nxt = [], 0
        while nxt < len(todo) or flying:
            opts = [("step", k) for k in range(len(flying))]
            if nxt < len(todo) and len(flying) < width:
                opts.append(("start", nxt))
            what, k = opts[SCHED.chooser(no, opts) % len(opts)] if len(opts) > 1 else opts[0]
            SCHED.steps += 1
            if what == "start":
                flying.append(_Runner(todo[nxt]))
                nxt += 1
                k = len(flying) - 1
            r = flying[k]
            if r.step():
                r.thread.join()
                self.finish.append(r.task)
                flying.pop(k)


class CtlExecutor:
    KIND = "thread"

    def __init__(self, max_workers=None, *a, **k):
        SCHED.workers.append((self.KIND, max_workers))
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._b = _Batch(self.KIND)
        self._b.width = max_workers
        self._down = False

    def submit(self, fn, /, *args, **kwargs):
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        t = _Task(fn, args, kwargs)
        t._batch = self._b
        self._b.tasks.append(t)
        return t

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        ts = [self.submit(fn, *a) for a in zip(*iterables)]

        def gen():
            for t in ts:
                yield t.result()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._b.flush()
        self._down = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


class CtlThreadPool(CtlExecutor):
    KIND = "thread"


class CtlProcessPool(CtlExecutor):
    KIND = "process"


def _thread_pool(*a, **k):
    return CtlThreadPool(*a, **k) if SCHED.active else REAL_THREADPOOL(*a, **k)


def _process_pool(*a, **k):
    return CtlProcessPool(*a, **k) if SCHED.active else REAL_PROCESSPOOL(*a, **k)


def _as_completed(fs, timeout=None):
    fs = list(fs)
    if fs and isinstance(fs[0], _Task):
        fs[0]._batch.flush()
        seen = set(map(id, fs))
        for t in fs[0]._batch.finish:
            if id(t) in seen:
                yield t
    else:
        yield from REAL_AS_COMPLETED(fs, timeout)


_installed = False
BARE = os.environ.get("MC_BARE") == "1"       # run on the real environment: the control group of the binding test


def install():
    """Put the seams in place.  Call before importing mealpy."""
    global _installed
    if _installed or BARE:
        return
    _installed = True
    np.random.default_rng = ctl_default_rng
    setattr(_np_pickle, "__generator_ctor", _generator_ctor)
    _random.Random = CtlRandom
    _time.perf_counter = CLOCK
    _time.time = _vtime
    _time.time_ns = _vtime_ns
    _time.monotonic = CLOCK
    _time.process_time = CLOCK
    _cf.ThreadPoolExecutor = _thread_pool
    _cf.ProcessPoolExecutor = _process_pool
    _cf.as_completed = _as_completed


def fresh(deviations=None, limit=None, glob=0):
    """Reset every piece of ambient state before a run."""
    STATE.reset(deviations, limit)
    UNSEEDED[0] = 0
    np.random.seed(12345 + glob)
    _random.seed(54321 + glob)
    SCHED.active = False
    SCHED.order = SCHED.chooser = None
    SCHED.opcodes = False
    SCHED.batches = []
    SCHED.workers = []
    CLOCK.active = False


def self_test():
    """With no deviation the controlled sources must be the original ones, bit for bit.  Returns the number of values compared."""
    fresh()
    n = 0
    for seed in (0, 1, 10, 2 ** 70, [1, 2]):
        a, b = ctl_default_rng(seed), REAL_DEFAULT_RNG(seed)
        for _ in range(2):
            for name, args, kw in SELF:
                x, y = getattr(a, name)(*args, **kw), getattr(b, name)(*args, **kw)
                n += np.size(x)
                if type(x) is not type(y) or np.asarray(x).tobytes() != np.asarray(y).tobytes():
                    raise RuntimeError("environment self-test: Generator.%s%r differs from numpy's" % (name, args))
        p, q = np.arange(7), np.arange(7)
        a.shuffle(p), b.shuffle(q)
        if p.tobytes() != q.tobytes() or a.spawn(1)[0].random() != b.spawn(1)[0].random():
            raise RuntimeError("environment self-test: shuffle or spawn differs from numpy's")
    for seed in (0, 7, "x"):
        a, b = CtlRandom(seed), REAL_RANDOM(seed)
        for f in (lambda r: r.random(), lambda r: r.randint(0, 9), lambda r: r.sample(range(20), 5), lambda r: r.gauss(0, 1),
                  lambda r: r.choice("abc"), lambda r: r.uniform(1, 2), lambda r: r.getrandbits(70)):
            n += 1
            if f(a) != f(b):
                raise RuntimeError("environment self-test: random.Random differs from Python's")
    fresh()
    return n


SELF = [("random", (), {}), ("random", (5,), {}), ("uniform", (-1, 1), {}), ("uniform", (-1, 1, (2, 3)), {}), ("normal", (0, 1, 400), {}),
        ("normal", (0, 1), {}), ("standard_normal", (9,), {}), ("integers", (0, 7), {}), ("integers", (0, 7, 11), {}), ("integers", (-5, 2 ** 40, 5), {}),
        ("choice", (9, 4), dict(replace=False)), ("choice", (9, 4), {}), ("choice", (3,), dict(p=[.2, .3, .5])), ("permutation", (9,), {}),
        ("exponential", (2., 30), {}), ("gamma", (.5, 1., 20), {}), ("beta", (.5, 2., 5), {}), ("standard_cauchy", (5,), {}), ("poisson", (3., 5), {}),
        ("logistic", (0, 1, 5), {}), ("rayleigh", (1., 5), {}), ("weibull", (2., 5), {}), ("multivariate_normal", ([0, 0], [[1, 0], [0, 1]]), {}),
        ("standard_t", (3, 5), {}), ("laplace", (0, 1, 5), {}), ("binomial", (5, .4, 5), {}), ("triangular", (0, 1, 2, 5), {}), ("dirichlet", ([1, 2],), {})]
