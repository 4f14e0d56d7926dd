"""Harness around the real Tracker: recording observers, motion models, pools."""
import contextlib
import datetime
import itertools
import os
import pickle
import signal
import sys
import threading
import traceback

import numpy as np
import sharedmem

import glimpse
import glimpse.config
from glimpse import Observer, Raster, Tracker
from glimpse.track.motion import Motion

T0 = datetime.datetime(2020, 1, 1)
DAY = datetime.timedelta(days=1)


def day(n):
    return T0 + n * DAY


# ---- environment: random source ----


class Draws:
    """Deterministic answers of the random source (the same for every schedule)."""

    def __init__(self, value=0.37, hook=None):
        self.value = value
        self.hook = hook

    def random(self, size=None):
        if self.hook:
            self.hook("random")
        if size is None:
            return self.value
        n = int(np.prod(size))
        return ((np.arange(n) * 0.618 + self.value) % 1.0).reshape(size)

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def choice(self, a, size=None, replace=True, p=None, **kwargs):
        if self.hook:
            self.hook("random")
        u = self.random(size)
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        c = np.cumsum(np.full(len(a), 1 / len(a)) if p is None else p)
        c[-1] = 1.0
        return np.asarray(a)[np.searchsorted(c, u, side="right").clip(0, len(a) - 1)]


@contextlib.contextmanager
def scripted_random(draws):
    names = ("random", "random_sample", "rand", "uniform", "choice", "default_rng")
    saved = {k: getattr(np.random, k) for k in names}
    np.random.random = np.random.random_sample = draws.random
    np.random.rand, np.random.uniform = draws.rand, draws.uniform
    np.random.choice = draws.choice
    np.random.default_rng = lambda *args, **kwargs: draws
    try:
        yield draws
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)


@contextlib.contextmanager
def backend(factory):
    saved = glimpse.config.backend
    glimpse.config.backend = factory
    try:
        yield
    finally:
        glimpse.config.backend = saved


# ---- recording actors ----

CURRENT = threading.local()


class Probe:
    """Called by every actor before each call the tracker makes into it."""

    def __call__(self, actor, call, **info):
        pass


class HookMotion(Motion):
    """Deterministic motion: particles on a small lattice around a start point."""

    def __init__(self, key, xy, n=4, v=(0.5, 0.25), spread=1.0, probe=None, prior=True):
        self.key = key
        self.xy = xy
        self.n = n
        self.v = v
        self.spread = spread
        self.time_unit = DAY
        self.probe = probe or Probe()
        self.prior = prior

    def initialize_particles(self):
        CURRENT.track = self.key
        self.probe(self.key, "init")
        particles = np.zeros((self.n, 6))
        k = np.arange(self.n)
        particles[:, 0] = self.xy[0] + self.spread * ((k * 0.5) % 2 - 0.75)
        particles[:, 1] = self.xy[1] + self.spread * ((k * 0.75) % 2 - 0.75)
        particles[:, 2] = self.key + 0.125 * k
        particles[:, 3] = self.v[0] + 0.125 * k
        particles[:, 4] = self.v[1] - 0.125 * k
        return particles

    def evolve_particles(self, particles, dt):
        CURRENT.track = self.key
        before = particles.copy()
        self.probe(self.key, "evolve", dt=dt, before=before)
        units = dt.total_seconds() / self.time_unit.total_seconds()
        particles[:, 0:3] += units * particles[:, 3:6]
        self.probe(self.key, "evolved", after=particles.copy())

    def compute_log_likelihoods(self, particles):
        CURRENT.track = self.key
        self.probe(self.key, "prior", particles=particles.copy())
        if not self.prior:
            return None
        return 0.05 * (particles[:, 0] - self.xy[0]) ** 2 + 0.4 * np.arange(
            len(particles)
        )


class HookObserver(Observer):
    """A real observer which reports each call made into it."""

    def __init__(self, *args, key=0, probe=None, **kwargs):
        super().__init__(*args, **kwargs)
        self.key = key
        self.probe = probe or Probe()

    def xyz_to_uv(self, xyz, img):
        self.probe(("obs", self.key), "project", img=img, n=len(xyz))
        return super().xyz_to_uv(xyz, img=img)

    def tile_box(self, uv, size, img):
        self.probe(("obs", self.key), "box", img=img, uv=np.array(uv), size=tuple(size))
        return super().tile_box(uv, size=size, img=img)

    def extract_tile(self, box, img):
        self.probe(("obs", self.key), "extract", img=img, box=np.array(box))
        return super().extract_tile(box=box, img=img)

    def sample_tile(self, uv, tile, box, grid=False, **kwargs):
        self.probe(("obs", self.key), "sample", n=len(uv))
        out = super().sample_tile(uv, tile=tile, box=box, grid=grid, **kwargs)
        self.probe(("obs", self.key), "sampled", values=np.array(out))
        return out


def texture(shape=(24, 26), seed=0):
    """A fixed pseudo-random image (no random source involved)."""
    i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    return (
        128
        + 40 * np.sin(1.3 * i + seed)
        + 40 * np.cos(0.9 * j - 0.7 * seed)
        + 30 * np.sin(0.5 * i * j + 2.1 * seed)
        + ((i * 7 + j * 13 + seed * 5) % 11) * 3.0
    )


def observer(key, days, probe=None, shape=(24, 26), sigma=0.8, cache=True):
    images = [
        Raster(texture(shape, seed=10 * key + k), datetime=day(d))
        for k, d in enumerate(days)
    ]
    return HookObserver(images, key=key, probe=probe, sigma=sigma, cache=cache)


def tracks_arrays(tracks):
    """Everything claimed about a result, as one comparable structure."""
    out = {}
    for name in ("means", "sigmas", "covariances", "particles", "weights"):
        value = getattr(tracks, name)
        out[name] = None if value is None else np.asarray(value)
    out["success"] = np.asarray(tracks.success)
    return out


def same(a, b):
    """Bit-identical (missing equals missing)."""
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def differing(a, b):
    return [k for k in a if not same(a[k], b[k])]


# ---- pools ----


class _Ordered:
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


class Pool:
    """Base: the documented pool interface (context manager with ``map``)."""

    def __init__(self, np=None):
        self.np = np
        self.ordered = _Ordered()
        self.critical = _Ordered()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    @staticmethod
    def _call(func, item, star):
        return func(*item) if star else func(item)

    @staticmethod
    def _reduce(reduce, result):
        if reduce is None:
            return result
        return reduce(*result) if isinstance(result, tuple) else reduce(result)

    def serial(self, func, sequence, reduce, star):
        return [self._reduce(reduce, self._call(func, x, star)) for x in sequence]


class PermutedPool(Pool):
    """Tasks of each worker run in a forked process; completions in a given order.

    ``assignment[i]`` is the worker of task i (a worker takes its tasks in order),
    ``order`` the order in which results reach the caller.
    """

    def __init__(self, np=None, assignment=None, order=None):
        super().__init__(np)
        self.assignment, self.order = assignment, order

    def map(self, func, sequence, reduce=None, star=False, minlength=0):
        sequence = list(sequence)
        if not self.np:
            return self.serial(func, sequence, reduce, star)
        n = len(sequence)
        assignment = self.assignment or list(range(n))
        order = self.order or list(range(n))
        results = {}
        for worker in sorted(set(assignment)):
            tasks = [i for i in range(n) if assignment[i] == worker]
            for i, value in fork_run(
                lambda: [(i, self._call(func, sequence[i], star)) for i in tasks]
            ):
                results[i] = value
        reduced = {i: self._reduce(reduce, results[i]) for i in order}
        return [reduced[i] for i in range(n)]


def fork_run(fn):
    """Run fn in a forked child; return its pickled result (or raise)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                payload = pickle.dumps((True, fn()))
                pickle.loads(payload)
            except BaseException:
                payload = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as fp:
                fp.write(payload)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fp:
            data = fp.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    ok, value = pickle.loads(data)
    if not ok:
        raise RuntimeError("worker failed:\n" + value)
    return value


class Scheduler:
    """Runs threads one at a time; every switch is a recorded decision.

    A schedule is a dict {decision index: thread id}: at every other decision the
    running thread continues (or, if it ended, the lowest-numbered one goes on).
    """

    def __init__(self, schedule=None, horizon=200000):
        self.schedule = {int(k): v for k, v in dict(schedule or {}).items()}
        self.points = []  # (running, enabled tuple)
        self.horizon = horizon
        self.lock = threading.Condition()
        self.active = None
        self.alive = set()
        self.local = threading.local()
        self.used = set()
        self.abort = None
        self.blocked = {}

    def _ready(self, tid):
        return tid not in self.blocked or self.blocked[tid]()

    def wait_until(self, condition):
        """Block the running thread until a condition holds."""
        tid = getattr(self.local, "tid", None)
        if tid is None or condition():
            return
        with self.lock:
            self.blocked[tid] = condition
            self._decide(tid)
            self._wait(tid)
            del self.blocked[tid]

    def _decide(self, running):
        """Choose who goes on. Called with the lock held."""
        k = len(self.points)
        enabled = tuple(t for t in sorted(self.alive) if self._ready(t))
        if not enabled:
            self.active = None
            if self.alive:
                self.abort = RuntimeError("deadlock")
                self.lock.notify_all()
            return
        default = running if running in enabled else enabled[0]
        self.points.append((running if running in enabled else None, enabled))
        if k in self.schedule:
            choice = self.schedule[k]
            if choice not in enabled:
                self.abort = RuntimeError(f"schedule diverged at decision {k}")
                choice = default
            self.used.add(k)
        else:
            choice = default
        if len(self.points) > self.horizon:
            self.abort = RuntimeError("horizon reached")
        self.active = choice

    def point(self, *args, **kwargs):
        tid = getattr(self.local, "tid", None)
        if tid is None:
            return
        with self.lock:
            self._decide(tid)
            self._wait(tid)

    def _wait(self, tid):
        self.lock.notify_all()
        while self.active != tid:
            if self.active is None and self.abort:
                raise self.abort
            self.lock.wait()

    def run(self, bodies, trace=None):
        """Run one thread per body to completion under the schedule."""
        errors = {}
        n = len(bodies)

        def main(tid, body):
            self.local.tid = tid
            with self.lock:
                while self.active != tid:
                    self.lock.wait()
            try:
                if trace:
                    sys.settrace(trace)
                try:
                    body()
                finally:
                    sys.settrace(None)
            except BaseException as e:
                errors[tid] = e
            finally:
                with self.lock:
                    self.alive.discard(tid)
                    self._decide(tid)
                    self.lock.notify_all()

        threads = [
            threading.Thread(target=main, args=(i, b), daemon=True)
            for i, b in enumerate(bodies)
        ]
        self.alive = set(range(n))
        for t in threads:
            t.start()
        with self.lock:
            self._decide(None)
            self.lock.notify_all()
        for t in threads:
            t.join()
        if self.abort:
            raise self.abort
        for tid in sorted(errors):
            raise errors[tid]


class ScheduledOrder:
    """A section which tasks enter in their order (one entry each)."""

    def __init__(self, scheduler):
        self.scheduler, self.turn, self.local = scheduler, 0, threading.local()

    def move(self, i):
        self.local.i = i

    def __enter__(self):
        i = self.local.i
        self.scheduler.wait_until(lambda: self.turn == i)
        return self

    def __exit__(self, *args):
        self.turn += 1


class ThreadPool(Pool):
    """Worker threads in this process under a :class:`Scheduler`."""

    def __init__(self, np=None, scheduler=None, trace=None):
        super().__init__(np)
        self.scheduler, self.trace = scheduler, trace

    def map(self, func, sequence, reduce=None, star=False, minlength=0):
        sequence = list(sequence)
        if not self.np:
            return self.serial(func, sequence, reduce, star)
        results = {}
        todo = list(range(len(sequence)))

        self.ordered = ScheduledOrder(self.scheduler)

        def body():
            while todo:
                i = todo.pop(0)
                self.ordered.move(i)
                value = self._call(func, sequence[i], star)
                results[i] = self._reduce(reduce, value)
                self.scheduler.point()

        workers = min(self.np, len(sequence))
        self.scheduler.run([body] * workers, trace=self.trace)
        return [results[i] for i in range(len(sequence))]


def line_tracer(scheduler, prefix):
    """A trace function with a scheduling point before every line under prefix."""

    def local(frame, event, arg):
        if event == "line":
            scheduler.point()
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefix):
            return local
        return None

    return trace


def assignments(n, workers):
    """All ways workers can take a queue of n tasks (up to renaming of workers)."""
    out = []
    for a in itertools.product(range(min(n, workers)), repeat=n):
        first = []
        for w in a:
            if w not in first:
                first.append(w)
        if first == sorted(first) and first == list(range(len(first))):
            out.append(list(a))
    return out


def completion_orders(assignment):
    """All orders in which results can arrive (a worker's own tasks in order)."""
    n = len(assignment)
    for order in itertools.permutations(range(n)):
        pos = {t: k for k, t in enumerate(order)}
        if all(
            pos[i] < pos[j]
            for i in range(n)
            for j in range(i + 1, n)
            if assignment[i] == assignment[j]
        ):
            yield list(order)


def camera_xy(cam, uv):
    """Normalized camera coordinates of image coordinates."""
    rays = np.asarray(cam.uv_to_xyz(np.atleast_2d(np.asarray(uv, dtype=float)))) @ cam.R.T
    return rays[:, :2] / rays[:, 2:]
