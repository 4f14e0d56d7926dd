"""A failing track never disturbs the other tracks."""
import functools
import itertools
import warnings

import numpy as np
import sharedmem

from mc.core import require, stats
from mc import trackkit as tk

LEVEL = "fault_enumeration"
RULE = (
    "A case is one exception type raised at one call of the tracker into a motion model "
    "or observer while tracking one of the tracks (every call occurrence of a fault-free "
    "run), in one pool; non-trivial when the fault was actually raised."
)
ASSUMPTIONS = ["Faults are exceptions; a killed worker process is outside the bound."]

MARK = "planted-fault"


class TwoArgs(Exception):
    def __init__(self, code, text):
        super().__init__(f"{code}: {text}")
        self.code = code


class Keyword(Exception):
    def __init__(self, *, text):
        super().__init__(text)


class FromStr(RuntimeError):
    """Unpickles only by luck: the state is rebuilt from a different signature."""

    def __init__(self, text, extra=None):
        super().__init__("value", text)


def make_exception(name):
    if name == "local":

        class Local(Exception):
            pass

        return Local(MARK)
    return {
        "value": lambda: ValueError(MARK),
        "key": lambda: KeyError(MARK),
        "os": lambda: OSError(2, MARK, "file"),
        "unicode": lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, MARK),
        "memory": lambda: np.core._exceptions._ArrayMemoryError((10 ** 9,), np.dtype(float)),
        "two": lambda: TwoArgs(3, MARK),
        "keyword": lambda: Keyword(text=MARK),
        "fromstr": lambda: FromStr(MARK),
        "stop": lambda: StopIteration(MARK),
        "index": lambda: IndexError(MARK),
        "zero": lambda: ZeroDivisionError(MARK),
        "assert": lambda: AssertionError(MARK),
        "warning": lambda: UserWarning(MARK),
        "linalg": lambda: np.linalg.LinAlgError(MARK),
        "notimplemented": lambda: NotImplementedError(),
    }[name]()


EXCEPTIONS = [
    "value", "key", "os", "unicode", "memory", "two", "keyword", "fromstr", "stop",
    "index", "zero", "assert", "warning", "linalg", "notimplemented", "local",
]
DAYS = ((0, 1, 2, 3), (1, 3))
OPTIONS = {
    "plain": {},
    "full": {"return_particles": True, "return_covariances": True},
}


class Faults:
    """Counts the calls made for each track, and raises at the planned ones."""

    def __init__(self, plan=()):
        self.plan = {(t, k): e for t, k, e in plan}
        self.counts = {}
        self.step = {}
        self.log = {}
        self.raised = {}

    def __call__(self, actor, call, **info):
        track = tk.CURRENT.track
        k = self.counts.get(track, 0)
        self.counts[track] = k + 1
        if call == "init":
            self.step[track] = 0
        elif call == "evolve":
            self.step[track] += 1
        self.log.setdefault(track, []).append((self.step[track], call))
        if (track, k) in self.plan:
            self.raised[track] = self.step[track]
            raise make_exception(self.plan[(track, k)])


def build(n, probe):
    observers = [tk.observer(i, d, probe=probe) for i, d in enumerate(DAYS)]
    models = [
        tk.HookMotion(i, xy=(11.3 + 0.8 * i, 10.6 + 0.45 * i), probe=probe)
        for i in range(n)
    ]
    tracker = tk.Tracker(
        observers, highpass={"size": (3, 3)}, interpolation={"kx": 1, "ky": 1}
    )
    return tracker, models


def run(n, probe, options, factory=tk.PermutedPool, parallel=False, tracker=None):
    fresh, models = build(n, probe)
    tracker = tracker or fresh
    with tk.scripted_random(tk.Draws()), tk.backend(factory):
        return tracker.track(
            models, tile_size=(5, 5), parallel=parallel, **OPTIONS[options]
        )


@functools.lru_cache(maxsize=None)
def baseline(n, options):
    faults = Faults()
    return tk.tracks_arrays(run(n, faults, options)), faults.log


def verify(n, options, tracks, plan, where):
    base, log = baseline(n, options)
    got = tk.tracks_arrays(tracks)
    failed = {t: log[t][k][0] for t, k, _ in plan}
    expected = [i not in failed for i in range(n)]
    require(
        list(got["success"]) == expected, lambda: f"{where}: success {got['success']}"
    )
    for i in range(n):
        error = tracks.errors[i]
        if i in failed:
            require(isinstance(error, Exception), f"{where}: no error for track {i}")
            kind = [e for t, _, e in plan if t == i][0]
            if kind not in ("memory", "notimplemented", "fromstr"):
                require(MARK in str(error), f"{where}: error of track {i} lost: {error!r}")
        else:
            require(error is None, f"{where}: track {i} has error {error!r}")
    for name in ("means", "sigmas", "covariances", "particles", "weights"):
        a, b = base[name], got[name]
        require((a is None) == (b is None), f"{where}: {name} presence")
        if a is None:
            continue
        require(a.shape == b.shape, f"{where}: shape of {name}")
        for i in range(n):
            if i not in failed:
                require(
                    tk.same(a[i], b[i]), f"{where}: {name} of track {i} was disturbed"
                )
                continue
            step = failed[i]
            require(
                tk.same(a[i][:step], b[i][:step]),
                f"{where}: {name} of failed track {i} changed before the failure",
            )
            require(
                np.isnan(b[i][step:]).all(),
                f"{where}: {name} of failed track {i} not missing from the failure on",
            )


def fault(n, options, plan, pool):
    """Raise the planned faults, compare, then reuse the tracker without faults."""
    plan = [tuple(p) for p in plan]
    faults = Faults(plan)
    factory, parallel = {
        "serial": (tk.PermutedPool, False),
        "fork": (tk.PermutedPool, n),
        "process": (sharedmem.MapReduce, 2),
    }[pool]
    tracks = run(n, faults, options, factory, parallel)
    verify(n, options, tracks, plan, pool)
    if pool == "serial":
        require(len(faults.raised) == len(plan), "the fault was not reached")
        again = run(n, Faults(), options, tracker=tracks.tracker)
        bad = tk.differing(baseline(n, options)[0], tk.tracks_arrays(again))
        require(not bad, f"{bad} differ when the tracker is used again")
    return stats(
        [(n, options, tuple(plan))], n, tuple(sorted(faults.raised.items()))
    )


def reduced(n, plan, pool):
    """What is left of a failed track is reduced like that of any other."""
    plan = [tuple(p) for p in plan]
    factory, parallel = {"serial": (tk.PermutedPool, False), "fork": (tk.PermutedPool, n)}[pool]
    options = {**OPTIONS["full"], "reduce_particles": lambda p, w: (p.copy(), w.copy())}
    tracker, models = build(n, Faults(plan))
    with tk.scripted_random(tk.Draws()), tk.backend(factory):
        tracks = tracker.track(models, tile_size=(5, 5), parallel=parallel, **options)
    base, log = baseline(n, "full")
    failed = {t: log[t][k][0] for t, k, _ in plan}
    require(tracks.particles is None and tracks.weights is None, f"{plan}: particles are kept")
    require(list(tracks.success) == [i not in failed for i in range(n)], f"{plan}: {tracks.success}")
    require(len(tracks.reduced) == n, f"{plan}: {len(tracks.reduced)} reductions")
    for i, result in enumerate(tracks.reduced):
        step = failed.get(i, len(base["means"][i]))
        for name, got in zip(("particles", "weights"), result):
            want = np.array(base[name][i])
            want[step:] = np.nan
            require(tk.same(got, want), f"{plan} {pool}: reduced {name} of track {i}")
    return stats([str(plan)], n, str((plan, pool)), bool(plan))


class TwoWarning(UserWarning):
    def __init__(self, code, text):
        super().__init__(f"{code}: {text}")


class Warnings(Faults):
    """Warns at the planned calls (and raises at the others)."""

    def __call__(self, actor, call, **info):
        track = tk.CURRENT.track
        k = self.counts.get(track, 0)
        plan, e = self.plan, self.plan.get((track, k))
        if e and e.startswith("warn"):
            self.plan = {}
            super().__call__(actor, call, **info)
            self.plan = plan
            text = f"{MARK} {track} {k}"
            if e == "warn":
                warnings.warn(text, RuntimeWarning)
            else:
                warnings.warn(TwoWarning(k, text))
        else:
            super().__call__(actor, call, **info)


def warned(n, plan, pool):
    """Warnings are recorded for the track which caused them, and change nothing."""
    plan = [tuple(p) for p in plan]
    factory, parallel = {
        "serial": (tk.PermutedPool, False),
        "fork": (tk.PermutedPool, n),
        "process": (sharedmem.MapReduce, 2),
    }[pool]
    with warnings.catch_warnings(record=True) as outside:
        warnings.simplefilter("always")
        tracks = run(n, Warnings(plan), "full", factory, parallel)
    outside = [w for w in outside if MARK in str(w.message)]
    require(not outside, f"{plan} {pool}: {len(outside)} warnings reached the caller")
    failures = [p for p in plan if not p[2].startswith("warn")]
    verify(n, "full", tracks, failures, f"{plan} {pool}")
    for i in range(n):
        end = min([k for t, k, e in failures if t == i] + [10 ** 6])
        want = [
            f"{MARK} {i} {k}"
            for t, k, e in sorted(plan)
            if t == i and e.startswith("warn") and k < end
        ]
        got = tracks.warnings[i] if tracks.warnings is not None else None
        got = [str(w.message) for w in got] if got is not None else []
        got = [MARK + w.split(MARK)[1] if MARK in w else w for w in got]
        require(
            [w for w in got if MARK in w] == want or failures,
            f"{plan} {pool}: warnings of track {i} are {got}, not {want}",
        )
        require(
            all(w in want for w in got if MARK in w),
            f"{plan} {pool}: warnings of track {i} are {got}, not {want}",
        )
    return stats([str((plan, pool))], n, str((plan, pool)), bool(plan))


def single(options, k, kind, pool="serial"):
    """With one motion model the exception reaches the caller unchanged."""
    faults = Faults([(0, k, kind)])
    expected = type(make_exception(kind)).__name__
    factory, parallel = {
        "serial": (tk.PermutedPool, False),
        "fork": (tk.PermutedPool, 1),
        "process": (sharedmem.MapReduce, 2),
    }[pool]
    try:
        run(1, faults, options, factory, parallel)
    except Exception as e:
        # Another process may report it by other means
        require(
            type(e).__name__ == expected
            or pool != "serial"
            or (kind == "stop" and isinstance(e, RuntimeError)),
            f"raised {e!r} instead of {expected}",
        )
    else:
        require(False, "the exception was swallowed")
    return stats([("single", k, kind)], 1, (expected, faults.raised.get(0)))


def explore(ck):
    n = 3
    logs = baseline(n, "plain")[1]
    baseline(n, "full")
    cases = []
    for t in range(n):
        for k in range(len(logs[t])):
            for j, kind in enumerate(EXCEPTIONS):
                full = (t + k + j) % 2 or ck.thorough
                cases.append((n, "full" if full else "plain", [(t, k, kind)], "serial"))
                if ck.thorough or (k % 5 == j % 5):
                    cases.append((n, "plain", [(t, k, kind)], "fork"))
    ck.sweep(fault, cases)
    for kind in EXCEPTIONS:
        ck.run(fault, n, "plain", [(1, 4, kind)], "process", timeout=60)
    singles = [
        ("plain", k, kind)
        for k in range(len(baseline(1, "plain")[1][0]))
        for kind in EXCEPTIONS
    ]
    ck.sweep(single, singles)
    ck.sweep(
        single, [("plain", k, kind, "fork") for k in (0, 4, 9) for kind in EXCEPTIONS]
    )
    for kind in ("value", "two", "memory"):
        ck.run(single, "plain", 4, kind, "process", timeout=60)
    # Warnings: none, one or two of them in one or two tracks, before and after a failure
    places = [(t, k) for t in range(n) for k in range(0, len(logs[t]), 1 if ck.thorough else 3)]
    sets = [[]] + [[a] for a in places]
    sets += [list(c) for c in itertools.combinations(places, 2)]
    plans = [[(t, k, "warn" + "2" * (k % 2)) for t, k in c] for c in sets]
    plans += [[(*a, "warn"), (*b, "value")] for a, b in itertools.permutations(places[::2], 2)]
    ck.sweep(
        warned,
        [
            (n, plan, pool)
            for j, plan in enumerate(plans)
            for pool in ("serial", "fork")
            if pool == "serial" or j % 4 == 0
        ],
    )
    for kind in ("warn", "warn2"):
        plan = [(0, 3, kind), (2, 1, kind), (2, 7, kind)]
        ck.run(warned, n, plan, "process", timeout=60)
    # Two faults in two tracks
    pairs = []
    for t, u in itertools.combinations(range(n), 2):
        for k in range(len(logs[t])):
            for m in range(len(logs[u])):
                if ck.thorough or (k + m) % 7 == 0:
                    pairs.append((n, "plain", [(t, k, "value"), (u, m, "two")], "serial"))
    ck.sweep(fault, pairs)
    # Reductions
    plans = [[(t, k, "value")] for t in range(n) for k in range(0, len(logs[t]), 2)]
    plans += [[], [(0, 3, "two"), (2, 9, "os")], [(0, 0, "key"), (1, 0, "key"), (2, 0, "key")]]
    ck.sweep(reduced, [(n, plan, pool) for plan in plans for pool in ("serial", "fork")])
    # Other numbers of tracks
    for m in (2, 4, 6):
        logs = baseline(m, "plain")[1]
        baseline(m, "full")
        ck.sweep(
            fault,
            [
                (m, ("plain", "full")[(t + k) % 2], [(t, k, EXCEPTIONS[(t + k) % len(EXCEPTIONS)])], pool)
                for t in range(m)
                for k in range(len(logs[t]))
                for pool in (("serial", "fork") if m == 2 or ck.thorough else ("serial",))
                if m == 2 or ck.thorough or k % 4 == t % 4
            ],
        )
    # Every track fails
    ck.sweep(
        fault,
        [
            (n, "full", [(0, a, "value"), (1, b, "os"), (2, c, "unicode")], "serial")
            for a, b, c in itertools.product((0, 3, 9, 20), repeat=3)
        ],
    )
