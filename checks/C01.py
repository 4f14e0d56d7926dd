"""Parallel tracking gives exactly the serial result."""
import functools
import itertools

import numpy as np
import sharedmem

from mc.core import REPO, require, stats
from mc import trackkit as tk

LEVEL = "model_checking"
RULE = (
    "A case is one schedule of one scenario (tracks, observers, masks, failing track): "
    "a completion order of forked workers, an interleaving of tracking threads with a "
    "bounded number of preemptions, or one run of the library's own pools; non-trivial "
    "when two or more workers run. Compared bit for bit with the serial result."
)
ASSUMPTIONS = [
    "Preemptions at calls into observers, motion models and the random source (2 per "
    "execution; thorough: 3 for two tracks), and before every source line of the "
    "tracking package (1 per execution; thorough: 2 for the smallest scenario).",
    "Random draws are the same constant in every schedule.",
]

SCENARIOS = {
    # name: (observer days, tracks, masks, options, failing track)
    "two": (((0, 1, 2), (1, 2)), 2, None, {}, None),
    "three": (((0, 1, 2), (1, 2)), 3, None, {"return_particles": True}, None),
    "masked": (
        ((0, 1, 2), (1, 2)),
        2,
        ((True, False), (False, True)),
        {"return_particles": True},
        None,
    ),
    "failing": (((0, 1, 2), (0, 2)), 3, None, {"return_covariances": True}, 1),
    "small": (((0, 1),), 2, None, {"return_particles": True}, None),
    "four": (((0, 1, 2),), 4, None, {}, None),
    "uncached": (((0, 1, 2), (1, 2)), 2, None, {"cache": False}, None),
    # Tracks in the same template box (at different positions in it)
    "near": (((0, 1, 2), (1, 2)), 3, None, {"step": (0.21, 0.13)}, None),
    "same": (((0, 1, 2),), 2, None, {"step": (0.0, 0.0)}, None),
}


class Failing(tk.HookMotion):
    def evolve_particles(self, particles, dt):
        super().evolve_particles(particles, dt)
        raise ValueError("planned failure")


def run(scenario, parallel, factory, point=None, only=None):
    days, n, mask, options, failing = SCENARIOS[scenario]
    options = dict(options)
    cache = options.pop("cache", True)
    step = options.pop("step", (0.8, 0.45))
    only = range(n) if only is None else [only]
    probe = tk.Probe() if point is None else (lambda *a, **k: point())
    observers = [
        tk.observer(i, d, probe=probe, cache=cache) for i, d in enumerate(days)
    ]
    models = [
        (Failing if i == failing else tk.HookMotion)(
            i, xy=(11.3 + step[0] * i, 10.6 + step[1] * i), probe=probe
        )
        for i in only
    ]
    tracker = tk.Tracker(
        observers,
        highpass={"size": (3, 3)},
        interpolation={"kx": 1, "ky": 1},
    )
    hook = None if point is None else (lambda *a: point())
    with tk.scripted_random(tk.Draws(0.37, hook=hook)), tk.backend(factory):
        tracks = tracker.track(
            models,
            tile_size=(5, 5),
            observer_mask=None if mask is None else np.array(mask)[list(only)],
            parallel=parallel,
            **options,
        )
    return tk.tracks_arrays(tracks)


@functools.lru_cache(maxsize=None)
def baseline(scenario):
    return run(scenario, False, tk.PermutedPool)


def compare(scenario, result, what):
    bad = tk.differing(baseline(scenario), result)
    require(not bad, lambda: f"{what}: {bad} differ from the serial result")


def digest(result):
    return tuple(None if v is None else v.tobytes() for v in result.values())


def sane(scenario):
    """The serial scenario tracks something: every track moves, failures as planned."""
    base = baseline(scenario)
    failing = SCENARIOS[scenario][4]
    expected = [i != failing for i in range(SCENARIOS[scenario][1])]
    require(list(base["success"]) == expected, f"serial success {base['success']}")
    rows = [m.tobytes() for m in base["means"]]
    require(len(set(rows)) == len(rows), "tracks are not distinct")
    return stats([scenario], 1, digest(base))


def alone(scenario, i):
    """Each track equals the same track tracked on its own."""
    if i == SCENARIOS[scenario][4]:
        try:
            run(scenario, False, tk.PermutedPool, only=i)
        except ValueError as e:
            require(str(e) == "planned failure", f"raised {e}")
            return stats([(scenario, i)], 1, "failure")
        require(False, "the failure of a single track was not raised")
    result = run(scenario, False, tk.PermutedPool, only=i)
    base = {k: None if v is None else v[i : i + 1] for k, v in baseline(scenario).items()}
    bad = tk.differing(base, result)
    require(not bad, lambda: f"{bad} of track {i} depend on the other tracks")
    return stats([(scenario, i)], 1, digest(result))


def permuted(scenario, assignment, order):
    pool = functools.partial(tk.PermutedPool, assignment=assignment, order=order)
    result = run(scenario, max(assignment) + 1, pool)
    compare(scenario, result, f"workers {assignment}, completion {order}")
    return stats(
        [(scenario, tuple(order[:k]), tuple(assignment)) for k in range(len(order))],
        len(order),
        digest(result),
    )


def library(scenario, kind, parallel):
    """The library's own pools, one (operating-system) schedule each."""
    factory = {
        "process": sharedmem.MapReduce,
        "thread": sharedmem.MapReduceByThread,
    }[kind]
    result = run(scenario, parallel, factory)
    compare(scenario, result, f"{kind} pool, parallel={parallel}")
    return stats([(scenario, kind, parallel)], 1, digest(result))


def threaded(scenario, workers, schedule, lines):
    """One interleaving; returns the scheduler."""
    sched = tk.Scheduler(schedule)
    trace = None
    if lines:
        trace = tk.line_tracer(sched, f"{REPO}/src/glimpse/track/")
    pool = functools.partial(tk.ThreadPool, scheduler=sched, trace=trace)
    result = run(scenario, workers, pool, point=sched.point)
    compare(scenario, result, f"threads, schedule {schedule}")
    require(sched.used == set(sched.schedule), "schedule was not followed")
    return sched, digest(result)


def interleave(scenario, workers, schedule, lines, more):
    """All interleavings that extend a schedule by up to ``more`` preemptions."""
    states, transitions, traces, outcomes = set(), 0, 0, set()

    def go(schedule, budget):
        nonlocal transitions, traces
        sched, result = threaded(scenario, workers, schedule, lines)
        transitions += len(sched.points)
        traces += 1
        outcomes.add(result)
        states.add((scenario, tuple(sorted(schedule.items()))))
        if not budget:
            return
        start = max(schedule, default=-1) + 1
        for k in range(start, len(sched.points)):
            running, enabled = sched.points[k]
            for tid in enabled:
                default = running if running is not None else enabled[0]
                if tid != default:
                    go({**schedule, k: tid}, budget - 1)

    go({int(k): v for k, v in schedule.items()}, more)
    return stats(states, transitions, sorted(outcomes), True, traces)


def first_deviations(scenario, workers, lines, keep):
    """Every one-deviation schedule (from a recorded default run)."""
    sched, _ = threaded(scenario, workers, {}, lines)
    again, _ = threaded(scenario, workers, {}, lines)
    require(sched.points == again.points, "the same schedule ran differently twice")
    cases = []
    for k, (running, enabled) in enumerate(sched.points):
        default = running if running is not None else enabled[0]
        cases += [(k, t) for t in enabled if t != default]
    keep.extend(cases)
    return stats([scenario], len(sched.points), (scenario, lines))


def explore(ck):
    for name in SCENARIOS:
        ck.run(sane, name)
    for name, sc in SCENARIOS.items():
        n = sc[1]
        for i in range(n):
            ck.run(alone, name, i)
        cases = [
            (name, a, o)
            for w in range(1, n + 1)
            for a in tk.assignments(n, w)
            if max(a) + 1 == w
            for o in tk.completion_orders(a)
        ]
        ck.sweep(permuted, cases)
    for name in ("two", "three", "failing", "masked"):
        for kind in ("process", "thread"):
            for parallel in (1, 2, 5, True):
                ck.run(library, name, kind, parallel, timeout=120)
    plans = [
        # scenario, workers, line level, preemptions beyond the first
        ("two", 2, False, 1 if not ck.thorough else 2),
        ("masked", 2, False, 1 if not ck.thorough else 2),
        ("failing", 3, False, 0 if not ck.thorough else 1),
        ("three", 2, False, 0 if not ck.thorough else 1),
        ("uncached", 2, False, 0 if not ck.thorough else 1),
        ("small", 2, True, 0 if not ck.thorough else 1),
    ]
    if ck.thorough:
        plans += [("two", 2, True, 0), ("three", 3, True, 0), ("four", 4, False, 1)]
    for scenario, workers, lines, more in plans:
        first = []
        ck.run(first_deviations, scenario, workers, lines, first, timeout=300)
        cases = [(scenario, workers, {k: t}, lines, more) for k, t in first]
        ck.sweep(interleave, cases, chunk=4, timeout=3000)
