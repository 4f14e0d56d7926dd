"""Particle resampling is valid and unbiased for every random draw."""
import contextlib
import itertools
from fractions import Fraction

import numpy as np

from mc.core import require, stats
from glimpse import Tracker

LEVEL = "model_checking"
RULE = (
    "A case is one weight vector and one method; the case enumerates every answer of the "
    "random source on a grid which separates all cumulative sums (so that averages over "
    "the grid are exact expectations) plus both ends of the unit interval. Non-trivial "
    "when weights differ."
)
ASSUMPTIONS = [
    "Draws lie in [0, 1); the draw 0 itself is used only when the first weight is positive.",
]

TOP = 1 - 2 ** -53
METHODS = ("systematic", "stratified", "residual", "choice")


class Source:
    """The random source: answers are taken from a list, in order."""

    def __init__(self, answers):
        self.answers = list(answers)
        self.asked = 0
        self.p = None

    def take(self, size):
        n = 1 if size is None else int(np.prod(size))
        out = [
            self.answers[(self.asked + k) % len(self.answers)] for k in range(n)
        ]
        self.asked += n
        return out[0] if size is None else np.array(out, dtype=float).reshape(size)

    def random(self, size=None):
        return self.take(size)

    def rand(self, *shape):
        return self.take(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.take(size)

    def choice(self, a, size=None, replace=True, p=None, **kwargs):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        self.p = None if p is None else np.array(p, dtype=float)
        require(replace is True, "choice without replacement")
        index = self.take(size)
        return a[np.asarray(index).astype(int)]


@contextlib.contextmanager
def patched(source):
    names = ("random", "random_sample", "rand", "uniform", "choice", "default_rng")
    saved = {k: getattr(np.random, k) for k in names}
    np.random.random = np.random.random_sample = source.random
    np.random.rand, np.random.uniform = source.rand, source.uniform
    np.random.choice = source.choice
    np.random.default_rng = lambda *args, **kwargs: source
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)


def resample(weights, method, answers, default=False):
    n = len(weights)
    tracker = Tracker([], resample_method=method if default else "systematic")
    tracker.particles = np.arange(6.0 * n).reshape(n, 6)
    tracker.weights = np.array(weights, dtype=float)
    before = tracker.particles.copy(), tracker.weights.copy()
    source = Source(answers)
    with patched(source), np.errstate(all="ignore"):
        tracker.resample_particles(method=None if default else method)
    require(tracker.particles.shape == (n, 6), "number of particles changed")
    require(tracker.weights.shape == (n,), "number of weights changed")
    index = []
    for row, w in zip(tracker.particles, tracker.weights):
        k = np.flatnonzero((before[0] == row).all(axis=1))
        require(len(k) == 1, "a particle is not a copy of an existing one")
        require(before[1][k[0]] == w, "a particle lost its weight")
        index.append(int(k[0]))
    return index, source


def check_counts(weights, index, method, slack):
    n = len(weights)
    total = sum(Fraction(w) for w in weights)
    for k, w in enumerate(weights):
        count = index.count(k)
        mean = n * Fraction(w) / total
        where = f"{method} {weights}: particle {k} copied {count} times, expected {float(mean)}"
        require(w > 0 or count == 0, where + " (zero weight)")
        if method == "systematic":
            require(abs(count - mean) < 1 + slack, where)
        elif method == "stratified":
            require(abs(count - mean) < 2 + slack, where)
        elif method == "residual":
            near = mean - int(mean)
            floor = int(mean) - (1 if slack and near < Fraction(1, 10 ** 9) else 0)
            require(count >= floor, where)
            extra = n - sum(int(n * Fraction(v) / total) for v in weights)
            require(count <= floor + extra + (1 if slack else 0) * n, where)


def exact(weights, method):
    """Integer weights: full enumeration of draws, exact expectations."""
    n = len(weights)
    total = sum(weights)
    outcomes = set()
    runs = 0

    def grid(m):
        return [(k + 0.5) / m for k in range(m)]

    if method == "systematic":
        vectors = [(u,) for u in grid(total)]
    elif method == "stratified":
        m = total
        if m ** n <= 300:
            vectors = list(itertools.product(grid(m), repeat=n))
        else:
            # Each stratum in turn through the whole grid
            vectors = [
                tuple(grid(m)[(k * (1 + j * s)) % m] for j in range(n))
                for k in range(m)
                for s in (0,)
            ]
    elif method == "residual":
        extra = n - sum(n * w // total for w in weights)
        m = total * max(extra, 1)
        if m ** extra <= 400:
            vectors = list(itertools.product(grid(m), repeat=extra)) or [(0.5,)]
        else:
            vectors = [(u,) * extra for u in grid(m)]
    else:
        positive = [k for k in range(n) if weights[k]]
        vectors = list(itertools.product(positive, repeat=n))
    sums = [0] * n
    for answers in vectors:
        for default in (False, True):
            index, source = resample(weights, method, answers, default)
            if method == "choice":
                require(index == list(answers), "drawn particles are not the chosen ones")
                require(source.p is not None, "choice ignores the weights")
                require(
                    np.allclose(source.p, np.array(weights) / total, atol=1e-12),
                    f"choice with probabilities {source.p} for weights {weights}",
                )
        check_counts(weights, index, method, 0)
        outcomes.add(tuple(sorted(index)))
        for k in index:
            sums[k] += 1
        runs += 1
    if method != "choice":
        for k, w in enumerate(weights):
            mean = Fraction(sums[k], runs)
            want = Fraction(n * w, total)
            require(
                mean == want,
                f"{method} {weights}: particle {k} copied {float(mean)} times on "
                f"average, expected {float(want)}",
            )
    # Both ends of the unit interval
    if method != "choice":
        ends = [TOP, 1 - 1e-9] + ([0.0] if weights[0] else [])
        for answers in itertools.product(ends, repeat=min(n, 3)):
            index, _ = resample(weights, method, answers)
            check_counts(weights, index, method, Fraction(1, 10 ** 6))
            runs += 1
    return stats(
        [(method, o) for o in outcomes],
        runs,
        sorted(outcomes),
        len(set(weights)) > 1,
        runs,
    )


def rounding(weights, method):
    """Weights whose normalised cumulative sums do not end at exactly one."""
    n = len(weights)
    runs, outcomes = 0, set()
    ends = [TOP, 1 - 1e-12, 0.999, 0.5, 1e-9]
    vectors = [(u,) for u in ends] + [
        tuple(v) for v in itertools.product(ends, repeat=2)
    ]
    for answers in vectors:
        index, _ = resample(weights, method, answers)
        check_counts(weights, index, method, Fraction(1, 10 ** 6))
        outcomes.add(tuple(index))
        runs += 1
    return stats([(method, o) for o in outcomes], runs, sorted(outcomes), True, runs)


def explore(ck):
    alphabet = (0, 1, 2, 5)
    top = 5 if ck.thorough else 4
    vectors = [
        w
        for n in range(1, top + 1)
        for w in itertools.product(alphabet, repeat=n)
        if sum(w)
    ]
    ck.sweep(exact, [(w, m) for w in vectors for m in METHODS])
    values = (0.1, 0.3, 1 / 3, 0.7, 1e-300, 1e-17, 0.0, 1e300 ** 0.5)
    base = [
        w
        for n in (2, 3, 4)
        for w in itertools.product(values, repeat=n)
        if sum(w) > 0
    ]
    base += [(v,) * n for v in (0.1, 0.3, 1 / 3, 0.7, 1e-300) for n in range(1, 40)]
    base += [(v,) * n + (0.0,) for v in (0.1, 0.3, 1 / 3, 0.7) for n in range(1, 40)]
    if not ck.thorough:
        base = [w for k, w in enumerate(base) if k % 3 == 0 or len(w) != 4]
    ck.sweep(
        rounding, [(w, m) for w in base for m in ("systematic", "stratified", "residual")]
    )
