"""Robust fitting is right for every sequence of random samples."""
import contextlib
import itertools
import math
import random

import numpy as np

from mc.core import Violation, require, stats
from glimpse import Camera, optimize

LEVEL = "model_checking"
RULE = (
    "A case explores the whole tree of random draws of one fit: at every draw, every "
    "possible sample (repeats included, up to a bound) is followed by replaying the real "
    "code, and each path is compared with a reference which sees the same samples. "
    "Non-trivial when some sample reaches the minimum consensus and some does not."
)
ASSUMPTIONS = [
    "Samples are drawn with a generator of numpy or the standard library; order within a "
    "sample does not matter."
]


class Exhausted(Exception):
    """The code asks for one more draw than the script has."""


class Draws:
    """Scripted randomness: each draw brings a chosen subset to the front."""

    def __init__(self, script, n):
        self.script, self.n, self.i = script, n, 0

    def order(self, values):
        if self.i >= len(self.script):
            raise Exhausted
        head = [values[k] for k in self.script[self.i]]
        self.i += 1
        tail = [v for k, v in enumerate(values) if k not in self.script[self.i - 1]]
        return head + tail

    def permutation(self, x):
        values = list(range(x)) if np.ndim(x) == 0 else sorted(np.asarray(x).tolist())
        return np.array(self.order(values))

    def shuffle(self, x, *args, **kwargs):
        # The positions of an array which was shuffled before are those of its values
        x[:] = self.order(sorted(np.asarray(x).tolist()))

    def choice(self, a, size=None, replace=True, p=None, **kwargs):
        require(size == self.n and not replace, "samples are drawn with replacement")
        return self.permutation(a)[:size]

    def sample(self, population, k, **kwargs):
        return self.order(sorted(population))[:k]

    def permuted(self, x, **kwargs):
        return self.permutation(x)


@contextlib.contextmanager
def scripted(draws):
    saved = [(np.random, n, getattr(np.random, n)) for n in ("shuffle", "permutation", "choice", "default_rng")]
    saved += [(random, n, getattr(random, n)) for n in ("shuffle", "sample")]
    try:
        for module, name, _ in saved:
            setattr(module, name, (lambda *a, **k: draws) if name == "default_rng" else getattr(draws, name))
        yield
    finally:
        for module, name, value in saved:
            setattr(module, name, value)


def tree(subsets, repeats, run):
    """Every path through the tree of draws: run(script) -> result or Exhausted."""
    stack = [()]
    while stack:
        script = stack.pop()
        try:
            yield script, run(script)
        except Exhausted:
            for s in reversed(subsets):
                if len(script) + 1 - len(set(script + (s,))) <= repeats:
                    stack.append(script + (s,))


def paths(subsets, limit, repeats):
    """Number of paths that end when `limit` different samples were seen."""
    total = 0
    # Paths end with a new sample; each repeat is placed between
    for r in range(repeats + 1):
        # sequences of length limit + r, r of them repeats of those already seen
        def count(seen, left, rep):
            if left == 0:
                return 1 if rep == 0 else 0
            out = (subsets - seen) * count(seen + 1, left - 1, rep)
            if rep:
                out += seen * count(seen, left, rep - 1)
            return out

        total += count(0, limit, r)
    return total


# ---- Samples ----


class Recorder:
    """Model which fits every sample, without inliers, and keeps the samples."""

    def __init__(self, size):
        self.size, self.samples = size, []

    def fit(self, index, **kwargs):
        self.samples.append([int(i) for i in index])
        return 0

    def errors(self, params, index=None):
        return np.full(self.size if index is None else len(index), 2.0)


def drawn(n, size, iterations):
    """Samples fit by `ransac`, in order."""
    model = Recorder(size)
    try:
        optimize.ransac(model, n=n, max_error=1, min_inliers=0, iterations=iterations)
    except ValueError:
        return model.samples
    raise Violation(f"a sample of {n} out of {size} without inliers was accepted")


def samples(n, size, iterations, repeats):
    subsets = list(itertools.combinations(range(size), n))
    limit = min(iterations, len(subsets))
    leaves = 0
    what = f"samples of {n} out of {size}, {iterations} iterations"

    def run(script):
        draws = Draws(script, n)
        with scripted(draws):
            out = drawn(n, size, iterations)
        require(draws.i == len(script), f"{what}: stopped after {draws.i} of the draws {script}")
        return out

    for script, out in tree(subsets, repeats, run):
        leaves += 1
        require(len(out) == limit, f"{what}: {len(out)} samples, draws {script}")
        keys = [tuple(sorted(s)) for s in out]
        require(all(k in subsets for k in keys), f"{what}: {out}")
        require(len(set(keys)) == len(keys), f"{what}: repeated a sample, {out}")
        seen = list(dict.fromkeys(script))
        require(keys == seen, f"{what}: {keys} for the draws {script}")
    want = paths(len(subsets), limit, repeats)
    require(leaves == want, f"{what}: {leaves} paths instead of {want}")
    return stats([(n, size, iterations)], leaves, leaves, leaves > 1, traces=leaves)


def too_large(n, size):
    require(not drawn(n, size, 3), f"samples of {n} out of {size} were drawn")
    return stats([(n, size)], 1, "refused", True)


def all_samples(n, size):
    """Every sample is drawn once when there are enough iterations."""
    subsets = list(itertools.combinations(range(size), n))
    script = subsets
    draws = Draws(script, n)
    with scripted(draws):
        try:
            out = [tuple(sorted(s)) for s in drawn(n, size, 10 ** 6)]
        except Exhausted:
            raise Violation(f"draws on after all {len(subsets)} samples of {n} out of {size} were seen")
    require(out == subsets, f"{len(out)} samples of {n} out of {size} instead of {len(subsets)}")
    return stats([(n, size)], len(out), len(out), True)


def repeated(n, size, stage, times):
    """Samples which come again, at any stage, do not count."""
    subsets = list(itertools.combinations(range(size), n))
    script = subsets[:stage] + [subsets[k % stage] for k in range(times)] + subsets[stage:]
    for iterations in {stage + 1, len(subsets), 10 ** 6}:
        limit = min(iterations, len(subsets))
        draws = Draws(script, n)
        with scripted(draws):
            try:
                out = [tuple(sorted(s)) for s in drawn(n, size, iterations)]
            except Exhausted:
                raise Violation(f"draws on after all {limit} samples of {n} out of {size} were seen")
        require(
            out == subsets[:limit],
            f"{len(out)} samples of {n} out of {size} instead of {limit}, when {times} were drawn again after {stage}",
        )
        require(draws.i == limit + times, f"{draws.i} draws instead of {limit + times}")
    return stats([(n, size, stage, times)], 3, len(out), True)


# ---- RANSAC on a location model ----


class Location:
    """The mean of numbers; fits can fail and errors can be undefined."""

    def __init__(self, x, fail=(), hole=None, small=None):
        self.x = np.asarray(x, dtype=float)
        self.fail = fail
        self.hole = hole
        self.small = small
        self.fits = []
        self.kwargs = []

    @property
    def size(self):
        return len(self.x)

    def fit(self, index=slice(None), **kwargs):
        full = np.arange(self.size)
        idx = tuple(sorted(full[index].tolist()))
        self.fits.append(idx)
        self.kwargs.append(kwargs)
        if any(set(f) <= set(idx) and len(idx) >= len(f) for f in self.fail):
            return None
        if self.small is not None and len(idx) > self.small:
            return None
        return np.array([self.x[list(idx)].mean()])

    def errors(self, params, index=slice(None)):
        errors = np.abs(self.x[index] - params[0])
        if self.hole is not None:
            errors[np.arange(self.size)[index] == self.hole] = np.nan
        return errors


def reference(make, seen, max_error, min_inliers):
    """All acceptable (params, error, inliers), the best first."""
    model = make()
    found = []
    with np.errstate(invalid="ignore"):
        for s in seen:
            params = model.fit(list(s))
            if params is None:
                continue
            others = [i for i in range(model.size) if i not in s]
            errors = model.errors(params, np.array(others, dtype=int))
            also = [i for i, e in zip(others, errors) if e < max_error]
            if len(also) <= min_inliers:
                continue
            idx = sorted(list(s) + also)
            params = model.fit(idx)
            if params is None:
                continue
            error = float(np.mean(model.errors(params, np.array(idx, dtype=int))))
            if not np.isnan(error):
                found.append((error, params))
    return found


def judge(what, make, seen, result, max_error, min_inliers):
    found = reference(make, seen, max_error, min_inliers)
    if not found:
        require(result is None, f"{what}: {result} though no sample exceeds the minimum")
        return False
    require(result is not None, f"{what}: no result though {len(found)} samples meet the minimum")
    params, inliers = result
    best = min(e for e, _ in found)
    good = [p for e, p in found if e <= best + 1e-9]
    require(
        any(np.allclose(params, p, rtol=0, atol=1e-9) for p in good),
        lambda: f"{what}: returned {np.ravel(params).tolist()} instead of {[p.tolist() for p in good]}",
    )
    model = make()
    with np.errstate(invalid="ignore"):
        errors = model.errors(params)
        want = [i for i in range(model.size) if errors[i] < max_error - 1e-9]
        most = [i for i in range(model.size) if errors[i] < max_error - (0 if errors[i] == max_error else -1e-9)]
    got = [int(i) for i in inliers]
    require(len(set(got)) == len(got), f"{what}: repeated inliers {got}")
    require(
        set(want) <= set(got) <= set(most),
        f"{what}: inliers {got} of parameters {np.ravel(params).tolist()} instead of {want}",
    )
    return True


def consensus(x, n, max_error, min_inliers, iterations, repeats, fail=(), hole=None, small=None):
    fail = [tuple(f) for f in fail]
    make = lambda: Location(x, fail=fail, hole=hole, small=small)
    subsets = list(itertools.combinations(range(len(x)), n))
    what0 = f"{x}, samples of {n}, error below {max_error}, more than {min_inliers} others, {iterations} iterations"
    outcomes, leaves, steps = set(), 0, 0

    def run(script):
        draws = Draws(script, n)
        model = make()
        with scripted(draws), np.errstate(invalid="ignore"):
            try:
                result = optimize.ransac(
                    model, n=n, max_error=max_error, min_inliers=min_inliers, iterations=iterations, key="value"
                )
            except ValueError as e:
                require("criteria" in str(e), f"{what0}: {e}")
                result = None
        require(draws.i == len(script), f"{what0}: stopped after {draws.i} of the draws {script}")
        require(all(k == {"key": "value"} for k in model.kwargs), f"{what0}: fit arguments {model.kwargs}")
        return result, model

    for script, (result, model) in tree(subsets, repeats, run):
        leaves += 1
        seen = list(dict.fromkeys(script))
        require(len(seen) == min(iterations, len(subsets)), f"{what0}: {len(seen)} samples, draws {script}")
        require(
            [f for f in model.fits if len(f) == n] or not seen, f"{what0}: no sample was fitted"
        )
        for s in seen:
            require(s in model.fits, f"{what0}: sample {s} was not fitted")
        ok = judge(f"{what0}, draws {script}", make, seen, result, max_error, min_inliers)
        steps += len(seen)
        outcomes.add((ok, None if result is None else round(float(result[0][0]), 9)))
    return stats(
        [(tuple(x), n, max_error, min_inliers, s) for s in outcomes],
        steps,
        sorted(outcomes, key=str),
        len({o for o, _ in outcomes}) > 1 or len(outcomes) > 1,
        traces=leaves,
    )


# ---- RANSAC on the models of the package ----


def line(size, outliers, slope, intercept, deg):
    """A polynomial with outliers at any positions is recovered, whatever is drawn."""
    x = np.arange(size, dtype=float)
    y = slope * x + intercept if deg == 1 else slope * x ** 2 + intercept
    for k, i in enumerate(outliers):
        y[i] += 5 + 3 * k if k % 2 == 0 else -7 - k
    n = deg + 1
    xy = np.column_stack((x, y))
    good = [i for i in range(size) if i not in outliers]
    what = f"polynomial through {xy.tolist()}"
    subsets = list(itertools.combinations(range(size), n))
    truth = [slope, intercept] if deg == 1 else [slope, 0, intercept]
    # Every sample first, every sample last, and both directions
    orders = [subsets, subsets[::-1]] + [subsets[i:] + subsets[:i] for i in range(1, len(subsets))]
    for order in orders:
        with scripted(Draws(order, n)):
            params, inliers = optimize.ransac(
                optimize.Polynomial(xy, deg=deg), n=n, max_error=0.5, min_inliers=len(good) - n - 1, iterations=len(subsets)
            )
        require(np.allclose(params, truth, atol=1e-6), f"{what}: {params.tolist()}")
        require(list(inliers) == good, f"{what}: inliers {inliers}")
    # One sample at a time: success if and only if it is free of outliers
    for s in subsets:
        try:
            with scripted(Draws([s], n)):
                params, inliers = optimize.ransac(
                    optimize.Polynomial(xy, deg=deg), n=n, max_error=0.5, min_inliers=len(good) - n - 1, iterations=1
                )
        except ValueError:
            require(set(s) & set(outliers), f"{what}: sample {s} refused")
            continue
        if set(s) & set(outliers):
            # Some other points may agree by chance with a sample that has outliers
            fit = np.polyfit(x[list(s)], y[list(s)], deg)
            others = np.delete(np.abs(np.polyval(fit, x) - y), s)
            require(
                np.sum(others < 0.5 + 1e-6) >= max(len(good) - n - 1, 1),
                f"{what}: sample {s} accepted as {params}",
            )
            continue
        require(np.allclose(params, truth, atol=1e-6), f"{what}: {params.tolist()} from {s}")
        require(list(inliers) == good, f"{what}: inliers {inliers} from {s}")
    return stats([(size, tuple(outliers), deg)], len(orders) + len(subsets), len(good), bool(outliers), traces=len(orders) + len(subsets))


def polynomial(values, deg, index):
    """Predictions, errors and fits of polynomials, for all or some points."""
    xy = np.column_stack((np.arange(len(values)), values)).astype(float)
    model = optimize.Polynomial([tuple(row) for row in xy.tolist()], deg=deg)
    require(model.size == len(values), "size")
    idx = slice(None) if index is None else list(index)
    chosen = list(range(len(values))) if index is None else list(index)
    what = f"polynomial of degree {deg} on {values} at {index}"
    params = model.fit(idx)
    A = np.vander(xy[chosen, 0], deg + 1)
    want = np.linalg.lstsq(A, xy[chosen, 1], rcond=None)[0]
    require(np.allclose(params, want, atol=1e-8), f"{what}: {params} instead of {want}")
    trial = np.arange(1, deg + 2, dtype=float)
    predicted = [sum(trial[j] * xy[i, 0] ** (deg - j) for j in range(deg + 1)) for i in chosen]
    require(np.allclose(model.predict(trial, idx), predicted), f"{what}: predictions")
    require(
        np.allclose(model.errors(trial, idx), [abs(p - xy[i, 1]) for p, i in zip(predicted, chosen)]), f"{what}: errors"
    )
    return stats([(tuple(values), deg, str(index))], 3, deg, True)


def polynomial_plot(index, given, flags):
    """Selected and other points, and the fit to the selected ones, are plotted."""
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    xy = np.array([(0, 1.0), (1, 1.5), (2, 4.0), (3, 3.0)])
    model = optimize.Polynomial(xy, deg=1)
    chosen = [k for k, bit in enumerate(index) if bit]
    choices = ({"selected": None, "unselected": None, "predicted": None}, {}, {"selected": {"c": "blue", "s": 3}, "predicted": {"color": "k"}})
    kwargs = {k: choices[f].get(k, "green") for k, f in zip(("selected", "unselected", "predicted"), flags)}
    params = np.array([2.0, -1.0]) if given else None
    what = f"polynomial plot, index {chosen}, params {params}, {kwargs}"
    whole = len(chosen) == 4
    result = model.plot(params=params, **({} if whole else {"index": np.array(chosen, dtype=int)}), **kwargs)
    require(set(result) == {"selected", "unselected", "predicted"}, f"{what}: {result}")
    for label, rows in (("selected", chosen), ("unselected", [k for k in range(4) if k not in chosen])):
        if not rows or kwargs[label] is None:
            require(result[label] is None, f"{what}: {label} was plotted")
        else:
            require(np.array_equal(result[label].get_offsets(), xy[rows]), f"{what}: {label} {result[label].get_offsets()}")
    if kwargs["predicted"] is None:
        require(result["predicted"] is None, f"{what}: the fit was plotted")
    else:
        fit = np.linalg.lstsq(np.vander(xy[chosen, 0], 2), xy[chosen, 1], rcond=None)[0] if params is None else params
        (drawn,) = result["predicted"]
        require(np.allclose(drawn.get_xydata()[:, 1], drawn.get_xydata()[:, 0] * fit[0] + fit[1]), f"{what}: fit")
        require(set(drawn.get_xydata()[:, 0]) == set(xy[:, 0]), f"{what}: extent of the fit")
    plt.close("all")
    return stats([what], 1, (len(chosen), given, tuple(flags)), bool(chosen))


def cameras(outliers, first):
    """A rotated camera is recovered from points with outliers."""
    true = Camera(imgsz=(100, 80), f=90, viewdir=(3, -2, 0))
    xyz = np.array([(x, 10.0, z) for x in (-3.5, 0.5, 3.0) for z in (-2.5, 2.0)])
    uv = true.xyz_to_uv(xyz)
    for k, i in enumerate(outliers):
        uv[i] += (25, -15) if k % 2 == 0 else (-10, 30)
    n = 2
    subsets = list(itertools.combinations(range(len(uv)), n))
    order = [subsets[first]] + [s for i, s in enumerate(subsets) if i != first]
    cam = Camera(imgsz=(100, 80), f=90, viewdir=(0, 0, 0))
    before = cam.to_array()
    model = optimize.Cameras(
        [cam], [optimize.Points(cam, uv=uv, xyz=xyz)], cam_params=[{"viewdir": [0, 1]}], sparsity=True
    )
    good = [i for i in range(len(uv)) if i not in outliers]
    import io

    with scripted(Draws(order, n)), contextlib.redirect_stdout(io.StringIO()):
        params, inliers = optimize.ransac(model, n=n, max_error=1, min_inliers=len(good) - n - 1, iterations=len(subsets))
    require(np.allclose(params, (3, -2), atol=1e-3), f"outliers {outliers}, first sample {order[0]}: {params}")
    require(list(inliers) == good, f"outliers {outliers}: inliers {inliers}")
    require(np.array_equal(cam.to_array(), before), f"fitting moved the camera to {cam.to_array()}")
    return stats([(tuple(outliers), first)], 1, len(good), bool(outliers))


def explore(ck):
    cases = []
    for size in range(2, 6):
        for n in range(1, size):
            subsets = math.comb(size, n)
            for iterations in (0, 1, 2, 3, 5, 100):
                for repeats in (0, 1, 2):
                    limit = min(iterations, subsets)
                    if limit and paths(subsets, limit, repeats) > (60000 if ck.thorough else 6000):
                        continue
                    cases.append((n, size, iterations, repeats))
    ck.sweep(samples, cases, chunk=2)
    ck.sweep(
        repeated,
        [
            (n, size, stage, times)
            for size in range(3, 8 if ck.thorough else 7)
            for n in range(1, size)
            for stage in range(1, math.comb(size, n))
            for times in (1, 2, 7)
        ],
        chunk=16,
    )
    ck.sweep(too_large, [(n, size) for size in range(0, 4) for n in range(size, size + 3) if n])
    ck.sweep(all_samples, [(n, size) for size in range(2, 13) for n in range(1, size) if math.comb(size, n) <= 1000])
    cases = []
    values = (0, 1, 2, 4)
    sizes = (3, 4, 5) if ck.thorough else (3, 4)
    for size in sizes:
        for x in itertools.combinations_with_replacement(values, size):
            if size == 5 and len(set(x)) < 3:
                continue
            for n in (1, 2, 3):
                if n >= size:
                    continue
                subsets = math.comb(size, n)
                for max_error in (1, 1.5, 2):
                    for min_inliers in range(0, size - n + 2):
                        for iterations, repeats in ((1, 0), (2, 1), (3, 0), (100, 0)):
                            limit = min(iterations, subsets)
                            if paths(subsets, limit, repeats) > (3000 if ck.thorough else 150):
                                continue
                            cases.append((x, n, max_error, min_inliers, iterations, repeats))
    ck.sweep(consensus, cases, chunk=32)
    # Fits that fail, for samples and for consensus sets, and undefined errors
    cases = []
    for x in ((0, 1, 2, 4), (0, 0, 1, 4), (0, 4, 1, 1), (2, 1, 0, 1)):
        for n in (1, 2):
            for min_inliers in (0, 1, 2):
                for iterations in (2, 3):
                    for fail in [[]] + [[c] for r in (1, 2, 3) for c in itertools.combinations(range(4), r)]:
                        cases.append((x, n, 1.5, min_inliers, iterations, 0, fail))
                    for hole in range(4):
                        cases.append((x, n, 1.5, min_inliers, iterations, 0, [], hole))
                    for small in (1, 2, 3):
                        cases.append((x, n, 1.5, min_inliers, iterations, 0, [], None, small))
    ck.sweep(consensus, cases, chunk=32)
    cases = []
    for size in (5, 6) + ((7,) if ck.thorough else ()):
        for r in (0, 1, 2):
            for outliers in itertools.combinations(range(size), r):
                if size - r >= 4:
                    cases.append((size, outliers, 1.5, -2.0, 1))
                if size - r >= 5:
                    cases.append((size, outliers, 0.5, 1.0, 2))
    ck.sweep(line, cases, chunk=4)
    cases = []
    for values in itertools.product((0, 1, 3), repeat=4):
        for deg in (0, 1, 2):
            for index in [None] + [c for r in (3, 4) for c in itertools.permutations(range(4), r) if r == 3 or ck.thorough]:
                cases.append((values, deg, index))
    ck.sweep(polynomial, cases, chunk=64)
    cases = [
        (index, given, flags)
        for index in itertools.product((0, 1), repeat=4)
        for given in (False, True)
        for flags in itertools.product((0, 1, 2), repeat=3)
        if given or sum(index) > 1
    ]
    ck.sweep(polynomial_plot, cases, chunk=32)
    cases = [(o, f) for r in (0, 1) for o in itertools.combinations(range(6), r) for f in range(15)]
    if ck.thorough:
        cases += [(o, f) for o in itertools.combinations(range(6), 2) for f in range(15)]
    ck.sweep(cameras, cases, chunk=4)
