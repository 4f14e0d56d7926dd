"""Histogram matching preserves order and reproduces the template."""
import itertools
import math
import statistics
import warnings
from fractions import Fraction as F

import numpy as np

from mc.core import require, stats
from mc import trackkit as tk
from glimpse import Observer, Raster, Tracker, helpers

LEVEL = "model_checking"
RULE = (
    "A case is one array (all arrays of a size over a small alphabet) with every template "
    "of a size, or one tile of an observer's image prepared with every histogram; compared "
    "with exact rational distributions and a naive median filter. Non-trivial when the "
    "array or the template has two or more values."
)
ASSUMPTIONS = ["Arrays without missing values."]

NUMBERS = {
    "i4": (-3, 0, 4, 7),
    "u1": (0, 7, 200, 255),
    "f8": (-0.3, 1 / 3, 1 / 3 + 1e-12, 10.1),
    "f4": (-1.5, 0.25, 100, 3e4),
}


def cdf(values):
    vals = sorted(set(values))
    n = len(values)
    return vals, [F(sum(v <= x for v in values), n) for x in vals]


def interp(q, qs, vs):
    """Exact piecewise linear interpolation."""
    if q <= qs[0]:
        return F(vs[0])
    for (q0, v0), (q1, v1) in zip(zip(qs, vs), zip(qs[1:], vs[1:])):
        if q <= q1:
            return F(v0) + (F(v1) - F(v0)) * (q - q0) / (q1 - q0)
    return F(vs[-1])


def shapes(n):
    return [(n,), (1, n), (n, 1)] + ([(2, n // 2)] if n % 2 == 0 else [])


def distribution(codes, dtype):
    flat = [NUMBERS[dtype][c] for c in codes]
    for shape in shapes(len(flat)):
        a = np.array(flat, dtype=dtype).reshape(shape)
        vals, qs = cdf(a.ravel().tolist())
        where = f"{a.tolist()} ({dtype})"
        before = a.copy()
        values, quantiles = helpers.compute_cdf(a)
        require(values.tolist() == vals, f"{where}: values {values}")
        require(np.allclose(quantiles, [float(q) for q in qs], atol=1e-12), f"{where}: {quantiles}")
        require(quantiles[-1] == 1 and (np.diff(quantiles) > 0).all(), f"{where}: {quantiles}")
        v, q, inverse = helpers.compute_cdf(a, return_inverse=True)
        require(np.array_equal(v, values) and np.array_equal(q, quantiles), f"{where}: with inverse")
        require(np.array_equal(v[inverse].reshape(shape), a), f"{where}: not reconstructed")
        for own in (a, (values, quantiles), [list(values), list(quantiles)]):
            got = helpers.match_cdf(a, own)
            require(got.shape == shape, f"{where}: shape {got.shape}")
            require(np.array_equal(got, a.astype(float)), f"{where}: own distribution gives {got}")
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            z = helpers.normalize(a)
        require(z.shape == shape and z.dtype.kind == "f", f"{where}: normalized {z.dtype} {z.shape}")
        require(np.isfinite(z).all(), f"{where}: normalized {z.tolist()}")
        tol = 1e-3 if dtype == "f4" else 1e-9
        spread = max(vals) - min(vals)
        if spread:
            exact = [float(x) for x in flat] if dtype != "f4" else a.ravel().astype(float).tolist()
            m, s = statistics.fmean(exact), statistics.pstdev(exact)
            if s > 1e-9:
                want = (np.array(exact).reshape(shape) - m) / s
                require(np.allclose(z, want, atol=tol), f"{where}: normalized {z.tolist()}")
                require(abs(z.mean()) < tol and abs(z.std() - 1) < tol, f"{where}: normalized {z.tolist()}")
        else:
            require((z == z.flat[0]).all(), f"{where}: normalized {z.tolist()}")
        require(np.array_equal(a, before), f"{where}: the array was changed")
    return stats([str(flat)], 1, (vals, qs), len(vals) > 1)


def matching(codes, dtype, m, tdtype):
    """An array against every template of m cells."""
    flat = [NUMBERS[dtype][c] for c in codes]
    a = np.array(flat, dtype=dtype)
    vals, qs = cdf(a.tolist())
    outcomes = []
    for tcodes in itertools.combinations_with_replacement(range(4), m):
        t = np.array([NUMBERS[tdtype][c] for c in tcodes], dtype=tdtype)
        tv, tq = cdf(t.tolist())
        want = {v: interp(q, tq, tv) for v, q in zip(vals, qs)}
        where = f"{flat} ({dtype}) to {t.tolist()} ({tdtype})"
        got = helpers.match_cdf(a, t)
        again = helpers.match_cdf(a, helpers.compute_cdf(t))
        require(np.array_equal(got, again), f"{where}: differs for a computed distribution")
        two = helpers.match_cdf(a.reshape(1, -1), t.reshape(-1, 1))
        require(np.array_equal(two, got[None]), f"{where}: differs for 2-d arrays")
        require(
            all(math.isclose(g, float(want[v]), rel_tol=1e-9, abs_tol=1e-9) for g, v in zip(got, a.tolist())),
            lambda: f"{where}: {got.tolist()}, not {[float(want[v]) for v in a.tolist()]}",
        )
        for (x, gx), (y, gy) in itertools.combinations(zip(a.tolist(), got), 2):
            require(gx == gy if x == y else (gx <= gy) == (x < y) or gx == gy, f"{where}: order")
        require(min(tv) <= got.min() and got.max() <= max(tv), f"{where}: outside the template")
        outcomes.append(got.tobytes())
    return stats([str(flat)], len(outcomes), outcomes, len(vals) > 1)


def large(n, m, period):
    """Sizes and shapes as those of real tiles, with many and few distinct values."""
    a = np.array([(k * 7) % period for k in range(n)], dtype=float).reshape(n // 2, 2)
    t = np.array([(k * 5) % 11 + k / m for k in range(m)]).reshape(2, m // 2)
    vals, qs = cdf(a.ravel().tolist())
    tv, tq = cdf(t.ravel().tolist())
    values, quantiles, inverse = helpers.compute_cdf(a, return_inverse=True)
    where = f"{n} cells in turns of {period} to {m} cells"
    require(values.tolist() == vals, f"{where}: values {values}")
    require(np.allclose(quantiles, [float(q) for q in qs], atol=1e-12), f"{where}: {quantiles}")
    require(np.array_equal(values[inverse].ravel(), a.ravel()), f"{where}: inverse")
    want = {v: float(interp(q, tq, tv)) for v, q in zip(vals, qs)}
    for template in (t, helpers.compute_cdf(t)):
        got = helpers.match_cdf(a, template)
        require(got.shape == a.shape, f"{where}: shape {got.shape}")
        ref = np.array([want[v] for v in a.ravel().tolist()]).reshape(a.shape)
        bad = ~np.isclose(got, ref, rtol=1e-9, atol=1e-9)
        require(not bad.any(), lambda: f"{where}: {a[bad]} becomes {got[bad]}, not {ref[bad]}")
    return stats([(n, m, period)], 2, got.tobytes())


# ---- tiles of a tracker ----


def median(a, size):
    """Naive median filter with reflected edges (upper median never needed: odd size)."""
    def reflect(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i

    ny, nx = a.shape
    out = np.empty_like(a)
    for j, i in itertools.product(range(ny), range(nx)):
        win = [
            a[reflect(j + p, ny), reflect(i + q, nx)]
            for p in range(-(size[0] // 2), size[0] // 2 + 1)
            for q in range(-(size[1] // 2), size[1] // 2 + 1)
        ]
        out[j, i] = sorted(win)[len(win) // 2]
    return out


def tile(box, bands, size, source, dtype):
    """Tiles are gray, normalized, matched to a histogram and high-passed, in this order."""
    images = []
    for k in range(2):
        a = tk.texture((9, 10), seed=3 * k + 1)
        if dtype == "u1":
            a = a.clip(0, 255)
        if k == 0 and source == "flat":
            a = np.full_like(a, 7)
        if bands:
            a = np.dstack([a, a[::-1] / 2, a.T[:1, :].repeat(9, 0)[:, :1].repeat(10, 1)])
        images.append(Raster(a.astype(dtype), datetime=tk.day(k)))
    obs = Observer(images)
    tracker = Tracker([obs], highpass={"size": size})
    x0, y0, x1, y1 = box
    raw = [i.array.copy() for i in images]

    def prepare(k, hist=None):
        a = raw[k][y0:y1, x0:x1].astype(float)
        if a.ndim > 2:
            a = a.mean(axis=2)
        z = (a - a.mean()) / (a.std() or 1)
        if hist is not None:
            vals, qs = cdf(z.ravel().tolist())
            m = {v: np.interp(float(q), hist[1], hist[0]) for v, q in zip(vals, qs)}
            z = np.array([m[v] for v in z.ravel().tolist()]).reshape(z.shape)
        return z

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        template, hist = tracker.extract_tile(obs=0, img=0, box=np.array(box), return_histogram=True)
        plain = tracker.extract_tile(obs=0, img=1, box=np.array(box))
        matched = tracker.extract_tile(obs=0, img=1, box=np.array(box), histogram=hist)
        own = tracker.extract_tile(obs=0, img=0, box=np.array(box), histogram=hist)
        both, after = tracker.extract_tile(
            obs=0, img=1, box=np.array(box), histogram=hist, return_histogram=True
        )
    where = f"tile {box} bands {bands} size {size} {source} {dtype}"
    z = prepare(0)
    vals, qs = cdf([round(v, 9) for v in z.ravel().tolist()])
    require(len(hist[0]) == len(vals), f"{where}: {len(hist[0])} values in histogram, not {len(vals)}")
    require(np.allclose(hist[0], vals, atol=1e-8), f"{where}: histogram values")
    require(np.allclose(hist[1], [float(q) for q in qs], atol=1e-9), f"{where}: histogram")
    require(np.allclose(template, z - median(z, size), atol=1e-8), f"{where}: template")
    z1 = prepare(1)
    require(np.allclose(plain, z1 - median(z1, size), atol=1e-8), f"{where}: tile without histogram")
    z2 = prepare(1, hist)
    require(np.allclose(matched, z2 - median(z2, size), atol=1e-8), f"{where}: matched tile")
    require(np.array_equal(both, matched), f"{where}: matched tile with histogram")
    require(len(after[0]) == len(after[1]), f"{where}: histogram of matched tile")
    levels, shares = after
    require((np.diff(levels) > 0).all() and math.isclose(shares[-1], 1), f"{where}: histogram of matched tile")
    below = [np.mean(z2 <= v + 1e-9) for v in levels]
    require(
        np.allclose(below, shares, atol=1e-9) and np.allclose((levels[0], levels[-1]), (z2.min(), z2.max()), atol=1e-8),
        lambda: f"{where}: histogram of matched tile has {levels} {shares}",
    )
    require(np.allclose(own, template, atol=1e-8), f"{where}: tile matched to its own histogram")
    for image, a in zip(images, raw):
        require(np.array_equal(image.array, a), f"{where}: the image was changed")
    return stats([where], 4, template.round(6).tobytes())


def explore(ck):
    deep = ck.thorough
    n = 6 if deep else 5
    for dtype in NUMBERS:
        ck.sweep(distribution, [(c, dtype) for k in range(1, n + 1) for c in itertools.product(range(4), repeat=k)])
    pairs = [("f8", "f8"), ("i4", "f8"), ("f8", "u1"), ("u1", "i4")]
    ck.sweep(matching, [
        (c, a, m, b)
        for a, b in (pairs if deep else pairs[1:3])
        for k in range(1, n) for c in itertools.product(range(4), repeat=k)
        for m in range(1, n + 1)
    ])
    ck.sweep(large, [
        (n, m, period)
        for n in (6, 30, 128, 226) for m in (4, 30, 100, 258) for period in (1, 2, 9, 1000)
    ])
    boxes = [
        (x, y, x + w, y + h)
        for x in (0, 2, 5) for y in (0, 3) for w in (1, 3, 5) for h in (1, 4, 6)
    ]
    ck.sweep(tile, [
        (b, bands, s, src, dt)
        for b in boxes for bands in (False, True) for s in ((3, 3), (5, 1), (1, 3), (1, 1))
        for src in ("texture", "flat") for dt in ("f8", "u1")
        if deep or s != (5, 1)
    ])
