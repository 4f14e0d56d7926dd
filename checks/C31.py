"""Painted shapes and derived surfaces follow map coordinates, not array order."""
import itertools
import math
import warnings
from fractions import Fraction as F

import numpy as np

from checks.C19 import winding
from mc.core import require, stats
from mc import rasterkit as rk
from glimpse import Raster, helpers

LEVEL = "model_checking"
RULE = (
    "A case paints one set of points, polygons or one circle into (or derives a surface "
    "from) a small raster, for every axis direction, and compares cell by cell with exact "
    "geometry or a naive reference. Non-trivial when some cells change."
)
ASSUMPTIONS = [
    "Circles are required to fill all cells nearer than the radius less one cell and none "
    "farther than the radius plus one cell, on square cells.",
    "Cells whose centre is exactly on a polygon edge are not judged.",
]


def cell_centers(r):
    X, Y = np.meshgrid(r.x, r.y)
    return X, Y


def make(a, d, origin, dirs, **kw):
    """A raster of given map content a[y ascending][x ascending] stored in any direction."""
    a = np.asarray(a)
    ny, nx = a.shape
    xlim, ylim = rk.limits(nx, ny, d, origin, dirs)
    return Raster(a[:: dirs[1], :: dirs[0]].copy(), x=xlim, y=ylim, **kw)


def unflip(a, dirs):
    return np.asarray(a)[:: dirs[1], :: dirs[0]]


# ---- points ----


def points(cells, frac, shape, d, origin, dtype):
    """Points in given cells (of map rows and columns) at a fraction of the cell."""
    ny, nx = shape
    pts = [
        (origin[0] + (c % nx + frac[0]) * d[0], origin[1] + (c // nx + frac[1]) * d[1])
        for c in cells
    ]
    outside = [
        (origin[0] - d[0] / 4, origin[1] + d[1] / 2),
        (origin[0] + d[0] / 2, origin[1] + d[1] * (ny + 0.25)),
    ]
    v = [2.0 ** k + 0.5 for k in range(len(cells))]
    want = np.full(shape, np.nan)
    for c in set(cells):
        want[c // nx, c % nx] = np.mean([v[i] for i, k in enumerate(cells) if k == c])
    for dirs in rk.DIRS:
        r = make(rk.values(ny, nx, dtype), d, origin, dirs)
        before = rk.snapshot(r)
        where = f"points {pts} in {r.xlim} {r.ylim} {dtype}"
        # Points outside of the raster before, between and after the others
        for k in range(len(pts) + 1):
            for m in range(k, len(pts) + 1):
                xy = np.array(pts[:k] + outside[:1] + pts[k:m] + outside[1:] + pts[m:], dtype=float)
                got = r.rasterize(xy, np.array(v[:k] + [1e6] + v[k:m] + [-1e6] + v[m:]))
                require(got.shape == shape, f"{where}: shape {got.shape}")
                require(got.dtype.kind == "f", f"{where}: type {got.dtype}")
                require(
                    np.allclose(unflip(got, dirs), want, equal_nan=True),
                    lambda: f"{where}: {unflip(got, dirs).tolist()}, not {want.tolist()}, others at {k}, {m}",
                )
        require(np.array_equal(before[0], r.array), f"{where}: the raster changed")
        # The border belongs to the cells along it
        for i in range(nx):
            for y, row in ((r.min[1], 0), (r.max[1], ny - 1)):
                for u in (0, 0.3, 0.6) if i == 0 else (0.3, 0.6, 1) if i == nx - 1 else (0.3, 0.6):
                    x = min(max(origin[0] + (i + u) * d[0], r.min[0]), r.max[0])
                    g = unflip(r.rasterize(np.array([(x, y)]), np.array([3.5])), dirs)
                    require(
                        g[row, i] == 3.5 and np.isfinite(g).sum() == 1,
                        lambda: f"{where}: border point {x, y} in {g.tolist()}",
                    )
        for j in range(ny):
            for x, col in ((r.min[0], 0), (r.max[0], nx - 1)):
                y = origin[1] + (j + 0.4) * d[1]
                g = unflip(r.rasterize(np.array([(x, y)]), np.array([3.5])), dirs)
                require(
                    g[j, col] == 3.5 and np.isfinite(g).sum() == 1,
                    lambda: f"{where}: border point {x, y} in {g.tolist()}",
                )
    return stats([str((cells, frac))], 4, np.nan_to_num(want, nan=-1).tolist(), bool(cells))


# ---- polygons ----

SHAPES = [
    [(1, 1), (7, 1), (7, 6), (1, 6)],
    [(-2, -1), (5, 2), (3, 7)],
    [(4, 4), (11, 5), (8, 9)],
    [(2, 3), (4, 3), (4, 5), (2, 5)],
    [(0, 0), (3, 0), (0, 3)],
    [(5, -3), (6, 12), (4, 12)],
]


def polygons(polys, holes, shape, d, origin):
    """Polygons with vertices on a half-cell lattice."""
    ny, nx = shape
    P = [SHAPES[i] for i in polys]
    H = [SHAPES[i] for i in holes or []]
    to_map = lambda p: [(origin[0] + x / 2 * d[0], origin[1] + y / 2 * d[1]) for x, y in p]
    want = np.empty(shape, dtype=object)
    for j, i in itertools.product(range(ny), range(nx)):
        x, y = 2 * i + 1, 2 * j + 1
        ins = [winding(p, x, y) for p in P]
        out = [winding(p, x, y) for p in H]
        w = True if True in ins else None if None in ins else False
        want[j, i] = False if True in out else None if None in out and w is not False else w
    outcomes = []
    for dirs in rk.DIRS:
        r = make(rk.values(ny, nx), d, origin, dirs)
        got = r.rasterize_polygons(
            [to_map(p) for p in P], None if holes is None else [to_map(p) for p in H]
        )
        where = f"polygons {P} holes {H} in {r.xlim} {r.ylim}"
        require(got.shape == shape and got.dtype == bool, f"{where}: {got.shape} {got.dtype}")
        g = unflip(got, dirs)
        for ji, w in np.ndenumerate(want):
            require(w is None or g[ji] == w, lambda: f"{where}: cell {ji} is {g[ji]}")
        outcomes.append(g.tobytes())
    return stats([str((polys, holes))], 4, outcomes, bool(outcomes))


# ---- circles ----


def circle(center, radius, shape, size, origin):
    """center and radius in cells relative to the lower left corner."""
    ny, nx = shape
    xc, yc = origin[0] + center[0] * size, origin[1] + center[1] * size
    outcomes = []
    for dirs in rk.DIRS:
        r = make(rk.values(ny, nx), (size, size), origin, dirs)
        r.Zf
        base = r.array.copy()
        r.fill_circle((xc, yc), radius * size, value=-5)
        where = f"circle {center} radius {radius} in {shape} {dirs}"
        g, b = unflip(r.array, dirs), unflip(base, dirs)
        for j, i in itertools.product(range(ny), range(nx)):
            dist = math.hypot(i + 0.5 - center[0], j + 0.5 - center[1])
            filled = g[j, i] == -5
            require(filled or g[j, i] == b[j, i], f"{where}: cell {(j, i)} is {g[j, i]}")
            if dist < radius - 1 - 1e-9:
                require(filled, f"{where}: cell {(j, i)} is not filled")
            if dist > radius + 1 + 1e-9:
                require(not filled, f"{where}: cell {(j, i)} is filled")
        own = (math.floor(center[1]), math.floor(center[0]))
        if 0 <= own[0] < ny and 0 <= own[1] < nx and all(c % 1 for c in center):
            require(g[own] == -5, f"{where}: own cell is not filled")
        outcomes.append(g.tobytes())
    require(
        len(set(outcomes)) == 1 or any(c % 1 == 0 for c in center),
        f"circle {center} radius {radius} in {shape}: depends on the axis directions",
    )
    return stats([str((center, radius, shape))], 4, outcomes[0])


# ---- slopes ----


def slopes(coefs, shape, d, origin):
    """Gradients of planes and of quadratic surfaces (centre differences)."""
    ny, nx = shape
    a, b, c, q = coefs
    x = origin[0] + (np.arange(nx) + 0.5) * d[0]
    y = origin[1] + (np.arange(ny) + 0.5) * d[1]
    X, Y = np.meshgrid(x, y)
    Z = a * X + b * Y + c + q * X * Y
    for dirs in rk.DIRS:
        r = make(Z, d, origin, dirs)
        dx, dy = r.gradient()
        where = f"slopes {coefs} in {r.xlim} {r.ylim}"
        require(np.allclose(unflip(dx, dirs), a + q * Y, atol=1e-9), f"{where}: x {dx.tolist()}")
        require(np.allclose(unflip(dy, dirs), b + q * X, atol=1e-9), f"{where}: y {dy.tolist()}")
    return stats([str(coefs)], 4, Z.tobytes())


def light(pattern, azimuth, altitude, d):
    """Slopes facing the light are brighter, for any axis direction."""
    # A pyramid with four faces
    n = 7
    k = np.arange(n) - n // 2
    X, Y = np.meshgrid(k * d[0], k * d[1])
    Z = -np.maximum(abs(X), abs(Y)) if pattern == "pyramid" else np.maximum(abs(X), abs(Y))
    outs = []
    for dirs in rk.DIRS:
        r = make(Z, d, (10, 20), dirs)
        g = unflip(r.hillshade(azimuth=azimuth, altitude=altitude), dirs)
        require(g.shape == Z.shape and np.isfinite(g).all(), "illumination is not finite")
        outs.append(g)
    for g in outs[1:]:
        require(np.allclose(g, outs[0], atol=1e-6), f"{pattern} lit from {azimuth}: depends on axis directions")
    g = outs[0]
    m = n // 2
    face = {0: g[m + 2, m], 90: g[m, m + 2], 180: g[m - 2, m], 270: g[m, m - 2]}
    sun = azimuth % 360
    facing = lambda f: math.cos(math.radians(f - sun)) * (1 if pattern == "pyramid" else -1)
    for p, q in itertools.combinations(face, 2):
        if facing(p) > facing(q) + 0.1:
            require(face[p] > face[q], f"{pattern} lit from {azimuth}: face {p} darker than face {q}")
        if facing(q) > facing(p) + 0.1:
            require(face[q] > face[p], f"{pattern} lit from {azimuth}: face {q} darker than face {p}")
    return stats([str((pattern, azimuth, altitude))], 4, g.round(6).tobytes())


# ---- data ----


def data(mask, shape, d, origin):
    """Bounds of non-missing values."""
    ny, nx = shape
    valid = np.array(mask, dtype=bool).reshape(shape)
    Z = np.where(valid, rk.values(ny, nx), np.nan)
    rows, cols = np.nonzero(valid)
    for dirs in rk.DIRS:
        r = make(Z, d, origin, dirs)
        where = f"data {valid.astype(int).tolist()} {dirs}"
        if not valid.any():
            for fn in (r.data_extent, r.crop_to_data):
                try:
                    fn()
                except ValueError:
                    continue
                require(False, f"{where}: no error without data")
            continue
        rs, cs = r.data_extent()
        part = r.array[rs, cs]
        full = [(rows.min(), rows.max() + 1), (cols.min(), cols.max() + 1)]
        want = Z[slice(*full[0]), slice(*full[1])]
        require(
            np.array_equal(unflip(part, dirs), want, equal_nan=True), f"{where}: extent {rs} {cs}"
        )
        r.crop_to_data()
        require(np.array_equal(unflip(r.array, dirs), want, equal_nan=True), f"{where}: cropped")
        xs = [origin[0] + full[1][0] * d[0], origin[0] + full[1][1] * d[0]][:: dirs[0]]
        ys = [origin[1] + full[0][0] * d[1], origin[1] + full[0][1] * d[1]][:: dirs[1]]
        require(np.allclose(r.xlim, xs) and np.allclose(r.ylim, ys), f"{where}: limits {r.xlim} {r.ylim}")
        require(np.allclose(r.x, rk.centers(xs, want.shape[1])), f"{where}: x {r.x}")
        require(np.allclose(r.y, rk.centers(ys, want.shape[0])), f"{where}: y {r.y}")
    return stats([str(mask)], 4, valid.tobytes(), valid.any() and not valid.all())


# ---- filters ----


def reflect(i, n):
    i = i % (2 * n)
    return i if i < n else 2 * n - 1 - i


def windows(shape, radius, weights):
    """For every cell, the cells (and weights) of its window."""
    ny, nx = shape
    for j, i in itertools.product(range(ny), range(nx)):
        yield (j, i), [
            ((reflect(j + p, ny), reflect(i + q, nx)), weights(p) * weights(q))
            for p in range(-radius, radius + 1)
            for q in range(-radius, radius + 1)
        ]


def ref_max(a, mask, fill, size):
    out = a.copy()
    for c, win in windows(a.shape, size // 2, lambda k: 1):
        vals = [a[k] for k, _ in win if mask[k]]
        if (mask[c] or fill) and vals:
            out[c] = max(vals)
    return out


def ref_gauss(a, mask, fill, sigma):
    radius = int(4 * sigma + 0.5)
    w = {k: math.exp(-(k ** 2) / (2 * sigma ** 2)) for k in range(-radius, radius + 1)}
    out = a.astype(float)
    for c, win in windows(a.shape, radius, w.get):
        if mask[c] or fill:
            num = sum(x * float(a[k]) for k, x in win if mask[k])
            den = sum(x for k, x in win if mask[k])
            out[c] = num / den if den else np.nan
    return out


def filters(mask, a, shape, dtype, fill):
    """Maximum and Gaussian filters never use excluded cells."""
    mask = np.array(mask, dtype=bool).reshape(shape)
    a = np.array(a).reshape(shape).astype(dtype)
    where = f"{a.tolist()} {dtype} mask {mask.astype(int).tolist()} fill {fill}"
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        before = a.copy()
        variants = [a]
        if a.dtype.kind == "f":
            b = a.copy()
            b[~mask] = np.nan
            variants.append(b)
        for v in variants:
            base = v.copy()
            got = helpers.maximum_filter(v, mask=mask.copy(), fill=fill, size=3)
            want = ref_max(v, mask, fill, 3)
            require(
                got.dtype == v.dtype and np.array_equal(got, want, equal_nan=v.dtype.kind == "f"),
                lambda: f"{where}: maximum {got.tolist()}, not {want.tolist()}",
            )
            require(np.array_equal(base, v, equal_nan=v.dtype.kind == "f"), f"{where}: input changed")
            if v.dtype == bool:
                continue
            got = helpers.gaussian_filter(v, mask=mask.copy(), fill=fill, sigma=0.4)
            want = ref_gauss(v, mask, fill, 0.4)
            require(
                np.allclose(got, want, rtol=1e-6, atol=1e-6, equal_nan=True),
                lambda: f"{where}: gaussian {got.tolist()}, not {want.tolist()}",
            )
            require(np.array_equal(base, v, equal_nan=True), f"{where}: input changed")
        if a.dtype.kind == "f":
            for as_function in (False, True):
                r = Raster(variants[1].copy())
                m = (lambda z: ~np.isnan(z)) if as_function else mask.copy()
                r.fill_crevasses(maximum={"size": 3}, gaussian={"sigma": 0.4}, mask=m, fill=fill)
                w = ref_gauss(ref_max(variants[1], mask, fill, 3), mask, fill, 0.4)
                require(
                    np.allclose(r.array, w, rtol=1e-6, atol=1e-6, equal_nan=True),
                    lambda: f"{where}: crevasses {r.array.tolist()}, not {w.tolist()}",
                )
        require(np.array_equal(before, a, equal_nan=a.dtype.kind == "f"), f"{where}: input changed")
    return stats([str((mask.tolist(), a.tolist()))], 3, where, not mask.all())


def explore(ck):
    deep = ck.thorough
    shape = (2, 3)
    fracs = [(0.5, 0.5), (0.1, 0.9), (0.75, 0.01)]
    ck.sweep(points, [
        (c, f, shape, d, o, t)
        for n in range(0, 5 if deep else 4)
        for c in itertools.combinations_with_replacement(range(6), n)
        for f in (fracs if n < 3 or deep else fracs[1:2])
        for d, o in (((1, 1), (0, 0)), ((0.5, 3), (-10, 7.5)))
        for t in ("f8", "i4", "u1")
    ])
    subsets = [s for r in range(0, 4 if deep else 3) for s in itertools.combinations(range(len(SHAPES)), r)]
    ck.sweep(polygons, [
        (p, h, s, d, o)
        for p in subsets if p
        for h in [None, *subsets]
        for s in ((4, 5), (1, 4), (3, 1))
        for d, o in (((1, 1), (0, 0)), ((0.5, 4), (-8, 16)))
    ])
    mid = (0.5, 2.5, 4.5) if not deep else (0.5, 1.5, 2.5, 3.5, 4.5, 5.5)
    cs = [(x, y) for x in (-2.5, *mid, 2.3, 9.5) for y in (-1.5, *mid, 4.9, 7.5)]
    ck.sweep(circle, [
        (c, r, s, z, o)
        for c in cs for r in range(0, 8 if not deep else 12) for s in ((6, 6), (3, 7), (1, 5))
        for z, o in ((1, (0, 0)), (0.25, (-4, 8)))
    ])
    ck.sweep(slopes, [
        ((a, b, c, q), s, d, (-3, 5))
        for a in (-2, 0, 0.5) for b in (-1, 0, 3) for c in (0, 100) for q in (0, 0.25)
        for s in ((2, 3), (3, 2), (4, 4)) for d in ((1, 1), (0.5, 2))
    ])
    ck.sweep(light, [
        (p, az, alt, d)
        for p in ("pyramid", "pit") for az in (*range(0, 360, 45), 10, 200, 315)
        for alt in (20, 45, 70) for d in ((1, 1), (5, 5))
    ])
    for s in ((2, 3), (3, 3) if deep else (3, 2), (1, 4), (4, 1)):
        n = s[0] * s[1]
        ck.sweep(data, [(m, s, (0.5, 2), (10, -3)) for m in itertools.product((0, 1), repeat=n)])
    for s in ((2, 2), (2, 3), (1, 5)) + (((3, 3),) if deep else ()):
        n = s[0] * s[1]
        vals = [[(i * 7 + 3) % 11 for i in range(n)], [0] * n, [(-1) ** i * i for i in range(n)]]
        cases = []
        for m in itertools.product((0, 1), repeat=n):
            for dt in ("f8", "f4", "i4", "u1", "bool"):
                for v in vals[: 3 if dt in ("f8", "f4", "i4") else 2]:
                    cases += [(m, v, s, dt, fill) for fill in (False, True)]
        ck.sweep(filters, cases)
    # Few-valued images, in which the smallest number allowed is a value
    ck.sweep(filters, [
        (m, v, (2, 2), dt, fill)
        for m in itertools.product((0, 1), repeat=4) for v in itertools.product((0, 1, 5), repeat=4)
        for dt in ("u1", "f8") for fill in (False, True)
    ])
