"""Sampling and resampling a raster follow the cell values."""
import itertools

import numpy as np

from mc import rasterkit as rk
from mc.core import require, stats
from glimpse import Raster
from glimpse.raster import Grid

LEVEL = "model_checking"
RULE = (
    "A case is one raster (shape, axis directions, value type, set of missing cells) with "
    "a lattice of points covering cell centres, edges, corners, interiors and outside, "
    "sampled one by one and as a coordinate grid, at both interpolation orders and with "
    "each treatment of points outside, against the definition. Non-trivial when the "
    "raster has more than one cell."
)
ASSUMPTIONS = [
    "Missing cells: a result is required to be missing where a missing cell has weight, "
    "and may be missing where one has weight zero."
]


def axis(c, v):
    """[(cell, weight)] of linear interpolation (and extrapolation) on centres c."""
    if len(c) == 1:
        return [(0, 1.0)]
    k = int(np.clip(np.searchsorted(c, v, side="right") - 1, 0, len(c) - 2))
    t = (v - c[k]) / (c[k + 1] - c[k])
    return [(k, 1 - t), (k + 1, t)]


def definition(a, cx, cy, x, y):
    """(value, strictly missing, possibly missing)"""
    sx, sy = (1 if len(c) < 2 or c[1] > c[0] else -1 for c in (cx, cy))
    a = a[::sy, ::sx].astype(float)
    cx, cy = cx[::sx], cy[::sy]
    total, strict, maybe = 0.0, False, False
    for j, u in axis(cx, x):
        for i, w in axis(cy, y):
            if np.isnan(a[i, j]):
                maybe = True
                strict |= abs(u * w) > 1e-6
            else:
                total += a[i, j] * u * w
    # At a centre, either neighbour may be used with weight zero
    ki = np.flatnonzero(np.abs(cy - y) < 1e-9)
    kj = np.flatnonzero(np.abs(cx - x) < 1e-9)
    for i in range(len(cy)):
        for j in range(len(cx)):
            if np.isnan(a[i, j]):
                near_i = any(abs(i - k) <= 1 for k in ki) or any(
                    i == k for k, _ in axis(cy, y)
                )
                near_j = any(abs(j - k) <= 1 for k in kj) or any(
                    j == k for k, _ in axis(cx, x)
                )
                maybe |= near_i and near_j
    return total, strict, maybe


def check(got, want, strict, maybe, where):
    if np.isnan(got):
        require(maybe, f"{where} is missing, expected {want}")
    else:
        require(not strict, f"{where} is {got}, expected missing")
        require(
            abs(got - want) <= 1e-6 * max(1, abs(want)), f"{where} is {got}, not {want}"
        )


def points(lim, n):
    """Coordinates: centres, edges, interior, beyond the outer centres."""
    lo, hi = min(lim), max(lim)
    d = (hi - lo) / n
    v = [lo + d * k for k in (0.5, 0.25, 0.8125)]
    v += [lo, hi]
    for k in range(1, n):
        v += [lo + d * (k + f) for f in (0, 0.5, 0.3125)]
    v += [hi - 0.125 * d]
    return v


def build(nx, ny, dirs, dtype, missing):
    xlim, ylim = rk.limits(nx, ny, (2.0, 2.0), (10.0, -4.0), dirs)
    a = rk.values(ny, nx, dtype)
    if dtype == "f8s":
        a = a * 1e-3
    for i, j in missing:
        a[i, j] = np.nan
    return Raster(a.copy(), x=xlim, y=ylim), a, xlim, ylim


def sample(nx, ny, dirs, dtype, missing):
    r, a, xlim, ylim = build(nx, ny, dirs, dtype, missing)
    before = rk.snapshot(r)
    cx, cy = rk.centers(xlim, nx), rk.centers(ylim, ny)
    px, py = points(xlim, nx), points(ylim, ny)
    where = f"{nx}x{ny} {dirs} {dtype} missing {missing}"
    pts = np.array([(x, y) for y in py for x in px])
    exp = [definition(a, cx, cy, x, y) for x, y in pts]
    n = 0
    # Point by point, linear
    for variant in ("array", "list"):
        got = r.sample(pts if variant == "array" else pts.tolist())
        require(got.shape == (len(pts),), f"{where}: shape {got.shape}")
        for p, g, e in zip(pts, got, exp):
            check(g, *e, f"{where}: point {p}")
            n += 1
    # One at a time gives the same
    one = np.array([r.sample(p[None])[0] for p in pts])
    require(np.array_equal(one, got, equal_nan=True), f"{where}: points one at a time")
    # Nearest: the value of the cell
    ix = np.array([(p - (xlim[0], ylim[0])) / ((xlim[1] - xlim[0]) / nx, (ylim[1] - ylim[0]) / ny) for p in pts])
    clear = (np.abs(ix - np.rint(ix)) > 1e-6) | np.isclose(ix, 0) | np.isclose(ix, (nx, ny))
    col = np.clip(np.floor(ix[:, 0]), 0, nx - 1).astype(int)
    row = np.clip(np.floor(ix[:, 1]), 0, ny - 1).astype(int)
    got0 = r.sample(pts, order=0)
    for k in np.flatnonzero(clear.all(axis=1)):
        v = a[row[k], col[k]]
        require(
            got0[k] == v or (np.isnan(v) and np.isnan(got0[k])),
            f"{where}: nearest at {pts[k]} is {got0[k]}, expected {v}",
        )
        n += 1
    # As a grid: any order of the coordinates
    orders = [(px, py), (sorted(px), sorted(py)), (sorted(px)[::-1], sorted(py)[::-1])]
    orders += [(sorted(px), sorted(py)[::-1]), (px[:1], py), (px, py[-1:]), (px[2:3], py[1:2])]
    for gx, gy in orders:
        gx, gy = np.array(gx), np.array(gy)
        got2 = r.sample((gx, gy), grid=True)
        require(got2.shape == (len(gy), len(gx)), f"{where}: grid shape {got2.shape}")
        for i, y in enumerate(gy):
            for j, x in enumerate(gx):
                check(
                    got2[i, j], *definition(a, cx, cy, x, y), f"{where}: grid at {x}, {y}"
                )
                n += 1
    # No points
    for gx, gy in (((), py), (px, ()), ((), ())):
        gx, gy = np.array(gx, float), np.array(gy, float)
        for kw in ({}, {"bounds_error": False}, {"bounds_error": False, "fill_value": None}):
            got2 = r.sample((gx, gy), grid=True, **kw)
            require(got2.shape == (len(gy), len(gx)), f"{where}: empty grid {got2.shape}")
    got2 = r.sample(np.empty((0, 2)))
    require(got2.shape == (0,), f"{where}: no points {got2.shape}")
    # Higher orders go through the values
    for order in (2, 3):
        if min(nx, ny) > order and not missing:
            z = r.sample((cx, cy), grid=True, order=order)
            require(np.allclose(z, a), f"{where}: order {order} at centres {z}")
            # ... in both forms of the coordinates
            z = r.sample((cx[::-1], cy), grid=True, order=order)
            require(np.allclose(z, a[:, ::-1]), f"{where}: order {order} reversed")
        if min(nx, ny) > order and missing:
            # Missing where one of the surrounding cells is, and nowhere else
            for gx, gy in orders[:2]:
                z = r.sample((np.array(gx), np.array(gy)), grid=True, order=order)
                for v, (y, x) in zip(z.flat, itertools.product(gy, gx)):
                    _, strict, maybe = definition(a, cx, cy, x, y)
                    w = f"{where}: order {order} at {x}, {y}"
                    require(not np.isnan(v) or maybe, f"{w} is missing")
                    require(np.isnan(v) or not strict, f"{w} is {v}, expected missing")
                    n += 1
        if min(nx, ny) == 1 and max(nx, ny) > order:
            for grid in (True, False):
                arg = (cx, cy) if grid else np.column_stack([v.ravel() for v in np.meshgrid(cx, cy)])
                z = r.sample(arg, grid=grid, order=order)
                require(np.allclose(np.ravel(z), a.ravel()), f"{where}: order {order} in a line {z}")
    # Outside
    hi = max(xlim), max(ylim)
    lo = min(xlim), min(ylim)
    out = [
        (hi[0] + 0.5, cy[0]),
        (cx[0], lo[1] - 0.5),
        (lo[0] - 3, hi[1] + 0.1),
        (hi[0] + 1e-3, lo[1]),
    ]
    for o in out:
        mixed = np.array([pts[0], o, pts[-1]])
        for grid in (False, True):
            arg = (mixed[:, 0], mixed[:, 1]) if grid else mixed
            try:
                r.sample(arg, grid=grid)
            except ValueError:
                pass
            else:
                require(False, f"{where}: point {o} outside was accepted (grid={grid})")
        for fill in (np.nan, -5.5, 0, 7):
            z = r.sample(mixed, bounds_error=False, fill_value=fill)
            require(
                z[1] == fill or (np.isnan(fill) and np.isnan(z[1])),
                f"{where}: outside is {z[1]}, not {fill}",
            )
            for k, e in ((0, exp[0]), (2, exp[-1])):
                check(z[k], *e, f"{where}: fill {fill} at {mixed[k]}")
            g = r.sample((mixed[:, 0], mixed[:, 1]), grid=True, bounds_error=False, fill_value=fill)
            inx = (mixed[:, 0] >= lo[0]) & (mixed[:, 0] <= hi[0])
            iny = (mixed[:, 1] >= lo[1]) & (mixed[:, 1] <= hi[1])
            for i, j in itertools.product(range(3), repeat=2):
                if inx[j] and iny[i]:
                    e = definition(a, cx, cy, mixed[j, 0], mixed[i, 1])
                    check(g[i, j], *e, f"{where}: fill {fill} grid {i, j}")
                else:
                    require(
                        g[i, j] == fill or (np.isnan(fill) and np.isnan(g[i, j])),
                        f"{where}: grid outside is {g[i, j]}, not {fill}",
                    )
            n += 12
        z = r.sample(mixed, bounds_error=False, fill_value=None)
        g = r.sample((mixed[:, 0], mixed[:, 1]), grid=True, bounds_error=False, fill_value=None)
        for i in range(3):
            check(z[i], *definition(a, cx, cy, *mixed[i]), f"{where}: extrapolated {mixed[i]}")
            check(g[i, i], *definition(a, cx, cy, *mixed[i]), f"{where}: grid extrapolated {mixed[i]}")
    require(rk.same(rk.snapshot(r), before, tol=0), f"{where}: sampling changed the raster")
    require(r.array.dtype == before[0].dtype, f"{where}: sampling changed the type")
    return stats([where], n, (nx, ny, dirs, dtype, missing), nx * ny > 1)


def resample(nx, ny, dirs, missing, mx, my, gdirs, inset):
    """Resampling samples at the centres of the target."""
    r, a, xlim, ylim = build(nx, ny, dirs, "f8", missing)
    cx, cy = rk.centers(xlim, nx), rk.centers(ylim, ny)
    lo = min(xlim) + inset, min(ylim) + inset / 2
    hi = max(xlim) - inset / 4, max(ylim) - inset
    d = ((hi[0] - lo[0]) / mx, (hi[1] - lo[1]) / my)
    gx, gy = rk.limits(mx, my, d, lo, gdirs)
    g = Grid((mx, my), x=gx, y=gy)
    r.resample(g)
    where = f"{nx}x{ny} {dirs} to {mx}x{my} {gdirs}"
    require(r.array.shape == (my, mx), f"{where}: shape {r.array.shape}")
    require(r.grid == g, f"{where}: grid")
    tx, ty = rk.centers(gx, mx), rk.centers(gy, my)
    require(np.allclose(r.x, tx) and np.allclose(r.y, ty), f"{where}: coordinates")
    for i, j in itertools.product(range(my), range(mx)):
        check(r.array[i, j], *definition(a, cx, cy, tx[j], ty[i]), f"{where}: cell {i, j}")
    return stats([where], mx * my, where, missing != [])


def explore(ck):
    shapes = [(nx, ny) for nx in range(1, 5) for ny in range(1, 5)]
    cases = []
    for nx, ny in shapes:
        for dirs in rk.DIRS:
            for t in ("u1", "i4", "f4", "f8"):
                cases.append((nx, ny, dirs, t, []))
            cells = list(itertools.product(range(ny), range(nx)))
            if min(nx, ny) == 1:
                continue
            kmax = len(cells) if (nx * ny <= 6 or ck.thorough and nx * ny <= 9) else 1 + ck.thorough
            for k in range(1, kmax + 1):
                for m in itertools.combinations(cells, k):
                    cases.append((nx, ny, dirs, ("f8", "f4")[k % 2], list(m)))
    ck.sweep(sample, cases)
    res = []
    for nx, ny in ((3, 3), (4, 2), (2, 3), (1, 3), (4, 1), (1, 1)):
        cells = list(itertools.product(range(ny), range(nx))) if min(nx, ny) > 1 else []
        for dirs in rk.DIRS:
            for missing in [[]] + [[c] for c in cells]:
                for mx, my in ((1, 1), (2, 3), (3, 3), (5, 2), (1, 4)):
                    for gdirs in rk.DIRS:
                        for inset in (0, 1.0):
                            if nx == 1 and mx * inset or ny == 1 and my * inset:
                                continue
                            res.append((nx, ny, dirs, missing, mx, my, gdirs, inset))
    ck.sweep(resample, res)
