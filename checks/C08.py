"""Windowed raster reads and copies describe the same cells."""
import datetime
import itertools

import numpy as np

from mc import rasterkit as rk
from mc.core import Violation, require, scratch, stats
from glimpse import Raster

LEVEL = "model_checking"
RULE = (
    "A case is a history of reads (whole, window, cached or not, clearing) of one raster "
    "opened from a real file or held in memory, compared after each operation with the "
    "array the file was made from; or one row/column index of a small raster; or one "
    "operation on a copy. Non-trivial when the window or index is not the whole raster."
)
ASSUMPTIONS = ["GeoTIFF files; downsampled openings take GDAL's nearest cell."]
T = datetime.datetime(2020, 1, 2, 3)
NX, NY = 5, 4


def full_model(a, xlim, ylim, crop, d):
    """Array and limits which opening with a crop (in cells) and cell size must give."""
    if crop:
        c0, c1, r0, r1 = crop
        dx, dy = (xlim[1] - xlim[0]) / a.shape[1], (ylim[1] - ylim[0]) / a.shape[0]
        xlim = (xlim[0] + c0 * dx, xlim[0] + c1 * dx)
        ylim = (ylim[0] + r0 * dy, ylim[0] + r1 * dy)
        a = a[r0:r1, c0:c1]
    if d:
        ny, nx = a.shape
        n = int(np.ceil(nx / d - 1e-9)), int(np.ceil(ny / d - 1e-9))
        j = np.floor((np.arange(n[0]) + 0.5) * (nx / n[0])).astype(int)
        i = np.floor((np.arange(n[1]) + 0.5) * (ny / n[1])).astype(int)
        a = a[i][:, j]
    return a, xlim, ylim


def boxes(nx, ny):
    return {
        "a": (0, 0, 1, 1),
        "b": (nx - 1, 0, nx, ny),
        "c": (0, 1, nx, ny),
        "d": (max(nx - 2, 0), ny - 2 if ny > 2 else 0, nx, ny),
    }


def opened(a, xlim, ylim, dtype, crop, d, kind):
    b = a.astype(dtype)
    nan = -9999.0 if dtype.startswith("f") else None
    if nan is not None:
        b[0, 1] = nan
        b[-1, -1] = nan
    kwargs = {}
    if crop:
        c0, c1, r0, r1 = crop
        dx, dy = (xlim[1] - xlim[0]) / a.shape[1], (ylim[1] - ylim[0]) / a.shape[0]
        kwargs = dict(
            xlim=(xlim[0] + c0 * dx, xlim[0] + c1 * dx),
            ylim=(ylim[0] + r0 * dy, ylim[0] + r1 * dy),
        )
    if d:
        kwargs["d"] = d * abs(xlim[1] - xlim[0]) / a.shape[1]
    rk.write_tif("r.tif", b, xlim, ylim, nodata=nan)
    model, mx, my = full_model(b, xlim, ylim, crop, d)
    model = model.copy()
    if nan is not None:
        model[model == nan] = np.nan
    if kind == "memory":
        return Raster(model.copy(), x=mx, y=my, datetime=T), model, mx, my
    return Raster.open("r.tif", datetime=T, **kwargs), model, mx, my


def describe(r, model, mx, my, where):
    ny, nx = model.shape
    require(tuple(r.size) == (nx, ny), f"{where}: size {r.size}, expected {(nx, ny)}")
    require(tuple(r.shape) == (ny, nx), f"{where}: shape {r.shape}")
    for name, got, want in (
        ("xlim", r.xlim, mx),
        ("ylim", r.ylim, my),
        ("x", r.x, rk.centers(mx, nx)),
        ("y", r.y, rk.centers(my, ny)),
    ):
        require(
            np.shape(got) == np.shape(want) and np.allclose(got, want),
            f"{where}: {name} {got}, expected {want}",
        )
    require(r.datetime == T, f"{where}: datetime")


def history(kind, dtype, dirs, crop, d, ops):
    with scratch():
        xlim, ylim = rk.limits(NX, NY, (2.0, 2.0), (10.0, -4.0), dirs)
        a = rk.values(NY, NX)
        r, model, mx, my = opened(a, xlim, ylim, dtype, crop, d, kind)
        ny, nx = model.shape
        bx = boxes(nx, ny)
        states = []
        n = 0
        where = f"{kind} {dtype} {dirs} {ops}"
        for op in list(ops) + ["F-", "F+"]:
            cache = op[1:2] == "+"
            before = r._array if kind == "file" else r.array
            if op[0] == "F":
                got, want = r.read(cache=cache), model
            elif op[0] == "W":
                box = bx[op[2]]
                got = r.read(box=box, cache=cache)
                want = model[box[1] : box[3], box[0] : box[2]]
            elif op == "A":
                got, want = r.array, model
            elif op == "X":
                # Derived data, computed before or after the array is there
                describe(r, model, mx, my, where)
                got = want = model
            elif op == "E":
                got = want = model
                for bad in ((0, 0, nx + 1, 1), (-1, 0, 1, 1), (0.5, 0, 1, 1)):
                    try:
                        r.read(box=bad, cache=cache)
                    except ValueError:
                        continue
                    require(False, f"{where}: window {bad} was accepted")
            elif op == "C":
                got = want = model
                if kind == "file":
                    r.array = None
            n += 1
            require(
                got.shape == want.shape and np.array_equal(got, want, equal_nan=True),
                lambda: f"{where}: {op} gives\n{got}\nexpected\n{want}",
            )
            if op[1:2] == "-":
                after = r._array if kind == "file" else r.array
                require(after is before, f"{where}: {op} cached something")
            describe(r, model, mx, my, f"{where} after {op}")
            states.append((kind, dtype, r._array is None, op))
        require(
            np.array_equal(r.array, model, equal_nan=True), f"{where}: array at the end"
        )
        return stats(states, n, (kind, dtype, dirs, crop, d, ops[-1:]), bool(ops))


def all_windows(dtype, dirs, crop, d):
    with scratch():
        xlim, ylim = rk.limits(NX, NY, (2.0, 2.0), (10.0, -4.0), dirs)
        a = rk.values(NY, NX)
        n = 0
        for cache in (False, True):
            r, model, mx, my = opened(a, xlim, ylim, dtype, crop, d, "file")
            ny, nx = model.shape
            for c0, c1 in itertools.combinations(range(nx + 1), 2):
                for r0, r1 in itertools.combinations(range(ny + 1), 2):
                    for kind in (tuple, np.array):
                        if cache:
                            r.array = None
                        got = r.read(box=kind((c0, r0, c1, r1)), cache=cache)
                        require(
                            np.array_equal(got, model[r0:r1, c0:c1], equal_nan=True),
                            f"window {(c0, r0, c1, r1)} cache={cache}:\n{got}",
                        )
                        n += 1
        return stats([(dtype, dirs, crop, d)], n, (dtype, dirs, crop, d))


def _slice(s):
    return s if isinstance(s, int) else slice(*s)


def index(nx, ny, dirs, d, rows, cols):
    """Indexing keeps coordinates and values together."""
    r = rk.raster(nx, ny, d, (3.0, -7.0), dirs, datetime=T, crs=32606)
    before = rk.snapshot(r)
    i, j = _slice(rows), _slice(cols)
    ii = np.atleast_1d(np.arange(ny)[i])
    jj = np.atleast_1d(np.arange(nx)[j])
    if not len(ii) or not len(jj):
        return stats([], 0, "empty", False)
    sub = r[i, j]
    where = f"{nx}x{ny} {dirs} [{rows}, {cols}]"
    require(
        np.array_equal(sub.array, before[0][np.ix_(ii, jj)]), f"{where}: {sub.array}"
    )
    require(np.allclose(sub.x, before[3][jj]), f"{where}: x {sub.x} {before[3][jj]}")
    require(np.allclose(sub.y, before[4][ii]), f"{where}: y {sub.y} {before[4][ii]}")
    step = [1 if isinstance(s, int) else (s[2] or 1) for s in (cols, rows)]
    if len(jj) < 2:
        step[0] = abs(step[0])
    if len(ii) < 2:
        step[1] = abs(step[1])
    size = np.array(r.d) * step
    require(np.allclose(np.abs(sub.d), np.abs(size)), f"{where}: cell size {sub.d} {size}")
    if len(jj) > 1 and len(ii) > 1:
        require(np.allclose(sub.d, size), f"{where}: direction {sub.d} {size}")
    for a, b in ((sub.xlim, sub.x), (sub.ylim, sub.y)):
        require(abs(np.mean(a) - np.mean(b)) < 1e-9, f"{where}: limits {a} of {b}")
    require(sub.datetime == T and sub.crs == 32606, f"{where}: metadata")
    # Changes of the subset's position leave the source
    sub.shift(1, 2, 3)
    sub.xlim = sub.xlim[::-1]
    require(rk.same(rk.snapshot(r), before), f"{where}: the source moved")
    return stats([(nx, ny, dirs, rows, cols)], len(ii) * len(jj), where)


def rows_only(nx, ny, dirs, rows):
    """A single index selects rows; what is not an index or not there is refused."""
    r = rk.raster(nx, ny, (0.5, 2.0), (3.0, -7.0), dirs, datetime=T, crs=32606)
    where = f"{nx}x{ny} {dirs} [{rows}]"
    i = _slice(rows)
    if len(np.atleast_1d(np.arange(ny)[i])):
        a, b = r[i], r[i, :]
        require(rk.same(rk.snapshot(a), rk.snapshot(b)), f"{where}: differs from [{rows}, :]")
        require(a.datetime == T and a.crs == 32606, f"{where}: metadata")
    before = rk.snapshot(r)
    cells = np.ones((ny, nx), dtype=bool)
    for bad in (ny, ny + 3, -ny - 1, 0.5, "0", None, [0], cells, slice(ny, None)):
        for key in (bad, (bad, 0), (slice(None), nx if isinstance(bad, int) else bad)):
            if isinstance(key, tuple) and isinstance(key[1], slice):
                key = (slice(None), slice(nx, None))
            try:
                got = r[key]
            except (IndexError, TypeError):
                continue
            raise Violation(f"{nx}x{ny} {dirs} [{key}]: gave {got.array}")
    require(rk.same(rk.snapshot(r), before), f"{where}: the source changed")
    return stats([(nx, ny, dirs, rows)], 27, where)


def _mutations():
    return {
        "shift": lambda r: r.shift(1, 2, 3),
        "shiftz": lambda r: r.shift(dz=5),
        "cropz": lambda r: r.crop(zlim=(20, 60)),
        "crop": lambda r: r.crop(xlim=(r.x[0], r.x[1])),
        "circle": lambda r: r.fill_circle((r.x[1], r.y[1]), 1.0, 0),
        "resize": lambda r: r.resize(2),
        "cell": lambda r: r.array.__setitem__((0, 0), -1),
        "fill": lambda r: r.array.fill(0),
        "limits": lambda r: setattr(r, "xlim", (100, 200)),
        "limit": lambda r: r.xlim.__setitem__(0, -50),
        "resample": lambda r: r.resample(rk.raster(2, 2, (1, 1), (r.min[0] + 0.6, r.min[1] + 0.6)).grid),
    }


def copies(dirs, warm, ops, forward):
    """Changing a copy (or the source of a copy) leaves the other."""
    r = rk.raster(4, 3, (1.0, 1.0), (3.0, -7.0), dirs, datetime=T, crs="x")
    if warm:
        r.X, r.Y, r.Zf
        r.sample(np.array([[r.x[0], r.y[0]]]))
    other = r.copy()
    require(type(other) is type(r) and other == r, "the copy is not equal")
    before = rk.snapshot(r)
    require(rk.same(rk.snapshot(other), before), "the copy differs")
    a, b = (other, r) if forward else (r, other)
    for op in ops:
        _mutations()[op](a)
    require(rk.same(rk.snapshot(b), before), f"{ops} on one of two copies changed both")
    pts = np.array([[x, y] for x in before[3] for y in before[4]])
    require(
        np.allclose(b.sample(pts), before[0].T.ravel()),
        f"{ops} on one of two copies changed samples of the other",
    )
    # Grids
    g = rk.raster(4, 3, (1.0, 1.0), (3.0, -7.0), dirs, crs="x").grid
    c = g.copy()
    require(c == g and c.crs == g.crs, "grid copy")
    (c if forward else g).shift(1, 2)
    other = g if forward else c
    require(np.allclose(other.x, before[3]) and other.xlim[0] == before[1][0], "grid moved")
    return stats([(dirs, warm, ops)], len(ops), (dirs, ops, forward))


OPS = ["F+", "F-", "W+a", "W-a", "W+b", "W-c", "W-d", "A", "X", "E", "C"]


def explore(ck):
    depth = 4 if ck.thorough else 3
    configs = [(None, None), ((1, 4, 1, 3), None), (None, 2), ((0, 4, 0, 4), 2)]
    cases = []
    for k in range(0, depth + 1):
        for ops in itertools.product(OPS, repeat=k):
            for i, (crop, d) in enumerate(configs):
                if k == depth and i not in (0, 3):
                    continue
                cases.append(("file", "f4", (1, -1), crop, d, ops))
            if k < depth:
                for dirs in rk.DIRS:
                    cases.append(("file", "i2", dirs, (1, 4, 1, 3), None, ops))
                    cases.append(("memory", "f8", dirs, None, None, ops))
    ck.sweep(history, cases)
    ck.sweep(
        all_windows,
        [
            (t, dirs, crop, d)
            for t in ("u1", "i2", "f4", "f8")
            for dirs in rk.DIRS
            for crop, d in configs + [(None, 1.5), ((1, 5, 0, 3), 1.5)]
        ],
    )
    idx = []
    for nx, ny in ((4, 4), (5, 3), (3, 3), (2, 4), (1, 3), (2, 2), (1, 1)):
        def choices(n):
            out = list(range(-n, n))
            for step in (None, 1, 2, 3, -1, -2):
                for start in [None] + list(range(n)):
                    stops = [None] + list(range(n + 1)) if ck.thorough else [None, n - 1, n]
                    for stop in stops:
                        out.append((start, stop, step))
            return out

        rows, cols = choices(ny), choices(nx)
        for i, (r, c) in enumerate(itertools.product(rows, cols)):
            for k, dirs in enumerate(rk.DIRS):
                if ck.thorough or i % 4 == k:
                    idx.append((nx, ny, dirs, (0.5, 2.0), r, c))
        for row in rows:
            for dirs in rk.DIRS:
                ck.run(rows_only, nx, ny, dirs, row)
    ck.sweep(index, idx)
    ck.sweep(
        copies,
        [
            (dirs, warm, ops, f)
            for dirs in rk.DIRS
            for warm in (0, 1)
            for k in (1, 2)
            for ops in itertools.product(_mutations(), repeat=k)
            for f in (True, False)
            if not {"resample", "crop", "resize", "limits", "limit"} & set(ops[:-1])
        ],
    )
