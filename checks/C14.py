"""Interpolating rasters in time hits the observations."""
import datetime
import itertools

import numpy as np

from checks.C12 import definition
from mc import rasterkit as rk
from mc.core import require, scratch, stats
from glimpse import Raster, RasterInterpolant

LEVEL = "model_checking"
RULE = (
    "A case is a set of observations (times in any order, rasters in memory, files, or "
    "numbers, with missing cells and uncertainties) and a sequence of queries of one "
    "interpolant, each compared with the documented formula. Non-trivial when a query "
    "lies between or at observations."
)
ASSUMPTIONS = [
    "When the two nearest rasters of an extrapolation are tied, the query is skipped.",
    "For a target cell size only the grid of the result is specified.",
]
T0 = datetime.datetime(2020, 1, 1)


def time(t, kind):
    if kind == "datetime":
        return T0 + datetime.timedelta(hours=float(t))
    return int(t) if kind == "int" else float(t)


def values(k, nx=3, ny=2):
    a = rk.values(ny, nx) * (1 + 0.5 * k) + k
    return a.astype("f4").astype("f8")


class World:
    """Observations and their plain arrays."""

    def __init__(self, times, kind, what, sigma, missing, dirs):
        self.t = list(times)
        self.kind = kind
        self.xlim, self.ylim = rk.limits(3, 2, (2.0, 2.0), (10.0, -4.0), dirs)
        self.arrays, self.sig, self.objs, self.sobjs = [], [], [], []
        for k in range(len(times)):
            a = values(k)
            for m in missing:
                if m[0] == k:
                    a[m[1], m[2]] = np.nan
            w = what[k % len(what)]
            if w == "number":
                a = np.full((2, 3), 4.0 + k)
            self.arrays.append(a)
            self.objs.append(self.obj(w, a, k, "m"))
            s = {
                "none": np.zeros((2, 3)),
                "number": np.full((2, 3), 0.5 + k),
                "raster": 0.25 * np.abs(np.where(np.isnan(values(k)), 1, values(k))) + 0.1,
                "zero": np.zeros((2, 3)),
            }
            sk = "number" if sigma == "mixed" and k % 2 else "raster" if sigma == "mixed" else sigma
            s = s[sk].astype("f4").astype("f8")
            self.sig.append(s)
            sw = {"none": "number", "zero": "number", "number": "number", "raster": w if w != "number" else "memory"}[sk]
            self.sobjs.append(self.obj(sw, s, k, "s"))
        self.sigmas = None if sigma == "none" else self.sobjs
        self.snapshots = [
            rk.snapshot(o) for o in self.objs + self.sobjs if isinstance(o, Raster)
        ]

    def obj(self, w, a, k, tag):
        if w == "number":
            return float(a[0, 0])
        if w == "file":
            path = f"{tag}{k}.tif"
            rk.write_tif(path, a.astype("f4"), self.xlim, self.ylim)
            return path
        if w == "opened":
            path = f"{tag}{k}.tif"
            rk.write_tif(path, a.astype("f4"), self.xlim, self.ylim)
            return Raster.open(path)
        return Raster(a.copy(), x=self.xlim, y=self.ylim)

    def interpolant(self):
        return RasterInterpolant(
            self.objs, sigmas=self.sigmas, x=[time(t, self.kind) for t in self.t]
        )

    def unchanged(self, where):
        now = [rk.snapshot(o) for o in self.objs + self.sobjs if isinstance(o, Raster)]
        for a, b in zip(now, self.snapshots):
            require(rk.same(a, b, tol=0), f"{where}: an input raster changed")

    def expected(self, t, extrapolate):
        """(mean, sigma), or None if refused, or "skip"."""
        if t in self.t:
            k = self.t.index(t)
            self.used = (k,)
            return self.arrays[k], self.sig[k]
        order = sorted(range(len(self.t)), key=lambda k: self.t[k])
        if extrapolate:
            near = sorted((abs(self.t[k] - t), k) for k in order)
            if len(near) < 2:
                return "skip"
            if len(near) > 2 and near[1][0] == near[2][0] or near[0][0] == near[1][0] and len(near) > 2 and near[2][0] == near[1][0]:
                return "skip"
            i, j = sorted((near[0][1], near[1][1]), key=lambda k: self.t[k])
        else:
            before = [k for k in order if self.t[k] < t]
            after = [k for k in order if self.t[k] > t]
            if not before or not after:
                return None
            i, j = before[-1], after[0]
        self.used = (i, j)
        dx = self.t[j] - self.t[i]
        scale = (t - self.t[i]) / dx
        dz = self.arrays[j] - self.arrays[i]
        mean = self.arrays[i] + scale * dz
        near = min(abs(t - self.t[i]), abs(t - self.t[j]))
        var = self.sig[i] ** 2 + scale ** 2 * (self.sig[i] ** 2 + self.sig[j] ** 2)
        return mean, np.sqrt(var + (dz / 3 * near / dx) ** 2)


def history(times, kind, what, sigma, missing, dirs, queries):
    with scratch():
        w = World(times, kind, what, sigma, missing, dirs)
        f = w.interpolant()
        states = []
        for t, extrapolate, ret in queries:
            where = f"times {times} {kind} {what} sigma {sigma} missing {missing} query {t} extrapolate={extrapolate}"
            exp = w.expected(t, extrapolate)
            if isinstance(exp, str):
                continue
            try:
                out = f(time(t, kind), extrapolate=extrapolate, return_sigma=ret)
            except ValueError:
                require(exp is None, f"{where}: refused")
                continue
            require(exp is not None, f"{where}: not refused")
            if not ret:
                require(isinstance(out, Raster), f"{where}: {type(out)}")
            means = (out,) if not ret else out
            numbers = all(isinstance(o, float) for o in w.objs)
            if all(isinstance(w.objs[k], float) for k in w.used):
                # A number has no limits
                numbers = True
            for r, want, name in zip(means, exp, ("mean", "sigma")):
                if numbers:
                    want = want[:1, :1]
                else:
                    require(
                        np.allclose(r.xlim, w.xlim if not isinstance(w.objs[0], float) else r.xlim)
                        and sorted(r.xlim) == sorted(w.xlim)
                        and sorted(r.ylim) == sorted(w.ylim),
                        f"{where}: limits {r.xlim} {r.ylim}",
                    )
                got = np.broadcast_to(r.array, want.shape) if name == "sigma" else r.array
                require(got.shape == want.shape, f"{where}: {name} shape {got.shape}")
                # Directions of the result may follow either raster
                if not numbers:
                    if (r.xlim[1] > r.xlim[0]) != (w.xlim[1] > w.xlim[0]):
                        got = got[:, ::-1]
                    if (r.ylim[1] > r.ylim[0]) != (w.ylim[1] > w.ylim[0]):
                        got = got[::-1]
                if name == "sigma":
                    # Meaningless where the mean is missing
                    gone = np.isnan(exp[0][: want.shape[0], : want.shape[1]])
                    got, want = np.where(gone, 0, got), np.where(gone, 0, want)
                require(
                    np.allclose(got, want, rtol=1e-6, atol=1e-9, equal_nan=True),
                    lambda: f"{where}: {name} {got}, expected {want}",
                )
                if kind == "datetime":
                    require(r.datetime == time(t, kind), f"{where}: datetime")
            states.append((tuple(times), kind, t, extrapolate))
            w.unchanged(where)
        return stats(states, len(queries), (times, kind, what, sigma, missing, queries), bool(states))


def typed(dtypes, sigma_dtypes, source, t):
    """Rasters of any number type give the values of their numbers."""
    with scratch():
        xlim, ylim = rk.limits(3, 2, (2.0, 2.0), (10.0, -4.0), (1, -1))
        low = np.array([[10, 20, 0], [30, 120, 7]])
        high = np.array([[0, 50, 100], [10, 3, 7]])
        arrays = [a.astype(dt) for a, dt in zip((low, high), dtypes)]
        sigs = [a.astype(dt) for a, dt in zip((low // 2 + 1, high // 3 + 2), sigma_dtypes)]

        def obj(a, name):
            if source == "memory":
                return Raster(a, x=xlim, y=ylim)
            rk.write_tif(name, a, xlim, ylim)
            return name if source == "file" else Raster.open(name)

        f = RasterInterpolant(
            [obj(a, f"m{k}.tif") for k, a in enumerate(arrays)],
            [obj(a, f"s{k}.tif") for k, a in enumerate(sigs)],
            x=[0, 4],
        )
        mean, sigma = f(t, return_sigma=True)
        m, s = [np.array(a, dtype=float) for a in arrays], [np.array(a, dtype=float) for a in sigs]
        if t in (0, 4):
            want = m[t // 4], s[t // 4]
        else:
            dz = m[1] - m[0]
            var = s[0] ** 2 + (t / 4) ** 2 * (s[0] ** 2 + s[1] ** 2) + (dz / 3 * min(t, 4 - t) / 4) ** 2
            want = m[0] + dz * t / 4, np.sqrt(var)
        for got, exp, name in zip((mean, sigma), want, ("mean", "sigma")):
            require(
                np.allclose(got.array, exp, rtol=1e-6),
                lambda: f"{dtypes} {sigma_dtypes} from {source} at {t}: {name} {got.array.tolist()}, not {exp.tolist()}",
            )
        require(np.array_equal(f(t).array, mean.array), "mean with and without sigma")
    return stats([str((dtypes, source, t))], 1, str(want), 0 < t < 4)


def misaligned(shape, d, offset, what, t, order):
    """Rasters on different grids are compared where they are."""
    with scratch():
        xa, ya = rk.limits(4, 3, (2.0, 2.0), (10.0, -4.0), (1, -1))
        a = values(0, 4, 3)
        xb, yb = rk.limits(*shape, (d, d), (10.0 + offset[0], -4.0 + offset[1]), (1, -1))
        b = values(1, *shape)
        objs = []
        for k, (z, x, y) in enumerate(((a, xa, ya), (b, xb, yb))):
            if what == "file":
                rk.write_tif(f"{k}.tif", z.astype("f4"), x, y)
                objs.append(f"{k}.tif")
            else:
                objs.append(Raster(z, x=x, y=y))
        arrays = [(a, xa, ya), (b, xb, yb)]
        if order:
            objs, arrays = objs[::-1], arrays[::-1]
        f = RasterInterpolant(objs, x=[0, 4])
        try:
            r = f(t, d=None)
        except ValueError as e:
            box = (max(xa[0], xb[0]), min(xa[1], xb[1]), max(ya[1], yb[1]), min(ya[0], yb[0]))
            if min(box[1] - box[0], box[3] - box[2]) < max(2.0, d):
                # Less than one cell in common
                return stats([], 1, "less", False)
            require(
                "intersect" in str(e) and (box[1] <= box[0] or box[3] <= box[2]),
                f"{shape} {d} {offset} {order}: refused ({e})",
            )
            return stats([], 1, "apart", False)
        (z0, x0, y0), (z1, x1, y1) = arrays
        where = f"{shape} cells {d} offset {offset} {what} at {t} order {order}"
        d0 = (x0[1] - x0[0]) / z0.shape[1]
        d1 = (x1[1] - x1[0]) / z1.shape[1]
        same_d = d0 == d1
        c0 = rk.centers(x0, z0.shape[1]), rk.centers(y0, z0.shape[0])
        c1 = rk.centers(x1, z1.shape[1]), rk.centers(y1, z1.shape[0])
        inter = (max(x0[0], x1[0]), min(x0[1], x1[1]), max(y0[1], y1[1]), min(y0[0], y1[0]))
        require(
            r.xlim[0] <= inter[0] + 1e-9 and r.xlim[1] >= inter[1] - 1e-9
            and r.ylim[1] <= inter[2] + 1e-9 and r.ylim[0] >= inter[3] - 1e-9,
            f"{where}: {r.xlim} {r.ylim} does not cover {inter}",
        )
        require(abs(abs(r.d[0]) - max(d0, d1)) < 0.51 * max(d0, d1), f"{where}: cells {r.d}")
        n = 0
        if same_d:
            for i, y in enumerate(r.y):
                for j, x in enumerate(r.x):
                    v0, s0, m0 = definition(z0, *c0, x, y)
                    if not (min(x1) <= x <= max(x1) and min(y1) <= y <= max(y1)):
                        require(np.isnan(r.array[i, j]), f"{where}: value outside")
                        continue
                    # The second raster is cropped before it is sampled, so that
                    # points near its crop are extrapolated: compare inside only
                    if not all(
                        min(abs(v - p), abs(v - q)) > 1.5 * d1 or abs((v - c[0]) / d1 % 1) < 1e-9
                        for v, (p, q), c in ((x, x1, c1[0]), (y, y1, c1[1]))
                    ):
                        require(np.isfinite(r.array[i, j]), f"{where}: missing")
                        continue
                    v1, s1, m1 = definition(z1, *c1, x, y)
                    want = v0 + (v1 - v0) * t / 4
                    require(
                        abs(r.array[i, j] - want) < 1e-4 * max(1, abs(want)),
                        f"{where}: cell {i, j} is {r.array[i, j]}, expected {want}",
                    )
                    n += 1
        return stats([where], 1 + n, (where, r.array.tobytes()), True)


def options(what, dirs, t, crop, d, fun):
    """Cropping, thresholds, functions and cell size of the result."""
    with scratch():
        w = World((0, 4), "float", (what,), "raster", [], dirs)
        f = w.interpolant()
        kwargs = {}
        if crop in ("x", "xy"):
            # The last two columns
            kwargs["xlim"] = (w.xlim[1], w.xlim[0] + (w.xlim[1] - w.xlim[0]) / 3)
        if crop in ("y", "xy"):
            kwargs["ylim"] = (w.ylim[0], w.ylim[0] + (w.ylim[1] - w.ylim[0]) / 2)
        if crop == "z":
            kwargs["zlim"] = (20, 60)
        calls = []

        def change(raster, dz):
            calls.append(raster)
            raster.shift(dz=dz)
            raster.array[0, 0] = 0

        if fun:
            kwargs["fun"] = change
            kwargs["dz"] = 2.5
        if d:
            kwargs["d"] = d
        mean, sigma = f(float(t), return_sigma=True, **kwargs)
        ij = (0, 0) if t == 0 else (1, 1) if t == 4 else (0, 1)
        zs = [w.arrays[k].copy() for k in ij]
        ss = [w.sig[k].copy() for k in ij]
        xlim, ylim = w.xlim, w.ylim
        if crop in ("x", "xy"):
            zs, ss = [z[:, 1:] for z in zs], [s[:, 1:] for s in ss]
            xlim = tuple(sorted(kwargs["xlim"]))[:: 1 if xlim[0] < xlim[1] else -1]
        if crop in ("y", "xy"):
            zs, ss = [z[:1] for z in zs], [s[:1] for s in ss]
            ylim = tuple(sorted(kwargs["ylim"]))[:: 1 if ylim[0] < ylim[1] else -1]
        if crop == "z":
            zs = [np.where((z < 20) | (z > 60), np.nan, z) for z in zs]
        where = f"{what} {dirs} at {t} {kwargs}"
        for r in (mean, sigma):
            require(
                np.allclose(r.xlim, xlim) and np.allclose(r.ylim, ylim),
                f"{where}: limits {r.xlim} {r.ylim}, expected {xlim} {ylim}",
            )
        if fun:
            require(len(calls) == 2, f"{where}: function called {len(calls)} times")
        if d:
            ny, nx = zs[0].shape
            for r in (mean, sigma):
                for n, got in ((nx, r.size[0]), (ny, r.size[1])):
                    require(
                        np.floor(n * 2 / d) <= got <= np.ceil(n * 2 / d) and got > 0,
                        f"{where}: size {r.size} for {nx, ny} cells of 2",
                    )
        else:
            if fun:
                zs = [z + 2.5 for z in zs]
                for z in zs:
                    z[0, 0] = 0
            s = t / 4 if ij[0] != ij[1] else 0
            want = zs[0] + s * (zs[1] - zs[0])
            require(
                np.allclose(mean.array, want, rtol=1e-6, equal_nan=True),
                lambda: f"{where}: {mean.array}, expected {want}",
            )
            near = min(t, 4 - t) if s else 0
            var = ss[0] ** 2 + s ** 2 * (ss[0] ** 2 + ss[1] ** 2)
            want = np.sqrt(var + ((zs[1] - zs[0]) / 3 * near / 4) ** 2)
            require(
                np.allclose(sigma.array, want, rtol=1e-6, equal_nan=True),
                lambda: f"{where}: sigma {sigma.array}, expected {want}",
            )
        w.unchanged(where)
        again, _ = f(float(t), return_sigma=True, **kwargs)
        require(
            np.array_equal(again.array, mean.array, equal_nan=True), f"{where}: not repeatable"
        )
        w.unchanged(where)
        return stats([where], 2, (where, mean.array.tobytes()), True)


CELLS = {
    "2": (2.0, 2.0), "0.1": (0.1, 0.1), "1/3": (1 / 3, 1 / 3), "30.1": (30.1, 30.1),
    "wide": (2.0, 0.5), "tall": (0.1, 0.3),
}
ORIGINS = {"0": (0.0, 0.0), "utm": (493500.3, 6781000.7)}


def native(cell, origin, what, parts, missing, dirs):
    """Rasters of one resolution are combined cell by cell, none is resampled."""
    d, o = CELLS[cell], ORIGINS[origin]
    with scratch():
        objs, sobjs, full, fsig, boxes = [], [], [], [], []
        for k, (c0, r0, nx, ny) in enumerate(parts):
            # On one lattice: columns and rows counted from the lower left
            z = np.full((5, 6), np.nan)
            z[r0 : r0 + ny, c0 : c0 + nx] = values(k, nx, ny)
            for m in missing:
                if m[0] == k:
                    z[m[1], m[2]] = np.nan
            a = z[r0 : r0 + ny, c0 : c0 + nx]
            s = (0.1 * np.abs(values(k + 1, nx, ny)) + 0.5).astype("f4").astype("f8")
            fs = np.full((5, 6), np.nan)
            fs[r0 : r0 + ny, c0 : c0 + nx] = s
            full.append(z)
            fsig.append(fs)
            xlim, ylim = rk.limits(nx, ny, d, (o[0] + c0 * d[0], o[1] + r0 * d[1]), dirs)
            flip = (slice(None, None, dirs[1]), slice(None, None, dirs[0]))
            w = what[k % len(what)]
            for tag, v, out in (("m", a[flip], objs), ("s", s[flip], sobjs)):
                if w == "file":
                    rk.write_tif(f"{tag}{k}.tif", v.astype("f4"), xlim, ylim)
                    out.append(f"{tag}{k}.tif")
                else:
                    out.append(Raster(v.copy(), x=xlim, y=ylim))
            boxes.append((c0, r0, c0 + nx, r0 + ny))
        f = RasterInterpolant(objs, sigmas=sobjs, x=[0, 4])
        n = 0
        for t in (0, 1, 4):
            ij = (0, 0) if t == 0 else (1, 1) if t == 4 else (0, 1)
            b = [boxes[k] for k in ij]
            c0, r0 = max(v[0] for v in b), max(v[1] for v in b)
            c1, r1 = min(v[2] for v in b), min(v[3] for v in b)
            win = slice(r0, r1), slice(c0, c1)
            z0, z1 = (full[k][win] for k in ij)
            s0, s1 = (fsig[k][win] for k in ij)
            scale = t / 4 if ij == (0, 1) else 0
            dz = z1 - z0
            want = z0 + scale * dz
            near = 1 if scale else 0
            wsig = np.sqrt(s0 ** 2 + scale ** 2 * (s0 ** 2 + s1 ** 2) + (dz / 3 * near / 4) ** 2)
            where = f"{cell} {origin} {what} {parts} missing {missing} {dirs} at {t}"
            mean, sigma = f(t, return_sigma=True)
            for r, v, name in ((mean, want, "mean"), (sigma, wsig, "sigma")):
                got = r.array[:: dirs[1], :: dirs[0]]
                require(got.shape == v.shape, f"{where}: {name} of shape {got.shape}, not {v.shape}")
                if name == "sigma":
                    v, got = (np.where(np.isnan(want), 0, x) for x in (v, got))
                require(
                    np.allclose(got, v, rtol=1e-6, equal_nan=True),
                    lambda: f"{where}: {name} {got.tolist()}, not {v.tolist()}",
                )
                if name == "mean" and not scale:
                    require(np.array_equal(got, v, equal_nan=True), f"{where}: not exact")
                ex = sorted((o[0] + c0 * d[0], o[0] + c1 * d[0]))[:: dirs[0]]
                ey = sorted((o[1] + r0 * d[1], o[1] + r1 * d[1]))[:: dirs[1]]
                require(
                    np.allclose(r.xlim, ex, rtol=1e-12, atol=1e-8)
                    and np.allclose(r.ylim, ey, rtol=1e-12, atol=1e-8),
                    f"{where}: {name} limits {r.xlim} {r.ylim}, not {ex} {ey}",
                )
                n += got.size
        return stats([where], n, (where, mean.array.tobytes()), True)


def resolution(fine, coarse, what, order, t, sigma, d):
    """By default the result has the largest cells, whatever the uncertainties have."""
    with scratch():
        o = (10.0, -4.0)
        sizes = [fine, coarse][:: -1 if order else 1]
        objs = []
        zs = []
        for k, c in enumerate(sizes):
            nx, ny = round(12 / c), round(6 / c)
            xlim, ylim = rk.limits(nx, ny, (c, c), o)
            z = 100 * k + rk.values(ny, nx)
            zs.append(z)
            if what == "file":
                rk.write_tif(f"{k}.tif", z.astype("f4"), xlim, ylim)
                objs.append(f"{k}.tif")
            else:
                objs.append(Raster(z, x=xlim, y=ylim))
        sobjs = None
        if sigma:
            nx, ny = round(12 / sigma), round(6 / sigma)
            xlim, ylim = rk.limits(nx, ny, (sigma, sigma), o)
            sobjs = [Raster(np.full((ny, nx), 0.5 + k), x=xlim, y=ylim) for k in range(2)]
        f = RasterInterpolant(objs, sigmas=sobjs, x=[0, 4])
        mean, sig = f(t, d=d, return_sigma=True)
        c = d or (max(sizes) if 0 < t < 4 else sizes[0 if t == 0 else 1])
        size = round(12 / c), round(6 / c)
        where = f"cells {sizes} {what} at {t} sigmas {sigma} d={d}"
        for r in (mean, sig):
            require(tuple(r.size) == size, f"{where}: size {r.size}, not {size}")
            require(
                np.allclose(r.xlim, (10, 22)) and np.allclose(r.ylim, (2, -4)),
                f"{where}: limits {r.xlim} {r.ylim}",
            )
            require(np.isfinite(r.array).all(), f"{where}: missing values")
        s = t / 4 if 0 < t < 4 else 0
        a, b = (zs if s else [zs[0], zs[0]] if t == 0 else [zs[1], zs[1]])
        lo, hi = (1 - s) * a.min() + s * b.min(), (1 - s) * a.max() + s * b.max()
        require(
            (mean.array >= lo - 1e-6).all() and (mean.array <= hi + 1e-6).all(),
            f"{where}: values {mean.array.min()} to {mean.array.max()}, not {lo} to {hi}",
        )
        v = [0, 0] if not sigma else [0.5, 1.5] if s else [0.5] * 2 if t == 0 else [1.5] * 2
        least = v[0] ** 2 + s ** 2 * (v[0] ** 2 + v[1] ** 2)
        require((sig.array ** 2 >= least - 1e-9).all(), f"{where}: uncertainty shrank")
        if not s:
            require(np.allclose(sig.array ** 2, least), f"{where}: uncertainty {sig.array}")
        return stats([where], 1, where, True)


def refusals(k):
    """Anything else is refused."""
    r = Raster(values(0))
    f = RasterInterpolant([r, {"a": 1}], x=[0, 4])
    for call in (lambda: f(1), lambda: f(4)):
        try:
            call()
        except ValueError:
            continue
        require(False, "an observation which is not a raster was accepted")
    f = RasterInterpolant([r, r], sigmas=[1, None], x=[0, 4])
    try:
        f(1, return_sigma=True)
    except ValueError:
        pass
    else:
        require(False, "an uncertainty which is not a raster was accepted")
    require(np.array_equal(f(1).array, r.array), "uncertainties not needed")
    return stats(["refusals"], 4, "refusals", True)


def datetimes(kinds):
    """Times are taken from the rasters if not given."""
    rasters = [
        Raster(values(k), datetime=T0 + datetime.timedelta(hours=h))
        for k, h in enumerate(kinds)
    ]
    f = RasterInterpolant(rasters)
    t = T0 + datetime.timedelta(hours=sum(kinds) / len(kinds))
    r = f(t)
    g = RasterInterpolant(rasters, x=[x.datetime for x in rasters])(t)
    require(np.array_equal(r.array, g.array) and r.datetime == g.datetime == t, "times")
    return stats([kinds], 1, kinds, True)


def explore(ck):
    types = ["u1", "i2", "u2", "i4", "f4", "f8"]
    ck.sweep(
        typed,
        [
            (dtypes, sigmas, source, t)
            for dtypes in itertools.product(types, repeat=2)
            for sigmas in (dtypes, dtypes[::-1], ("u1", "u1"), ("f8", "f8"))
            for source in ("memory", "file", "opened")
            for t in (0, 1, 2, 3.5, 4)
            if ck.thorough or source == "memory" or dtypes[0] == dtypes[1]
        ],
    )
    sets = [(0, 4), (4, 0), (0, 1, 4), (4, 0, 1), (1, 4, 0), (0, 1, 4, 6), (2,)]
    qs = [-2, 0, 0.5, 1, 2, 3, 4, 5, 7]
    cases = []
    kinds = ("memory",), ("file",), ("opened",), ("number",), ("number", "memory"), ("file", "number"), ("memory", "file")
    missings = [[], [(0, 0, 1)], [(1, 1, 2)], [(0, 0, 0), (1, 0, 0)]]
    for times in sets:
        for kind in ("float", "datetime", "int"):
            for what in kinds:
                for sigma in ("none", "number", "raster", "mixed"):
                    for missing in missings:
                        for dirs in ((1, -1), (-1, 1)) if ck.thorough else ((1, -1),):
                            if missing and "number" in what:
                                continue
                            if "number" in what and sigma in ("raster", "mixed"):
                                # A number has no grid
                                continue
                            q = [
                                (t, e, bool(k % 2) or sigma != "none")
                                for k, (t, e) in enumerate(itertools.product(qs, (False, True)))
                                if kind != "int" or t == int(t)
                            ]
                            if len(times) == 1:
                                q = [x for x in q if not x[1]]
                            cases.append((times, kind, what, sigma, missing, dirs, q))
    # Histories: pairs (thorough: triples) of queries of one interpolant
    depth = 3 if ck.thorough else 2
    alphabet = [(0, False, True), (1, False, False), (3, False, True), (5, True, True), (5, False, False), (4, True, False)]
    for what in kinds[:5]:
        for sigma in ("none", "number" if "number" in what else "raster"):
            for q in itertools.product(alphabet, repeat=depth):
                cases.append(((0, 1, 4), "float", what, sigma, [(1, 0, 1)] if "number" not in what else [], (1, -1), list(q)))
    ck.sweep(history, cases)
    ck.sweep(
        misaligned,
        [
            (shape, d, off, what, t, order)
            for shape in ((4, 3), (3, 3), (2, 2))
            for d in (2.0, 1.0, 4.0, 3.0)
            for off in ((0, 0), (2, 0), (-2, 2), (0.5, 0), (0.7, -1.3), (1, 1), (40, 0))
            for what in ("memory", "file")
            for t in (1, 2)
            for order in (0, 1)
        ],
    )
    ck.sweep(
        options,
        [
            (what, dirs, t, crop, d, fun)
            for what in ("memory", "file", "opened")
            for dirs in rk.DIRS
            for t in (0, 1, 3, 4)
            for crop in ("", "x", "y", "xy", "z")
            for d in (None, 1.0, 4.0, 3.0)
            for fun in (0, 1)
            # Cells larger than the whole result are not sensible
            if not ("y" in crop and d == 4)
        ],
    )
    whole = (0, 0, 6, 5)
    subs = [
        (c, r, nx, ny)
        for nx in range(2, 7)
        for ny in range(2, 6)
        for c in range(7 - nx)
        for r in range(6 - ny)
    ]
    pairs = [(whole, whole)] + [(whole, s) for s in subs] + [(s, whole) for s in subs]
    pairs += [
        (a, b)
        for a, b in itertools.product(subs[::5], subs[::7])
        if min(a[0] + a[2], b[0] + b[2]) - max(a[0], b[0]) > 1
        and min(a[1] + a[3], b[1] + b[3]) - max(a[1], b[1]) > 1
    ]
    ck.sweep(
        native,
        [
            (cell, o, what, p, m, dirs)
            for k, p in enumerate(pairs)
            for cell in CELLS
            for o in ORIGINS
            for what in (("memory",), ("file",), ("memory", "file"))
            for m in ([], [(0, 2, 3)], [(1, 2, 2), (0, 3, 3)])
            for dirs in ((1, -1), (-1, 1), (1, 1))
            if ck.thorough or (k + len(what) + len(m) + sum(dirs) // 2) % 17 == 0 or k < 2
        ],
    )
    ck.sweep(
        resolution,
        [
            (fine, coarse, what, order, t, sigma, d)
            for fine, coarse in ((1.0, 2.0), (0.5, 1.0), (1.0, 3.0), (1.5, 3.0), (2.0, 3.0), (0.5, 3.0))
            for what in ("memory", "file")
            for order in (0, 1)
            for t in (0, 1, 3, 4)
            for sigma in (None, 0.5, 1.0, 3.0)
            for d in (None, 1.0, 3.0)
        ],
    )
    ck.sweep(refusals, [(0,)])
    ck.sweep(datetimes, [[(0, 4)], [(4, 0, 2)], [(0, 1, 5)]])
