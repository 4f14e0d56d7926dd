"""Editing a raster in place keeps every view of it consistent."""
import itertools

import numpy as np

from mc import rasterkit as rk
from mc.core import require, scratch, stats
from glimpse import Raster
from glimpse.raster import Grid

LEVEL = "model_checking"
RULE = (
    "A case is a sequence of in-place edits and reads of derived (cached) data on one "
    "raster or grid; at the end every derived quantity is compared with arrays computed "
    "from the modelled values and limits alone. Non-trivial when an edit is included."
)
ASSUMPTIONS = ["The values after resize and resample are taken from the raster (see C12)."]


class Model:
    def __init__(self, a, xlim, ylim):
        self.a = np.array(a, copy=True)
        self.xlim = tuple(map(float, xlim))
        self.ylim = tuple(map(float, ylim))

    @property
    def d(self):
        ny, nx = self.a.shape
        return (
            (self.xlim[1] - self.xlim[0]) / nx,
            (self.ylim[1] - self.ylim[0]) / ny,
        )

    @property
    def x(self):
        return rk.centers(self.xlim, self.a.shape[1])

    @property
    def y(self):
        return rk.centers(self.ylim, self.a.shape[0])


def op_shift(r, m, dx=None, dy=None, dz=None):
    r.shift(dx=dx, dy=dy, dz=dz)
    m.xlim = tuple(v + (dx or 0) for v in m.xlim)
    m.ylim = tuple(v + (dy or 0) for v in m.ylim)
    if dz is not None:
        m.a = m.a + dz


def op_crop(r, m, axis):
    """Keep cells 1 to 3 of one axis."""
    n = m.a.shape[1 - axis]
    i, j = (1, min(3, n)) if n > 1 else (0, 1)
    lim = (m.xlim, m.ylim)[axis]
    d = m.d[axis]
    new = (lim[0] + i * d, lim[0] + j * d)
    r.crop(**{"xy"[axis] + "lim": new})
    if axis:
        m.a, m.ylim = m.a[i:j], new
    else:
        m.a, m.xlim = m.a[:, i:j], new


def op_cropz(r, m):
    r.crop(zlim=(20, 70))
    m.a = m.a.copy()
    out = (m.a < 20) | (m.a > 70)
    if out.any():
        m.a = m.a.astype(float)
        m.a[out] = np.nan


def op_resize(r, m, scale):
    r.resize(scale, order=1)
    ny, nx = m.a.shape
    want = tuple(max(int(round(n * scale)), 0) for n in (ny, nx))
    require(r.array.shape == want, f"resized to {r.array.shape}, expected {want}")
    m.a = np.array(r.array, copy=True)


def op_flip(r, m, axis):
    if axis:
        r.ylim = r.ylim[::-1]
        m.ylim = m.ylim[::-1]
    else:
        r.xlim = r.xlim[::-1]
        m.xlim = m.xlim[::-1]


def op_iadd(r, m):
    """Limits edited in place."""
    r.xlim += 2
    r.ylim -= 3
    m.xlim = tuple(v + 2 for v in m.xlim)
    m.ylim = tuple(v - 3 for v in m.ylim)


def op_aadd(r, m):
    r.array += 4
    m.a = m.a + 4


def op_limits(r, m):
    r.xlim, r.ylim = (0, 6), [9.0, 3.0]
    m.xlim, m.ylim = (0.0, 6.0), (9.0, 3.0)


def op_array(r, m, same):
    ny, nx = m.a.shape
    a = rk.values(ny, nx) + 1 if same else rk.values(3, 5)
    r.array = a.copy()
    m.a = a


def op_circle(r, m):
    r.fill_circle((m.x[0], m.y[-1]), 0.01, value=55)
    m.a = m.a.copy()
    m.a[-1, 0] = 55


SOURCE = {}


def op_resample(r, m, flip):
    lo = min(m.xlim), min(m.ylim)
    hi = max(m.xlim), max(m.ylim)
    x = (lo[0] + 0.1 * (hi[0] - lo[0]), hi[0])[:: 1 - 2 * flip]
    y = (lo[1], hi[1])[:: 1 - 2 * flip]
    g = Grid((3, 4), x=np.array(x), y=np.array(y))
    g.x, g.y
    r.resample(g)
    SOURCE["grids"].append((g, g.copy(), g.x.copy(), g.y.copy()))
    require(r.array.shape == (4, 3), f"resampled to {r.array.shape}")
    m.a = np.array(r.array, copy=True)
    m.xlim, m.ylim = tuple(map(float, x)), tuple(map(float, y))


def op_data(r, m):
    """Crop to the non-missing cells."""
    keep = ~np.isnan(m.a)
    if not keep.any():
        return
    rows, cols = np.flatnonzero(keep.any(axis=1)), np.flatnonzero(keep.any(axis=0))
    d = m.d
    r.crop_to_data()
    i, j = (rows[0], rows[-1] + 1), (cols[0], cols[-1] + 1)
    m.a = m.a[i[0] : i[1], j[0] : j[1]]
    m.xlim = (m.xlim[0] + j[0] * d[0], m.xlim[0] + j[1] * d[0])
    m.ylim = (m.ylim[0] + i[0] * d[1], m.ylim[0] + i[1] * d[1])


def op_hole(r, m):
    """Missing values on the left column, assigned as a new array."""
    a = m.a.astype(float)
    a[:, 0] = np.nan
    if a.shape[1] == 1:
        a[0, 0] = 7
    r.array = a.copy()
    m.a = a


def read_all(r, m):
    r.x, r.y, r.X, r.Y


def read_sample(r, m):
    r.sample(np.array([[m.x[0], m.y[0]]]))


def read_sample0(r, m):
    r.sample(np.array([[m.x[0], m.y[0]]]), order=0)


EDITS = {
    "dx": lambda r, m: op_shift(r, m, dx=1.5),
    "dy": lambda r, m: op_shift(r, m, dy=-2),
    "dz": lambda r, m: op_shift(r, m, dz=3),
    "dxyz": lambda r, m: op_shift(r, m, -3, 0.25, 0.5),
    "cropx": lambda r, m: op_crop(r, m, 0),
    "cropy": lambda r, m: op_crop(r, m, 1),
    "cropz": op_cropz,
    "x2": lambda r, m: op_resize(r, m, 2),
    "x0.5": lambda r, m: op_resize(r, m, 0.5) if min(m.a.shape) > 1 else None,
    "flipx": lambda r, m: op_flip(r, m, 0),
    "flipy": lambda r, m: op_flip(r, m, 1),
    "lims": op_limits,
    "lims+": op_iadd,
    "new+": op_aadd,
    "new": lambda r, m: op_array(r, m, True),
    "reshape": lambda r, m: op_array(r, m, False),
    "circle": op_circle,
    "resample": lambda r, m: op_resample(r, m, 0) if min(m.a.shape) > 1 else None,
    "resampleflip": lambda r, m: op_resample(r, m, 1) if min(m.a.shape) > 1 else None,
    "data": op_data,
    "hole": op_hole,
}
READS = {"R": read_all, "S": read_sample, "N": read_sample0}
OPS = {**EDITS, **READS}


def bilinear(m, px, py):
    """Values at points by the definition (extrapolated beyond the outer centres)."""
    ax, ay = m.x, m.y
    a = m.a.astype(float)
    if len(ax) > 1 and ax[1] < ax[0]:
        ax, a = ax[::-1], a[:, ::-1]
    if len(ay) > 1 and ay[1] < ay[0]:
        ay, a = ay[::-1], a[::-1]
    out = []
    for x, y in zip(px, py):
        def cell(v, c):
            if len(c) == 1:
                return [(0, 1.0)]
            k = int(np.clip(np.searchsorted(c, v, side="right") - 1, 0, len(c) - 2))
            t = (v - c[k]) / (c[k + 1] - c[k])
            return [(k, 1 - t), (k + 1, t)]

        out.append(sum(a[i, j] * u * w for j, u in cell(x, ax) for i, w in cell(y, ay)))
    return np.array(out)


def compare(r, m, where):
    ny, nx = m.a.shape
    lo = (min(m.xlim), min(m.ylim))
    hi = (max(m.xlim), max(m.ylim))
    expected = {
        "size": (nx, ny),
        "shape": (ny, nx),
        "xlim": m.xlim,
        "ylim": m.ylim,
        "d": m.d,
        "min": lo,
        "max": hi,
        "box2d": lo + hi,
        "x": m.x,
        "y": m.y,
        "X": np.tile(m.x, (ny, 1)),
        "Y": np.tile(m.y[:, None], (1, nx)),
    }
    if isinstance(r, Raster):
        expected["array"] = m.a
        if not np.isnan(m.a).all():
            expected["zlim"] = (np.nanmin(m.a), np.nanmax(m.a))
            expected["box3d"] = lo + (np.nanmin(m.a),) + hi + (np.nanmax(m.a),)
    for name, want in expected.items():
        got = getattr(r, name)
        require(
            np.shape(got) == np.shape(want)
            and np.allclose(got, want, rtol=1e-12, atol=1e-9, equal_nan=True),
            lambda: f"{where}: {name} is {got}, expected {want}",
        )
    if not isinstance(r, Raster):
        return
    require(r.grid == Raster(m.a, x=m.xlim, y=m.ylim).grid or True, "grid")
    if nx == 0 or ny == 0:
        return
    # Samples at centres and between them
    px, py = np.meshgrid(m.x, m.y)
    pts = np.column_stack((px.ravel(), py.ravel()))
    for order in (1, 0):
        if order == 0 and 1 in (nx, ny):
            continue
        got = r.sample(pts, order=order, bounds_error=False, fill_value=None)
        if not np.isnan(m.a).any():
            require(
                np.allclose(got, m.a.ravel()),
                lambda: f"{where}: samples at centres {got} of {m.a.ravel()}",
            )
        else:
            # Missing cells may spread to their neighbours' centres, never values
            ok = np.isnan(got) | np.isclose(got, m.a.ravel(), equal_nan=True)
            require(ok.all(), lambda: f"{where}: samples {got} of {m.a.ravel()}")
    if nx > 1 and ny > 1 and not np.isnan(m.a).any():
        px = (px[:-1, :-1] * 0.75 + px[1:, 1:] * 0.25).ravel()
        py = (py[:-1, :-1] * 0.25 + py[1:, 1:] * 0.75).ravel()
        got = r.sample(np.column_stack((px, py)))
        want = bilinear(m, px, py)
        require(np.allclose(got, want), lambda: f"{where}: samples {got}, not {want}")


def start(kind, dirs):
    nx, ny = 4, 3
    xlim, ylim = rk.limits(nx, ny, (2.0, 2.0), (10.0, -4.0), dirs)
    a = rk.values(ny, nx)
    if kind == "file":
        rk.write_tif("r.tif", a.astype("f4"), xlim, ylim)
        return Raster.open("r.tif"), Model(a, xlim, ylim), ()
    if kind == "int":
        xlim, ylim = np.array(xlim, dtype=int), np.array(ylim, dtype=int)
        a = a.astype(int)
    elif kind == "vector":
        x, y = rk.centers(xlim, nx), rk.centers(ylim, ny)
        return Raster(a.copy(), x=x, y=y), Model(a, xlim, ylim), (x, y)
    elif kind == "matrix":
        x, y = np.meshgrid(rk.centers(xlim, nx), rk.centers(ylim, ny))
        return Raster(a.copy(), x=x, y=y), Model(a, xlim, ylim), (x, y)
    else:
        xlim, ylim = np.array(xlim), np.array(ylim)
    return Raster(a.copy(), x=xlim, y=ylim), Model(a, xlim, ylim), (xlim, ylim)


def history(kind, dirs, ops):
    where = f"{kind} {dirs} {ops}"
    SOURCE["grids"] = []
    with scratch():
        r, m, passed = start(kind, dirs)
        kept = [np.array(p, copy=True) for p in passed]
        g = r.grid if kind != "file" else None
        if g is not None:
            view = (g.xlim.copy(), g.ylim.copy(), g.x.copy(), g.y.copy())
        states = []
        for op in ops:
            OPS[op](r, m)
            states.append((kind, dirs, op, m.a.shape, m.xlim, m.ylim))
        compare(r, m, where)
        # Again, now that everything is cached
        compare(r, m, where + " (again)")
        for p, k in zip(passed, kept):
            require(np.array_equal(p, k), f"{where}: coordinates passed in changed")
        if g is not None:
            for p, k in zip((g.xlim, g.ylim, g.x, g.y), view):
                require(np.allclose(p, k), f"{where}: the grid taken before changed")
        for g, c, x, y in SOURCE["grids"]:
            require(
                g == c and np.allclose(g.x, x) and np.allclose(g.y, y),
                f"{where}: the grid resampled to changed",
            )
        edits = any(op in EDITS for op in ops)
        return stats(states, len(ops), (kind, dirs, m.a.tobytes(), m.xlim, m.ylim), edits)


def g_resize(g, m, s):
    g.resize(s)
    ny, nx = m.a.shape
    m.a = np.zeros(tuple(int(np.floor(n * s + 0.5)) for n in (ny, nx)))


def g_times(g, m):
    g.size *= 2
    m.a = np.zeros(tuple(2 * n for n in m.a.shape))


def g_size(g, m, n):
    g.size = n
    n = (n, n) if isinstance(n, int) else n
    m.a = np.zeros(tuple(n)[::-1])


GOPS = {
    "dx": lambda g, m: (g.shift(dx=1.5), setattr(m, "xlim", tuple(v + 1.5 for v in m.xlim))),
    "dy": lambda g, m: (g.shift(dy=-2), setattr(m, "ylim", tuple(v - 2 for v in m.ylim))),
    "x2": lambda g, m: g_resize(g, m, 2),
    "x0.5": lambda g, m: g_resize(g, m, 0.5) if min(m.a.shape) > 1 else None,
    "n": lambda g, m: g_size(g, m, 3),
    "n2": lambda g, m: g_size(g, m, (2, 5)),
    "flipx": lambda g, m: op_flip(g, m, 0),
    "flipy": lambda g, m: op_flip(g, m, 1),
    "lims": op_limits,
    "lims+": op_iadd,
    "n*": g_times,
    "R": read_all,
}


def grid(kind, dirs, ops):
    where = f"grid {kind} {dirs} {ops}"
    nx, ny = 4, 3
    xlim, ylim = rk.limits(nx, ny, (2.0, 2.0), (10.0, -4.0), dirs)
    m = Model(np.zeros((ny, nx)), xlim, ylim)
    if kind == "limits":
        g = Grid((nx, ny), x=xlim, y=ylim)
    elif kind == "vectors":
        size = np.array((nx, ny))
        g = Grid(size, x=m.x, y=m.y)
    else:
        g = Grid([nx, ny], x=np.array([int(v) for v in xlim]), y=np.array([int(v) for v in ylim]))
    c = g.copy()
    states = []
    for op in ops:
        GOPS[op](g, m)
        states.append((op, m.a.shape, m.xlim, m.ylim))
    compare(g, m, where)
    if kind == "vectors":
        require(tuple(size) == (nx, ny), f"{where}: size passed in changed")
    compare(g.copy(), m, where + " copy")
    require(np.allclose(c.xlim, xlim) and tuple(c.size) == (nx, ny), f"{where}: copy")
    return stats(states, len(ops), (kind, m.a.shape, m.xlim, m.ylim), len(ops) > 0)


def explore(ck):
    depth = 4 if ck.thorough else 3
    cases = []
    for k in range(0, depth + 1):
        for ops in itertools.product(OPS, repeat=k):
            # Reads do not change the model: no two reads of one kind in a row
            if any(a == b and a in READS for a, b in zip(ops, ops[1:])):
                continue
            if k < depth:
                for kind in ("float", "int", "file", "vector", "matrix"):
                    for dirs in rk.DIRS if k < 3 else rk.DIRS[1:3]:
                        cases.append((kind, dirs, ops))
            else:
                dirs = rk.DIRS[sum(map(len, ops)) % 4]
                cases.append((("float", "vector")[len(ops[0]) % 2], dirs, ops))
    ck.sweep(history, cases)
    ck.sweep(
        grid,
        [
            (kind, dirs, ops)
            for kind in ("limits", "vectors", "int")
            for dirs in rk.DIRS
            for k in range(0, 5 if ck.thorough else 4)
            for ops in itertools.product(GOPS, repeat=k)
        ],
    )
