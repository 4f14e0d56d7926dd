"""Grid coordinate conversions agree with one another."""
import itertools
from fractions import Fraction as F

import numpy as np

from mc import rasterkit as rk
from mc.core import require, stats
from glimpse import Raster
from glimpse.raster import Grid

LEVEL = "model_checking"
RULE = (
    "A case is one grid (dimensions, cell sizes, origin, axis directions); every cell, "
    "every coordinate on a quarter-cell lattice (and beyond the grid), every pair of crop "
    "limits, and every snapped window is compared with exact rational geometry. "
    "Non-trivial when the grid has more than one cell."
)
ASSUMPTIONS = [
    "Coordinates within 1e-6 cells of a decision boundary are excluded, unless the "
    "documentation settles the tie and the coordinate is exact in binary."
]
SIZES = {"0.1": 0.1, "1/3": 1 / 3, "1": 1.0, "2.5": 2.5, "0.001": 1e-3, "30": 30.0}
ORIGINS = {"0": (0.0, 0.0), "a": (0.3, -0.7), "utm": (493500.25, 6781000.1)}


class Geometry:
    def __init__(self, nx, ny, dx, dy, origin, dirs):
        self.n = (nx, ny)
        o = ORIGINS[origin]
        d = (SIZES[dx], SIZES[dy])
        self.xlim, self.ylim = rk.limits(nx, ny, d, o, dirs)
        lims = (self.xlim, self.ylim)
        self.o = [F(v[0]) for v in lims]
        self.d = [(F(v[1]) - F(v[0])) / n for v, n in zip(lims, self.n)]
        # All coordinates used are exact in binary
        self.exact = {dx, dy} <= {"1", "2.5", "30"} and origin == "0"
        self.grid = Grid((nx, ny), x=self.xlim, y=self.ylim)

    def at(self, dim, u):
        """Coordinate at u cells from the origin, as the nearest float."""
        return float(self.o[dim] + F(u) * self.d[dim])

    def cells(self, dim, v):
        """Exact number of cells from the origin of a float coordinate."""
        return (F(v) - self.o[dim]) / self.d[dim]


def geometry(nx, ny, dx, dy, origin, dirs):
    g = Geometry(nx, ny, dx, dy, origin, tuple(dirs))
    grid = g.grid
    where = f"{nx}x{ny} cells {dx},{dy} origin {origin} {dirs}"
    n = 0
    tol = 1e-9 * max(map(abs, g.xlim + g.ylim)) + 1e-12
    # Cells and indices
    rc = np.array(list(itertools.product(range(ny), range(nx))))
    xy = grid.rowcol_to_xy(rc)
    want = np.array([(g.at(0, F(2 * c + 1, 2)), g.at(1, F(2 * r + 1, 2))) for r, c in rc.tolist()])
    require(np.allclose(xy, want, atol=tol, rtol=0), f"{where}: cell centres {xy}")
    require(np.allclose(xy[:nx, 0], grid.x, atol=tol, rtol=0), f"{where}: x")
    require(np.allclose(xy[::nx, 1], grid.y, atol=tol, rtol=0), f"{where}: y")
    for snap in (True, False):
        for inb in (True, False):
            back = grid.xy_to_rowcol(xy, snap=snap, inbounds=inb)
            require(
                np.array_equal(back, rc) if snap else np.allclose(back, rc, atol=1e-6),
                lambda: f"{where}: {xy} became {back} not {rc}",
            )
            if snap:
                require(np.issubdtype(back.dtype, np.integer), f"{where}: index type")
    idx = grid.rowcol_to_idx(rc)
    require(np.array_equal(idx, np.arange(nx * ny)), f"{where}: flat indices {idx}")
    require(np.array_equal(grid.idx_to_rowcol(idx), rc), f"{where}: from flat indices")
    X = np.array([grid.X.ravel(), grid.Y.ravel()]).T
    require(np.allclose(X[idx], xy, atol=tol, rtol=0), f"{where}: X, Y by flat index")
    n += len(rc)
    # Image coordinates
    uv = rc[:, ::-1] + 0.5
    require(np.allclose(grid.xyz_to_uv(xy), uv, atol=1e-6), f"{where}: uv")
    xyz = grid.uv_to_xyz(uv)
    require(np.allclose(xyz[:, :2], xy, atol=tol, rtol=0), f"{where}: xyz")
    require(xyz.shape == (len(uv), 3) and np.isnan(xyz[:, 2]).all(), f"{where}: z")
    # Points on a quarter-cell lattice
    q = [F(k, 8) for k in range(-5, 8 * max(nx, ny) + 6)]
    us = [u for u in q if u <= nx + F(5, 8)]
    vs = [v for v in q if v <= ny + F(5, 8)]
    # Each dimension on its own: all columns with one row, and the reverse
    lattice = [(u, F(3, 8)) for u in us] + [(F(3, 8), v) for v in vs]
    lattice += [(u, v) for u in (0, F(1, 2), nx) for v in vs]
    pts = np.array([(g.at(0, u), g.at(1, v)) for u, v in lattice])
    inside = [0 <= u <= nx and 0 <= v <= ny for u, v in lattice]
    got = grid.inbounds_xy(pts)
    exact = [(g.cells(0, p[0]), g.cells(1, p[1])) for p in pts]

    def clear(i, dims=(0, 1)):
        """The point is not within rounding of the grid's bounds."""
        return all(
            abs(exact[i][k]) > F(1, 10 ** 6) and abs(exact[i][k] - g.n[k]) > F(1, 10 ** 6)
            for k in dims
        )

    for i in range(len(pts)):
        # At the bounds themselves, floats decide exactly
        on = all(
            (min(l) <= p <= max(l)) for l, p in ((g.xlim, pts[i][0]), (g.ylim, pts[i][1]))
        )
        require(got[i] == on, f"{where}: {lattice[i]} in bounds is {got[i]}")
        if clear(i):
            require(on == inside[i], "harness")
    uvb = np.array([(float(u), float(v)) for u, v in lattice])
    require(list(grid.inbounds(uvb)) == inside, f"{where}: image coordinates in bounds")
    gx, gy = grid.inbounds_xy((pts[:, 0], pts[:, 1]), grid=True)
    require(np.array_equal(gx & gy, got), f"{where}: grid in bounds")
    n += len(pts)
    for centers, edges in ((True, False), (False, True), (True, True)):
        for inb in (True, False):
            snapped = grid.snap_xy(pts.copy(), centers=centers, edges=edges, inbounds=inb)
            for i, (p, s) in enumerate(zip(pts, snapped)):
                for k in range(2):
                    e = g.cells(k, p[k])
                    got1 = g.cells(k, s[k])
                    # Candidates are j / 2 with j of the allowed parities
                    j = int(2 * e // 1)
                    allowed = [
                        F(i, 2)
                        for i in range(j - 2, j + 4)
                        if (centers and i % 2) or (edges and not i % 2)
                    ]
                    options = sorted((abs(c - e), c) for c in allowed)
                    best = [options[0][1]]
                    if options[1][0] - options[0][0] < F(1, 10 ** 5):
                        # A tie
                        best = [options[0][1], options[1][1]]
                        at = e == round(e)
                        if centers and not edges and g.exact and at:
                            # Documented: to higher indices, unless on the outer edge
                            best = [max(best)]
                            if inb and e == g.n[k]:
                                best = [e - F(1, 2)]
                    elif centers and not edges and inb and p[k] == (g.xlim, g.ylim)[k][1]:
                        continue
                    require(
                        min(abs(b - got1) for b in best) < F(1, 10 ** 5),
                        f"{where}: {p[k]} (cell {float(e)}) snapped to {float(got1)} "
                        f"with centers={centers} edges={edges}, expected {best}",
                    )
                    if inb and centers and not edges and (g.xlim, g.ylim)[k][1] == p[k]:
                        require(got1 < g.n[k], f"{where}: outer edge snapped outside")
                    n += 1
    # Points inside a cell snap to it
    rci = grid.xy_to_rowcol(pts, snap=True)
    for i in range(len(pts)):
        for k in range(2):
            e = exact[i][k]
            if abs(e - round(e)) > F(1, 10 ** 5) and e > 0:
                require(
                    rci[i][1 - k] == int(e), f"{where}: {pts[i]} is in cell {rci[i]}"
                )
    try:
        grid.snap_xy(pts)
    except ValueError:
        pass
    else:
        require(False, f"{where}: snapping to nothing was accepted")
    return stats([where], n, where, nx * ny > 1)


def crops(nx, ny, dx, dy, origin, dirs):
    """Cropping to limits returns exactly the cells which the limits touch."""
    g = Geometry(nx, ny, dx, dy, origin, tuple(dirs))
    grid = g.grid
    where = f"{nx}x{ny} cells {dx},{dy} origin {origin} {dirs}"
    quarter = [F(k, 4) for k in range(-3, 4 * max(nx, ny) + 4)]
    n = 0
    tol = 1e-9 * max(map(abs, g.xlim + g.ylim)) + 1e-12

    def touched(dim, a, b):
        """Cells with an interior point in (a, b)"""
        a, b = max(a, 0), min(b, g.n[dim])
        if b <= a:
            return None
        first = int(a)
        last = int(b) - (b == int(b))
        return first, last

    values = np.arange(nx * ny).reshape(ny, nx)
    for dim in (0, 1):
        for a, b in itertools.combinations([u for u in quarter if u <= g.n[dim] + 1], 2):
            want = touched(dim, a, b)
            lim = (g.at(dim, a), g.at(dim, b))
            for flip in (False, True):
                kwargs = {"xy"[dim] + "lim": lim[::-1] if flip else lim}
                try:
                    xl, yl, rows, cols = grid.crop_extent(**kwargs)
                except ValueError:
                    require(want is None, f"{where}: crop {kwargs} was refused")
                    continue
                if want is None:
                    # Only touching the outer edge, up to rounding
                    require(
                        b == 0 or a == g.n[dim],
                        f"{where}: crop {kwargs} outside the grid gives {rows} {cols}",
                    )
                    # ... is one border cell wide
                    got = [(int(v[0]), int(v[1])) for v in (cols, rows)]
                    full = [(0, nx - 1), (0, ny - 1)]
                    k = 0 if b == 0 else g.n[dim] - 1
                    full[dim] = (k, k)
                    require(got == full, f"{where}: crop {kwargs} gives {got}, not {full}")
                    continue
                got = [(int(v[0]), int(v[1])) for v in (cols, rows)]
                full = [(0, nx - 1), (0, ny - 1)]
                full[dim] = want
                require(
                    got == full, f"{where}: crop {kwargs} gives {got}, expected {full}"
                )
                for k, lims in enumerate((xl, yl)):
                    exp = (g.at(k, full[k][0]), g.at(k, full[k][1] + 1))
                    require(
                        np.allclose(lims, exp, atol=tol, rtol=0),
                        f"{where}: crop {kwargs} has limits {lims}, expected {exp}",
                    )
                n += 1
            if want:
                r = Raster(values.copy(), x=g.xlim, y=g.ylim)
                r.crop(**{"xy"[dim] + "lim": lim})
                part = values[want[0] : want[1] + 1] if dim else values[:, want[0] : want[1] + 1]
                require(np.array_equal(r.array, part), f"{where}: cropped {r.array}")
        # Limits which are barely off an edge count, rounding errors do not
        for i in range(g.n[dim] + 1):
            for e, counts in ((F(1, 500), True), (F(1, 10 ** 4), True), (F(1, 10 ** 9), False)):
                if not counts and not g.exact:
                    continue
                for a, b in itertools.product((i - e, i + e), (i - e + 1, i + e + 1)):
                    if b <= 0 or a >= g.n[dim]:
                        continue
                    want = touched(dim, a, b) if counts else (max(i, 0), min(i, g.n[dim] - 1))
                    if want[0] > want[1] or want[1] < want[0]:
                        continue
                    lim = (g.at(dim, a), g.at(dim, b))
                    c = grid.crop_extent(**{"xy"[dim] + "lim": lim})[3 - dim]
                    require(
                        (int(c[0]), int(c[1])) == want,
                        f"{where}: crop {lim} (cells {float(a)} {float(b)}) gives {c}, not {want}",
                    )
                    n += 1
                # Narrower than a rounding error: never nothing
                if not counts:
                    for a, b in ((i, i + e), (i - e, i), (i - e, i + e), (i - 2 * e, i - e)):
                        if b <= 0 or a >= g.n[dim]:
                            continue
                        lim = (g.at(dim, a), g.at(dim, b))
                        c = grid.crop_extent(**{"xy"[dim] + "lim": lim})[3 - dim]
                        require(
                            max(i - 1, 0) <= c[0] <= c[1] <= min(i, g.n[dim] - 1),
                            f"{where}: crop {lim} gives {c}",
                        )
    # Both at once
    rng = [F(k, 2) for k in range(0, 2 * max(nx, ny) + 1)]
    for a, b in itertools.combinations([u for u in rng if u <= nx], 2):
        for c, d in itertools.combinations([u for u in rng if u <= ny], 2):
            xl, yl, rows, cols = grid.crop_extent(
                xlim=(g.at(0, a), g.at(0, b)), ylim=(g.at(1, c), g.at(1, d))
            )
            require(
                (tuple(cols), tuple(rows)) == (touched(0, a, b), touched(1, c, d)),
                f"{where}: crop {a} {b} {c} {d} gives {cols} {rows}",
            )
            n += 1
    return stats([where], n, where, nx * ny > 1)


def construct(nx, ny, dirs, order):
    """A grid described by limits, coordinate vectors or matrices is the same."""
    d = (2.0, 0.5)
    xlim, ylim = rk.limits(nx, ny, d, (10.0, -4.0), tuple(dirs))
    cx, cy = rk.centers(xlim, nx), rk.centers(ylim, ny)
    xs = {"lim": xlim, "lims": list(xlim), "array": np.array(xlim)}
    ys = {"lim": ylim, "lims": list(ylim), "array": np.array(ylim)}
    if nx > 2:
        xs.update(vector=cx, list=cx.tolist())
    if ny > 2:
        ys.update(vector=cy, list=cy.tolist())
    if nx > 1:
        xs["matrix"] = np.tile(cx, (ny, 1))
    if ny > 1:
        ys["matrix"] = np.tile(cy, (nx, 1)).T
    values = rk.values(ny, nx)
    n = 0
    for (kx, x), (ky, y) in itertools.product(xs.items(), ys.items()):
        where = f"{nx}x{ny} {dirs} from {kx}, {ky}"
        lent = [np.array(v, copy=True) for v in (x, y)]
        for size in ((nx, ny), np.array([nx, ny]), nx):
            if np.isscalar(size) and nx != ny:
                continue
            for obj in (Grid(size, x=x, y=y), Raster(values, x=x, y=y)):
                # Derived data in every order
                got = {}
                for k in itertools.islice(itertools.permutations("xXyY"), order, order + 1):
                    for attr in k:
                        got[attr] = np.array(getattr(obj, attr))
                require(tuple(obj.size) == (nx, ny), f"{where}: size {obj.size}")
                require(tuple(obj.shape) == (ny, nx), f"{where}: shape {obj.shape}")
                require(
                    np.allclose(obj.xlim, xlim) and np.allclose(obj.ylim, ylim),
                    f"{where}: limits {obj.xlim} {obj.ylim}",
                )
                require(
                    np.allclose(obj.d, (d[0] * dirs[0], d[1] * dirs[1])), f"{where}: d {obj.d}"
                )
                require(
                    np.allclose(obj.min, (10, -4)) and np.allclose(obj.max, (10 + 2 * nx, -4 + 0.5 * ny)),
                    f"{where}: bounds {obj.min} {obj.max}",
                )
                require(np.allclose(obj.box2d, [*obj.min, *obj.max]), f"{where}: box")
                require(got["x"].shape == (nx,) and np.allclose(got["x"], cx), f"{where}: x")
                require(got["y"].shape == (ny,) and np.allclose(got["y"], cy), f"{where}: y")
                require(
                    got["X"].shape == (ny, nx) and np.allclose(got["X"], cx[None]), f"{where}: X"
                )
                require(
                    got["Y"].shape == (ny, nx) and np.allclose(got["Y"], cy[:, None]),
                    f"{where}: Y",
                )
                same = Grid((nx, ny), x=xlim, y=ylim)
                require(
                    Grid(obj.size, x=obj.xlim, y=obj.ylim) == same, f"{where}: equality"
                )
                n += 1
        require(
            all(np.array_equal(a, b) for a, b in zip(lent, (x, y))), f"{where}: arguments"
        )
    # Defaults
    g = Grid((nx, ny))
    require(
        tuple(g.xlim) == (0, nx) and tuple(g.ylim) == (0, ny), f"default limits {g.xlim} {g.ylim}"
    )
    # Different grids are different
    base = Grid((nx, ny), x=xlim, y=ylim)
    for other in (
        Grid((nx + 1, ny), x=xlim, y=ylim),
        Grid((nx, ny + 1), x=xlim, y=ylim),
        Grid((nx, ny), x=xlim[::-1], y=ylim),
        Grid((nx, ny), x=xlim, y=ylim[::-1]),
        Grid((nx, ny), x=np.array(xlim) + 1e-3, y=ylim),
        Grid((nx, ny), x=xlim, y=(ylim[0], ylim[1] + 1e-3)),
    ):
        require(not base == other and base != other, "different grids are equal")
    # Plot axes run like the grid: rows downwards
    import matplotlib.pyplot as plt

    fig = plt.figure()
    try:
        base.set_plot_limits()
        require(
            np.allclose(plt.xlim(), xlim) and np.allclose(plt.ylim(), ylim[::-1]),
            f"plot limits {plt.xlim()} {plt.ylim()}",
        )
        r = Raster(values, x=xlim, y=ylim)
        for image, want in ((r.plot(), values), (r.plot(values + 1, cmap="gray"), values + 1)):
            require(
                np.allclose(image.get_extent(), (*xlim, *ylim[::-1])),
                f"plotted over {image.get_extent()}",
            )
            require(np.array_equal(image.get_array(), want), "plotted values")
            # Row 0 is drawn at the end of the axis named second by the extent
            require(image.origin == "upper", "plotted upside down")
    finally:
        plt.close(fig)
    # Refusals
    bad = [
        lambda: Grid((nx, 0)),
        lambda: Grid((-nx, ny)),
        lambda: Grid((nx, ny, 1)),
        lambda: Grid((nx + 0.5, ny)),
        lambda: Grid((nx, ny), x=(1, 1)),
        lambda: Grid((nx, ny), y=(2.0, 2.0)),
        lambda: Grid((nx, ny), x=("a", "b")),
        lambda: Grid((nx, ny), x=(3,)),
        lambda: setattr(Grid((nx, ny)), "xlim", (0, 1, 2)),
        lambda: setattr(Grid((nx, ny)), "ylim", (4, 4)),
        lambda: setattr(Grid((nx, ny)), "size", (1, 2, 3)),
    ]
    for k, f in enumerate(bad):
        try:
            f()
        except ValueError:
            continue
        require(False, f"invalid grid {k} was accepted")
    return stats([(nx, ny, dirs, order)], n, (nx, ny, dirs), True)


def typed(nx, ny, dirs, kind, dtype):
    """A grid described by integers of any type is the one described by floats."""
    xlim, ylim = rk.limits(nx, ny, (40, 30), (0, 0), tuple(dirs))
    if kind == "limits":
        x, y = np.array(xlim), np.array(ylim)
    else:
        x, y = rk.centers(xlim, nx), rk.centers(ylim, ny)
        if kind == "matrices":
            x, y = np.tile(x, (ny, 1)), np.tile(y, (nx, 1)).T
    # Shifted to use the range of the small types, which cannot hold a difference
    base = np.iinfo(dtype).min if dtype in ("int8", "int16") else 0
    x, y = (v - min(v.min(), 0) + base for v in (x, y))
    top = np.iinfo(dtype).max
    if max(x.max(), y.max()) > top:
        return stats([], 0, (), False)
    where = f"{nx}x{ny} {dirs} from {kind} of {dtype}"
    values = rk.values(ny, nx)
    got = Grid((nx, ny), x=x.astype(dtype), y=y.astype(dtype))
    want = Grid((nx, ny), x=x.astype(float), y=y.astype(float))
    raster = Raster(values, x=x.astype(dtype), y=y.astype(dtype))
    n = 0
    for obj in (got, raster):
        for name in ("xlim", "ylim", "d", "min", "max", "x", "y", "X", "Y", "box2d"):
            a, b = getattr(obj, name), getattr(want, name)
            require(
                np.allclose(np.asarray(a, float), np.asarray(b, float), atol=1e-9),
                lambda: f"{where}: {type(obj).__name__}.{name} is {a} not {b}",
            )
            n += 1
        rc = np.array(list(itertools.product(range(ny), range(nx))))
        xy = want.rowcol_to_xy(rc)
        require(np.allclose(obj.rowcol_to_xy(rc), xy), f"{where}: centres")
        require(np.array_equal(obj.xy_to_rowcol(xy, snap=True), rc), f"{where}: cells")
        require(obj.inbounds_xy(xy).all(), f"{where}: in bounds")
        moved, other = obj.copy(), want.copy()
        moved.shift(dx=100, dy=-50)
        other.shift(dx=100, dy=-50)
        for name in ("xlim", "ylim", "x", "y"):
            a, b = getattr(moved, name), getattr(other, name)
            require(np.allclose(a, b), lambda: f"{where}: shifted {name} is {a} not {b}")
            n += 1
    return stats([(kind, dtype, nx, ny, *dirs)], n, (kind, dtype), True)


def refused(nx, ny):
    """Sizes and limits which describe no grid."""
    sizes = [(0, ny), (-1, ny), (nx, 0), (nx, -3), (nx + 0.5, ny), (nx, ny, 1), (), "a", np.array([nx, float(ny)])]
    bad = [(1, 1), (2.5, 2.5), (1,), ("a", "b"), [[1, 2]], [[1, 2, 3]], np.zeros((2, 2, 2))]
    # Coordinates for another number of cells
    bad += [np.arange(k, dtype=float) for k in range(3, 7) if k not in (nx, ny)]
    bad = [v for v in bad if np.shape(v)[:2] != (ny, nx)]
    values = rk.values(ny, nx)
    n = 0

    def attempt(what, fn):
        nonlocal n
        n += 1
        try:
            fn()
        except ValueError:
            return
        require(False, f"{nx}x{ny}: {what} was accepted")

    for size in sizes:
        attempt(f"size {size}", lambda: Grid(size))
        grid = Grid((nx, ny), x=(0, nx), y=(3, 7))
        before = (*grid.size, *grid.xlim, *grid.ylim, *grid.x, *grid.y)
        attempt(f"size set to {size}", lambda: setattr(grid, "size", size))
        require(before == (*grid.size, *grid.xlim, *grid.ylim, *grid.x, *grid.y), f"size {size} was set")
    for value in bad:
        for name in ("x", "y"):
            attempt(f"{name} {value}", lambda: Grid((nx, ny), **{name: value}))
            attempt(f"{name} {value}", lambda: Raster(values, **{name: value}))
            for obj in (Grid((nx, ny), x=(0, nx), y=(3, 7)), Raster(values, x=(0, nx), y=(3, 7))):
                before = (*obj.xlim, *obj.ylim, *obj.x, *obj.y)
                attempt(f"{name} limits {value}", lambda: setattr(obj, name + "lim", value))
                require(before == (*obj.xlim, *obj.ylim, *obj.x, *obj.y), f"{name} limits {value} were set")
    grid = Grid((nx, ny))
    for fn in (grid.snap_xy,):
        attempt("snapping to nothing", lambda: fn(np.array([[0.5, 0.5]]), centers=False, edges=False))
    return stats([(nx, ny)], n, (nx, ny), True)


def snapboxes(nx, ny, d, origin):
    """Windows of a whole number of cells keep their size and stay inside."""
    g = Geometry(nx, ny, d, d, origin, (1, 1))
    s = SIZES[d]
    n = 0
    quarter = [F(k, 4) for k in range(0, 4 * max(nx, ny) + 1)]
    for w in range(1, nx + 1):
        for h in range(1, ny + 1):
            for u in [q for q in quarter if q <= nx]:
                for v in [q for q in quarter if q <= ny]:
                    size = (w * s, h * s)
                    lo = (u - F(w, 2), v - F(h, 2))
                    hi = (u + F(w, 2), v + F(h, 2))
                    inside = all(a >= 0 for a in lo) and hi[0] <= nx and hi[1] <= ny
                    edge = any(a == 0 for a in lo) or hi[0] == nx or hi[1] == ny
                    try:
                        box = g.grid.snap_box((g.at(0, u), g.at(1, v)), size)
                    except IndexError:
                        require(
                            not inside or (edge and not g.exact), f"window {u} {v} {w} {h} refused"
                        )
                        continue
                    require(
                        inside or any(abs(a) < 1e-9 for a in lo) or edge,
                        f"window {lo} {hi} outside the grid was accepted",
                    )
                    cells = [
                        g.cells(0, box[0]), g.cells(1, box[1]), g.cells(0, box[2]), g.cells(1, box[3])
                    ]
                    r = [round(c) for c in cells]
                    require(
                        all(abs(a - b) < F(1, 10 ** 5) for a, b in zip(cells, r)),
                        f"window {cells} is not on cell edges",
                    )
                    if g.exact or all((x - F(1, 2)).denominator != 1 for x in lo):
                        require(
                            (r[2] - r[0], r[3] - r[1]) == (w, h),
                            f"window at {u},{v} of {w}x{h} became {r}",
                        )
                    require(
                        0 <= r[0] and r[2] <= nx and 0 <= r[1] and r[3] <= ny,
                        f"window {r} leaves the grid",
                    )
                    require(
                        all(abs(a - b) <= F(1, 2) + F(1, 10 ** 5) for a, b in zip(r, lo + hi)),
                        f"window {r} is not the nearest to {lo} {hi}",
                    )
                    n += 1
    return stats([(nx, ny, d, origin)], n, (nx, ny, d, origin))


def explore(ck):
    dims = range(1, 6) if ck.thorough else range(1, 5)
    pairs = [(d, d) for d in SIZES] + [("0.1", "1/3"), ("1", "2.5"), ("30", "0.001")]
    if ck.thorough:
        pairs = list(itertools.product(SIZES, repeat=2))
    configs = [
        (nx, ny, dx, dy, o, dirs)
        for nx in dims
        for ny in dims
        for dx, dy in pairs
        for o in ORIGINS
        for dirs in rk.DIRS
        if ck.thorough
        or (nx + ny) % 2
        or (o == "0" and dx in ("0.1", "1/3", "1"))
    ]
    ck.sweep(geometry, [c for c in configs if ck.thorough or max(c[:2]) < 4], timeout=200)
    ck.sweep(
        crops,
        [c for c in configs if ck.thorough or max(c[:2]) < 4 or c[:2] == (4, 1)],
        timeout=200,
    )
    ck.sweep(
        construct,
        [
            (nx, ny, dirs, o)
            for nx in range(1, 5)
            for ny in range(1, 5)
            for dirs in rk.DIRS
            for o in (range(24) if ck.thorough else range(0, 24, 5))
        ],
        timeout=200,
    )
    ck.sweep(
        typed,
        [
            (nx, ny, dirs, kind, dtype)
            for nx in range(3, 6)
            for ny in range(3, 6)
            for dirs in rk.DIRS
            for kind in ("limits", "vectors", "matrices")
            for dtype in ("uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64")
        ],
        timeout=200,
    )
    ck.sweep(refused, [(nx, ny) for nx in range(1, 6) for ny in range(1, 6)])
    ck.sweep(
        snapboxes,
        [
            (nx, ny, d, o)
            for nx in dims
            for ny in dims
            for d in SIZES
            for o in ORIGINS
        ],
        timeout=200,
    )
