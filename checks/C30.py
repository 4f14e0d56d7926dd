"""Tile sampling and matching are centred where they claim."""
import itertools
from fractions import Fraction as F

import matplotlib
import numpy as np

from mc.core import require, scratch, stats
from mc import trackkit as tk
from glimpse import Observer, Raster

matplotlib.use("agg")

LEVEL = "model_checking"
RULE = (
    "A case is one tile box (image size, box size, centre on a quarter-pixel lattice), one "
    "shift of a tile, or one sampling of a tile by points and grids for a box scale; "
    "compared with exact cell geometry. Non-trivial when the box, shift or sampling is "
    "not the identity."
)
ASSUMPTIONS = [
    "Tiles are linear in rows and columns, for which interpolating splines of any order "
    "are exact between cell centres; at cell centres any values.",
]


def observer(nx, ny, dtype="f8", bands=1):
    a = np.arange(nx * ny, dtype=float).reshape(ny, nx) % 251
    if bands > 1:
        a = np.dstack([a + 3 * k for k in range(bands)])
    return Observer([Raster(a.astype(dtype), datetime=tk.day(k)) for k in range(2)])


def boxes(nx, ny, size):
    """Boxes around every quarter-pixel centre, in one of two images of different sizes."""
    obs = observer(nx, ny)
    obs.images[0] = observer(nx + 2, max(ny - 1, 1)).images[0]
    w, h = size
    outcomes = []
    grid = itertools.product(range(0, 4 * nx + 1), range(0, 4 * ny + 1))
    for qu, qv in grid:
        uv = F(qu, 4), F(qv, 4)
        point = np.array([float(uv[0]), float(uv[1])])
        where = f"box {size} at {tuple(map(float, uv))} in image {(nx, ny)}"
        fits = all(F(k, 2) <= c <= n - F(k, 2) for c, k, n in zip(uv, size, (nx, ny)))
        try:
            box = obs.tile_box(point, size=size, img=1)
        except IndexError:
            require(not fits, f"{where}: refused")
            outcomes.append(None)
            continue
        require(np.asarray(box).dtype.kind == "i", f"{where}: {box} is not integer")
        box = [int(b) for b in box]
        require(list(point) == [float(c) for c in uv], f"{where}: the centre was changed")
        require(box[2] - box[0] == w and box[3] - box[1] == h, f"{where}: {box}")
        require(box[0] >= 0 and box[1] >= 0 and box[2] <= nx and box[3] <= ny, f"{where}: {box}")
        if fits:
            for k in range(2):
                off = abs(F(box[k] + box[k + 2], 2) - uv[k])
                require(off <= F(1, 2), f"{where}: {box} is off by {float(off)}")
        tile = obs.extract_tile(box, img=1)
        require(
            np.array_equal(tile, obs.images[1].array[box[1] : box[3], box[0] : box[2]]),
            f"{where}: tile of {box}",
        )
        outcomes.append(tuple(box))
    return stats([(nx, ny, size)], len(outcomes), outcomes, any(outcomes))


def linear(ny, nx, coef, dtype):
    i, j = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    return (coef[0] * i + coef[1] * j + coef[2]).astype(dtype)


def shifts(shape, coef, dtype, bands, duv, order):
    """Shifting samples the tile at shifted positions and leaves the tile alone."""
    ny, nx = shape
    obs = observer(4, 4)
    tile = linear(ny, nx, coef, dtype)
    want = np.empty((ny, nx))
    for i, j in itertools.product(range(ny), range(nx)):
        # NOTE: Clamped to the outermost cell centres
        y = min(max(i + duv[1], 0), ny - 1)
        x = min(max(j + duv[0], 0), nx - 1)
        want[i, j] = coef[0] * y + coef[1] * x + coef[2]
    if bands is not None:
        tile = np.dstack([tile * (k + 1) for k in range(bands)])
        want = np.dstack([want * (k + 1) for k in range(bands)])
    before = tile.copy()
    got = obs.shift_tile(tile, duv, kx=order, ky=order)
    where = f"{shape} tile {coef} {dtype} bands {bands} shifted by {duv} order {order}"
    require(np.array_equal(tile, before) and tile.dtype == before.dtype, f"{where}: the tile was changed")
    require(np.size(got) == np.size(want), f"{where}: shape {got.shape}")
    require(
        np.allclose(np.reshape(got, want.shape), want, atol=1e-4 if dtype == "f4" else 1e-7),
        lambda: f"{where}: {np.squeeze(got).tolist()}, not {np.squeeze(want).tolist()}",
    )
    if duv == (0, 0):
        got = obs.shift_tile(tile * 0 + (tile % 3) ** 2, duv, kx=order, ky=order)
        require(
            np.allclose(np.reshape(got, tile.shape), (tile % 3) ** 2, atol=1e-7),
            f"{where}: no shift changes values",
        )
    return stats([where], 1, want.tobytes(), any(duv))


def too_far(duv):
    try:
        observer(4, 4).shift_tile(np.zeros((5, 5)), duv)
    except ValueError:
        return stats([duv], 1, "refused")
    require(False, f"shift {duv} was accepted")


def samples(shape, box, order, dtype):
    """Sampling at cell centres, between them, by points and by grids."""
    ny, nx = shape
    obs = observer(4, 4)
    du = (F(box[2]) - F(box[0])) / nx
    dv = (F(box[3]) - F(box[1])) / ny
    cu = [F(box[0]) + du * (F(1, 2) + k) for k in range(nx)]
    cv = [F(box[1]) + dv * (F(1, 2) + k) for k in range(ny)]
    where = f"{shape} tile in box {box} order {order}"
    # Any values at cell centres
    tile = ((np.arange(nx * ny) * 7 + 3) % 11).reshape(shape).astype(dtype)
    before = tile.copy()
    uv = np.array([(float(u), float(v)) for v in cv for u in cu])
    got = obs.sample_tile(uv, tile=tile, box=np.array(box), grid=False, kx=order, ky=order)
    require(
        np.allclose(got, tile.ravel(), atol=1e-7),
        lambda: f"{where}: cell centres {got.tolist()}, not {tile.ravel().tolist()}",
    )
    g = obs.sample_tile(
        (np.array(list(map(float, cu))), np.array(list(map(float, cv)))),
        tile=tile, box=np.array(box), grid=True, kx=order, ky=order,
    )
    require(g.shape == shape and np.allclose(g, tile, atol=1e-7), f"{where}: grid of cell centres {g.tolist()}")
    # Linear values anywhere between them
    coef = (3, -2, 5)
    tile2 = linear(ny, nx, coef, dtype if dtype != "u1" else "f8")
    us = sorted({F(box[0]), *cu, *[c + du / 4 for c in cu[:-1]], F(box[2])})
    vs = sorted({F(box[1]), *cv, *[c + dv / 3 for c in cv[:-1]], F(box[3])})
    def value(u, v):
        x = min(max((u - cu[0]) / du, 0), nx - 1)
        y = min(max((v - cv[0]) / dv, 0), ny - 1)
        return float(coef[0] * y + coef[1] * x + coef[2])
    want = np.array([[value(u, v) for u in us] for v in vs])
    uv = np.array([(float(u), float(v)) for v in vs for u in us])
    uv = np.clip(uv, [float(box[0]), float(box[1])], [float(box[2]), float(box[3])])
    got = obs.sample_tile(uv, tile=tile2, box=np.array(box), grid=False, kx=order, ky=order)
    require(np.allclose(got, want.ravel(), atol=1e-6), lambda: f"{where}: {got.tolist()}, not {want.ravel().tolist()}")
    g = obs.sample_tile(
        (np.array(list(map(float, us))), np.array(list(map(float, vs)))),
        tile=tile2, box=np.array(box), grid=True, kx=order, ky=order,
    )
    require(g.shape == want.shape and np.allclose(g, want, atol=1e-6), f"{where}: grid {g.tolist()}")
    # One column and many rows
    g = obs.sample_tile(
        (np.array([float(cu[1])]), np.array(list(map(float, cv)))),
        tile=tile2, box=np.array(box), grid=True, kx=order, ky=order,
    )
    require(np.allclose(g[:, 0], [value(cu[1], v) for v in cv], atol=1e-6), f"{where}: one column {g.tolist()}")
    # Outside
    for k, sign in itertools.product(range(2), (-1, 1)):
        p = [float(cu[0]), float(cv[0])]
        p[k] = float(F(box[k] if sign < 0 else box[k + 2]) + sign * F(1, 8))
        forms = [(np.array([[float(cu[0]), float(cv[0])], p]), False), ((np.array([p[0]]), np.array([p[1]])), True)]
        for q, grid in forms:
            try:
                obs.sample_tile(q, tile=tile2, box=np.array(box), grid=grid, kx=order, ky=order)
            except ValueError:
                continue
            require(False, f"{where}: {p} outside was accepted")
    require(np.array_equal(tile, before), f"{where}: the tile was changed")
    return stats([where], 6, where)


def plots(shape, box):
    """A plotted tile covers its box, or its own size."""
    import matplotlib.pyplot as plt

    obs = observer(4, 4)
    fig, ax = plt.subplots()
    im = obs.plot_tile(np.zeros(shape), box=box, axes=ax)
    b = box or (0, 0, shape[1], shape[0])
    extent = list(map(float, im.get_extent()))
    plt.close(fig)
    require(extent == [b[0], b[2], b[3], b[1]], f"tile {shape} box {box} plotted over {extent}")
    return stats([str((shape, box))], 1, extent)


def explore(ck):
    deep = ck.thorough
    dims = [(5, 4), (3, 6)] + ([(7, 7), (1, 5), (8, 3)] if deep else [])
    ck.sweep(boxes, [
        (nx, ny, (w, h))
        for nx, ny in dims for w in range(1, nx + 1) for h in range(1, ny + 1)
    ])
    qs = [k / 4 for k in range(-2, 3)] + ([0.1, -0.37] if deep else [0.1])
    ck.sweep(shifts, [
        (s, c, dt, b, (du, dv), o)
        for s in ((4, 4), (4, 6), (7, 5)) for c in ((1, 0, 0), (0, 2, 1), (3, -2, 50))
        for dt in ("f8", "f4", "i4", "u1") if dt != "u1" or c[1] >= 0
        for b in (None, 1, 2, 3) for du in qs for dv in qs
        for o in ((1, 3) if deep else (3,) if (du, dv) != (0, 0) else (1, 3))
    ])
    ck.sweep(too_far, [((a, b),) for a in (0, 0.51, -0.75, 0.5) for b in (0, 0.6, -1) if abs(a) > 0.5 or abs(b) > 0.5])
    cases = []
    for s in ((4, 4), (4, 7), (6, 4)):
        ny, nx = s
        for x0, y0 in ((0, 0), (10, 3), (-2.5, 7.25)):
            for sx, sy in itertools.product((1, 2, 0.5, 0.75, 3), repeat=2):
                for o in (1, 3):
                    for dt in ("f8", "f4", "u1"):
                        cases.append((s, (x0, y0, x0 + nx * sx, y0 + ny * sy), o, dt))
    ck.sweep(samples, cases)
    for s in ((3, 3), (2, 5), (4, 1), (3, 2, 3)):
        for b in (None, (1, 2, 6, 9)):
            ck.run(plots, s, b)
