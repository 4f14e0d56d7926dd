"""Projecting a terrain into the image does not depend on tiling."""
import functools
import itertools
import math

import numpy as np

from checks.C17 import reference
from mc import rasterkit as rk, trackkit as tk
from mc.core import require, scratch, stats
from glimpse import Camera, Raster, config

LEVEL = "model_checking"
RULE = (
    "A case is a scene, a tiling and a schedule of the tiles; the image is compared with "
    "the cell-by-cell projection of the terrain. Non-trivial when several cells meet in "
    "one pixel or some cells are out of sight."
)
ASSUMPTIONS = [
    "The image averages all cells which fall in a pixel: hidden cells are removed by the mask.",
    "When tiles are rescaled, only bounds, constants, holes and schedule independence are claimed.",
]

VIEWS = {
    # Straight down, each cell in a pixel of its own
    "aligned": dict(imgsz=(6, 5), f=10, xyz=(3, 2.5, 10), viewdir=(0, -90, 0)),
    # Straight down, some cells exactly on the image edge
    "edge": dict(imgsz=(5, 4), f=10, xyz=(3, 2.5, 10), viewdir=(0, -90, 0)),
    # Several cells per pixel
    "coarse": dict(imgsz=(3, 2), f=4, xyz=(3, 2.5, 10), viewdir=(0, -90, 0)),
    # Many pixels per cell
    "fine": dict(imgsz=(17, 13), f=27, xyz=(3.01, 2.48, 10), viewdir=(0, -90, 0)),
    # Oblique, distorted, partly out of the frame and behind
    "oblique": dict(
        imgsz=(8, 5), f=6, c=(0.5, 0.25), k=(0.05, -0.02), p=(0.002, 0.001), xyz=(3.3, 0.4, 4), viewdir=(10, -40, 5)
    ),
    "away": dict(imgsz=(4, 4), f=4, xyz=(3, -20, 4), viewdir=(180, 0, 0)),
}


def scene(dirs, dtype, z, nodata):
    nx, ny = 6, 5
    xlim, ylim = rk.limits(nx, ny, (1.0, 1.0), (0.0, 0.0), dirs)
    if z == "flat":
        a = np.zeros((ny, nx))
    else:
        a = (rk.values(ny, nx) % 7) / 8 if np.dtype(dtype).kind == "f" else rk.values(ny, nx) % 2
    a = np.asarray(a).astype(dtype)
    if nodata:
        a[1, 2] = a[4, 5] = a[3, 0] = np.nan
    return Raster(a, x=xlim, y=ylim)


def layers(dem, n):
    if n is None:
        return None
    v = rk.values(*dem.shape)
    if n == 0:
        return v
    return np.dstack([v * (k + 1) - 3 * k for k in range(n)])


def masks(dem, kind):
    if kind is None:
        return None
    m = np.zeros(dem.shape, dtype=bool)
    if kind == "some":
        m[::2, 1:] = True
        m[1, :3] = True
    if kind == "all":
        # Even cells without elevation
        return ~m
    m &= ~np.isnan(dem.array)
    return m


@functools.lru_cache(maxsize=None)
def expected(view, dirs, dtype, z, nodata, nlayers, mask, depth):
    """Average of all cells which project into each pixel, one by one."""
    p = dict(k=(0,) * 6, p=(0, 0), c=(0, 0))
    p.update(VIEWS[view])
    cam = Camera(**p)
    p["f"] = cam.f.tolist()
    p["k"] = cam.k.tolist()
    dem = scene(dirs, dtype, z, nodata)
    v = layers(dem, nlayers)
    m = masks(dem, mask)
    nx, ny = p["imgsz"]
    cells = {}
    X, Y = rk.centers(dem.xlim, 6), rk.centers(dem.ylim, 5)
    out = 0
    for i in range(5):
        for j in range(6):
            e = float(dem.array[i, j])
            if math.isnan(e) or (m is not None and not m[i, j]):
                continue
            (u, w), d = reference(p, (X[j] - p["xyz"][0], Y[i] - p["xyz"][1], e - p["xyz"][2]))
            if view == "edge":
                # Exact on the edge
                u, w = round(u, 9), round(w, 9)
            if math.isnan(u) or not (0 <= u <= nx and 0 <= w <= ny):
                out += 1
                continue
            row = [] if v is None else list(np.atleast_3d(v)[i, j])
            cells.setdefault((min(int(w), ny - 1), min(int(u), nx - 1)), []).append(
                row + ([d] if depth else [])
            )
    bands = (0 if v is None else np.atleast_3d(v).shape[2]) + depth
    img = np.full((ny, nx, bands), np.nan)
    for (r, c), rows in cells.items():
        img[r, c] = np.mean(rows, axis=0)
    shared = sum(len(r) > 1 for r in cells.values())
    return img, shared or out, len(cells)


def project(view, dem, v, m, tile, overlap, depth, pool, **kwargs):
    cam = Camera(**VIEWS[view])
    args = [None if a is None else a.copy() for a in (dem.array, v, m)]
    state = cam.to_array()
    kw = dict(values=v, mask=m, tile_size=tile, tile_overlap=overlap, return_depth=depth, **kwargs)
    if pool is None:
        img = cam.project_dem(dem, **kw)
    else:
        with tk.backend(pool):
            img = cam.project_dem(dem, parallel=2, **kw)
    for a, b in zip(args, (dem.array, v, m)):
        require(a is None or np.array_equal(a, b, equal_nan=True), "inputs changed")
    require(np.array_equal(state, cam.to_array()), "camera changed")
    return img


def tilings(view, dirs, dtype, z, nodata, nlayers, mask, depth, tiles, overlaps):
    """All tilings of one scene."""
    want, nontrivial, n = expected(view, dirs, dtype, z, nodata, nlayers, mask, depth)
    dem = scene(dirs, dtype, z, nodata)
    v, m = layers(dem, nlayers), masks(dem, mask)
    states = set()
    total = 0
    for tile in tiles:
        for overlap in overlaps:
            img = project(view, dem, v, m, tile, overlap, depth, None)
            require(img.shape == want.shape, f"shape {img.shape}, expected {want.shape}")
            bad = ~np.isclose(img, want, rtol=1e-9, atol=1e-9, equal_nan=True)
            require(
                not bad.any(),
                lambda: f"{view} {dirs} {dtype} {z} nodata={nodata} layers={nlayers} mask={mask} "
                f"depth={depth} tiles {tile} overlap {overlap}: (row, column, layer) "
                f"{np.argwhere(bad)[0].tolist()} is {img[tuple(np.argwhere(bad)[0])]}, "
                f"expected {want[tuple(np.argwhere(bad)[0])]}",
            )
            states.add((tuple(tile), tuple(overlap)))
            total += 1
    return stats(states, total, (view, dirs, dtype, z, nodata, nlayers, mask, depth, n), bool(nontrivial), total)


def from_file(view, tile, overlap, depth):
    """Elevations read from a file on demand."""
    want, _, n = expected(view, (1, -1), "f4", "rough", True, 1, None, depth)
    dem = scene((1, -1), "f4", "rough", True)
    with scratch():
        rk.write_tif("dem.tif", dem.array, dem.xlim, dem.ylim)
        r = Raster.open("dem.tif")
        img = project(view, r, layers(dem, 1), None, tile, overlap, depth, None)
    require(np.allclose(img, want, equal_nan=True), f"{view} {tile} {overlap}: file")
    return stats([(tile, overlap)], 1, (view, tile, overlap), n > 0)


def schedules(view, tile, overlap, depth, assignment, order, scale):
    """Every order in which parallel tiles complete."""
    dem = scene((1, -1), "f8", "rough", True)
    v = layers(dem, 2)
    kw = dict(scale=scale, scale_limits=(0.5, 3)) if scale else {}
    serial = project(view, dem, v, None, tile, overlap, depth, None, **kw)
    pool = functools.partial(tk.PermutedPool, assignment=assignment, order=order)
    img = project(view, dem, v, None, tile, overlap, depth, pool, **kw)
    require(
        np.array_equal(img, serial, equal_nan=True),
        lambda: f"{view} tiles {tile} overlap {overlap} completed in the order {order} by "
        f"workers {assignment}: {np.argwhere(~((img == serial) | np.isnan(img)))[:3].tolist()} differ",
    )
    return stats([(tuple(order), tuple(assignment))], len(order), (view, tile, order, assignment), True)


def real(view, tile, backend):
    """The real pools."""
    import sharedmem

    dem = scene((1, -1), "f8", "rough", True)
    v = layers(dem, 2)
    serial = project(view, dem, v, None, tile, (1, 1), True, None)
    pool = getattr(sharedmem, backend)
    before = config.backend
    img = project(view, dem, v, None, tile, (1, 1), True, pool)
    require(config.backend is before, "backend")
    require(np.array_equal(img, serial, equal_nan=True), f"{view} {tile} {backend}")
    return stats([(view, tile, backend)], 1, (view, tile, backend), True)


def rescaled(view, tile, overlap, scale, limits, nlayers, depth, nodata):
    """Rescaled tiles keep constants, bounds and holes."""
    dem = scene((1, -1), "f8", "flat", nodata)
    v = layers(dem, nlayers)
    if nlayers is not None:
        const = np.full(dem.shape + (nlayers,), 7.0) if nlayers else np.full(dem.shape, 7.0)
        img = project(view, dem, const, None, tile, overlap, depth, None, scale=scale, scale_limits=limits)
        nb = max(nlayers, 1)
        seen = ~np.isnan(img[..., 0])
        require(np.allclose(img[seen][:, :nb], 7), f"constant values became {img[seen][:, :nb]}")
        img = project(view, dem, v, None, tile, overlap, depth, None, scale=scale, scale_limits=limits)
        for k in range(nb):
            band, src = img[..., k], np.atleast_3d(v)[..., k]
            ok = band[~np.isnan(band)]
            require(
                np.all((ok >= src.min() - 1e-9) & (ok <= src.max() + 1e-9)),
                f"layer {k}: {ok} outside {src.min()}, {src.max()}",
            )
            require(np.array_equal(~np.isnan(band), seen), f"layer {k}: other pixels")
            require(
                np.allclose(ok, img[..., 0][seen] * (k + 1) - 3 * k, atol=1e-9),
                lambda: f"layer {k} is not computed like layer 0: {ok} and {img[..., 0][seen]}",
            )
    else:
        img = project(view, dem, None, None, tile, overlap, True, None, scale=scale, scale_limits=limits)
        seen = ~np.isnan(img[..., 0])
    if view in ("aligned", "coarse", "edge"):
        require(seen.any(), "nothing seen")
        if depth or nlayers is None:
            d = img[..., -1][seen]
            require(np.allclose(d, 10), f"depths of flat ground are {d}")
        if scale >= 1 and limits[1] >= 1 and not nodata:
            # Flat ground seen from above fills at least the pixels of the cells
            cells = ~np.isnan(expected(view, (1, -1), "f8", "flat", False, 1, None, False)[0][..., 0])
            require(
                limits[0] < 1 or np.all(seen.sum() >= cells.sum() // 2),
                f"only {seen.sum()} of {cells.sum()} pixels seen",
            )
    if view == "away":
        require(not seen.any(), "seen behind the camera")
    nothing = np.zeros(dem.shape, dtype=bool)
    img = project(view, dem, v, nothing, tile, overlap, True, None, scale=scale, scale_limits=limits)
    require(np.isnan(img).all(), "masked cells seen")
    return stats([(view, tile, scale, limits, int(seen.sum()))], 1, (view, tile, scale, limits, nlayers, int(seen.sum())), True)


def gaps(view, dirs, tiles, overlaps):
    """Cells without a value count the same in every tiling."""
    dem = scene(dirs, "f8", "rough", True)
    v = layers(dem, 2).astype(float)
    v[1::3, ::2, 0] = v[2, 3] = v[4] = np.nan
    first = None
    for tile, overlap in itertools.product(tiles, overlaps):
        img = project(view, dem, v, None, tile, overlap, True, None)
        first = img if first is None else first
        require(
            np.allclose(img, first, equal_nan=True),
            lambda: f"{view} {dirs} tiles {tile} overlap {overlap}: {img.tolist()}, not {first.tolist()}",
        )
    return stats([(view, dirs)], len(tiles) * len(overlaps), first.tobytes())


def grown(view, dirs, tile, scale, limits, depth):
    """Tiles of flat ground, rescaled to the requested number of cells per pixel."""
    dem = scene(dirs, "f8", "flat", False)
    p = VIEWS[view]
    f, nx, ny = p["f"], *p["imgsz"]
    # Size of a pixel on the ground, 10 below the camera
    pixel = 10 / f
    zoom = min(max(scale / pixel, min(limits)), max(limits))
    want = np.zeros((ny, nx), dtype=bool)
    for rows, cols in dem.tile_indices(size=tile):
        shape = rows.stop - rows.start, cols.stop - cols.start
        z = max(zoom, 1 / min(shape))
        n = [round(k * z) for k in shape]
        if any(abs(k * z % 1 - 0.5) < 1e-6 for k in shape):
            # Either number of cells is right
            return stats(nontrivial=False)
        for i, j in itertools.product(range(n[0]), range(n[1])):
            x = cols.start + (j + 0.5) * shape[1] / n[1]
            y = rows.start + (i + 0.5) * shape[0] / n[0]
            x, y = (x if dirs[0] > 0 else 6 - x), (y if dirs[1] > 0 else 5 - y)
            u = (x - p["xyz"][0]) / pixel + nx / 2
            v = (p["xyz"][1] - y) / pixel + ny / 2
            if min(abs(u - round(u)), abs(v - round(v))) < 1e-6:
                # Either pixel is right
                return stats(nontrivial=False)
            if 0 < u < nx and 0 < v < ny:
                want[int(v), int(u)] = True
    values = np.full(dem.shape, 3.0)
    img = project(
        view, dem, values, None, tile, (0, 0), depth, None, scale=scale, scale_limits=limits
    )
    seen = ~np.isnan(img[..., 0])
    require(
        np.array_equal(seen, want),
        lambda: f"{view} {dirs} tiles {tile} scale {scale} limits {limits}: pixels "
        f"{seen.astype(int).tolist()}, expected {want.astype(int).tolist()}",
    )
    require(np.allclose(img[seen][:, 0], 3), "values")
    if depth:
        require(np.allclose(img[seen][:, 1], 10), "depth")
    return stats([(view, tile, zoom)], len(img), (view, tile, seen.tobytes()), zoom != 1)


def refused(kind):
    dem = scene((1, -1), "f8", "flat", False)
    cam = Camera(**VIEWS["aligned"])
    kw = {
        "values": dict(values=np.zeros((3, 3))),
        "mask": dict(values=dem.array, mask=np.ones((5, 5), bool)),
        "nothing": dict(),
    }[kind]
    try:
        cam.project_dem(dem, **kw)
    except ValueError:
        return stats([kind], 1, kind, True)
    require(False, f"{kind} not refused")


def explore(ck):
    tiles = [(a, b) for a in (1, 2, 3, 4, 6, 256) for b in (1, 2, 3, 5, 256)]
    overlaps = [(0, 0), (1, 1), (2, 0), (0, 3), (2, 2)]
    cases = []
    views = [view for view in VIEWS if view != "fine"]
    for view in views:
        for dirs in rk.DIRS:
            for z, nodata, dtype in (
                ("rough", False, "f8"), ("rough", True, "f4"), ("flat", False, "f8"), ("rough", False, "i4"), ("rough", False, "u1"),
            ):
                if view == "edge" and z != "flat":
                    continue
                for nlayers, depth in ((None, True), (0, False), (0, True), (1, False), (2, True), (3, False)):
                    for mask in (None, "some", "none", *(["all"] if nodata else [])):
                        if dtype != "f8" and not ck.thorough and (nlayers, depth) not in ((None, True), (2, True)):
                            continue
                        t = tiles if ck.thorough or dirs == (1, -1) else tiles[::3]
                        cases.append((view, dirs, dtype, z, nodata, nlayers, mask, depth, t, overlaps))
    ck.sweep(tilings, cases, timeout=300)
    ck.sweep(
        from_file,
        [(v, t, o, d) for v in ("coarse", "oblique") for t in tiles for o in overlaps[:2] for d in (False, True)],
    )
    ck.sweep(gaps, [(v, d, tiles, overlaps) for v in views for d in rk.DIRS])
    cases = []
    for view in ("coarse", "oblique"):
        for tile, n in (((6, 3), 2), ((3, 3), 4), ((2, 5), 3)):
            for overlap in ((0, 0), (1, 1)):
                for scale in (0, 2):
                    for assignment in tk.assignments(n, 3 if ck.thorough else 2):
                        for order in tk.completion_orders(assignment):
                            cases.append((view, tile, overlap, True, assignment, order, scale))
    ck.sweep(schedules, cases)
    for view in ("coarse", "oblique"):
        for tile in ((3, 3), (2, 2)):
            for backend in ("MapReduce", "MapReduceByThread"):
                ck.run(real, view, tile, backend)
    cases = []
    for view in views:
        for tile in ((256, 256), (3, 3), (2, 1), (1, 1)):
            for overlap in ((0, 0), (1, 1)):
                for scale in (0.3, 1, 2.5):
                    for limits in ((1, 1), (0.1, 1), (1, 3), (0.2, 4)):
                        for nlayers, depth in ((None, True), (0, False), (2, True)):
                            for nodata in (False, True):
                                cases.append((view, tile, overlap, scale, limits, nlayers, depth, nodata))
    ck.sweep(rescaled, cases)
    cases = [
        (view, dirs, tile, scale, limits, depth)
        for view in ("aligned", "coarse", "edge", "fine")
        for dirs in rk.DIRS
        for tile in ((256, 256), (3, 3), (2, 5), (6, 2))
        for scale in (0.3, 0.5, 0.7, 1, 1.3, 2, 2.5, 7)
        for limits in ((1, 1), (0.4, 0.4), (0.1, 0.5), (0.6, 0.2), (0.1, 1), (1, 3), (3, 1), (0.2, 9), (1.7, 2))
        for depth in (False, True)
    ]
    ck.sweep(grown, cases)
    ck.sweep(refused, [["values"], ["mask"], ["nothing"]])
