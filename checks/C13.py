"""Rasters and images survive being written and read back."""
import datetime
import itertools
import os

import numpy as np
from osgeo import gdal, osr

from mc import rasterkit as rk
from mc.core import require, scratch, stats
from glimpse import Raster, helpers
from glimpse.raster import Grid

LEVEL = "model_checking"
RULE = (
    "A case is one raster (shape, data type, axis directions, cell size, coordinate "
    "system, missing-value marker, missing cells) written to a real file and opened again, "
    "or one array of images, or one crop and cell size with which a file is opened as a "
    "raster and as a grid. Non-trivial when it has more than one cell."
)
ASSUMPTIONS = ["GeoTIFF for rasters; GeoTIFF and PNG for images."]
PROJ = "+proj=utm +zone=6 +datum=WGS84 +units=m +no_defs"
CRS = {"none": None, "epsg": 32606, "proj": PROJ, "wkt": rk.wkt(32606)}
MARKERS = (None, 0, -9999, 7.5, 1e38, float("nan"))


def reference_crs(crs):
    return None if crs is None else osr.SpatialReference(wkt=helpers.crs_to_wkt(crs))


def overridden(crs, other, moved):
    """What is given to the writer takes the place of what the raster has."""
    r = Raster(np.array([[1.0, 2.0], [3.0, 4.0]]), x=(10, 14), y=(8, 5), crs=CRS[crs])
    where = f"{crs} raster written with crs {other}{' elsewhere' if moved else ''}"
    kwargs = {} if other == "same" else {"crs": CRS[other]}
    if moved:
        kwargs["transform"] = (100, 0.5, 0, 50, 0, -2)
    with scratch():
        r.write("r.tif", **kwargs)
        got = Raster.open("r.tif")
        want = CRS[crs if other == "same" else other]
        ref, new = reference_crs(want), reference_crs(got.crs)
        require((ref is None) == (new is None), f"{where}: {got.crs}")
        require(ref is None or ref.IsSame(new) == 1, f"{where}: {got.crs}")
        lims = ((100, 101), (50, 46)) if moved else ((10, 14), (8, 5))
        require(
            np.allclose((got.xlim, got.ylim), lims), f"{where}: limits {got.xlim} {got.ylim}"
        )
        require(np.array_equal(got.array, r.array), f"{where}: values")
    return stats([where], 1, (crs, other, moved), bool(kwargs))


def roundtrip(nx, ny, dtype, dirs, cell, crs, marker, missing, via):
    d = {"1": (1.0, 1.0), "0.1": (0.1, 0.1), "rect": (2.0, 0.5), "30": (30.0, 30.0)}[cell]
    xlim, ylim = rk.limits(nx, ny, d, (493500.25, -7.5), dirs)
    a = rk.values(ny, nx, dtype)
    is_float = dtype.startswith("f")
    if missing:
        for k in range(0, nx * ny, missing + 1):
            a.flat[k] = np.nan
    if marker == 0:
        a = a + 1
    original = a.copy()
    r = Raster(a, x=xlim, y=ylim, crs=CRS[crs])
    where = f"{nx}x{ny} {dtype} {dirs} {cell} {crs} marker {marker}"
    with scratch():
        # Over an existing file, of another shape
        Raster(np.ones((2, 7), dtype="u1")).write("r.tif")
        kwargs = {} if marker is None else {"nan": marker}
        if via == "driver":
            kwargs["driver"] = "GTiff"
        r.write("r.tif", **kwargs)
        require(np.array_equal(r.array, original, equal_nan=is_float), f"{where}: source")
        # What other software sees
        ds = gdal.Open("r.tif")
        b = ds.GetRasterBand(1).ReadAsArray()
        nd = ds.GetRasterBand(1).GetNoDataValue()
        require(b.dtype == a.dtype, f"{where}: type {b.dtype}")
        hole = np.isnan(a) if is_float else np.zeros(a.shape, dtype=bool)
        require(np.array_equal(b[~hole], a[~hole]), f"{where}: values in the file {b}")
        if marker is not None and marker == marker:
            require(np.isclose(nd, marker), f"{where}: marker in the file {nd}")
            require((b[hole] == a.dtype.type(marker)).all(), f"{where}: marked cells {b[hole]}")
        else:
            require(np.isnan(b[hole]).all(), f"{where}: missing cells {b[hole]}")
        tr = ds.GetGeoTransform()
        require(
            np.allclose(tr, (xlim[0], r.d[0], 0, ylim[0], 0, r.d[1])), f"{where}: {tr}"
        )
        del ds
        # Opened again
        o = Raster.open("r.tif", datetime=datetime.datetime(2020, 1, 1))
        for step in ("unread", "read"):
            require(tuple(o.size) == (nx, ny), f"{where}: size {o.size}")
            tol = dict(rtol=1e-12, atol=1e-7)
            require(np.allclose(o.xlim, xlim, **tol), f"{where}: xlim {o.xlim} {xlim}")
            require(np.allclose(o.ylim, ylim, **tol), f"{where}: ylim {o.ylim} {ylim}")
            require(np.allclose(o.x, r.x, **tol), f"{where}: x")
            require(np.allclose(o.y, r.y, **tol), f"{where}: y")
            if crs == "none":
                require(o.crs is None, f"{where}: crs {o.crs}")
            else:
                require(
                    osr.SpatialReference(wkt=o.crs).IsSame(reference_crs(CRS[crs])),
                    f"{where}: crs {o.crs}",
                )
            o.read()
        require(
            o.array.shape == a.shape and np.array_equal(o.array, a, equal_nan=is_float),
            lambda: f"{where}: values {o.array}, expected {a}",
        )
        if not is_float:
            require(o.array.dtype == a.dtype, f"{where}: type {o.array.dtype}")
        # A marker given when opening replaces the one in the file
        v = a[~hole].flat[0] if (~hole).any() else None
        if v is not None:
            o = Raster.open("r.tif", nan=float(v))
            want = b.astype(float)
            want[b == v] = np.nan
            require(
                np.array_equal(o.read(), want, equal_nan=True),
                f"{where}: opened with marker {v}: {o.array}",
            )
        # ... and large integers survive that
        if dtype == "i4":
            big = (2 ** 31 - 1) - a
            Raster(big, x=xlim, y=ylim).write("big.tif")
            want = big.astype(float)
            want.flat[0] = np.nan
            o = Raster.open("big.tif", nan=int(big.flat[0]))
            require(
                np.array_equal(o.read(), want, equal_nan=True), f"{where}: large {o.array}"
            )
        # The grid
        g = Grid.read("r.tif")
        require(g == Raster.open("r.tif").grid, f"{where}: grid {g.xlim} {g.ylim} {g.size}")
        require(np.allclose(g.x, r.x, **tol) and np.allclose(g.y, r.y, **tol), f"{where}: grid")
        require((g.crs is None) == (crs == "none"), f"{where}: grid crs {g.crs}")
        # Written and read again: nothing drifts
        o = Raster.open("r.tif")
        o.write("s.tif", **kwargs)
        p = Raster.open("s.tif")
        require(
            np.array_equal(p.read(), a, equal_nan=is_float)
            and np.allclose(p.xlim, o.xlim, rtol=1e-14)
            and np.allclose(p.ylim, o.ylim, rtol=1e-14)
            and p.crs == o.crs,
            f"{where}: second generation",
        )
        return stats([where], 5, where, nx * ny > 1)


def bands(nx, ny, nb, dtype, driver):
    a = np.stack([rk.values(ny, nx, dtype) + k for k in range(nb)], axis=2)
    if nb == 1:
        a = a[:, :, 0]
    with scratch():
        path = "a.tif" if driver == "GTiff" else "a.png"
        upper = path.upper()
        for path, name in ((upper, None), ("a", driver), ("a.png", "GTiff"), (path, driver), (path, None)):
            if name and name != driver:
                continue
            helpers.write_raster(a.copy(), path, driver=name)
            ds = gdal.Open(path)
            require(ds.GetDriver().ShortName == driver, "driver")
            require((ds.RasterXSize, ds.RasterYSize, ds.RasterCount) == (nx, ny, nb), "size")
            for k in range(nb):
                b = ds.GetRasterBand(k + 1).ReadAsArray()
                want = a[:, :, k] if nb > 1 else a
                require(
                    b.dtype == a.dtype and np.array_equal(b, want), f"band {k}: {b} {want}"
                )
                del b
            del ds
        for k in range(nb):
            r = Raster.open(path, band=k + 1)
            want = a[:, :, k] if nb > 1 else a
            require(np.array_equal(r.read(), want), f"raster band {k}")
        for bad in ("a.nothing", "a"):
            try:
                helpers.write_raster(a, bad)
            except ValueError:
                continue
            require(False, f"{bad} was accepted")
        return stats([(nx, ny, nb, dtype, driver)], nb, (nx, ny, nb, dtype, driver), True)


def windows(nx, ny, dirs, scale, crop, cell=(2.0, 2.0)):
    """A file opened as raster and as grid, cropped and with a cell size, agree."""
    with scratch():
        xlim, ylim = rk.limits(nx, ny, cell, (10.0, -4.0), dirs)
        a = rk.values(ny, nx, "i4")
        rk.write_tif("r.tif", a, xlim, ylim, epsg=32606)
        c0, c1, r0, r1 = crop
        kwargs = {}
        if c1:
            kwargs["xlim"] = (xlim[0] + c0 * (xlim[1] - xlim[0]) / nx, xlim[0] + c1 * (xlim[1] - xlim[0]) / nx)
        else:
            c0, c1 = 0, nx
        if r1:
            kwargs["ylim"] = (ylim[0] + r0 * (ylim[1] - ylim[0]) / ny, ylim[0] + r1 * (ylim[1] - ylim[0]) / ny)
        else:
            r0, r1 = 0, ny
        if scale:
            kwargs["d"] = 2.0 * scale
        r = Raster.open("r.tif", **kwargs)
        g = Grid.read("r.tif", **kwargs)
        sx, sy = (2.0 * scale / v if scale else 1 for v in cell)
        size = int(np.ceil((c1 - c0) / sx - 1e-9)), int(np.ceil((r1 - r0) / sy - 1e-9))
        where = f"{nx}x{ny} {dirs} {cell} {kwargs}"
        require(tuple(r.size) == size, f"{where}: raster size {r.size}, not {size}")
        require(tuple(g.size) == size, f"{where}: grid size {g.size}, not {size}")
        require(r.grid == g and g == r.grid, f"{where}: {r.xlim} {g.xlim} {r.ylim} {g.ylim}")
        require(np.allclose(r.x, g.x) and np.allclose(r.y, g.y), f"{where}: coordinates")
        ex = (xlim[0] + c0 * (xlim[1] - xlim[0]) / nx, xlim[0] + c1 * (xlim[1] - xlim[0]) / nx)
        ey = (ylim[0] + r0 * (ylim[1] - ylim[0]) / ny, ylim[0] + r1 * (ylim[1] - ylim[0]) / ny)
        require(np.allclose(g.xlim, ex) and np.allclose(g.ylim, ey), f"{where}: limits")
        require(r.read().shape == size[::-1], f"{where}: array {r.array.shape}")
        if not scale:
            require(np.array_equal(r.array, a[r0:r1, c0:c1]), f"{where}: {r.array}")
        require(tuple(r.size) == size and r.grid == g, f"{where}: after reading")
        return stats([where], 2, where, True)


def cell_sizes(nx, ny, dirs, cell, origin, scale, crop):
    """Cells of the requested size are counted right whatever the coordinates."""
    d = {"0.1": 0.1, "1/3": 1 / 3, "30.1": 30.1, "10": 10.0}[cell]
    o = {"0": (0.0, 0.0), "utm": (493500.3, 6781000.7), "third": (1e6 / 3, -1e7 / 3)}[origin]
    with scratch():
        xlim, ylim = rk.limits(nx, ny, (d, d), o, dirs)
        rk.write_tif("r.tif", rk.values(ny, nx, "f4"), xlim, ylim)
        kwargs = {"d": d * scale}
        if crop:
            kwargs["xlim"] = sorted((xlim[0], xlim[0] + crop * dirs[0] * d))
        size = tuple(max(1, int(np.ceil(n / scale - 1e-6))) for n in (crop or nx, ny))
        where = f"{nx}x{ny} {dirs} cells {cell} at {origin} with {kwargs}"
        for r in (Raster.open("r.tif", **kwargs), Grid.read("r.tif", **kwargs)):
            require(tuple(r.size) == size, f"{where}: {type(r)} size {r.size}, not {size}")
        r = Raster.open("r.tif", **kwargs)
        require(r.read().shape == size[::-1], f"{where}: array {r.array.shape}")
        return stats([where], 2, (size, where), True)


REFUSED = {
    "driver": ("r.tif", {"driver": "Nope"}), "extension": ("r.unknown", {}), "no extension": ("r", {}),
    "reader": ("r.h5", {"driver": "HDF5"}), "crs text": ("r.tif", {"crs": "nonsense"}), "crs number": ("r.tif", {"crs": 4.5}),
    "crs list": ("r.tif", {"crs": ["+proj=utm"]}), "bool": ("r.tif", {}), "object": ("r.tif", {}), "text": ("r.tif", {}), "half": ("r.tif", {}),
}
ODD = {"bool": bool, "object": object, "text": "U3", "half": "float16"}
ACCEPTED = {
    "any extension": ("r.dat", {"driver": "GTiff"}), "any case": ("r.dat", {"driver": "gtiff"}), "upper": ("r.TIF", {}),
    "tiff": ("r.tiff", {}), "copied": ("r.png", {}), "named": ("r.x", {"driver": "PNG"}),
}


def refused(name, existing, own):
    """What cannot be written is refused, and what was in the file is still there."""
    path, kwargs = {**REFUSED, **ACCEPTED}[name]
    a = np.array([[1, 2, 3], [4, 5, 6]]).astype(ODD.get(name, "uint8"))
    where = f"{name} {'over a file' if existing else 'without a file'}{' with its own crs' if own else ''}"
    with scratch():
        before = b""
        if existing:
            Raster(np.full((2, 2), 9, dtype="uint8"), crs=32606).write("old.tif")
            with open("old.tif", "rb") as fp:
                before = fp.read()
            with open(path, "wb") as fp:
                fp.write(before)
        try:
            if own or "crs" in kwargs:
                Raster(a, crs=32606 if own else None).write(path, **kwargs)
            else:
                helpers.write_raster(a, path, **kwargs)
        except ValueError:
            require(name in REFUSED, f"{where}: refused")
            found = sorted(os.listdir("."))
            require(found == (sorted(["old.tif", path]) if existing else []), f"{where}: leaves {found}")
            if existing:
                with open(path, "rb") as fp:
                    require(fp.read() == before, f"{where}: changed the file")
        else:
            require(name in ACCEPTED, f"{where}: accepted")
            got = Raster.open(path)
            require(np.array_equal(got.array, a), f"{where}: {got.array}")
    return stats([where], 1, name in REFUSED, True)


def explore(ck):
    for name in [*REFUSED, *ACCEPTED]:
        for existing in (False, True):
            for own in (False, True):
                ck.run(refused, name, existing, own)
    ck.sweep(
        overridden,
        [(crs, other, moved) for crs in CRS for other in ("same", *CRS) for moved in (False, True)],
        chunk=8,
    )
    cases = []
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (4, 3)]
    for nx, ny in shapes:
        for dtype in rk.GDT:
            for dirs in rk.DIRS:
                for k, (cell, crs) in enumerate(itertools.product(("1", "0.1", "rect", "30"), CRS)):
                    if not ck.thorough and (k + nx) % 3 and crs != "none":
                        continue
                    for marker in MARKERS:
                        if not dtype.startswith("f") and marker not in (None, 0, 7.5):
                            continue
                        if dtype.startswith("f"):
                            ms = (0, 1, 2) if nx * ny > 1 else (0,)
                        else:
                            ms = (0,)
                            if marker == 7.5:
                                continue
                        for m in ms:
                            if m and marker is None and k % 2:
                                continue
                            via = ("path", "driver")[k % 2]
                            cases.append((nx, ny, dtype, dirs, cell, crs, marker, m, via))
    ck.sweep(roundtrip, cases)
    ck.sweep(
        bands,
        [
            (nx, ny, nb, t, drv)
            for nx, ny in shapes
            for nb in (1, 2, 3, 4)
            for t in rk.GDT
            for drv in ("GTiff", "PNG")
            if drv == "GTiff" or t in ("u1", "u2")
        ],
    )
    crops = [(0, 0, 0, 0)]
    crops += [(a, b, 0, 0) for a, b in itertools.combinations(range(6), 2)]
    crops += [(0, 0, a, b) for a, b in itertools.combinations(range(5), 2)]
    crops += [
        (a, b, c, d)
        for a, b in itertools.combinations(range(6), 2)
        for c, d in itertools.combinations(range(5), 2)
        if ck.thorough or (a + b + c + d) % 3 == 0
    ]
    ck.sweep(
        windows,
        [
            (5, 4, dirs, s, c, cell)
            for dirs in rk.DIRS
            for s in (None, 0.5, 1, 1.5, 2, 3)
            for c in crops
            for cell in ((2.0, 2.0), (2.0, 0.5), (0.5, 2.0))
            if cell[0] == cell[1] or ck.thorough or sum(c) % 2 == 0
        ],
    )
    ck.sweep(
        cell_sizes,
        [
            (nx, ny, dirs, cell, o, s, crop)
            for nx, ny in ((4, 3), (3, 7), (1, 2), (10, 1))
            for dirs in rk.DIRS
            for cell in ("0.1", "1/3", "30.1", "10")
            for o in ("0", "utm", "third")
            for s in (0.25, 0.5, 1, 1.5, 2, 3, 1e9)
            for crop in (0, 1, 2)
            if crop < nx
        ],
    )
