"""Small rasters, grids and GDAL files for the raster checks."""
import itertools

import numpy as np
from osgeo import gdal, osr

from glimpse import Raster

DIRS = tuple(itertools.product((1, -1), repeat=2))

GDT = {
    "u1": gdal.GDT_Byte,
    "u2": gdal.GDT_UInt16,
    "i2": gdal.GDT_Int16,
    "i4": gdal.GDT_Int32,
    "f4": gdal.GDT_Float32,
    "f8": gdal.GDT_Float64,
}


def wkt(epsg):
    ref = osr.SpatialReference()
    ref.ImportFromEPSG(epsg)
    return ref.ExportToWkt()


def values(ny, nx, dtype="f8"):
    """Pairwise distinct values, not monotonic along rows or columns."""
    a = (np.arange(ny * nx) * 37 + 11) % 101 + np.arange(ny * nx) // 101
    return a.reshape(ny, nx).astype(dtype)


def limits(nx, ny, d=(1.0, 1.0), origin=(0.0, 0.0), dirs=(1, -1)):
    """(xlim, ylim) of a grid with cell sizes d whose lower left corner is origin."""
    x = [origin[0], origin[0] + nx * d[0]][:: dirs[0]]
    y = [origin[1], origin[1] + ny * d[1]][:: dirs[1]]
    return tuple(x), tuple(y)


def centers(lim, n):
    d = (lim[1] - lim[0]) / n
    return lim[0] + d * (np.arange(n) + 0.5)


def raster(nx, ny, d=(1.0, 1.0), origin=(0.0, 0.0), dirs=(1, -1), dtype="f8", **kwargs):
    xlim, ylim = limits(nx, ny, d, origin, dirs)
    return Raster(values(ny, nx, dtype), x=xlim, y=ylim, **kwargs)


def write_tif(path, a, xlim, ylim, nodata=None, epsg=None):
    """Written with GDAL alone (nothing of the code under test)."""
    ny, nx = a.shape
    ds = gdal.GetDriverByName("GTiff").Create(path, nx, ny, 1, GDT[a.dtype.str[1:]])
    ds.SetGeoTransform(
        (xlim[0], (xlim[1] - xlim[0]) / nx, 0, ylim[0], 0, (ylim[1] - ylim[0]) / ny)
    )
    if epsg:
        ds.SetProjection(wkt(epsg))
    band = ds.GetRasterBand(1)
    if nodata is not None:
        band.SetNoDataValue(nodata)
    band.WriteArray(a)
    ds.FlushCache()
    del band, ds


def snapshot(r):
    """Everything observable about a raster, from its own attributes."""
    return (
        np.array(r.array, copy=True),
        tuple(map(float, r.xlim)),
        tuple(map(float, r.ylim)),
        np.array(r.x, copy=True),
        np.array(r.y, copy=True),
        tuple(map(int, r.size)),
        r.crs,
        r.datetime,
    )


def same(a, b, tol=1e-9):
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not np.allclose(x, y, atol=tol, equal_nan=True):
                return False
        elif isinstance(x, tuple):
            if len(x) != len(y) or not np.allclose(x, y, atol=tol):
                return False
        elif x != y:
            return False
    return True
