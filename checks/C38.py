"""Options left out are those documented, and options given are used."""
import collections
import copy
import datetime
import inspect
import itertools
import os
import types

import cv2
import lmfit
import matplotlib.pyplot as plt
import numpy as np
import scipy.sparse

from mc import rasterkit, trackkit
from mc.core import HarnessError, require, scratch, stats
from glimpse import Camera, Exif, Image, Observer, Raster, RasterInterpolant, Tracker, helpers, optimize, svg
from glimpse import Tracks
from glimpse.convert import Converter
from glimpse.convert.cameras import Matlab
from glimpse.raster import Grid
from glimpse.track import motion

LEVEL = "model_checking"
RULE = (
    "A case is one call with options (constructor, method or function), made without "
    "options, with every subset of its options at their documented defaults, by position "
    "and by name, and with every alternative value of every option together with every "
    "choice of the other options at their defaults (large sets: none, one, all but one or "
    "all of them). All results are compared in full. Non-trivial when an alternative "
    "changes the result."
)
ASSUMPTIONS = [
    "The random source is reset before every call.",
    "Keypoints are matched with the exact (brute force) matcher of OpenCV, since the default one is approximate.",
]

SCENES = collections.OrderedDict()


def scene(name, *options, needs=None, refused=False):
    """
    Register a call.

    Options are (name, default, alternatives...) in the documented order. Those needed are
    always given. The function returns the call, on a new subject.
    """

    def wrap(fn):
        assert name not in SCENES, name
        SCENES[name] = (fn, options, needs or {}, refused)
        return fn

    return wrap


# ---- values of results ----

FOLDER = "(none)"
SIMPLE = (int, float, str, bytes, bool, complex, type(None), datetime.datetime, datetime.timedelta)


def freeze(x, seen=()):
    """The value of anything, as nested tuples."""
    if isinstance(x, np.generic):
        x = np.asarray(x)
        return ("number", x) if x.dtype.kind in "fc" else ("number", str(x))
    if isinstance(x, float):
        return ("float", np.asarray(x))
    if isinstance(x, SIMPLE):
        return (type(x).__name__, repr(x).replace(FOLDER, "FOLDER"))
    if id(x) in seen:
        return "again"
    seen = seen + (id(x),)
    if isinstance(x, np.ma.MaskedArray):
        return ("masked", freeze(np.ma.getmaskarray(x)), freeze(x.filled(0)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, tuple(freeze(i, seen) for i in x.ravel()))
        return ("array", np.array(x))
    if isinstance(x, BaseException):
        return (type(x).__name__,)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(i, seen) for i in x))
    if isinstance(x, lmfit.Parameters):
        return ("params", freeze([(k, v.value, v.min, v.max, v.vary) for k, v in x.items()]))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(x[k], seen)) for k in sorted(x, key=repr)))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(freeze(i, seen)) for i in x)))
    if isinstance(x, slice):
        return ("slice", x.start, x.stop, x.step)
    if isinstance(x, range):
        return ("range", x.start, x.stop, x.step)
    if scipy.sparse.issparse(x):
        x = x.tocoo()
        return ("sparse", x.shape, freeze(x.row), freeze(x.col), freeze(x.data, seen))
    if isinstance(x, cv2.KeyPoint):
        return ("keypoint", freeze((*x.pt, x.size, x.angle, x.response, x.octave)))
    if inspect.isgenerator(x) or isinstance(x, (zip, map, filter)):
        return ("iterator", tuple(freeze(i, seen) for i in x))
    if isinstance(x, plt.Figure):
        return ("figure", freeze(x.get_size_inches()), tuple(freeze(a, seen) for a in x.axes))
    if isinstance(x, plt.Axes):
        return ("axes", freeze([x.get_xlim(), x.get_ylim()]), tuple(drawn(i) for i in x.get_children()))
    if isinstance(x, types.SimpleNamespace) or hasattr(x, "__dict__"):
        if callable(x) and not hasattr(type(x), "__call__"):
            return ("callable", getattr(x, "__qualname__", type(x).__name__))
        if isinstance(x, (types.FunctionType, types.MethodType, type, types.ModuleType)):
            return ("callable", getattr(x, "__qualname__", str(type(x))))
        return (type(x).__name__, freeze(vars(x), seen))
    if hasattr(x, "tag") and hasattr(x, "attrib"):
        return ("element", x.tag, freeze(dict(x.attrib)), x.text, tuple(freeze(i, seen) for i in x))
    return type(x).__name__


def same(a, b):
    """Whether frozen values are the same, up to rounding (which may depend on the memory layout)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.kind in "fc":
            return bool(np.allclose(a, b, rtol=1e-6 if a.dtype.itemsize == 4 else 1e-9, atol=1e-9, equal_nan=True))
        return bool(np.array_equal(a, b))
    return type(a) is type(b) and a == b


def drawn(a):
    """The value of something drawn."""
    out = [type(a).__name__]
    for name in (
        "get_xydata get_offsets get_array get_extent get_color get_facecolor get_edgecolor get_linewidth "
        "get_linestyle get_marker get_markersize get_cmap get_xy get_width get_height get_alpha get_paths"
    ).split():
        if type(a).__name__ in ("XAxis", "YAxis", "Spine", "Spines", "Text"):
            continue
        try:
            value = getattr(a, name)()
        except Exception:
            continue
        if name == "get_cmap":
            value = getattr(value, "name", None)
        if name == "get_paths":
            value = [(p.vertices, p.codes) for p in value]
        out.append((name, freeze(value)))
    for name in ("U", "V", "X", "Y"):
        if hasattr(a, name):
            out.append((name, freeze(getattr(a, name))))
    return tuple(out)


def on_axes(fn):
    """Call with the result of what it has drawn."""

    def call(*args, **kwargs):
        plt.close("all")
        try:
            result = fn(*args, **kwargs)
            return [result is None, [freeze(f) for f in map(plt.figure, plt.get_fignums())]]
        finally:
            plt.close("all")

    return call


def also(fn, *subjects):
    """Call with the result and the state of the subjects."""

    def call(*args, **kwargs):
        result = fn(*args, **kwargs)
        return [result, subjects]

    return call


# ---- what subjects are made of ----

SIZE = (40, 30)


def camera(**kwargs):
    p = dict(imgsz=SIZE, f=(60, 62), c=(1, -0.5), k=(0.02, -0.01), p=(0.001, 0.002), xyz=(1, 2, 3), viewdir=(5, -4, 2))
    p.update(kwargs)
    return Camera(**p)


def image(i=0, bands=1, **kwargs):
    path = f"/nowhere/img-{i}.png"
    img = Image(path, cam=camera(viewdir=(5 + i, -4, 2), **kwargs), datetime=trackkit.day(i))
    img.array = pixels(i, bands)
    return img


def pixels(i=0, bands=1, size=SIZE):
    rng = np.random.RandomState(5 + i)
    a = rng.randint(0, 256, (size[1], size[0], bands)).astype(np.uint8)
    return a[..., 0] if bands == 1 else a


UV = np.array([(3.0, 4.0), (20.5, 15.2), (33.1, 24.7)])


def world(cam, uv=UV, depth=50.0, directions=False):
    if directions:
        return cam.uv_to_xyz(uv)
    return cam.uv_to_xyz(uv, directions=False, depth=depth)


def write_image(folder, name="image.tif", bands=1, size=SIZE):
    path = os.path.join(folder, name)
    a = pixels(0, bands, size)
    rasterkit.write_tif(path, a, (0, size[0]), (size[1], 0))
    return path


# ---- camera ----


@scene(
    "Camera",
    ("f", (50, 55), (60, 60)),
    ("c", None, (1, 2)),
    ("sensorsz", None),
    ("fmm", None),
    ("cmm", None),
    ("k", (0, 0, 0, 0, 0, 0), (0.1, 0.2)),
    ("p", (0, 0), (0.1, 0.2)),
    ("xyz", (0, 0, 0), (1, 2, 3)),
    ("viewdir", (0, 0, 0), (1, 2, 3)),
    ("correction", False, True, {"radius": 6e6}),
    needs={"f": (50, 55)},
)
def _(folder):
    def call(*args, **kwargs):
        cam = Camera(SIZE, *args, **kwargs)
        xyz = np.array([(10.0, 200, 3), (-20, 300, 5)])
        return cam.to_dict(), cam.to_array(), cam.xyz_to_uv(xyz), cam.uv_to_xyz(UV), cam.xyz_to_uv(xyz, directions=True)

    return call


@scene("Camera in millimeters", ("f", None), ("c", None), ("sensorsz", (6, 4.5), (12, 9)), ("fmm", (5, 6), (7, 7)), ("cmm", None, (0.1, 0.2)),
       needs={"sensorsz": (6, 4.5), "fmm": (5, 6)})
def _(folder):
    return lambda *a, **k: (lambda cam: (cam.to_array(), cam.f, cam.c, cam.fmm, cam.cmm))(Camera(SIZE, *a, **k))


ATTRIBUTES = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")


@scene("Camera.to_dict", ("attributes", ATTRIBUTES, ("xyz",), ("imgsz", "fmm")))
def _(folder):
    return camera(sensorsz=(6, 4)).to_dict


@scene("Camera.to_json", ("path", None), ("attributes", ATTRIBUTES, ("xyz",)))
def _(folder):
    return camera().to_json


@scene("Camera.to_json file", ("path", "cam.json"), ("attributes", ATTRIBUTES, ("xyz",)), needs={"path": "cam.json"})
def _(folder):
    def call(path, *a, **k):
        path = os.path.join(folder, path)
        result = camera().to_json(path, *a, **k)
        with open(path) as fp:
            return result, fp.read()

    def by_name(*a, **k):
        if a:
            return call(*a, **k)
        return call(k.pop("path"), **k)

    return by_name


@scene("Camera.resize", ("size", 1, 0.5, (80, 60)), ("force", False))
def _(folder):
    cam = camera()
    cam.resize(0.5)
    return also(cam.resize, cam)


@scene("Camera.resize to another shape", ("size", (80, 61), 2), ("force", False, True), needs={"size": (80, 61)}, refused=True)
def _(folder):
    cam = camera()
    return also(cam.resize, cam)


@scene("Camera.xyz_to_uv", ("directions", False, True), ("return_depth", False, True))
def _(folder):
    cam = camera()
    xyz = world(cam)
    return lambda *a, **k: cam.xyz_to_uv(xyz, *a, **k)


@scene("Camera.uv_to_xyz", ("directions", True, False), ("depth", 1, 2))
def _(folder):
    cam = camera()
    return lambda *a, **k: cam.uv_to_xyz(UV, *a, **k)


@scene("Camera.infront", ("directions", False, True))
def _(folder):
    cam = camera()
    xyz = np.array([(0.0, 1, 3), (1, 3, 3), (50, 100, 3), (0, -3, 3), (1, 1, 3)])
    return lambda *a, **k: cam.infront(xyz, *a, **k)


@scene("Camera.xyz_to_spherical", ("directions", False, True))
def _(folder):
    cam = camera()
    xyz = world(cam)
    return lambda *a, **k: cam._xyz_to_spherical(xyz, *a, **k) if hasattr(cam, "_xyz_to_spherical") else cam.xyz_to_spherical(xyz, *a, **k)


@scene("Camera.grid", ("step", 1, 5, (7, 3)), ("snap", (0.5, 0.5), (0, 0), None), ("mode", "points", "vectors", "grids"))
def _(folder):
    return camera().grid


@scene("Camera.grid by steps", ("step", 7, 5), ("snap", (0.5, 0.5), (0, 0), None), ("mode", "points", "vectors", "grids"), needs={"step": 7})
def _(folder):
    return camera().grid


@scene("Camera.edges", ("step", 1, 5, (4, 7)))
def _(folder):
    return camera().edges


def dem(nan=False, f=None):
    def z(x, y):
        return 0.03 * x - 0.02 * y + 2 * np.sin(x / 7) + np.cos(y / 5)

    r = rasterkit.raster(24, 20, d=(3.0, 3.0), origin=(-30.0, 60.0))
    x, y = np.meshgrid(r.x, r.y)
    r.array = (f or z)(x, y)
    if nan:
        r.array[3, 4] = np.nan
    return r


TERRAIN = np.arange(480.0).reshape(20, 24) % 37


@scene(
    "Camera.project_dem",
    ("values", TERRAIN, TERRAIN[::-1]),
    ("mask", None, np.arange(480).reshape(20, 24) % 3 != 0),
    ("tile_size", (256, 256)),
    ("tile_overlap", (1, 1)),
    ("scale", 1),
    ("scale_limits", (1, 1)),
    ("parallel", False),
    ("return_depth", False, True),
    needs={"values": TERRAIN},
)
def _(folder):
    cam = camera(xyz=(1, 2, 30), viewdir=(5, -14, 2))
    return lambda *a, **k: cam.project_dem(dem(), *a, **k)


@scene(
    "Camera.project_dem in tiles",
    ("values", None),
    ("mask", None),
    ("tile_size", (10, 10)),
    ("tile_overlap", (1, 1)),
    ("scale", 1, 2),
    ("scale_limits", (0.25, 4), (1, 1)),
    ("parallel", False),
    ("return_depth", True, False),
    needs={"tile_size": (10, 10), "scale_limits": (0.25, 4), "return_depth": True},
)
def _(folder):
    cam = camera(xyz=(1, 2, 30), viewdir=(5, -14, 2))
    return lambda *a, **k: cam.project_dem(dem(), *a, **k)


# ---- exif ----

PHOTO = "tests/AK10b_20141013_020336.JPG"


def photo():
    from mc.core import REPO

    return os.path.join(REPO, PHOTO)


@scene("Exif", ("thumbnail", False, True))
def _(folder):
    return lambda *a, **k: Exif(photo(), *a, **k)


@scene("Exif.parse_tag", ("group", "Exif", "Image"))
def _(folder):
    exif = Exif(photo())
    return lambda *a, **k: [exif.parse_tag("FNumber", *a, **k), exif.parse_tag("Make", *a, **k), exif.parse_tag("none", *a, **k)]


# ---- helpers ----


@scene("format_list", ("length", None, 2, 5), ("default", None), ("dtype", None, float))
def _(folder):
    return lambda *a, **k: helpers.format_list([1, 2, 3], *a, **k)


@scene("format_list to a length", ("length", 6, 2), ("default", None, 7), ("dtype", None, float), needs={"length": 6})
def _(folder):
    return lambda *a, **k: helpers.format_list([1, 2, 3], *a, **k)


@scene("strip_path", ("extensions", True, False, 1, 2))
def _(folder):
    return lambda *a, **k: helpers.strip_path("/a/b.c/d.e.f.g", *a, **k)


@scene("write_pickle", ("gz", False, True), ("binary", True))
def _(folder):
    path = os.path.join(folder, "x.pkl")

    def call(*a, **k):
        result = helpers.write_pickle({"a": [1, 2.5]}, path, *a, **k)
        with open(path, "rb") as fp:
            head = fp.read(2)
        gz = head == b"\x1f\x8b"
        return result, gz, b"" if gz else head, helpers.read_pickle(path, gz=gz)

    return call


@scene("read_pickle", ("gz", False, True), ("binary", True))
def _(folder):
    path = os.path.join(folder, "x.pkl")
    helpers.write_pickle({"a": [1, 2.5]}, path)
    return lambda *a, **k: helpers.read_pickle(path, *a, **k)


@scene("write_json", ("path", None), ("flat_arrays", False, True))
def _(folder):
    return lambda *a, **k: helpers.write_json({"a": [1, 2], "b": {"c": [[1, 2], [3, 4]]}}, *a, **dict({"indent": 2}, **k))


FIELD = (np.arange(70) * 37 % 41).reshape(7, 10).astype(float)
HOLES = (np.arange(70).reshape(7, 10) * 3) % 7 > 0


@scene("gaussian_filter", ("mask", None, HOLES), ("fill", False))
def _(folder):
    return lambda *a, **k: helpers.gaussian_filter(FIELD.copy(), *a, **dict({"sigma": 1}, **k))


@scene("gaussian_filter, masked", ("mask", HOLES, None), ("fill", False, True), needs={"mask": HOLES})
def _(folder):
    return lambda *a, **k: helpers.gaussian_filter(FIELD.copy(), *a, **dict({"sigma": 1}, **k))


@scene("maximum_filter", ("mask", None, HOLES), ("fill", False))
def _(folder):
    return lambda *a, **k: helpers.maximum_filter(FIELD.copy(), *a, **dict({"size": 3}, **k))


@scene("maximum_filter, masked", ("mask", HOLES, None), ("fill", False, True), needs={"mask": HOLES})
def _(folder):
    return lambda *a, **k: helpers.maximum_filter(FIELD.copy(), *a, **dict({"size": 3}, **k))


@scene("compute_cdf", ("return_inverse", False, True))
def _(folder):
    return lambda *a, **k: helpers.compute_cdf(FIELD, *a, **k)


@scene("gdal_driver_from_path", ("raster", True, False), ("vector", True, False))
def _(folder):
    def each(*a, **k):
        out = []
        for path in ("a.tif", "a.shp", "a.jpg", "a.geojson", "a.pix", "a.gpkg"):
            try:
                out.append(helpers.gdal_driver_from_path(path, *a, **k))
            except Exception as e:
                out.append(type(e).__name__)
        return out

    return each


@scene(
    "write_raster",
    ("driver", None, "PNG"),
    ("nan", None, 7),
    ("crs", None, 32606),
    ("transform", None, (1.0, 2.0, 0.0, 3.0, 0.0, -4.0)),
)
def _(folder):
    from osgeo import gdal

    path = os.path.join(folder, "x.tif")

    def call(*a, **k):
        helpers.write_raster(np.arange(12, dtype=np.uint8).reshape(3, 4), path, *a, **k)
        ds = gdal.Open(path)
        return (
            ds.GetDriver().ShortName,
            ds.GetProjection(),
            ds.GetGeoTransform(),
            ds.GetRasterBand(1).GetNoDataValue(),
            ds.ReadAsArray(),
        )

    return call


LINE = np.array([(0, 0), (1, 2), (2, 1), (4, 4), (5, 0), (6, 1)], dtype=float)


@scene("boolean_split", ("axis", 0), ("circular", False, True), ("include", "all", "true", "false"))
def _(folder):
    mask = np.array([True, True, False, False, True, True])
    return lambda *a, **k: helpers.boolean_split(LINE, mask, *a, **k)


@scene("boolean_split across", ("axis", 0, 1), ("circular", False), ("include", "all", "true"))
def _(folder):
    mask = np.array([True, False, False, True])
    return lambda *a, **k: helpers.boolean_split(np.arange(16).reshape(4, 4), mask, *a, **k)


@scene("clip_polyline_box", ("t", False, True))
def _(folder):
    return lambda *a, **k: helpers.clip_polyline_box(LINE, (0.5, 0.5, 4.5, 3), *a, **k)


@scene("intersect_rays_box", ("t", False, True))
def _(folder):
    rays = np.array([(1.0, 0.2), (-1, 0.1), (0.3, 1)])
    return lambda *a, **k: helpers.intersect_rays_box(np.array((2.0, 1)), rays, (0, 0, 5, 3), *a, **k)


@scene(
    "interpolate_line",
    ("x", None, np.array([0, 1, 3, 4, 8, 9.0])),
    ("xi", None),
    ("n", 5, 7),
    ("dx", None),
    ("error", True),
    ("fill", "endpoints"),
    needs={"n": 5},
)
def _(folder):
    return lambda *a, **k: helpers.interpolate_line(LINE, *a, **k)


XI = np.array([-1.0, 0.5, 4, 30])


@scene(
    "interpolate_line outside",
    ("x", None),
    ("xi", XI),
    ("n", None),
    ("dx", None),
    ("error", False, True),
    ("fill", "endpoints", np.nan, (1, 2)),
    needs={"xi": XI, "error": False},
)
def _(folder):
    return lambda *a, **k: helpers.interpolate_line(LINE, *a, **k)


@scene("interpolate_line outside, refused", ("x", None), ("xi", XI), ("n", None), ("dx", None), ("error", True, False), needs={"xi": XI}, refused=True)
def _(folder):
    return lambda *a, **k: helpers.interpolate_line(LINE, *a, **k)


@scene("box_to_grid", ("snap", None, (0.5, 0.25)), ("mode", "grids", "vectors", "points"))
def _(folder):
    return lambda *a, **k: helpers.box_to_grid((0, 0, 5, 4), 1.5, *a, **k)


@scene("rasterize_points", ("shape", None), ("a", np.zeros((4, 5)), np.ones((4, 5))), needs={"a": np.zeros((4, 5))})
def _(folder):
    def call(*a, **k):
        result = helpers.rasterize_points(np.array([0, 1, 3]), np.array([1, 1, 4]), np.array([1.0, 2, 3]), *a, **k)
        return [result, k["a"] if "a" in k else a[1]]

    return call


@scene("rasterize_points to a shape", ("shape", (4, 5), (5, 6)), ("a", None), needs={"shape": (4, 5)})
def _(folder):
    return lambda *a, **k: helpers.rasterize_points(np.array([0, 1, 3]), np.array([1, 1, 4]), np.array([1.0, 2, 3]), *a, **k)


SQUARE = np.array([(1, 1), (1, 8), (8, 8), (8, 1)], dtype=float)
INNER = np.array([(3, 3), (3, 5), (5, 5), (5, 3)], dtype=float)


@scene("polygons_to_mask", ("holes", None, [INNER]))
def _(folder):
    return lambda *a, **k: helpers.polygons_to_mask([SQUARE], (10, 12), *a, **k)


@scene("elevation_corrections", ("radius", 6378100.0, 6e6), ("refraction", 0.13, 0.2))
def _(folder):
    return lambda *a, **k: helpers.elevation_corrections(np.array([0, 1e6, 4e8]), *a, **k)


DAYS = [trackkit.day(i) for i in (0, 1, 1.25, 2.2, 3, 5)]
DELTA = trackkit.DAY


@scene(
    "select_datetimes",
    ("start", None, trackkit.day(1)),
    ("end", None, trackkit.day(3)),
    ("snap", None, DELTA),
    ("maxdt", None),
    ("origin", datetime.datetime(1970, 1, 1, 0, 0)),
)
def _(folder):
    return lambda *a, **k: helpers.select_datetimes(DAYS, *a, **k)


@scene(
    "select_datetimes snapped",
    ("start", None, trackkit.day(1)),
    ("end", None, trackkit.day(3)),
    ("snap", DELTA, 2 * DELTA),
    ("maxdt", None, 0.1 * DELTA),
    ("origin", datetime.datetime(1970, 1, 1, 0, 0), datetime.datetime(1970, 1, 1, 12)),
    needs={"snap": DELTA},
)
def _(folder):
    return lambda *a, **k: helpers.select_datetimes(DAYS, *a, **k)


# ---- image ----


@scene("Image", ("cam", None, {"f": (50, 50)}), ("datetime", None, trackkit.day(3)), ("exif", None))
def _(folder):
    def call(*a, **k):
        img = Image(photo(), *a, **k)
        return [img.path, freeze(img.cam), img.datetime, img.size, img.read()[::50, ::50]]

    return call


@scene("Image.read", ("box", None, (1, 2, 7, 9)), ("cache", True, False))
def _(folder):
    img = Image(write_image(folder), cam=camera(), datetime=trackkit.day(0))
    return lambda *a, **k: [img.read(*a, **k), img.array]


@scene("Image.write", ("array", None, pixels(3)), ("driver", None, "PNG"))
def _(folder):
    img = image()
    img.array = pixels()
    img.path = write_image(folder)
    path = os.path.join(folder, "out.tif")

    def call(*a, **k):
        from osgeo import gdal

        img.write(path, *a, **k)
        ds = gdal.Open(path)
        return ds.GetDriver().ShortName, ds.ReadAsArray()

    return call


@scene("Image.uv_to_xyz", ("directions", False, True))
def _(folder):
    return lambda *a, **k: image().uv_to_xyz(UV, *a, **k)


@scene("Image.project", ("method", "linear", "nearest"))
def _(folder):
    img = image()
    other = camera(viewdir=(7, -3, 2.5), k=(0.05,))
    return lambda *a, **k: img.project(other, *a, **k)


# ---- optimize: data ----


def points(directions=False, off=(0.5, -0.25)):
    cam = camera()
    return optimize.Points(cam, UV + off, world(camera(viewdir=(5.2, -4, 2)), directions=directions), directions=directions)


@scene("Points", ("directions", False, True))
def _(folder):
    cam = camera()

    def call(*a, **k):
        p = optimize.Points(cam, UV, world(cam), *a, **k)
        return [p, p.predicted()]

    return call


INDEX = ("index", slice(None), slice(0, 1), [0, 2], 1)


@scene("Points.observed", INDEX)
def _(folder):
    return points().observed


@scene("Points.predicted", INDEX)
def _(folder):
    return points().predicted


@scene("Points.plot", INDEX, ("selected", "red", "blue"), ("unselected", "gray"))
def _(folder):
    return on_axes(points().plot)


@scene("Points.plot some", INDEX[:1] + ([0, 2], slice(None)), ("selected", "red", "blue", None), ("unselected", "gray", "blue", None), needs={"index": [0, 2]})
def _(folder):
    return on_axes(points().plot)


@scene("Points.resize", ("size", None, 0.5), ("force", False))
def _(folder):
    p = points()
    p.cam.resize(2)
    return also(p.resize, p)


@scene("Points.resize forced", ("size", (80, 61), None), ("force", False, True), needs={"size": (80, 61)}, refused=True)
def _(folder):
    p = points()
    return also(p.resize, p)


CURVE = np.array([(2.0, 3), (15, 9), (25, 22), (38, 24)])


def lines(directions=False, density=1):
    cam = camera()
    xyz = world(camera(viewdir=(5.2, -4, 2)), CURVE, directions=directions)
    return optimize.Lines(cam, [CURVE[:3], CURVE[1:] + 1], [xyz], directions=directions, density=density)


@scene("Lines", ("directions", False, True), ("density", 1, 2, 0.25))
def _(folder):
    cam = camera()
    xyz = world(cam, CURVE)

    def call(*a, **k):
        line = optimize.Lines(cam, [CURVE], [xyz], *a, **k)
        return [line, line.observed(), line.predicted()]

    return call


@scene("Lines.predicted", INDEX)
def _(folder):
    return lines().predicted


@scene(
    "Lines.plot",
    INDEX[:1] + ([0, 2], slice(None)),
    ("selected", "red", "blue", None),
    ("unselected", "gray", "blue", None),
    ("observed", "green", "blue", None),
    ("predicted", "yellow", "blue", None),
    needs={"index": [0, 2]},
)
def _(folder):
    return on_axes(lines(density=0.1).plot)


@scene("Lines.plot all", INDEX[:2], ("selected", "red", "blue"))
def _(folder):
    return on_axes(lines(density=0.1).plot)


MUV = np.array([(5.0, 6), (12, 20), (20, 11), (30, 22), (33, 5)])


def matches(kind="Matches", weights=(2.0, 1.0, 3.0, 4.0, 2.5)):
    cams = camera(), camera(viewdir=(9, -3, 2))
    uvb = cams[1].xyz_to_uv(cams[0].uv_to_xyz(MUV), directions=True) + np.array([(0.1, 0), (0, 3), (4, 0), (0, 0), (1, 1)])
    return getattr(optimize, kind)(cams, (MUV.copy(), uvb), weights=None if weights is None else np.array(weights))


@scene("Matches", ("weights", None, np.array([1.0, 2, 3, 4, 5])))
def _(folder):
    m = matches()
    return lambda *a, **k: optimize.Matches(m.cams, m.uvs, *a, **k)


for KIND in ("RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"):

    @scene(KIND, ("uvs", (MUV, MUV + 1), (MUV, MUV + 2)), ("xys", None), ("weights", None, np.array([1.0, 2, 3, 4, 5])), needs={"uvs": (MUV, MUV + 1)})
    def _(folder, kind=KIND):
        m = matches()

        def call(*a, **k):
            r = getattr(optimize, kind)(m.cams, *a, **k)
            return [r, r.observed(cam=0), r.predicted(cam=0)] if kind != "RotationMatchesXYZ" else [r, r.predicted(cam=0)]

        return call


CAM = ("cam", 0, 1)

for KIND in ("Matches", "RotationMatches", "RotationMatchesXY"):

    @scene(KIND + ".observed", CAM, INDEX)
    def _(folder, kind=KIND):
        m = matches(kind)

        def call(*a, **k):
            # By camera or by its index
            return m.observed(*a, **k)

        return call


for KIND in ("Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"):

    @scene(KIND + ".predicted", CAM, INDEX)
    def _(folder, kind=KIND):
        return matches(kind).predicted


@scene("Matches.plot", CAM, INDEX[:1] + ([0, 2], slice(None)), ("selected", "red", "blue", None), ("unselected", "gray", "blue", None), needs={"index": [0, 2]})
def _(folder):
    return on_axes(matches().plot)


@scene("Matches.plot all", CAM, INDEX[:2], ("selected", "red", "blue"))
def _(folder):
    return on_axes(matches().plot)


@scene("Matches.resize", ("size", None, 0.5), ("force", False))
def _(folder):
    m = matches()
    for cam in m.cams:
        cam.resize(2)
    return also(m.resize, m)


@scene("Matches.resize forced", ("size", (80, 61), None), ("force", False, True), needs={"size": (80, 61)}, refused=True)
def _(folder):
    m = matches()
    return also(m.resize, m)


@scene(
    "Matches.filter",
    ("n_best", None, 2),
    ("min_weight", None, 2.2),
    ("cam", 0),
    ("max_error", None, 2),
    ("max_distance", None, 2.5),
    ("scaled", False),
)
def _(folder):
    m = matches()
    m.uvs[1][:] = m.uvs[0] + np.array([(0.1, 0), (0, 3), (4, 0), (0, 0), (1, 1)])
    return also(m.filter, m)


@scene(
    "Matches.filter far",
    ("n_best", None),
    ("min_weight", None),
    ("cam", 0, 1),
    ("max_error", None),
    ("max_distance", 0.4, 4),
    ("scaled", False, True),
    needs={"max_distance": 0.4},
)
def _(folder):
    cams = camera(), camera(imgsz=(80, 60), f=(120, 124), viewdir=(5, -4, 2))
    uvb = MUV * 2 + np.array([(0.1, 0), (0, 3), (0.5, 0), (0, 0), (1, 1)])
    m = optimize.Matches(cams, (MUV, uvb), weights=np.arange(5.0))
    return also(m.filter, m)


XY = np.array([(0.0, 1), (1, 3.2), (2, 4.8), (3, 7.1), (4, 2)])


@scene("Polynomial", ("deg", 1, 2))
def _(folder):
    def call(*a, **k):
        p = optimize.Polynomial(XY, *a, **k)
        return [p, p.fit()]

    return call


for NAME in ("predict", "errors"):

    @scene("Polynomial." + NAME, INDEX)
    def _(folder, name=NAME):
        return lambda *a, **k: getattr(optimize.Polynomial(XY), name)(np.array([2.0, 1.0]), *a, **k)


@scene("Polynomial.fit", INDEX[:2] + ([0, 2, 4],))
def _(folder):
    return optimize.Polynomial(XY).fit


@scene(
    "Polynomial.plot",
    ("params", None, np.array([1.0, 2.0])),
    INDEX[:1] + ([0, 2], slice(None)),
    ("selected", "red", "blue", None),
    ("unselected", "gray", "blue", None),
    ("predicted", "red", "blue", None),
    needs={"index": [0, 2]},
)
def _(folder):
    return on_axes(optimize.Polynomial(XY).plot)


@scene("Polynomial.plot all", ("params", None), INDEX[:2], ("selected", "red", "blue"))
def _(folder):
    return on_axes(optimize.Polynomial(XY).plot)


def model(**kwargs):
    p = points()
    return optimize.Cameras([p.cam], [p, optimize.Lines(p.cam, [CURVE], [world(p.cam, CURVE)], density=0.2)], **dict({"cam_params": [{"viewdir": True}]}, **kwargs))


@scene(
    "Cameras",
    ("cam_params", None, [{"viewdir": True}]),
    ("group_indices", None),
    ("group_params", None),
    ("weights", None, [1, 2, 3]),
    ("scales", True, False),
    ("sparsity", True),
)
def _(folder):
    p = points()
    return lambda *a, **k: optimize.Cameras([p.cam], [p], *a, **k)


@scene(
    "Cameras in a group",
    ("cam_params", [{"viewdir": True}] * 2, None),
    ("group_indices", [[0, 1]], [[0]], [[1]]),
    ("group_params", [{"f": True}], [{"f": True, "c": True}]),
    ("weights", None, np.arange(6.0)),
    ("scales", True, False),
    ("sparsity", True, False),
    needs={"cam_params": [{"viewdir": True}] * 2, "group_indices": [[0, 1]], "group_params": [{"f": True}]},
)
def _(folder):
    p, q = points(), points(off=(1, 1))

    return lambda *a, **k: optimize.Cameras([p.cam, q.cam], [p, q], *a, **k)


@scene("Cameras.camera_scales", ("controls", None, "all"))
def _(folder):
    m = model()

    def call(*a, **k):
        a = [m.controls if i == "all" else i for i in a]
        k = {i: m.controls if v == "all" else v for i, v in k.items()}
        return m.camera_scales(m.cams[0], *a, **k)

    return call


@scene("Cameras.parse_params", ("params", None, {"viewdir": (0, 2), "f": True}), ("default_bounds", None))
def _(folder):
    return model().parse_params


@scene("Cameras.parse_params bounds", ("params", {"f": True}, None), ("default_bounds", None, {"f": (1, 100)}), needs={"params": {"f": True}})
def _(folder):
    return model().parse_params


@scene("Cameras.set_cameras", ("save", False, True))
def _(folder):
    m = model()

    def call(*a, **k):
        m.set_cameras(np.array([6.0, -3, 1.5]), *a, **k)
        before = [c.to_array() for c in m.cams]
        m.reset_cameras()
        return before, [c.to_array() for c in m.cams]

    return call


@scene("Cameras.observed", INDEX)
def _(folder):
    return model().observed


PARAMS = ("params", None, np.array([6.0, -3, 1.5]))

for NAME in ("predicted", "residuals", "errors"):

    @scene("Cameras." + NAME, PARAMS, INDEX)
    def _(folder, name=NAME):
        m = model()
        return also(getattr(m, name), m.cams)


@scene(
    "Cameras.fit",
    ("index", slice(None), [0, 1, 2, 4]),
    ("cam_params", None, [{"viewdir": [0, 1]}]),
    ("group_params", None, [{"f": True}]),
    ("full", False),
    ("method", "least_squares", "leastsq"),
)
def _(folder):
    m = model(group_indices=[[0]], group_params=[{}])

    def call(*a, **k):
        return [m.fit(*a, **k), [c.to_array() for c in m.cams]]

    return call


@scene("Cameras.fit in full", ("index", slice(None)), ("cam_params", None), ("group_params", None), ("full", False, True), ("method", "leastsq"),
       needs={"method": "leastsq"})
def _(folder):
    m = model()

    def call(*a, **k):
        r = m.fit(*a, **k)
        return [type(r).__name__, np.asarray(r) if not hasattr(r, "params") else list(r.params.valuesdict().values())]

    return call


for WHAT in ("points", "lines"):

    @scene(
        "Cameras.plot " + WHAT,
        PARAMS,
        ("cam", 0),
        INDEX[:1] + ([0, 2], slice(None)),
        ("selected", "red", "blue", None),
        ("unselected", "gray", "blue", None),
        ("lines_observed", "green", *(["blue", None] if WHAT == "lines" else [])),
        ("lines_predicted", "yellow", *(["blue", None] if WHAT == "lines" else [])),
        needs={"index": [0, 2]},
    )
    def _(folder, what=WHAT):
        m = model()
        control = m.controls[what == "lines"]
        return on_axes(optimize.Cameras(m.cams, [control], cam_params=[{"viewdir": True}]).plot)


@scene("Cameras.plot another", ("params", None), CAM, INDEX[:2], ("selected", "red", "blue"))
def _(folder):
    p, q = points(), points(off=(1, 1))
    return on_axes(optimize.Cameras([p.cam, q.cam], [p, q]).plot)


@scene("Cameras.plot_weights", ("index", slice(None), slice(0, 2)))
def _(folder):
    p = points()
    return on_axes(optimize.Cameras([p.cam], [p], weights=[1, 2, 3]).plot_weights)


def rotated(n=3):
    imgs = [image(i, f=(60, 60), k=(), p=(), c=(0, 0)) for i in range(n)]
    found = scipy.sparse.coo_matrix(([1] * 3, ([0, 0, 1], [1, 2, 2])), shape=(n, n))
    data = np.empty(3, dtype=object)
    for k, (a, b) in enumerate(zip(found.row, found.col)):
        ca, cb = imgs[a].cam, imgs[b].cam
        uvb = cb.xyz_to_uv(ca.uv_to_xyz(MUV), directions=True) + (0.5 + k, 0.25)
        data[k] = optimize.RotationMatchesXYZ((ca, cb), (MUV, uvb), weights=np.arange(1.0, 6))
    found.data = data
    return imgs, found


@scene("ObserverCameras", ("matches", "given"), ("anchors", None, [1], [0, 2]), needs={"matches": "given"})
def _(folder):
    imgs, found = rotated()

    def call(matches, *a, **k):
        return optimize.ObserverCameras(Observer(imgs), found, *a, **k)

    return lambda *a, **k: call(*a, **k)


@scene("ObserverCameras.fit", ("anchor_weight", 1e6, 10.0), ("method", "bfgs", "nelder-mead"))
def _(folder):
    imgs, found = rotated()
    m = optimize.ObserverCameras(Observer(imgs), found)

    def call(*a, **k):
        r = m.fit(*a, **k)
        return [r.x, r.fun, r.nit, [img.cam.to_array() for img in imgs]]

    return call


@scene("ransac", ("iterations", 100, 3))
def _(folder):
    rng = np.random.RandomState(3)
    xy = np.column_stack((np.arange(40.0), 2 * np.arange(40.0) + rng.normal(0, 4, 40)))
    m = optimize.Polynomial(xy)
    tries = []

    class Counted:
        size = m.size
        errors = m.errors

        @staticmethod
        def fit(index=slice(None)):
            tries.append(len(index))
            return m.fit(index)

    return also(lambda *a, **k: optimize.ransac(Counted(), 2, 2.5, 2, *a, **k), tries)


@scene("detect_keypoints", ("mask", None, "half"), ("method", cv2.SIFT), ("root", False, True))
def _(folder):
    img = (trackkit.texture((60, 64)) * 255 / trackkit.texture((60, 64)).max()).astype(np.uint8)
    half = np.zeros(img.shape, dtype=np.uint8)
    half[:, :30] = 1

    def call(*a, **k):
        a = [half if isinstance(i, str) else i for i in a]
        k = {i: half if isinstance(v, str) else v for i, v in k.items()}
        return optimize.detect_keypoints(img, *a, **k)

    return call


def described(seed=0, n=12):
    rng = np.random.RandomState(7)
    base = rng.randint(0, 30, (n, 8)).astype(np.float32)
    noise = np.random.RandomState(seed + 1).randint(-6, 7, (n, 8)).astype(np.float32)
    pts = np.random.RandomState(seed + 11).uniform(0, 30, (n, 2))
    pts += 0 if seed == 0 else 0.5
    return [cv2.KeyPoint(float(x), float(y), 1.0) for x, y in pts], np.clip(base + noise, 0, 60).astype(np.float32)


def pairs(n=12):
    return (np.add.outer(np.arange(n), np.arange(n)) % 3 == 0).astype(np.uint8)


@scene(
    "match_keypoints",
    ("mask", None, pairs()),
    ("cross_check", False, True),
    ("max_ratio", None, 0.5),
    ("max_distance", None, 10),
    ("return_ratios", False, True),
    ("matcher", "exact"),
    needs={"matcher": "exact"},
)
def _(folder):
    ka, kb = described(0), described(3)

    def call(*a, **k):
        a = [cv2.BFMatcher() if isinstance(i, str) else i for i in a]
        k = {i: cv2.BFMatcher() if isinstance(v, str) else v for i, v in k.items()}
        return optimize.match_keypoints(ka, kb, *a, **k)

    return call


def matcher(clahe=False, built=True, matched=True, n=3, **kwargs):
    imgs = [image(i, f=(60, 60), k=(), p=(), c=(0, 0)) for i in range(n)]
    m = optimize.KeypointMatcher(imgs, clahe=clahe)
    if built:
        m.keypoints = [described(i) for i in range(n)]
    if matched:
        np.random.seed(1)
        m.build_matches(matcher=cv2.BFMatcher(), clear_keypoints=False, weights=True, **kwargs)
    return m


def matched(m):
    """What a matcher holds."""
    out = [m.keypoints, m.matches]
    return out


@scene("KeypointMatcher", ("clahe", False, True))
def _(folder):
    imgs = [textured(i) for i in range(2)]

    def call(*a, **k):
        m = optimize.KeypointMatcher(imgs, *a, **k)
        m.build_keypoints(contrastThreshold=0.0)
        return matched(m)

    return call


def textured(i):
    img = Image(f"/nowhere/img-{i}.png", cam=Camera(imgsz=(64, 60), f=80), datetime=trackkit.day(i))
    a = trackkit.texture((60, 64), seed=i)
    img.array = (a * 255 / a.max()).astype(np.uint8)
    return img


@scene(
    "KeypointMatcher.build_keypoints",
    ("masks", None, "half"),
    ("path", None, "folder"),
    ("overwrite", False),
    ("clear_images", True, False),
    ("clear_keypoints", False, True),
    ("parallel", False),
)
def _(folder):
    imgs = [textured(i) for i in range(2)]
    m = optimize.KeypointMatcher(imgs)
    half = np.zeros((60, 64), dtype=np.uint8)
    half[:, :30] = 1
    values = {"half": [half] * 2, "folder": folder}

    def call(*a, **k):
        a = [values[i] if isinstance(i, str) else i for i in a]
        k = {i: values[v] if isinstance(v, str) else v for i, v in k.items()}
        m.build_keypoints(*a, **k)
        return [m.keypoints, [img.array for img in imgs], sorted(os.listdir(folder))]

    return call


@scene(
    "KeypointMatcher.build_keypoints again",
    ("masks", None),
    ("path", "folder"),
    ("overwrite", False, True),
    ("clear_images", True),
    ("clear_keypoints", False),
    needs={"path": "folder"},
)
def _(folder):
    imgs = [textured(i) for i in range(2)]
    m = optimize.KeypointMatcher(imgs)
    m.build_keypoints(path=folder, contrastThreshold=0.5)
    m.keypoints = None
    values = {"folder": folder}

    def call(*a, **k):
        a = [values[i] if isinstance(i, str) else i for i in a]
        k = {i: values[v] if isinstance(v, str) else v for i, v in k.items()}
        m.build_keypoints(*a, **k)
        return [m.keypoints, sorted(os.listdir(folder))]

    return call


@scene(
    "KeypointMatcher.build_matches",
    ("maxdt", None, DELTA),
    ("seq", None, [1]),
    ("imgs", None, [0]),
    ("keypoints_path", None),
    ("path", None, "folder"),
    ("overwrite", False),
    ("clear_keypoints", True, False),
    ("clear_matches", False),
    ("parallel", False),
    ("weights", False, True),
    ("mtype", None, optimize.RotationMatchesXY),
    ("filter", None, {"max_distance": 20}),
)
def _(folder):
    m = matcher(matched=False)
    values = {"folder": folder}

    def call(*a, **k):
        a = [values[i] if isinstance(i, str) else i for i in a]
        k = {i: values[v] if isinstance(v, str) else v for i, v in k.items()}
        m.build_matches(*a, **dict({"matcher": cv2.BFMatcher()}, **k))
        return [m.keypoints, m.matches, sorted(os.listdir(folder))]

    return call


@scene(
    "KeypointMatcher.build_matches again",
    ("maxdt", None),
    ("seq", None),
    ("imgs", None),
    ("keypoints_path", None),
    ("path", "folder"),
    ("overwrite", False, True),
    ("clear_keypoints", True, False),
    ("clear_matches", False, True),
    needs={"path": "folder"},
)
def _(folder):
    m = matcher(matched=False)
    m.build_matches(path=folder, clear_keypoints=False, matcher=cv2.BFMatcher(), max_ratio=0.3)
    m.matches = None
    values = {"folder": folder}

    def call(*a, **k):
        a = [values[i] if isinstance(i, str) else i for i in a]
        k = {i: values[v] if isinstance(v, str) else v for i, v in k.items()}
        m.build_matches(*a, **dict({"matcher": cv2.BFMatcher()}, **k))
        return [m.keypoints, m.matches, sorted(os.listdir(folder))]

    return call


@scene("KeypointMatcher.convert_matches", ("clear_uvs", False, True), ("parallel", False))
def _(folder):
    m = matcher()
    return also(lambda *a, **k: m.convert_matches(optimize.RotationMatchesXY, *a, **k), m)


@scene("KeypointMatcher.filter_matches", ("clear_weights", False, True), ("parallel", False))
def _(folder):
    m = matcher()
    return also(lambda *a, **k: m.filter_matches(*a, **dict({"n_best": 3}, **k)), m)


@scene("KeypointMatcher.match_breaks", ("min_matches", 0, 13))
def _(folder):
    return matcher(seq=[1]).match_breaks


# ---- raster ----


def raster(**kwargs):
    return rasterkit.raster(6, 5, d=(2.0, 1.0), origin=(10.0, 20.0), **kwargs)


@scene("Grid", ("x", None, (3, 9)), ("y", None, (7, 1)), ("crs", None, 4326))
def _(folder):
    return lambda *a, **k: (lambda g: [g.xlim, g.ylim, g.crs, g.d])(Grid((6, 5), *a, **k))


def tif(folder, bands=1):
    path = os.path.join(folder, "r.tif")
    r = raster()
    if bands == 1:
        rasterkit.write_tif(path, r.array, r.xlim, r.ylim)
    else:
        from osgeo import gdal

        ds = gdal.GetDriverByName("GTiff").Create(path, 6, 5, bands, gdal.GDT_Float64)
        ds.SetGeoTransform((10, 2, 0, 25, 0, -1))
        for i in range(bands):
            ds.GetRasterBand(i + 1).WriteArray(r.array + 100 * i)
        ds = None
    return path


@scene("Grid.read", ("d", None, 4.0), ("xlim", None, (12, 18)), ("ylim", None, (21, 24)))
def _(folder):
    path = tif(folder)
    return lambda *a, **k: Grid.read(path, *a, **k)


@scene(
    "Raster.open",
    ("band", 1, 2),
    ("d", None, 4.0),
    ("xlim", None, (12, 18)),
    ("ylim", None, (21, 24)),
    ("datetime", None, trackkit.day(1)),
    ("nan", None, 11),
)
def _(folder):
    path = tif(folder, 2)

    def call(*a, **k):
        r = Raster.open(path, *a, **k)
        return [r.array, r.xlim, r.ylim, r.datetime, r.crs]

    return call


@scene("Raster", ("x", None, (3, 9)), ("y", None, (7, 1)), ("datetime", None, trackkit.day(1)), ("crs", None, 4326))
def _(folder):
    return lambda *a, **k: Raster(np.arange(30.0).reshape(5, 6), *a, **k)


for WHAT in ("Grid", "Raster"):

    def subject(what):
        return raster() if what == "Raster" else Grid((6, 5), (10, 22), (25, 20))

    @scene(WHAT + ".shift", ("dx", None, 1.5), ("dy", None, -2.0), *([("dz", None, 3.0)] if WHAT == "Raster" else []))
    def _(folder, what=WHAT):
        g = subject(what)
        return also(g.shift, g)

    @scene(WHAT + ".inbounds_xy", ("grid", False, True))
    def _(folder, what=WHAT):
        x, y = np.array([11.0, 30, 12]), np.array([21.0, 22, 29])
        g = subject(what)

        def call(*a, **k):
            grid = k.get("grid", a[0] if a else False)
            return g.inbounds_xy((x, y) if grid else np.column_stack((x, y)), *a, **k)

        return call

    @scene(WHAT + ".snap_xy", ("centers", False, True), ("edges", False, True), ("inbounds", True), refused=True)
    def _(folder, what=WHAT):
        g = subject(what)
        xy = np.array([(11.2, 21.4), (13.9, 24.6), (22, 20)])
        return lambda *a, **k: g.snap_xy(xy, *a, **k)

    @scene(WHAT + ".snap_xy to centers", ("centers", True, False), ("edges", False, True), ("inbounds", True, False), needs={"centers": True})
    def _(folder, what=WHAT):
        g = subject(what)
        xy = np.array([(11.2, 21.4), (13.9, 24.6), (22, 20.9), (22.4, 21)])
        return lambda *a, **k: g.snap_xy(xy, *a, **k)

    @scene(WHAT + ".snap_box", ("centers", False, True), ("edges", True, False), ("inbounds", True))
    def _(folder, what=WHAT):
        g = subject(what)
        return lambda *a, **k: g.snap_box((14.3, 22.2), (3, 2), *a, **k)

    @scene(WHAT + ".snap_box at the edge", ("centers", True), ("edges", False, True), ("inbounds", True, False), needs={"centers": True, "edges": False})
    def _(folder, what=WHAT):
        g = subject(what)
        return lambda *a, **k: g.snap_box((20.5, 21.0), (3, 2), *a, **k)

    @scene(WHAT + ".xy_to_rowcol", ("snap", False, True), ("inbounds", True))
    def _(folder, what=WHAT):
        g = subject(what)
        xy = np.array([(11.2, 21.4), (13.9, 24.6), (22, 20)])
        return lambda *a, **k: g.xy_to_rowcol(xy, *a, **k)

    @scene(WHAT + ".xy_to_rowcol at the edge", ("snap", True, False), ("inbounds", True, False), needs={"snap": True})
    def _(folder, what=WHAT):
        g = subject(what)
        xy = np.array([(11.2, 21.4), (13.9, 24.6), (22, 20)])
        return lambda *a, **k: g.xy_to_rowcol(xy, *a, **k)

    @scene(WHAT + ".crop_extent", ("xlim", None, (12, 17)), ("ylim", None, (21, 23)))
    def _(folder, what=WHAT):
        return subject(what).crop_extent

    @scene(WHAT + ".tile_indices", ("overlap", (0, 0), (1, 0), (0, 2)))
    def _(folder, what=WHAT):
        g = subject(what)
        return lambda *a, **k: g.tile_indices((2, 3), *a, **k)


@scene("Raster.sample", ("grid", False), ("order", 1, 0, 3), ("bounds_error", True), ("fill_value", np.nan))
def _(folder):
    r = raster()
    xy = np.array([(12.3, 21.4), (13.9, 23.6), (20, 22)])
    return lambda *a, **k: r.sample(xy, *a, **k)


@scene("Raster.sample outside", ("grid", False), ("order", 1, 0, 3), ("bounds_error", False, True), ("fill_value", np.nan, -1.0),
       needs={"bounds_error": False})
def _(folder):
    r = raster()
    xy = np.array([(12.3, 21.4), (13.9, 43.6), (20, 22)])
    return lambda *a, **k: r.sample(xy, *a, **k)


@scene("Raster.sample outside, refused", ("grid", False), ("order", 1), ("bounds_error", True, False), refused=True)
def _(folder):
    r = raster()
    xy = np.array([(12.3, 21.4), (13.9, 43.6), (20, 22)])
    return lambda *a, **k: r.sample(xy, *a, **k)


@scene("Raster.sample grid", ("grid", True, False), ("order", 1, 0, 3), ("bounds_error", True), ("fill_value", np.nan), needs={"grid": True})
def _(folder):
    r = raster()
    x, y = np.array([12.3, 13, 19]), np.array([24, 23.1, 22])
    return lambda *a, **k: r.sample((x, y), *a, **k)


@scene("Raster.plot", ("array", None, np.ones((5, 6))))
def _(folder):
    return on_axes(raster().plot)


AREA = np.array([(11, 21), (11, 24), (19, 24), (19, 21)], dtype=float)
HOLE = np.array([(14, 22), (14, 23), (17, 23), (17, 22)], dtype=float)


@scene("Raster.rasterize_polygons", ("holes", None, [HOLE]))
def _(folder):
    return lambda *a, **k: raster().rasterize_polygons([AREA], *a, **k)


@scene("Raster.crop", ("xlim", None, (12, 17)), ("ylim", None, (21, 23)), ("zlim", None, (20, 60)))
def _(folder):
    r = raster()
    return also(r.crop, r)


@scene("Raster.resize", ("order", 1, 0, 3))
def _(folder):
    r = dem()
    return also(lambda *a, **k: r.resize(0.75, *a, **k), r)


@scene("Raster.resize up", ("order", 1, 0, 3))
def _(folder):
    r = dem()
    return also(lambda *a, **k: r.resize(2, *a, **k), r)


@scene("Raster.fill_circle", ("value", np.nan, 3.0))
def _(folder):
    r = raster()
    return also(lambda *a, **k: r.fill_circle((14, 22), 2.5, *a, **k), r)


@scene("Raster.hillshade", ("azimuth", 315, 90), ("altitude", 45, 20))
def _(folder):
    return dem().hillshade


@scene(
    "Raster.fill_crevasses",
    ("maximum", {"size": 5}, {"size": 3}),
    ("gaussian", {"sigma": 5}, {"sigma": 1}),
    ("mask", None, np.arange(480).reshape(20, 24) % 5 != 0),
    ("fill", False),
)
def _(folder):
    r = dem()
    return also(r.fill_crevasses, r)


@scene("Raster.fill_crevasses, masked", ("maximum", {"size": 5}), ("gaussian", {"sigma": 5}), ("mask", np.arange(480).reshape(20, 24) % 5 != 0),
       ("fill", False, True), needs={"mask": np.arange(480).reshape(20, 24) % 5 != 0})
def _(folder):
    r = dem()
    return also(r.fill_crevasses, r)


@scene("Raster.viewshed", ("correction", False, {"radius": 300.0}))
def _(folder):
    r = dem()
    return lambda *a, **k: r.viewshed((0.0, 90.0, 7.0), *a, **k)


def mountains():
    """A terrain so large that the curvature of the Earth matters."""
    small = dem()
    r = rasterkit.raster(24, 20, d=(1000.0, 1000.0))
    r.array = 30 * small.array
    return r


@scene("Raster.viewshed far", ("correction", False, True, {}))
def _(folder):
    r = mountains()
    return lambda *a, **k: r.viewshed((500.0, 500.0, 100.0), *a, **k)


@scene("Raster.horizon far", ("headings", range(0, 360)), ("correction", False, True, {}))
def _(folder):
    r = mountains()
    return lambda *a, **k: r.horizon((500.0, 500.0, 20.0), *a, **k)


@scene("Raster.read", ("box", None, (1, 2, 4, 5)), ("cache", True, False))
def _(folder):
    path = tif(folder)
    r = Raster.open(path)

    def call(*a, **k):
        result = r.read(*a, **k)
        # Only cached values outlive the file
        os.remove(path)
        try:
            return result, r.array
        except Exception:
            return result, "not cached"

    return call


@scene("Raster.horizon", ("headings", range(0, 360), range(0, 360, 10)), ("correction", False, {"radius": 30.0}))
def _(folder):
    r = dem()
    return lambda *a, **k: r.horizon((0.0, 90.0, 0.0), *a, **k)


def interpolant(sigmas=True, x=True):
    means = [dem(), dem(f=lambda x, y: 0.1 * x + y), dem(f=lambda x, y: 3 * np.cos(x))]
    s = [dem(f=lambda x, y, i=i: 1 + i + 0 * x) for i in range(3)] if sigmas else None
    return RasterInterpolant(means, s, [0.0, 1.0, 3.0] if x else None)


@scene("RasterInterpolant", ("sigmas", None, [0.5, 0.25, 1.0]), ("x", [0.0, 1.0, 3.0], [0.0, 2.0, 3.0]), needs={"x": [0.0, 1.0, 3.0]})
def _(folder):
    means = [dem(), dem(f=lambda x, y: 0.1 * x + y), dem(f=lambda x, y: 3 * np.cos(x))]

    def call(*a, **k):
        r = RasterInterpolant(means, *a, **k)
        return [r(0.5).array, r(0.5, return_sigma=True) if r.sigmas is not None else None]

    return call


@scene("RasterInterpolant of datetimes", ("sigmas", None, [0.5, 0.25]), ("x", None))
def _(folder):
    means = [dem(), dem(f=lambda x, y: 0.1 * x + y)]
    for i, m in enumerate(means):
        m.datetime = trackkit.day(i)

    def call(*a, **k):
        r = RasterInterpolant(means, *a, **k)
        return [r(trackkit.day(0.25)).array, r.sigmas is None]

    return call


@scene("RasterInterpolant.nearest", ("extrapolate", False, True), refused=True)
def _(folder):
    return lambda *a, **k: interpolant().nearest(4.0, *a, **k)


@scene(
    "RasterInterpolant()",
    ("d", None, 6.0),
    ("xlim", None, (-20, 10)),
    ("ylim", None, (70, 90)),
    ("zlim", None, (0, 1)),
    ("return_sigma", False, True),
    ("extrapolate", False),
    ("fun", None),
)
def _(folder):
    return lambda *a, **k: [freeze(i) for i in np.atleast_1d(interpolant()(0.5, *a, **k))]


@scene("RasterInterpolant() outside", ("d", None), ("xlim", None), ("ylim", None), ("zlim", None), ("return_sigma", False), ("extrapolate", False, True), refused=True)
def _(folder):
    return lambda *a, **k: interpolant()(4.0, *a, **k)


# ---- svg ----

SVG = """<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 20 10">
<g id="a"><path id="one" d="M1,2 L3,4"/></g><g id="b"><polyline id="two" points="1,2 3,4 5,5"/></g></svg>"""


@scene("svg.read", ("key", None, "id"), ("imgsz", None, (40, 20)))
def _(folder):
    path = os.path.join(folder, "x.svg")
    with open(path, "w") as fp:
        fp.write(SVG)
    return lambda *a, **k: svg.read(path, *a, **k)


@scene("svg.image", ("href", None, "x.jpg"))
def _(folder):
    return lambda *a, **k: svg.image(10, 20, *a, **k)


@scene("svg.path", ("d", "", "M1,2"))
def _(folder):
    return lambda *a, **k: svg.path(*a, **dict({"id": "x"}, **k))


@scene("svg.write", ("path", None), ("indent", None, 2))
def _(folder):
    def call(*a, **k):
        return svg.write(svg.svg(svg.g(svg.path("M1,2"), id="x")), *a, **k)

    return call


@scene("svg.Points.scale", ("y", None, 3.0))
def _(folder):
    return lambda *a, **k: svg.Points([(1, 2), (3, 4)]).scale(2.0, *a, **k)


@scene("svg.Points.translate", ("y", 0, 3.0))
def _(folder):
    return lambda *a, **k: svg.Points([(1, 2), (3, 4)]).translate(2.0, *a, **k)


# ---- track ----


def simulate(m):
    p = m.initialize_particles()
    first = p.copy()
    m.evolve_particles(p, datetime.timedelta(days=2))
    return [first, p, m.compute_log_likelihoods(p)]


ZERO2, ZERO3 = (0, 0), (0, 0, 0)


def cartesian(name, cls, v, a):
    @scene(
        name,
        ("dem_sigma", None),
        ("n", 1000, 10),
        ("xy_sigma", ZERO2, (1, 2)),
        (v, ZERO3, (1, 2, 0.1)),
        (v + "_sigma", ZERO3, (1, 2, 0.1)),
        (a, ZERO3, (1, 2, 0.1)),
        (a + "_sigma", ZERO3, (1, 2, 0.1)),
    )
    def _(folder):
        return lambda *args, **kwargs: simulate(cls((3.0, 90.0), datetime.timedelta(days=1), 5.0, *args, **kwargs))

    @scene(
        name + " on terrain",
        ("dem_sigma", 0.5, 0.25),
        ("n", 1000, 10),
        ("xy_sigma", ZERO2, (1, 2)),
        (v, ZERO3, (1, 0.2, 0.1)),
        needs={"dem_sigma": 0.5},
    )
    def _(folder):
        return lambda *args, **kwargs: simulate(cls((3.0, 90.0), datetime.timedelta(days=1), dem(), *args, **kwargs))


def tangent(name, cls, v, a):
    @scene(
        name,
        ("dem_sigma", 0, 0.5),
        ("n", 1000, 10),
        ("xy_sigma", ZERO2, (1, 2)),
        (v, ZERO2, (1, 0.2)),
        (v + "_sigma", ZERO2, (1, 0.2)),
        (a, ZERO2, (1, 0.2)),
        (a + "_sigma", ZERO2, (1, 0.2)),
        ("slope_sigma", 0),
    )
    def _(folder):
        def call(*args, **kwargs):
            return simulate(cls((3.0, 90.0), datetime.timedelta(days=1), dem(), *args, **kwargs))

        return call

    @scene(
        name + " in motion",
        ("dem_sigma", 0, 0.5),
        ("n", 1000, 10),
        ("xy_sigma", ZERO2, (1, 2)),
        (v, (1.5, 0.3), (1, 0.2)),
        (v + "_sigma", ZERO2, (1, 0.2)),
        (a, ZERO2, (1, 0.2)),
        (a + "_sigma", ZERO2, (1, 0.2)),
        ("slope_sigma", 0, 0.5),
        needs={v: (1.5, 0.3)},
    )
    def _(folder):
        return lambda *args, **kwargs: simulate(cls((3.0, 90.0), datetime.timedelta(days=1), dem(), *args, **kwargs))


cartesian("CartesianMotion", motion.CartesianMotion, "vxyz", "axyz")
cartesian("CylindricalMotion", motion.CylindricalMotion, "vrthz", "arthz")
tangent("TangentCartesianMotion", motion.TangentCartesianMotion, "vxy", "axy")
tangent("TangentCylindricalMotion", motion.TangentCylindricalMotion, "vrth", "arth")


@scene("Motion", ("n", 1000, 10), ("vxyz_sigma", ZERO3, (1, 2, 3)))
def _(folder):
    def call(*a, **k):
        m = motion.Motion((1.0, 2.0), datetime.timedelta(days=1), *a, **k)
        return [m.n, m.vxyz_sigma, m.xy]

    return call


@scene("Observer", ("sigma", 0.3, 0.5), ("cache", True, False))
def _(folder):
    path = write_image(folder)
    imgs = [Image(path, cam=camera(), datetime=trackkit.day(i)) for i in range(2)]

    def call(*a, **k):
        obs = Observer(imgs, *a, **k)
        tile = obs.extract_tile((3, 3, 9, 9), 0)
        return [obs.sigma, obs.cache, tile, [img.array for img in imgs]]

    return call


def observer(n=3, bands=1, sigma=0.3):
    return Observer([image(i, bands) for i in range(n)], sigma=sigma)


ONE = datetime.timedelta(0)


@scene("Observer.index", ("maxdt", ONE, 0.5 * DELTA), refused=True)
def _(folder):
    return lambda *a, **k: observer().index(trackkit.day(1.1), *a, **k)


@scene("Observer.sample_tile", ("grid", False, True))
def _(folder):
    tile = pixels(2, size=(6, 5)).astype(float)
    u = np.array([11.5, 12, 13])
    v = np.array([21, 22.5, 23])

    def call(*a, **k):
        grid = k.get("grid", a[0] if a else False)
        return observer().sample_tile((u, v) if grid else np.column_stack((u, v)), tile, (10, 20, 16, 25), *a, **k)

    return call


@scene("Observer.plot_tile", ("box", None, (3, 4, 9, 9)), ("axes", None))
def _(folder):
    tile = pixels(2, size=(6, 5))
    return on_axes(lambda *a, **k: observer().plot_tile(tile, *a, **k))


@scene("Observer.plot_box", ("axes", None))
def _(folder):
    return on_axes(lambda *a, **k: observer().plot_box((3, 4, 9, 9), *a, **k))


@scene("Observer.cache_images", ("index", slice(None), [0], 1))
def _(folder):
    path = write_image(folder)
    imgs = [Image(path, cam=camera(), datetime=trackkit.day(i)) for i in range(3)]
    return also(Observer(imgs).cache_images, imgs)


@scene("Observer.clear_images", ("index", slice(None), [0], 1))
def _(folder):
    obs = observer()
    return also(obs.clear_images, obs.images)


def playing(fn):
    """Call with everything an animation draws."""

    def call(*args, **kwargs):
        plt.close("all")
        try:
            ani = fn(*args, **kwargs)
            frames = list(ani.new_frame_seq())
            out = [frames, getattr(ani, "_interval", None), getattr(ani, "_blit", None)]
            figure = ani._fig
            ani._init_draw()
            for frame in frames:
                ani._draw_frame(frame)
                out.append(freeze(figure))
            ani._draw_was_started = True
            return out
        finally:
            plt.close("all")

    return call


@scene(
    "Observer.animate",
    ("uv", None, (11, 12)),
    ("frames", None, [0, 2]),
    ("size", (100, 100), (9, 11)),
    ("interval", 200, 50),
    ("subplots", {}, {"figsize": (3, 2)}),
    ("animation", {}, {"blit": True}),
)
def _(folder):
    obs = Observer([big(i) for i in range(3)])
    return playing(obs.animate)


def big(i):
    """An image larger than the default size of an animation."""
    img = Image(f"/nowhere/img-{i}.png", cam=Camera(imgsz=(160, 140), f=200, viewdir=(i, 0, 0)), datetime=trackkit.day(i))
    img.array = pixels(i, size=(160, 140))
    return img


@scene(
    "Observer.track",
    ("frames", None, [0, 2]),
    ("size", (100, 100), (9, 11)),
    ("interval", 200, 50),
    ("subplots", {}, {"figsize": (3, 2)}),
    ("animation", {}, {"blit": True}),
)
def _(folder):
    obs = Observer([big(i) for i in range(3)])
    return playing(lambda *a, **k: obs.track(np.array([(0.02, 1.0, 0.01)]), *a, **k))


@scene("Observer.split", ("overlap", 1, 0, 2))
def _(folder):
    obs = observer(6)
    return lambda *a, **k: [[img.path for img in part.images] for part in obs.split(3, *a, **k)]


def tracker(**kwargs):
    return Tracker([trackkit.observer("a", range(4))], **kwargs)


def moving(n=30):
    return motion.CartesianMotion(
        xy=(0.3, -0.2), time_unit=datetime.timedelta(days=1), dem=0.0, n=n, xy_sigma=(0.6, 0.6), vxyz_sigma=(0.2, 0.2, 0), axyz_sigma=(0.2, 0.2, 0)
    )


def watching(days=range(4)):
    """An observer looking down on textured ground."""
    imgs = []
    for i in days:
        cam = Camera(imgsz=(160, 152), f=80, xyz=(0, 0, 20), viewdir=(0, -90, 0))
        img = Image(f"/nowhere/down-{i}.png", cam=cam, datetime=trackkit.day(i))
        img.array = np.round(trackkit.texture((152, 160), seed=2) * 40 + 3 * (i + 1) * np.random.RandomState(i).rand(152, 160), 1)
        imgs.append(img)
    return Observer(imgs, sigma=3.0)


def followed(t):
    return [t.means, t.sigmas, t.covariances, t.particles, t.weights, [str(e) for e in t.errors or []], t.datetimes]


def far():
    r = rasterkit.raster(6, 6, d=(10.0, 10.0), origin=(-30.0, -30.0))
    r.array = np.zeros((6, 6), dtype=bool)
    return r


@scene(
    "Tracker",
    ("viewshed", None, "nothing"),
    ("resample_method", "systematic", "stratified", "residual", "choice"),
    ("highpass", {"size": (5, 5)}, {"size": (3, 3)}),
    ("interpolation", {"kx": 3, "ky": 3}, {"kx": 1, "ky": 1}),
)
def _(folder):
    def call(*a, **k):
        a = [far() if isinstance(i, str) and i == "nothing" else i for i in a]
        k = {i: far() if isinstance(v, str) and v == "nothing" else v for i, v in k.items()}
        t = Tracker([watching()], *a, **k)
        r = t.track([moving()], return_particles=True)
        return followed(r)

    return call


@scene(
    "Tracker.track",
    ("datetimes", None, [trackkit.day(0), trackkit.day(2)]),
    ("maxdt", ONE),
    ("tile_size", (15, 15), (9, 11)),
    ("observer_mask", None, np.array([[False]])),
    ("return_covariances", False, True),
    ("return_particles", False, True),
    ("reduce_particles", None),
    ("parallel", False),
)
def _(folder):
    t = Tracker([watching()])
    return lambda *a, **k: followed(t.track([moving()], *a, **k))


@scene(
    "Tracker.track reduced",
    ("datetimes", None),
    ("maxdt", ONE),
    ("tile_size", (15, 15)),
    ("observer_mask", None),
    ("return_covariances", False),
    ("return_particles", True, False),
    ("reduce_particles", None, 7),
    needs={"return_particles": True},
)
def _(folder):
    t = Tracker([watching()])
    return lambda *a, **k: followed(t.track([moving()], *a, **k))


NEAR = [trackkit.day(0), trackkit.day(1.1), trackkit.day(2)]


@scene("Tracker.track near", ("datetimes", NEAR), ("maxdt", ONE, 0.5 * DELTA), needs={"datetimes": NEAR})
def _(folder):
    t = Tracker([watching()])
    return lambda *a, **k: followed(t.track([moving()], *a, **k))


@scene("Tracker.parse_datetimes", ("maxdt", ONE, 0.5 * DELTA))
def _(folder):
    t = Tracker([watching()])
    return lambda *a, **k: t.parse_datetimes(NEAR, *a, **k)


@scene("Tracker.match_datetimes", ("maxdt", ONE, 0.5 * DELTA))
def _(folder):
    t = Tracker([watching()])
    return lambda *a, **k: t.match_datetimes(NEAR, *a, **k)


def particles(n=20):
    rng = np.random.RandomState(2)
    p = rng.normal(size=(n, 6))
    w = rng.rand(n)
    return p, w / w.sum()


def holding():
    t = Tracker([watching()])
    t.particles, t.weights = particles()
    return t


@scene("Tracker.compute_particle_sigma", ("mean", None, np.arange(6.0)))
def _(folder):
    return holding().compute_particle_sigma


@scene("Tracker.resample_particles", ("method", None, "stratified", "residual", "choice"))
def _(folder):
    t = holding()
    return also(t.resample_particles, t)


@scene("Tracker.resample_particles otherwise", ("method", None, "systematic"))
def _(folder):
    t = holding()
    t.resample_method = "stratified"
    return also(t.resample_particles, t)


@scene("Tracker.extract_tile", ("histogram", None, (np.arange(11.0), np.linspace(0, 1, 11))), ("return_histogram", False, True))
def _(folder):
    t = holding()
    return lambda *a, **k: t.extract_tile(0, 1, (3, 3, 18, 18), *a, **k)


@scene("Tracker.update_weights", ("motion_model", None, "moving"))
def _(folder):
    t = holding()

    def call(*a, **k):
        a = [motion.CartesianMotion((0, 0), DELTA, 0.3, dem_sigma=0.4) for i in a if i] or a
        k = {i: v and motion.CartesianMotion((0, 0), DELTA, 0.3, dem_sigma=0.4) for i, v in k.items()}
        t.update_weights([None], *a, **k)
        return t.weights

    return call


def tracks(**kwargs):
    rng = np.random.RandomState(4)
    p = dict(sigmas=rng.rand(3, 4, 6))
    p.update(kwargs)
    return Tracks([trackkit.day(i) for i in range(4)], datetime.timedelta(days=1), rng.rand(3, 4, 6) * 10, **p)


S346 = np.random.RandomState(4).rand(3, 4, 6)


@scene(
    "Tracks",
    ("sigmas", None, S346),
    ("covariances", None),
    ("particles", None),
    ("weights", None),
    ("tracker", None),
    ("images", None),
    ("params", None, {"a": 1}),
    ("errors", None, [None, ValueError("x"), None]),
    ("warnings", None, [None, None, ["x"]]),
)
def _(folder):
    return lambda *a, **k: Tracks([trackkit.day(i) for i in range(4)], datetime.timedelta(days=1), S346, *a, **k)


TRACKS = ("tracks", slice(None), [0], slice(1, 3))


@scene("Tracks.endpoints", TRACKS)
def _(folder):
    return tracks().endpoints


@scene("Tracks.plot_xy", TRACKS, ("start", True, False, {"color": "blue"}), ("mean", True, False, {"color": "blue"}), ("sigma", False, True, {"color": "blue"}))
def _(folder):
    return on_axes(tracks().plot_xy)


@scene("Tracks.plot_vxy", TRACKS)
def _(folder):
    return on_axes(tracks().plot_vxy)


for DIM in range(3):

    @scene(f"Tracks.plot_v1d {DIM}", TRACKS, ("mean", True, False, {"color": "blue"}), ("sigma", False, True, {"color": "blue"}))
    def _(folder, dim=DIM):
        return on_axes(lambda *a, **k: tracks().plot_v1d(dim, *a, **k))


@scene(
    "Tracks.animate",
    ("obs", 0, 1),
    ("frames", None, [0, 2]),
    ("images", None, False),
    ("particles", None, False),
    ("map_size", (20, 20), (9, 11)),
    ("img_size", (100, 100), (9, 11)),
    ("subplots", {}, {"figsize": (3, 2)}),
    ("animation", {}, {"interval": 50}),
)
def _(folder):
    t = Tracker([watching(), watching(range(0, 4, 2))])
    r = t.track([moving()], datetimes=[trackkit.day(i) for i in range(4)], return_particles=True)
    return playing(lambda *a, **k: r.animate(0, *a, **k))


@scene("Converter", ("uv", 1000, 10))
def _(folder):
    def call(*a, **k):
        xcam = Matlab(imgsz=SIZE, fc=(50, 50), kc=(0.01, 0, 0, 0, 0))
        return Converter(xcam, camera(), *a, **k).uv

    return call


# ---- the check ----


def outcome(name, args, kwargs):
    fn = SCENES[name][0]
    global FOLDER
    with scratch() as folder:
        FOLDER = str(folder)
        np.random.seed(0)
        cv2.setRNGSeed(0)
        call = fn(str(folder))
        np.random.seed(0)
        args, kwargs = copy.deepcopy(args), copy.deepcopy(kwargs)
        try:
            result = call(*args, **kwargs)
        except Exception as e:
            return freeze(e), f"{type(e).__name__}: {e}"
        return freeze(result), None


def subsets(names, all_of):
    n = len(names)
    if all_of or n <= 5:
        sizes = range(n + 1)
    else:
        sizes = sorted({0, 1, n - 1, n})
    for size in sizes:
        yield from itertools.combinations(names, size)


def call(name, deep):
    fn, options, needs, refused = SCENES[name]
    defaults = {o[0]: o[1] for o in options}
    required = {k: defaults[k] for k in needs}
    optional = [o[0] for o in options if o[0] not in needs]
    plain, failure = outcome(name, (), required)
    require(refused == bool(failure), lambda: f"{name}: {failure or 'is not refused'}")
    seen, steps = set(), 1
    # Options at their defaults, by name
    for subset in subsets(optional, deep and len(optional) <= 8):
        given = {k: defaults[k] for k in subset}
        value, error = outcome(name, (), {**required, **given})
        require(same(value, plain), lambda: f"{name}: not the same with {list(subset)} at the documented default ({error or failure or 'other result'})")
        steps += 1
    # By position
    for n in range(len(options) + 1):
        args = [o[1] for o in options[:n]]
        rest = {k: v for k, v in required.items() if k not in [o[0] for o in options[:n]]}
        value, error = outcome(name, args, rest)
        require(same(value, plain), lambda: f"{name}: not the same with the first {n} options in order ({error or failure or 'other result'})")
        steps += 1
    # Alternatives
    for i, option in enumerate(options):
        for alternative in option[2:]:
            others = [k for k in optional if k != option[0]]
            base = None
            for subset in subsets(others, deep and len(others) <= 6):
                given = {k: defaults[k] for k in subset}
                value, error = outcome(name, (), {**required, **given, option[0]: alternative})
                what = f"{name}: {option[0]}={str(alternative)[:40]}"
                if base is None:
                    base = value
                    require(not same(value, plain), lambda: f"{what} changes nothing")
                require(same(value, base), lambda: f"{what}: not the same with {list(subset)} at the documented default ({error or 'other result'})")
                steps += 1
            # By position, after the defaults of the others
            args = [o[1] for o in options[:i]] + [alternative]
            rest = {k: v for k, v in required.items() if k not in [o[0] for o in options[: i + 1]]}
            value, error = outcome(name, args, rest)
            require(same(value, base), lambda: f"{name}: {option[0]} is not option {i} by position ({error or 'other result'})")
            seen.add((name, option[0], str(alternative)[:40]))
            steps += 1
    return stats(seen or [name], steps, (name, repr(plain)), len(seen) > 0)


def explore(ck):
    ck.sweep(call, [(name, ck.thorough) for name in SCENES], chunk=1)
