"""Photographs know their camera, and are redrawn as another camera would see them."""
import datetime
import itertools

import cv2
import matplotlib.pyplot as plt
import numpy as np
import osgeo.gdal
import piexif

from mc.core import require, scratch, stats
from glimpse import Camera, Exif, Image

LEVEL = "model_checking"
RULE = (
    "A case is one set of camera parameters given for one photograph whose metadata is complete, "
    "partial or absent; or one pair of cameras at the same place, for which every pixel of the "
    "redrawn image is compared. Non-trivial when a camera results, or some pixel is seen by both."
)
ASSUMPTIONS = [
    "JPEG files for metadata, GeoTIFF files for pixels.",
    "Projection of points is that of the camera (see C16 and C17).",
    "What integer images show where the other camera does not see is not prescribed.",
]

NOW = datetime.datetime(2014, 10, 13, 2, 3, 36)
GIVEN = {
    "imgsz": (120, 90),
    "f": (300, 290),
    "fmm": 28,
    "sensorsz": (30, 20),
    "c": (1, -2),
    "cmm": (0.5, 0.25),
    "xyz": (1, 2, 3),
    "k": (0.1,),
    "correction": True,
}
TAGS = {
    "imgsz": {"Exif": {"PixelXDimension": 60, "PixelYDimension": 40}},
    "fmm": {"Exif": {"FocalLength": (200, 10)}},
    "sensorsz": {"0th": {"Make": b"NIKON CORPORATION", "Model": b"NIKON D200"}},
    "datetime": {"Exif": {"DateTimeOriginal": b"2014:10:13 02:03:36"}},
}
META = {"imgsz": (60, 40), "fmm": 20.0, "sensorsz": (23.6, 15.8), "datetime": NOW}
LATER = datetime.datetime(2020, 2, 2)


def photo(path, parts):
    cv2.imwrite(path, np.full((40, 60, 3), 127, dtype=np.uint8))
    tags = {"0th": {}, "Exif": {}}
    for part in parts:
        for group, values in TAGS[part].items():
            tags[group].update(values)
    exif = Exif(path)
    exif.tags = {**exif.tags, **tags}
    exif.insert(path)


def expected(given, parts):
    """Camera parameters, or None if some are missing or contradict."""
    meta = {k: META[k] for k in parts if k != "datetime"}
    known = dict(given)
    if "f" in known and "fmm" in known or "c" in known and "cmm" in known:
        return None
    for k, v in meta.items():
        if not (k == "fmm" and "f" in known):
            known.setdefault(k, v)
    if "imgsz" not in known:
        return None
    imgsz = np.array(known["imgsz"], dtype=float)
    sensorsz = None if known.get("sensorsz") is None else np.array(known["sensorsz"], dtype=float)
    if ("fmm" in known or "cmm" in known) and sensorsz is None:
        return None
    if "f" in known:
        f = np.array(known["f"], dtype=float)
    elif "fmm" in known:
        f = known["fmm"] * imgsz / sensorsz
    else:
        return None
    c = np.array(known.get("c", (0, 0)), dtype=float)
    if "cmm" in known:
        c = np.array(known["cmm"]) * imgsz / sensorsz
    return {
        "imgsz": imgsz, "f": f, "c": c, "xyz": known.get("xyz", (0, 0, 0)),
        "k": tuple(known.get("k", ())) + (0,) * (6 - len(known.get("k", ()))),
        "correction": bool(known.get("correction", False)),
    }, sensorsz


def cameras(names):
    """Given parameters override and supplement those of any metadata."""
    given = {k: GIVEN[k] for k in names}
    seen = []
    with scratch():
        for n in range(len(TAGS) + 1):
            for parts in itertools.combinations(TAGS, n):
                photo("a.jpg", parts)
                for when, source in itertools.product((None, LATER), ("file", "exif", "nothing")):
                    what = f"given {given} and datetime {when}, metadata {parts} from {source}"
                    exif = Exif("a.jpg") if source == "exif" else None
                    path = "missing.jpg" if source in ("exif", "nothing") else "a.jpg"
                    keep = dict(given)
                    complete = "imgsz" in given and ("f" in given or {"fmm", "sensorsz"} <= set(given))
                    needed = not complete or when is None
                    want = expected(given, parts)
                    if source == "nothing" and needed:
                        want = None
                    if complete and "cmm" in given and "sensorsz" not in given:
                        # Whether metadata is read for the sensor size alone is not prescribed
                        continue
                    try:
                        img = Image(path, cam=keep, datetime=when, exif=exif)
                    except Exception:
                        require(want is None, f"{what}: refused")
                        seen.append("refused")
                        continue
                    require(keep == given, f"{what}: the parameters were changed")
                    if want is None:
                        require(False, f"{what}: accepted with {img.cam.to_dict()}")
                    values, sensorsz = want
                    for key, value in values.items():
                        got = getattr(img.cam, key)
                        if key == "correction":
                            require(bool(got) == value, f"{what}: correction {got}")
                        else:
                            require(np.allclose(got, value), f"{what}: {key} is {got} instead of {value}")
                    got = img.cam.sensorsz
                    if complete and "sensorsz" not in given:
                        # Not needed, and read or not
                        require(got is None or np.allclose(got, META["sensorsz"]), f"{what}: sensor size {got}")
                    else:
                        require(
                            (got is None) == (sensorsz is None) and (got is None or np.allclose(got, sensorsz)),
                            f"{what}: sensor size {got} instead of {sensorsz}",
                        )
                    time = when or (NOW if "datetime" in parts else None)
                    require(img.datetime == time, f"{what}: datetime {img.datetime}")
                    if not needed and source != "exif":
                        require(img.exif is None, f"{what}: metadata was read")
                    if source == "exif":
                        require(img.exif is exif, f"{what}: other metadata")
                    require(img.path == path and img.array is None, f"{what}: path or data")
                    seen.append("camera")
    return stats([tuple(names)], len(seen), (len(names), seen.count("camera")), "camera" in seen, traces=len(seen))


def given_camera(n):
    """A camera is used as it is."""
    cam = Camera(imgsz=(10 + n, 5), f=3)
    with scratch():
        photo("a.jpg", TAGS)
        img = Image("a.jpg", cam=cam)
        require(img.cam is cam and img.datetime == NOW, "another camera")
        require(np.array_equal(img.size, (10 + n, 5)), f"size {img.size}")
        img = Image("missing.jpg", cam=cam, datetime=LATER)
        require(img.cam is cam and img.datetime == LATER and img.exif is None, "another camera")
        uv = np.array([(0, 0), (10 + n, 5), (10.1 + n, 2), (3, 5.1), (-0.1, 1), (4, 2)])
        require(img.inbounds(uv).tolist() == [True, True, False, False, False, True], "bounds")
        xyz = np.array([(1, 5, 1), (0, 2, 0)])
        require(np.array_equal(img.xyz_to_uv(xyz), cam.xyz_to_uv(xyz)), "projection")
        require(
            np.allclose(img.uv_to_xyz(uv), cam.uv_to_xyz(uv, directions=False))
            and np.allclose(img.uv_to_xyz(uv, directions=True), cam.uv_to_xyz(uv)),
            "inverse projection",
        )
    return stats([n], 4, n, True)


# -- Redrawing --

TARGETS = {
    "same": {},
    "right": {"viewdir": (6, 0, 0)},
    "up": {"viewdir": (0, 7, 0)},
    "roll": {"viewdir": (0, 0, 90)},
    "mixed": {"viewdir": (-9, 4, 17)},
    "away": {"viewdir": (180, 0, 0)},
    "side": {"viewdir": (80, 0, 0)},
    "long": {"f": 60},
    "wide": {"f": (18, 14)},
    "small": {"imgsz": (12, 9), "f": 15},
    "large": {"imgsz": (31, 40)},
    "narrow": {"imgsz": (24, 7)},
    "offset": {"c": (3, -4)},
    "lens": {"k": (0.1, -0.02), "p": (0.003, 0.001)},
    "all": {"viewdir": (4, 3, 2), "imgsz": (20, 30), "f": (33, 28), "c": (1, 2), "k": (-0.05,)},
}
SOURCES = {
    "plain": {},
    "turned": {"viewdir": (2, 1, 3), "xyz": (7, 8, 9)},
    "lens": {"k": (-0.08,), "c": (1.5, 0.5)},
    "half": {"resize": 0.5},
    # On a very small planet: only world coordinates are corrected
    "corrected": {"correction": {"radius": 10, "refraction": 0}, "xyz": (1, 2, 3)},
}


def picture(kind, bands):
    """Pixels of the file: a plane (which interpolates exactly) or any values."""
    v, u = np.meshgrid(np.arange(18) + 0.5, np.arange(24) + 0.5, indexing="ij")
    out = []
    for b in range(bands):
        if kind == "plane":
            out.append(20 + (2 + b) * u + (5 - b) * v)
        else:
            out.append((u * 37 + v * 91 + b * 53 + (u * v * 7) % 31) % 251)
    return np.dstack(out)


def project(source, target, kind, bands, dtype, method):
    options = dict(SOURCES[source])
    scale = options.pop("resize", None)
    cam = Camera(**{"imgsz": (24, 18), "f": 30, **options})
    if scale:
        cam.resize(scale)
    base = {"imgsz": cam.imgsz, "f": cam.f, **options}
    other = Camera(**{**base, **TARGETS[target]})
    other.viewdir = np.add(cam.viewdir, TARGETS[target].get("viewdir", (0, 0, 0)))
    data = picture(kind, bands).astype(dtype)
    what = f"{source} to {target}, {kind} of {bands} bands ({dtype}), {method}"
    with scratch():
        driver = osgeo.gdal.GetDriverByName("GTiff")
        code = {"uint8": osgeo.gdal.GDT_Byte, "float32": osgeo.gdal.GDT_Float32}[dtype]
        ds = driver.Create("a.tif", 24, 18, bands, code)
        for b in range(bands):
            ds.GetRasterBand(b + 1).WriteArray(data[..., b])
        ds = None
        img = Image("a.tif", cam=cam, datetime=NOW)
        arrays = cam.to_array(), other.to_array()
        got = img.project(other, method=method)
        require(
            np.array_equal(arrays[0], cam.to_array()) and np.array_equal(arrays[1], other.to_array()), f"{what}: cameras"
        )
        pixels = img.read()
        if not scale:
            require(np.array_equal(np.atleast_3d(pixels), data), f"{what}: image")
        pixels = np.atleast_3d(pixels).astype(float)
        away = other.copy()
        away.xyz = np.add(away.xyz, (0, 0, 1e-3))
        try:
            img.project(away, method=method)
        except ValueError:
            pass
        else:
            require(False, f"{what}: accepted another position")
    nx, ny = (int(x) for x in other.imgsz)
    got = np.atleast_3d(got)
    require(got.shape == (ny, nx, bands), f"{what}: shape {got.shape}")
    inside = 0
    mx, my = (int(x) for x in cam.imgsz)
    v, u = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    uv = np.column_stack((u.ravel(), v.ravel()))
    xyz = other.uv_to_xyz(uv)
    at = cam.xyz_to_uv(xyz, directions=True)
    loss = 1 if dtype == "uint8" else 0
    for k, (x, y) in enumerate(at):
        value = got[k // nx, k % nx]
        # Where the pixel centers are
        x, y = x - 0.5, y - 0.5
        if np.isnan(x) or min(x, y) < -1e-6 or x > mx - 1 + 1e-6 or y > my - 1 + 1e-6:
            if dtype == "float32":
                require(np.isnan(value).all(), lambda: f"{what}: {uv[k].tolist()} is not in the image, but {value}")
            continue
        if min(x, y) < 1e-6 or x > mx - 1 - 1e-6 or y > my - 1 - 1e-6:
            continue
        inside += 1
        if method == "nearest":
            if min(abs(x % 1 - 0.5), abs(y % 1 - 0.5)) < 1e-6:
                continue
            want = pixels[int(round(y)), int(round(x))]
            require(np.array_equal(value, want), lambda: f"{what}: {uv[k].tolist()} is {value} instead of {want}")
            continue
        i, j = int(x), int(y)
        s, t = x - i, y - j
        want = (
            pixels[j, i] * (1 - s) * (1 - t) + pixels[j, min(i + 1, mx - 1)] * s * (1 - t)
            + pixels[min(j + 1, my - 1), i] * (1 - s) * t + pixels[min(j + 1, my - 1), min(i + 1, mx - 1)] * s * t
        )
        require(
            (np.abs(value - want) <= 1e-3 + loss).all(),
            lambda: f"{what}: {uv[k].tolist()} is {value} instead of {want}",
        )
    return stats([what], len(uv), (source, target, inside), inside > 0, traces=len(uv))


def plot(source, box):
    """The image is drawn in image coordinates."""
    plt.close("all")
    options = dict(SOURCES[source])
    scale = options.pop("resize", 1)
    with scratch():
        cv2.imwrite("a.png", picture("any", 3).astype(np.uint8))
        img = Image("a.png", cam=Camera(**{"imgsz": (24, 18), "f": 30, **options}), datetime=NOW)
        img.cam.resize(scale)
        drawn = img.plot(**({"alpha": 0.5} if box else {}))
        require(np.array_equal(drawn.get_array(), img.read()), "pixels")
        nx, ny = (int(x) for x in img.cam.imgsz)
        require(list(drawn.get_extent()) == [0, nx, ny, 0] and drawn.origin == "upper", f"extent {drawn.get_extent()}")
        plt.xlim(3, 4)
        plt.ylim(1, 2)
        img.set_plot_limits()
        require(plt.xlim() == (0, nx) and plt.ylim() == (ny, 0), "limits")
    plt.close("all")
    return stats([(source, box)], 1, (nx, ny), True)


def explore(ck):
    names = list(GIVEN)
    some = [c for n in range(len(names) + 1) for c in itertools.combinations(names, n)]
    if not ck.thorough:
        # Others are passed on one at a time
        extra = set(names[4:])
        some = [c for c in some if len(extra & set(c)) < 2]
    ck.sweep(cameras, [(c,) for c in some], chunk=4)
    for n in range(3):
        ck.run(given_camera, n)
    cases = [
        (source, target, kind, bands, dtype, method)
        for source in SOURCES
        for target in TARGETS
        for kind in ("plane", "any")
        for bands in (1, 3)
        for dtype in ("float32", "uint8")
        for method in ("linear", "nearest")
        if ck.thorough or bands == 1 or kind == "any"
    ]
    ck.sweep(project, cases, chunk=8)
    for source in SOURCES:
        for box in (False, True):
            ck.run(plot, source, box)
