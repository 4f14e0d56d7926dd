"""Converted camera models project as documented, exactly where the model allows."""
import itertools
import os
import xml.sax.saxutils

import cv2
import numpy as np

from mc.core import require, scratch, stats
from glimpse import Camera
from glimpse.convert import Converter
from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler

LEVEL = "model_checking"
RULE = (
    "A case is one external camera (every subset of its optional parameters, every image "
    "size) projecting a grid of points against the formula in its software's manual "
    "(OpenCV itself for OpenCV), converted to a glimpse camera, back, and compared as "
    "functions and as parameters; or one glimpse camera (every subset of its parameters) "
    "converted out and back; or one choice of parameters to optimise, starting from a "
    "camera perturbed in those parameters; or one report file in every number format. "
    "Non-trivial when a parameter is not at its default."
)
ASSUMPTIONS = [
    "Distortion coefficients small enough for the models to be invertible over the image."
]

SIZES = [(40, 30), (41, 31), (30, 47)]
XY = np.array(
    [(x, y) for x in (-0.4, -0.15, 0.0, 0.2, 0.45) for y in (-0.35, -0.1, 0.0, 0.15, 0.3)]
)


def close(a, b, tol, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    require(
        np.allclose(a, b, rtol=0, atol=tol, equal_nan=True),
        lambda: f"{what}: {a.ravel()[:6].tolist()} instead of {b.ravel()[:6].tolist()}"
        f" (off by {np.nanmax(np.abs(a - b))})",
    )


# ---- Reference models ----


def ref_matlab(v, xy):
    """Camera Calibration Toolbox for Matlab, description of the parameters."""
    nx, ny = v["imgsz"]
    fc, alpha = v["fc"], v.get("alpha_c", 0)
    cc = v.get("cc") or ((nx - 1) / 2, (ny - 1) / 2)
    k1, k2, p1, p2, k3 = v.get("kc", (0,) * 5)
    out = []
    for x, y in xy.tolist():
        r2 = x * x + y * y
        radial = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
        xd = radial * x + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
        yd = radial * y + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
        # KK = [fc1 alpha_c*fc1 cc1; 0 fc2 cc2]; pixel centers are integers
        out.append((fc[0] * xd + alpha * fc[0] * yd + cc[0] + 0.5, fc[1] * yd + cc[1] + 0.5))
    return np.array(out)


def ref_agisoft(v, xy):
    """Metashape manual, appendix on camera models (frame cameras)."""
    w, h = v["imgsz"]
    g = lambda name: v.get(name, 0)
    out = []
    for x, y in xy.tolist():
        r2 = x * x + y * y
        radial = 1 + g("k1") * r2 + g("k2") * r2 ** 2 + g("k3") * r2 ** 3 + g("k4") * r2 ** 4
        xd = x * radial + g("p1") * (r2 + 2 * x * x) + 2 * g("p2") * x * y
        yd = y * radial + g("p2") * (r2 + 2 * y * y) + 2 * g("p1") * x * y
        out.append(
            (w * 0.5 + g("cx") + xd * v["f"] + xd * g("b1") + yd * g("b2"), h * 0.5 + g("cy") + yd * v["f"])
        )
    return np.array(out)


OPENCV = ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")


def ref_opencv(v, xy):
    w, h = v["imgsz"]
    cx, cy = v.get("cx"), v.get("cy")
    K = np.array(
        [[v["fx"], 0, w / 2 if cx is None else cx], [0, v["fy"], h / 2 if cy is None else cy], [0, 0, 1]],
        dtype=float,
    )
    dist = np.array([v.get(name, 0) for name in OPENCV], dtype=float)
    xyz = np.column_stack((xy, np.ones(len(xy))))
    uv, _ = cv2.projectPoints(xyz.reshape(-1, 1, 3), np.zeros(3), np.zeros(3), K, dist)
    return uv.reshape(-1, 2)


def ref_photomodeler(v, uv):
    """PhotoModeler help, Lens Distortion Formulation: image (pixels) to camera."""
    g = lambda name: v.get(name, 0)
    nx, ny = v["imgsz"]
    out = []
    for u, w in uv.tolist():
        # Millimeters from the principal point, +y up
        x = u * v["fw"] / nx - v["xp"]
        y = v["yp"] - w * v["fh"] / ny
        r2 = x * x + y * y
        dr = g("k1") * r2 + g("k2") * r2 ** 2 + g("k3") * r2 ** 3
        xc = x + x * dr + g("p1") * (r2 + 2 * x * x) + 2 * g("p2") * x * y
        yc = y + y * dr + g("p2") * (r2 + 2 * y * y) + 2 * g("p1") * x * y
        out.append((xc / v["focal"], -yc / v["focal"]))
    return np.array(out)


def ref_camera(v, xy):
    """The documented camera model of glimpse."""
    w, h = v["imgsz"]
    f, c = v["f"], v.get("c", (0, 0))
    k = tuple(v.get("k", ())) + (0,) * 6
    p1, p2 = v.get("p", (0, 0))
    out = []
    for x, y in xy.tolist():
        r2 = x * x + y * y
        radial = (1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3) / (
            1 + k[3] * r2 + k[4] * r2 ** 2 + k[5] * r2 ** 3
        )
        xd = radial * x + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
        yd = radial * y + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
        out.append((f[0] * xd + c[0] + w / 2, f[1] * yd + c[1] + h / 2))
    return np.array(out)


# ---- External cameras ----

MODELS = {"Matlab": Matlab, "Agisoft": Agisoft, "OpenCV": OpenCV, "PhotoModeler": PhotoModeler}
REFS = {"Matlab": ref_matlab, "Agisoft": ref_agisoft, "OpenCV": ref_opencv}
OPTIONAL = {
    "Matlab": [("cc",), "kc0", "kc1", "kc2", "kc3", "kc4", "alpha_c"],
    "Agisoft": ["cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"],
    "OpenCV": ["cx", "cy"] + list(OPENCV),
    "PhotoModeler": ["k1", "k2", "k3", "p1", "p2"],
}
VALUES = {
    "cx": 0.75, "cy": -1.25, "k1": 0.11, "k2": -0.07, "k3": 0.03, "k4": 0.02, "k5": -0.015,
    "k6": 0.01, "p1": 0.004, "p2": -0.003, "s1": 0.002, "s2": -0.0015, "s3": 0.001,
    "s4": 0.0025, "b1": 0.8, "b2": 0.3, "alpha_c": 0.01,
    "kc": (0.11, -0.07, 0.004, -0.003, 0.03),
}


def arguments(model, size, on):
    """Constructor arguments with the optional parameters `on`."""
    w, h = size
    v = {"imgsz": (w, h)}
    if model == "Matlab":
        v["fc"] = (31.0, 33.0)
        if "cc" in on:
            v["cc"] = (w / 2 - 0.5 + 0.75, h / 2 - 0.5 - 1.25)
        kc = [VALUES["kc"][i] if f"kc{i}" in on else 0 for i in range(5)]
        if any(kc):
            v["kc"] = tuple(kc)
        if "alpha_c" in on:
            v["alpha_c"] = VALUES["alpha_c"]
        return v
    if model == "Agisoft":
        v["f"] = 33.0
    elif model == "OpenCV":
        v["fx"], v["fy"] = 31.0, 33.0
    else:
        v.update(focal=28.0, fw=36.0, fh=24.5, xp=18.4, yp=11.9)
    for name in on:
        value = VALUES[name]
        if model == "OpenCV" and name in ("cx", "cy"):
            value += (w if name == "cx" else h) / 2
        if model == "PhotoModeler":
            value /= {"k1": 3e3, "k2": 1e6, "k3": 1e9, "p1": 50, "p2": 50}[name]
        v[name] = value
    return v


def exact(model, v):
    """Whether the documentation calls the conversion to a glimpse camera exact."""
    g = lambda name: v.get(name, 0)
    return {
        "Matlab": lambda: g("alpha_c") == 0,
        "Agisoft": lambda: not (g("k4") or g("b2")),
        "OpenCV": lambda: not any(g(f"s{i}") for i in range(1, 5)),
        "PhotoModeler": lambda: not any(g(n) for n in OPTIONAL["PhotoModeler"]),
    }[model]()


def defaults_to_camera(model, v):
    """Camera parameters which the documentation says are optimised by default."""
    g = lambda name: v.get(name, 0)
    if model == "Matlab":
        return {"f", "c", "k", "p"}
    if model == "Agisoft":
        return ({"k"} if g("k4") else set()) | ({"f", "c", "k"} if g("b2") else set())
    if model == "OpenCV":
        return {"k", "p"}
    return ({"k"} if g("k1") or g("k2") or g("k3") else set()) | ({"p"} if g("p1") or g("p2") else set())


SLICES = {"xyz": slice(0, 3), "viewdir": slice(3, 6), "imgsz": slice(6, 8), "f": slice(8, 10), "c": slice(10, 12), "k": slice(12, 18), "p": slice(18, 20)}


def same_vars(a, b, what, skip=()):
    a, b = vars(a), vars(b)
    require(set(a) == set(b), f"{what}: attributes {sorted(a)} instead of {sorted(b)}")
    for name in a:
        if name not in skip:
            require(
                np.array_equal(np.asarray(a[name], dtype=float), np.asarray(b[name], dtype=float)),
                f"{what}: {name} = {a[name]} instead of {b[name]}",
            )


def total(model, xcam, cam, uv):
    return float((Converter(xcam, cam, uv=uv).residuals() ** 2).sum())


def initial_camera(model, v):
    """Arguments of the camera with the parameters that the two models share."""
    g = lambda name: v.get(name, 0)
    w, h = v["imgsz"]
    if model == "Matlab":
        kc = v.get("kc", (0,) * 5)
        cc = v.get("cc") or ((w - 1) / 2, (h - 1) / 2)
        return dict(imgsz=(w, h), f=v["fc"], c=(cc[0] + 0.5 - w / 2, cc[1] + 0.5 - h / 2), k=(kc[0], kc[1], kc[4]), p=(kc[2], kc[3]))
    if model == "Agisoft":
        return dict(imgsz=(w, h), f=(v["f"] + g("b1"), v["f"]), c=(g("cx"), g("cy")), k=(g("k1"), g("k2"), g("k3")), p=(g("p2"), g("p1")))
    if model == "OpenCV":
        return dict(imgsz=(w, h), f=(v["fx"], v["fy"]), c=(v.get("cx", w / 2) - w / 2, v.get("cy", h / 2) - h / 2), k=tuple(g(f"k{i}") for i in range(1, 7)), p=(g("p1"), g("p2")))
    return dict(imgsz=(w, h), f=(v["focal"] * w / v["fw"], v["focal"] * h / v["fh"]), c=((v["xp"] / v["fw"] - 0.5) * w, (v["yp"] / v["fh"] - 0.5) * h))


def external(model, size, on, fit):
    on = [name for name in on]
    v = arguments(model, tuple(size), on)
    make = MODELS[model]
    xcam, again = make(**v), make(**v)
    what = f"{model}({v})"
    w, h = size
    uv = np.array([(x, y) for x in np.linspace(1, w - 1, 5) for y in np.linspace(0.5, h - 0.5, 4)])
    # Projection, against the manual
    if model == "PhotoModeler":
        before = uv.copy()
        close(xcam._uv_to_xy(uv), ref_photomodeler(v, uv), 1e-12, f"{what} points")
        require(np.array_equal(uv, before), f"{what} changed its argument")
    else:
        before = XY.copy()
        close(xcam._xy_to_uv(XY), REFS[model](v, XY), 1e-9, f"{what} points")
        require(np.array_equal(XY, before), f"{what} changed its argument")
    if model == "OpenCV":
        require(list(xcam.distCoeffs) == [v.get(n, 0) for n in OPENCV], f"{what} coefficients {xcam.distCoeffs}")
        K = [(v["fx"], 0, v.get("cx", w / 2)), (0, v["fy"], v.get("cy", h / 2)), (0, 0, 1)]
        require([tuple(r) for r in xcam.cameraMatrix] == K, f"{what} matrix {xcam.cameraMatrix}")
        other = OpenCV.from_arrays(xcam.cameraMatrix, xcam.distCoeffs, (w, h))
        same_vars(other, xcam, f"{what} from its arrays")
    # To a glimpse camera without optimisation: the shared parameters
    start = initial_camera(model, v)
    plain = xcam.to_camera(optimize=False)
    close(plain.to_array(), Camera(**start).to_array(), 1e-12, f"{what} as camera")
    if model == "PhotoModeler":
        close(plain.sensorsz, (v["fw"], v["fh"]), 0, f"{what} sensor size")
    # Residuals are the difference between the two
    converter = Converter(xcam, plain, uv=uv)
    if model == "PhotoModeler":
        expected = ref_camera(start, ref_photomodeler(v, uv)) - uv
        close(converter.residuals(), expected, 1e-9, f"{what} residuals")
    else:
        xy = plain._uv_to_xy(uv)
        expected = ref_camera(start, xy) - REFS[model](v, xy)
        close(converter.residuals(), expected, 1e-9, f"{what} residuals")
    cam = None
    if exact(model, v):
        cam = xcam.to_camera()
        close(cam.to_array(), plain.to_array(), 0, f"{what} exact camera")
        close(converter.residuals(), np.zeros_like(uv), 1e-9, f"{what} exact residuals")
        # and back
        if model == "PhotoModeler":
            back = make.from_camera(cam)
            for name in ("focal", "fw", "fh", "xp", "yp", "k1", "k2", "k3", "p1", "p2"):
                close(getattr(back, name), getattr(xcam, name), 1e-11, f"{what} and back: {name}")
        else:
            back = make.from_camera(cam)
            for name, value in vars(xcam).items():
                close(getattr(back, name), value, 1e-11, f"{what} and back: {name}")
    elif fit:
        cam = xcam.to_camera(uv=uv, max_nfev=12)
        chosen = defaults_to_camera(model, v)
        for name, s in SLICES.items():
            if name not in chosen:
                require(
                    np.array_equal(cam.to_array()[s], plain.to_array()[s]),
                    f"{what} as camera: optimisation changed {name} to {cam.to_array()[s].tolist()}",
                )
        r0, r1 = total(model, xcam, plain, uv), total(model, xcam, cam, uv)
        require(r1 <= r0 * (1 + 1e-9), f"{what} optimised from {r0} to {r1}")
        # Skew cannot be compensated
        skew = v.get("alpha_c") or v.get("b2")
        require(skew or r1 < 0.9 * r0 or r0 < 1e-12, f"{what} optimisation did nothing ({r0} to {r1})")
    same_vars(xcam, again, f"{what} after conversions")
    return stats([what], 5, [model, len(on)], int(bool(on)))


# ---- Glimpse cameras ----


def camera_arguments(size, equal, on):
    v = {"imgsz": tuple(size), "f": (33.0, 33.0) if equal else (31.0, 33.0)}
    c = [value if name in on else 0 for name, value in (("c0", 0.75), ("c1", -1.25))]
    k = [VALUES[f"k{i + 1}"] if f"k{i}" in on else 0 for i in range(6)]
    p = [VALUES[f"p{i + 1}"] if f"p{i}" in on else 0 for i in range(2)]
    v.update(c=tuple(c), k=tuple(k), p=tuple(p))
    return v


CAMERA = ["c0", "c1", "k0", "k1", "k2", "k3", "k4", "k5", "p0", "p1"]


def glimpse(model, size, equal, on, fit):
    v = camera_arguments(size, equal, on)
    w, h = size
    make = MODELS[model]
    extra = {}
    if model == "PhotoModeler":
        # Square pixels when the focal lengths are equal
        extra["sensorsz"] = (36.0, 36.0 * h / w)
    cam = Camera(xyz=(1, 2, 3), viewdir=(4, 5, 6), **v, **extra)
    before = cam.to_array()
    what = f"camera {v} as {model}"
    uv = np.array([(x, y) for x in np.linspace(1, w - 1, 5) for y in np.linspace(0.5, h - 0.5, 4)])
    close(cam._xy_to_uv(XY), ref_camera(v, XY), 1e-9, f"{what}: camera")
    kwargs = {} if model == "OpenCV" else {"optimize": False}
    plain = make.from_camera(cam, **kwargs)
    f, c, k, p = v["f"], v["c"], v["k"], v["p"]
    if model == "Matlab":
        expected = Matlab(v["imgsz"], fc=f, cc=(c[0] + w / 2 - 0.5, c[1] + h / 2 - 0.5), kc=(k[0], k[1], p[0], p[1], k[2]))
        is_exact = not any(k[3:])
        chosen = {"kc"}
    elif model == "Agisoft":
        expected = Agisoft(v["imgsz"], f=f[1], cx=c[0], cy=c[1], k1=k[0], k2=k[1], k3=k[2], p1=p[1], p2=p[0], b1=f[0] - f[1])
        is_exact = not any(k[3:])
        chosen = {"k1", "k2", "k3"}
    elif model == "OpenCV":
        expected = OpenCV(v["imgsz"], fx=f[0], fy=f[1], cx=c[0] + w / 2, cy=c[1] + h / 2, k1=k[0], k2=k[1], k3=k[2], k4=k[3], k5=k[4], k6=k[5], p1=p[0], p2=p[1])
        is_exact = True
        chosen = set()
    else:
        px = 36.0 / w
        expected = PhotoModeler(v["imgsz"], focal=(f[0] + f[1]) / 2 * px, xp=18.0 + c[0] * px, yp=(h / 2 + c[1]) * px, fw=36.0, fh=36.0 * h / w)
        is_exact = equal and not any(k) and not any(p)
        chosen = set()
        if not equal:
            chosen |= {"focal", "fw", "fh", "xp", "yp"}
        if any(k):
            chosen |= {"k1", "k2", "k3"}
        if any(p):
            chosen |= {"p1", "p2"}
    for name, value in vars(expected).items():
        close(getattr(plain, name), value, 1e-11, f"{what}: {name}")
    if is_exact:
        xcam = make.from_camera(cam)
        same_vars(xcam, plain, f"{what}: exact")
        close(Converter(xcam, cam, uv=uv).residuals(), np.zeros_like(uv), 1e-9, f"{what}: exact residuals")
        back = xcam.to_camera()
        close(back.to_array()[6:], before[6:], 1e-11, f"{what} and back")
    elif fit:
        xcam = make.from_camera(cam, uv=uv, max_nfev=12)
        same_vars(xcam, plain, f"{what}: optimisation", skip=chosen)
        r0, r1 = total(model, plain, cam, uv), total(model, xcam, cam, uv)
        require(r1 <= r0 * (1 + 1e-9), f"{what} optimised from {r0} to {r1}")
        require(r1 < 0.9 * r0 or r0 < 1e-12, f"{what}: optimisation did nothing ({r0} to {r1})")
    require(np.array_equal(cam.to_array(), before), f"{what} changed the camera")
    return stats([what], 3, [model, is_exact], int(bool(on)))


def sensor(size, fw, fh, fmm):
    """Pixels need not be square: one focal length in millimetres is exact."""
    w, h = size
    cam = Camera(imgsz=tuple(size), sensorsz=(fw, fh), f=(fmm[0] * w / fw, fmm[1] * h / fh), c=(0.5, -0.25))
    before = cam.to_array()
    what = f"camera {size} with sensor {fw} x {fh} and focal lengths {fmm} mm as PhotoModeler"
    plain = PhotoModeler.from_camera(cam, optimize=False)
    expected = dict(imgsz=size, focal=sum(fmm) / 2, xp=fw / 2 + 0.5 * fw / w, yp=fh / 2 - 0.25 * fh / h, fw=fw, fh=fh, k1=0, k2=0, k3=0, p1=0, p2=0)
    for name, value in vars(plain).items():
        close(value, expected[name], 1e-11, f"{what}: {name}")
    xcam = PhotoModeler.from_camera(cam, uv=30)
    residuals = Converter(xcam, cam, uv=30).residuals()
    if fmm[0] == fmm[1]:
        close(residuals, np.zeros_like(residuals), 1e-9, what)
        close([getattr(xcam, n) for n in ("focal", "xp", "yp", "fw", "fh")], [expected[n] for n in ("focal", "xp", "yp", "fw", "fh")], 1e-9, what)
    else:
        # The format can take up the difference
        r = float((residuals ** 2).sum())
        r0 = float((Converter(plain, cam, uv=30).residuals() ** 2).sum())
        require(r < 0.1 * r0, f"{what}: optimised from {r0} to {r}")
    require(np.array_equal(cam.to_array(), before), f"{what} changed the camera")
    return stats([what], 2, [size, fmm], int(fmm[0] != fmm[1] or fw * size[1] != fh * size[0]))


# ---- Choice of parameters ----

CAM_CHOICES = {"f": 2, "c": 2, "k": 2, "p": 2}
PERTURB = {"f": 0.4, "c": 0.3, "k": 0.02, "p": 0.002}
XCAM_CHOICES = {
    "Matlab": {"fc": (2, 0.4), "cc": (2, 0.3), "kc": (5, 0.002), "alpha_c": (1, 0.003)},
    "Agisoft": {"f": (1, 0.4), "cx": (1, 0.3), "k1": (1, 0.02), "p1": (1, 0.002), "b1": (1, 0.2), "b2": (1, 0.2)},
    "OpenCV": {"fx": (1, 0.4), "cy": (1, 0.3), "k4": (1, 0.02), "p2": (1, 0.002), "s3": (1, 0.002)},
    "PhotoModeler": {"focal": (1, 0.4), "xp": (1, 0.3), "k1": (1, 1e-5), "p2": (1, 1e-5)},
}


def positions(choice, n):
    if choice is True:
        return list(range(n))
    if choice is None or choice is False:
        return []
    return [choice % n] if isinstance(choice, int) else [i % n for i in choice]


def base(model):
    on = {"Matlab": ["cc", "kc0", "kc1", "kc2", "kc3"], "Agisoft": ["cx", "cy", "k1", "k2", "p1", "p2", "b1"], "OpenCV": ["cx", "cy", "k1", "k2", "p1", "p2"], "PhotoModeler": []}[model]
    return arguments(model, (40, 30), on)


def choose_cam(model, params, whole):
    """Optimise chosen camera parameters that were moved away from the truth."""
    xcam = MODELS[model](**base(model))
    truth = xcam.to_camera()
    xvars = dict(vars(xcam))
    cam = truth.copy()
    mask = np.zeros(20, dtype=bool)
    for name, choice in params.items():
        n = 6 if name == "k" else 2
        for j, i in enumerate(positions(choice, n)):
            value = np.array(getattr(cam, name))
            value[i] += PERTURB[name] * (1 if j % 2 == 0 else -0.5)
            setattr(cam, name, value)
            mask[SLICES[name].start + i] = True
    start = cam.to_array()
    converter = Converter(xcam, cam, uv=60)
    what = f"{model}: optimize_cam({params})"
    if not mask.any():
        return None
    converter.optimize_cam(params, **({"xtol": 1e-14, "ftol": 1e-14, "gtol": 1e-14} if whole else {}))
    end = converter.cam.to_array()
    require(converter.cam is cam, f"{what} replaced the camera")
    require(np.array_equal(end[~mask], start[~mask]), f"{what} changed unchosen parameters: {end.tolist()} from {start.tolist()}")
    same_vars(xcam, MODELS[model](**base(model)), f"{what}: external camera")
    rms = np.sqrt((converter.residuals() ** 2).mean())
    require(rms < 1e-4, f"{what} left a residual of {rms}: {end[mask].tolist()} instead of {truth.to_array()[mask].tolist()}")
    return stats([what], 1, [model, int(mask.sum())], 1)


def zero_center(axis, n, kind):
    """A principal point of zero is a value and not a missing one."""
    v = {"imgsz": (40, 30), "fx": 31.0, "fy": 33.0, **{name: (0, 0.0)[kind] for name in ("cx", "cy")[axis : axis + n]}}
    xcam = OpenCV(**v)
    xy = np.array([(0.0, 0.0), (0.25, -0.5)])
    close(xcam._xy_to_uv(xy), ref_opencv(v, xy), 1e-9, f"OpenCV({v}) points")
    return stats([(axis, n, kind)], 1, [axis, n], 1)


def arrows(model, scale):
    """Residuals are plotted from the points of one camera to those of the other."""
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot

    xcam = MODELS[model](**base(model))
    cam = xcam.to_camera()
    cam.f = cam.f * 1.05
    converter = Converter(xcam, cam, uv=12)
    given = {} if scale is None else {"scale": scale}
    matplotlib.pyplot.figure()
    try:
        q = converter.plot(**given)
        a = np.column_stack((q.X, q.Y))
        d = np.column_stack((q.U, q.V)) / q.scale
        require(q.angles == "xy" and q.scale_units == "xy" and q.units == "xy", f"arrows in {q.angles}, {q.scale_units}, {q.units}")
    finally:
        matplotlib.pyplot.close("all")
    close(d, converter.residuals(), 1e-9, f"{model}: arrows with scale {scale}")
    require(np.array_equal(a, converter.uv), "arrows start elsewhere")
    return stats([(model, scale)], 1, [model, scale], 1)


def choose_xcam(model, params):
    v = base(model)
    cam = MODELS[model](**v).to_camera()
    xcam = MODELS[model](**v)
    truth = dict(vars(xcam))
    chosen = {}
    for name, choice in params.items():
        n, step = XCAM_CHOICES[model][name]
        idx = positions(choice, n)
        chosen[name] = idx
        value = np.atleast_1d(np.array(getattr(xcam, name), dtype=float))
        for j, i in enumerate(idx):
            value[i] += step * (1 if j % 2 == 0 else -0.5)
        setattr(xcam, name, tuple(value) if n > 1 else value[0])
    if not any(chosen.values()):
        return None
    start = dict(vars(xcam))
    before = cam.to_array()
    converter = Converter(xcam, cam, uv=60)
    converter.optimize_xcam(params, xtol=1e-14, ftol=1e-14, gtol=1e-14)
    what = f"{model}: optimize_xcam({params})"
    require(np.array_equal(cam.to_array(), before), f"{what} changed the camera")
    end = dict(vars(converter.xcam))
    require(set(end) == set(start), f"{what}: attributes {sorted(end)}")
    for name in start:
        a, b = np.atleast_1d(end[name]).astype(float), np.atleast_1d(start[name]).astype(float)
        require(a.shape == b.shape, f"{what}: {name} = {end[name]}")
        keep = [i for i in range(len(b)) if i not in chosen.get(name, [])]
        require(np.array_equal(a[keep], b[keep]), f"{what} changed {name} from {start[name]} to {end[name]}")
    rms = np.sqrt((converter.residuals() ** 2).mean())
    require(rms < 1e-4, f"{what} left a residual of {rms}")
    return stats([what], 1, [model, sorted(chosen)], 1)


# ---- Converter ----


def grid(size, n):
    """The default points form a regular grid, half a step from the edges."""
    size = tuple(size)
    cam = Camera(imgsz=size, f=(50, 50))
    xcam = OpenCV(imgsz=size, fx=50, fy=50)
    uv = Converter(xcam, cam, uv=n).uv
    require(uv.ndim == 2 and uv.shape[1] == 2, f"{size}, {n}: points {uv.shape}")
    axes = [np.unique(uv[:, i]) for i in range(2)]
    require(len(uv) == len(axes[0]) * len(axes[1]), f"{size}, {n}: points are not a grid")
    require(len({tuple(row) for row in uv.tolist()}) == len(uv), f"{size}, {n}: repeated points")
    d = np.sqrt(size[0] * size[1] / n)
    for i in range(2):
        step = size[i] / len(axes[i])
        close(axes[i], step * (np.arange(len(axes[i])) + 0.5), 1e-9, f"{size}, {n}: axis {i}")
        require(abs(len(axes[i]) - size[i] / d) <= 0.5 + 1e-9 or len(axes[i]) == 1, f"{size}, {n}: {len(axes[i])} points on axis {i}")
    return stats([(size, n)], 1, [len(axes[0]), len(axes[1])], int(n > 1))


def refuse(model, a, b):
    v = arguments(model, tuple(a), [])
    xcam = MODELS[model](**v)
    cam = Camera(imgsz=tuple(b), f=(50, 50))
    try:
        Converter(xcam, cam)
    except ValueError:
        require(list(a) != list(b), f"{model} refused {a} and {b}")
    else:
        require(list(a) == list(b), f"{model} accepted {a} with {b}")
    return stats([(model, a, b)], 1, list(a) == list(b), int(list(a) != list(b)))


def needs_sensor(size):
    try:
        PhotoModeler.from_camera(Camera(imgsz=tuple(size), f=(50, 50)))
    except ValueError:
        return stats([size], 1, True, 1)
    require(False, "a camera without sensor size was converted")


def points(model, form):
    """Points can be given in any array-like form."""
    xcam = MODELS[model](**base(model))
    cam = xcam.to_camera()
    cam.c = cam.c + (1, 2)
    uv = {"list": [[3, 4], [10.5, 20]], "tuple": ((3, 4),), "single": [3, 4], "int": np.array([[3, 4], [5, 6]]), "float": np.array([[3.25, 4.5]])}[form]
    # Whole numbers and decimals are the same points
    a = Converter(xcam, cam, uv=uv)
    b = Converter(xcam, cam, uv=np.atleast_2d(np.array(uv, dtype=float)))
    close(a.residuals(), b.residuals(), 0, f"{model}, points as {form}")
    close(a.residuals(), np.tile((1.0, 2.0), (len(b.uv), 1)), 1e-6, f"{model}, points as {form}")
    return stats([(model, form)], 1, form, 1)


# ---- Reports ----

NUMBERS = ["0", "1", "-1", "0.5", "-0.25", "1e-3", "-1.5e-004", "2.5E-05", "1.25e+001", "+3.5", "7."]


def write_matlab(path, v, errors):
    row = lambda x: "[ " + " ; ".join(x) + " ]"
    text = [
        "% Intrinsic and Extrinsic Camera Parameters", "%", "%-- Focal length:",
        f"fc = {row(v['fc'])};", "", "%-- Principal point:", f"cc = {row(v['cc'])};", "",
        "%-- Skew coefficient:", f"alpha_c = {v['alpha_c']};", "", f"kc = {row(v['kc'])};", "",
        f"fc_error = {row(errors['fc'])};", f"cc_error = {row(errors['cc'])};",
        f"alpha_c_error = {errors['alpha_c']};", f"kc_error = {row(errors['kc'])};", "",
        "%-- Image size:", f"nx = {v['nx']};", f"ny = {v['ny']};", "",
        "%-- Various other variables (may be ignored if you do not use the Matlab Calibration Toolbox):",
        "n_ima = 20;", "est_fc = [ 1 ; 1 ];", "est_alpha = 0;", "center_optim = 1;", "est_dist = [ 1 ; 1 ; 1 ; 1 ; 0 ];", "",
        "%-- Image #1:", "omc_1 = [ 1.2e+00 ; 1.9e+00 ; -6.0e-01 ];", "Tc_1  = [ -1.4e+02 ; -9.5e+01 ; 7.6e+02 ];",
        "omc_error_1 = [ 1.0e-03 ; 1.5e-03 ; 1.8e-03 ];",
    ]
    with open(path, "w") as fp:
        fp.write("\n".join(text) + "\n")


def report_matlab(slot, number):
    names = [("fc", 0), ("fc", 1), ("cc", 0), ("cc", 1), ("alpha_c", None)] + [("kc", i) for i in range(5)]
    v = {"fc": ["3750.8", "3747.9"], "cc": ["2148.1", "1417.0"], "alpha_c": "0.0", "kc": ["-0.1", "0.1", "0.01", "0.02", "-0.0"], "nx": "4288", "ny": "2848"}
    e = {"fc": ["1.80", "1.82"], "cc": ["1.0", "1.4"], "alpha_c": "0.1", "kc": ["0.002", "0.004", "0.03", "0.04", "0.05"]}
    name, i = names[slot]
    for d in (v, e):
        if i is None:
            d[name] = number
        else:
            d[name][i] = number
    with scratch() as tmp:
        path = os.path.join(tmp, "Calib_Results.m")
        write_matlab(path, v, e)
        means, sigmas = Matlab.from_report(path), Matlab.from_report(path, sigmas=True)
    f = lambda x: tuple(float(s) for s in x)
    same_vars(means, Matlab((4288, 2848), f(v["fc"]), f(v["cc"]), f(v["kc"]), float(v["alpha_c"])), f"report with {name} = {number}")
    for attr in ("fc", "cc", "kc", "alpha_c"):
        close(np.ravel(getattr(sigmas, attr)) * 3, np.ravel([float(x) for x in np.ravel(e[attr])]), 1e-12, f"sigmas with {name} = {number}")
    return stats([(name, number)], 2, [name, number], 1)


AGISOFT = ["f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"]


def report_agisoft(on, number, wrap):
    v = {"f": "3570"}
    v.update({name: number for name in on})
    tags = "".join(f"<{n}>{x}</{n}>" for n, x in v.items())
    body = f"<calibration><projection>frame</projection><width>40</width><height>30</height>{tags}<date>2020-05-06T21:47:42Z</date></calibration>"
    if wrap:
        body = f"<document><sensors><sensor id='0'>{body}</sensor></sensors></document>"
    with scratch() as tmp:
        path = os.path.join(tmp, "agisoft.xml")
        with open(path, "w") as fp:
            fp.write('<?xml version="1.0" encoding="UTF-8"?>\n' + body)
        xcam = Agisoft.from_xml(path)
        with open(path) as fp:
            same_vars(Agisoft.from_xml(fp), xcam, "from a file object")
        with open(path, "w") as fp:
            fp.write(body.replace("frame", "fisheye"))
        try:
            Agisoft.from_xml(path)
        except ValueError:
            pass
        else:
            require(False, "an unsupported model was read")
        with open(path, "w") as fp:
            fp.write("<document><width>40</width></document>")
        try:
            Agisoft.from_xml(path)
        except ValueError:
            pass
        else:
            require(False, "a file without calibration was read")
    same_vars(xcam, Agisoft((40, 30), **{k: float(x) for k, x in v.items()}), f"{v}")
    return stats([(on, number, wrap)], 1, len(on), int(bool(on)))


def report_opencv(count, number, slot, matrix):
    import warnings

    coefficients = [str(0.001 * (i + 1)) for i in range(count)]
    m = ["3.57e+03", "0.", "2.15e+03", "0.", "3.58e+03", "1.43e+03", "0.", "0.", "1."]
    if matrix:
        m[(0, 2, 4, 5)[slot]] = number
    elif slot < count:
        coefficients[slot] = number
    data = lambda x: "\n      " + "\n      ".join(" ".join(x[i : i + 4]) for i in range(0, len(x), 4)) + "\n    "
    text = (
        '<?xml version="1.0"?>\n<opencv_storage>\n'
        f'<camera_matrix type_id="opencv-matrix"><rows>3</rows><cols>3</cols><dt>d</dt><data>{data(m)}</data></camera_matrix>'
    )
    if count:
        text += f'<distortion_coefficients type_id="opencv-matrix"><rows>{count}</rows><cols>1</cols><dt>d</dt><data>{data(coefficients)}</data></distortion_coefficients>'
    text += "</opencv_storage>"
    with scratch() as tmp:
        path = os.path.join(tmp, "opencv.xml")
        with open(path, "w") as fp:
            fp.write(text)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            xcam = OpenCV.from_xml(path, imgsz=(40, 30))
    f = [float(x) for x in m]
    expected = OpenCV((40, 30), f[0], f[4], f[2], f[5], **{n: float(x) for n, x in zip(OPENCV, coefficients)})
    same_vars(xcam, expected, f"OpenCV file with {m} and {coefficients}")
    return stats([(count, slot, matrix, number)], 1, [count, number], 1)


PM = [("focal", "Focal Length", "Focal", " mm"), ("xp", "Xp - principal point x", "Xp", " mm"), ("yp", "Yp - principal point y", "Yp", " mm"), ("fw", "Fw - format width", "Fw", " mm"), ("fh", "Fh - format height", "Fh", " mm"), ("k1", "K1 - radial distortion 1", "K1", ""), ("k2", "K2 - radial distortion 2", "K2", ""), ("k3", "K3 - radial distortion 3", "K3", ""), ("p1", "P1 - decentering distortion 1", "P1", ""), ("p2", "P2 - decentering distortion 2", "P2", "")]


def report_photomodeler(mask, number):
    """Every subset of parameters with a standard deviation."""
    values, sigmas = {}, {}
    lines = ["Status Report Tree", "", "Project Name: D300-28-FF.pmr", "   Precisions / Standard Deviations", "      Camera Calibration Standard Deviations", "         Camera1: NIKON D300 [28.00]"]
    for i, (name, title, short, unit) in enumerate(PM):
        values[name] = number if i % 2 else f"{i + 1}.5e-001"
        lines += [f"            {title}", f"               Value: {values[name]}{unit}"]
        if mask >> i & 1:
            sigmas[name] = f"{i + 1}.0e-003"
            lines += [f"               Deviation: {short}: {sigmas[name]}{unit}"]
    lines += ["", "Quality", "   Photographs", "      Total Number: 12"]
    with scratch() as tmp:
        path = os.path.join(tmp, "report.txt")
        with open(path, "w") as fp:
            fp.write("\n".join(lines) + "\n")
        means = PhotoModeler.from_report(path, imgsz=(40, 30))
        dev = PhotoModeler.from_report(path, imgsz=(40, 30), sigmas=True)
    same_vars(means, PhotoModeler((40, 30), **{k: float(x) for k, x in values.items()}), f"report {values}")
    same_vars(dev, PhotoModeler((40, 30), **{n: float(sigmas.get(n, 0)) for n, *_ in PM}), f"report deviations {sigmas}")
    return stats([(mask, number)], 2, mask, int(bool(mask)))


def subsets(names):
    for r in range(len(names) + 1):
        yield from itertools.combinations(names, r)


def explore(ck):
    names = {m: [n[0] if isinstance(n, tuple) else n for n in o] for m, o in OPTIONAL.items()}
    cases = []
    for model in MODELS:
        small = model in ("Matlab", "PhotoModeler")
        for size in SIZES if ck.thorough or model != "OpenCV" else SIZES[1:2]:
            for on in subsets(names[model]):
                # Which inexact conversions are also optimised (slow)
                fit = size == SIZES[1] and (ck.thorough and model != "OpenCV" or small or len(on) <= 2 or len(on) == len(names[model]))
                cases.append((model, size, on, fit))
    ck.sweep(external, cases, chunk=64)
    cases = []
    for model in MODELS:
        for size in SIZES:
            for equal in (True, False):
                for on in subsets(CAMERA):
                    fit = size == SIZES[1] and (ck.thorough or len(on) <= 2 or len(on) == len(CAMERA))
                    if not ck.thorough and size != SIZES[1] and len(on) not in (0, 1, 2, 10):
                        continue
                    cases.append((model, size, equal, on, fit))
    ck.sweep(glimpse, cases, chunk=64)
    menu = [None, True, 0, 1, [0], [1], [0, 1]]
    cases = []
    for values in itertools.product(menu, repeat=4):
        params = {n: x for n, x in zip(CAM_CHOICES, values) if x is not None}
        # All six radial coefficients are not identifiable in a small image
        if not params or params.get("k") is True:
            continue
        if not ck.thorough and len(params) > 2 and any(x in (1, [0]) for x in params.values()):
            continue
        for model in MODELS if ck.thorough or len(params) == 1 else list(MODELS)[:1]:
            cases.append((model, params, True))
    ck.sweep(choose_cam, cases, chunk=8)
    cases = []
    for model, choices in XCAM_CHOICES.items():
        menus = []
        for name, (n, _) in choices.items():
            menus.append([None, True, 0, [0]] if n == 1 else [None, True, 0, 1, n - 1, [0], [1, 0], [n - 1]])
        for values in itertools.product(*menus):
            params = {n: x for n, x in zip(choices, values) if x is not None}
            if 0 < len(params) <= (3 if ck.thorough else 2):
                cases.append((model, params))
    ck.sweep(choose_xcam, cases, chunk=8)
    sizes = [(40, 30), (41, 31), (1000, 10), (7, 300), (1, 1)]
    ck.sweep(grid, [(s, n) for s in sizes for n in (1, 2, 3, 4, 5, 7, 10, 12, 50, 100, 1000)])
    ck.sweep(refuse, [(m, a, b) for m in MODELS for a in SIZES for b in SIZES + [(31, 41), (40, 31), (41, 30)]])
    ck.sweep(sensor, [(z, fw, fh, m) for z in SIZES for fw, fh in ((36.0, 24.0), (20.0, 24.0), (36.0, 27.0)) for m in ((28.0, 28.0), (28.0, 30.0), (28.0, 28.0 * fh * z[0] / (fw * z[1])))])
    ck.sweep(zero_center, [(a, n, k) for a, n in ((0, 1), (1, 1), (0, 2)) for k in (0, 1)])
    ck.sweep(arrows, [(m, s) for m in MODELS for s in (None, 0.5, 1, 4)])
    ck.run(needs_sensor, (40, 30))
    ck.sweep(points, [(m, f) for m in MODELS for f in ("list", "tuple", "single", "int", "float")])
    ck.sweep(report_matlab, [(s, n) for s in range(10) for n in NUMBERS], chunk=16)
    ck.sweep(
        report_agisoft,
        [(on, n, w) for on in (list(subsets(AGISOFT)) if ck.thorough else [o for o in subsets(AGISOFT) if len(o) <= 2 or len(o) == 11]) for n in NUMBERS for w in (False, True)],
        chunk=64,
    )
    cases = [(c, n, s, False) for c in (0, 4, 5, 8, 12, 14) for n in NUMBERS for s in range(max(c, 1))]
    cases += [(5, n, s, True) for n in NUMBERS for s in range(4)]
    ck.sweep(report_opencv, cases, chunk=64)
    ck.sweep(report_photomodeler, [(m, n) for m in range(1024) for n in (NUMBERS if ck.thorough else NUMBERS[5:6])] + [(0b1010101010, n) for n in NUMBERS], chunk=64)
