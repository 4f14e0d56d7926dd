"""Camera parameters stay consistent under every sequence of edits."""
import copy as copymodule
import itertools
import math
from fractions import Fraction

import numpy as np

from mc.core import require, scratch, sequences, stats
from glimpse import Camera
from glimpse import helpers

LEVEL = "model_checking"
RULE = (
    "A case is a sequence of edits of one camera, compared after every edit with a plain "
    "dictionary of parameters and with a camera built from it. States are the parameter "
    "vectors reached. Non-trivial when the state changed."
)
ASSUMPTIONS = ["Resetting restores the core parameters (position to distortion), not the sensor size."]

NAMES = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")
N = {"xyz": 3, "viewdir": 3, "imgsz": 2, "f": 2, "c": 2, "k": 6, "p": 2}
POINTS = np.array([(1.0, 5, 0.5), (-2, 8, -1), (0.3, 3, 2), (-4, 20, 0), (0, -3, 1), (9, 9, -4)])
START = {
    "plain": dict(imgsz=(12, 8), f=(10.0, 11.0), sensorsz=(24.0, 16.0)),
    "full": dict(
        imgsz=(9, 12), f=(7.0, 9.0), c=(0.5, -0.25), k=(0.02, 0.01, 0, 0.005),
        p=(0.003, -0.002), xyz=(0.1, -0.2, 0.3), viewdir=(4.0, -3.0, 2.0), sensorsz=(18.0, 24.0),
    ),
    "mm": dict(imgsz=(10, 6), fmm=(30.0, 32.0), cmm=(0.5, 0.25), sensorsz=(36.0, 24.0), correction=True),
    "bare": dict(imgsz=(10, 6), f=12),
    "bent": dict(imgsz=(9, 7), f=12, sensorsz=(18.0, 14.0), correction={"refraction": 0.4}),
    "curved": dict(imgsz=(9, 7), f=12, correction={"radius": 5000.0, "refraction": 0.25}),
}


class Model:
    """Reference: plain lists."""

    def __init__(self, p, sensorsz, correction):
        self.p = {n: list(map(float, v)) for n, v in p.items()}
        self.sensorsz = None if sensorsz is None else list(sensorsz)
        self.correction = dict(correction) if isinstance(correction, dict) else correction
        self.rebase()

    def rebase(self):
        self.orig = {n: list(v) for n, v in self.p.items()}

    def clone(self):
        m = Model(self.p, self.sensorsz, self.correction)
        return m

    def put(self, name, value):
        n = N[name]
        v = list(value) if np.iterable(value) else [value]
        if name in ("imgsz", "f"):
            v = v * (n // len(v))
        else:
            v = v + [0.0] * (n - len(v))
        self.p[name] = [float(x) for x in v]

    def mm(self, name, value):
        v = list(value) if np.iterable(value) else [value]
        v = v * (2 // len(v)) if name == "f" else v + [0.0] * (2 - len(v))
        self.p[name] = [x * n / s for x, n, s in zip(v, self.p["imgsz"], self.sensorsz)]

    def resize(self, size, force):
        old = self.orig["imgsz"]
        if np.iterable(size):
            if not force:
                lo = max(Fraction(2 * b - 1, int(2 * a)) for a, b in zip(old, size))
                hi = min(Fraction(2 * b + 1, int(2 * a)) for a, b in zip(old, size))
                if lo >= hi:
                    return False
            new = [float(x) for x in size]
        else:
            new = [math.floor(size * x + 0.5) for x in old]
        s = [b / a for a, b in zip(self.p["imgsz"], new)]
        self.p["imgsz"] = new
        self.p["f"] = [x * y for x, y in zip(self.p["f"], s)]
        self.p["c"] = [x * y for x, y in zip(self.p["c"], s)]
        return True

    def project(self):
        """Projection of the points, in plain floating point arithmetic."""
        p = self.p
        yaw, pitch, roll = (math.radians(a) for a in p["viewdir"])
        # Camera axes in the world: right, down, forward
        fwd = (math.cos(pitch) * math.sin(yaw), math.cos(pitch) * math.cos(yaw), math.sin(pitch))
        right = (math.cos(yaw), -math.sin(yaw), 0.0)
        down = (
            math.sin(pitch) * math.sin(yaw), math.sin(pitch) * math.cos(yaw), -math.cos(pitch)
        )
        cr, sr = math.cos(roll), math.sin(roll)
        xaxis = [cr * a + sr * b for a, b in zip(right, down)]
        yaxis = [-sr * a + cr * b for a, b in zip(right, down)]
        out = []
        for pt in POINTS.tolist():
            d = [a - b for a, b in zip(pt, p["xyz"])]
            if self.correction:
                d[2] += (self.correction["refraction"] - 1) * (d[0] ** 2 + d[1] ** 2) / (
                    2 * self.correction["radius"]
                )
            z = sum(a * b for a, b in zip(d, fwd))
            if z <= 0:
                out.append((math.nan, math.nan))
                continue
            x = sum(a * b for a, b in zip(d, xaxis)) / z
            y = sum(a * b for a, b in zip(d, yaxis)) / z
            r2 = x * x + y * y
            k, (p1, p2) = p["k"], p["p"]
            dr = (1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3) / (
                1 + k[3] * r2 + k[4] * r2 ** 2 + k[5] * r2 ** 3
            )
            xd = x * dr + 2 * x * y * p1 + p2 * (r2 + 2 * x * x)
            yd = y * dr + p1 * (r2 + 2 * y * y) + 2 * x * y * p2
            out.append(
                (
                    xd * p["f"][0] + p["imgsz"][0] / 2 + p["c"][0],
                    yd * p["f"][1] + p["imgsz"][1] / 2 + p["c"][1],
                )
            )
        return np.array(out)


def close(a, b):
    return np.allclose(a, b, rtol=1e-10, atol=1e-10, equal_nan=True)


def agree(cam, m, where):
    for n in NAMES:
        require(
            close(getattr(cam, n), m.p[n]),
            lambda: f"{where}: {n} is {getattr(cam, n)}, expected {m.p[n]}",
        )
    flat = [x for n in NAMES for x in m.p[n]]
    require(close(cam.to_array(), flat), lambda: f"{where}: to_array {cam.to_array()}")
    if m.sensorsz is None:
        require(cam.sensorsz is None and cam.fmm is None and cam.cmm is None, f"{where}: sensor")
    else:
        require(close(cam.sensorsz, m.sensorsz), f"{where}: sensorsz {cam.sensorsz}")
        for n, mm in (("f", "fmm"), ("c", "cmm")):
            want = [x * s / i for x, s, i in zip(m.p[n], m.sensorsz, m.p["imgsz"])]
            require(close(getattr(cam, mm), want), f"{where}: {mm} is {getattr(cam, mm)}, expected {want}")
    require((cam.correction or False) == (m.correction or False), f"{where}: correction {cam.correction}")
    uv = cam.xyz_to_uv(POINTS.copy())
    want = m.project()
    require(
        np.allclose(uv, want, rtol=1e-9, atol=1e-9, equal_nan=True),
        lambda: f"{where}: projects to {uv.tolist()}, expected {want.tolist()}",
    )


def fresh(cam):
    return Camera(**{n: np.array(getattr(cam, n)) for n in NAMES}, correction=cam.correction)


# Every edit returns the camera to go on with
def assign(name, value):
    def op(cam, m, alive):
        v = value.copy() if hasattr(value, "copy") else value
        setattr(cam, name, v)
        lend(alive, v)
        same = v == value
        require(np.all(same) and (not hasattr(value, "__len__") or len(v) == len(value)), f"{name} = {value} changed the argument to {v}")
        m.put(name, value)
        return cam, m

    return op


def assign_mm(name, value):
    def op(cam, m, alive):
        v = list(value)
        try:
            setattr(cam, name + "mm", v)
        except ValueError:
            require(m.sensorsz is None, f"{name}mm refused")
            return cam, m
        require(m.sensorsz is not None, f"{name}mm without sensor size not refused")
        require(v == list(value), f"{name}mm = {value} changed the argument to {v}")
        m.mm(name, value)
        return cam, m

    return op


def sensor_item(i, value):
    def op(cam, m, alive):
        if m.sensorsz is not None:
            cam.sensorsz[i] = value
            m.sensorsz[i] = value
        return cam, m

    return op


def correction(value):
    """Replaces or edits the elevation corrections."""

    def op(cam, m, alive):
        if value == "edit":
            if m.correction:
                cam.correction["refraction"] += 0.5
                m.correction["refraction"] += 0.5
        else:
            cam.correction = dict(value) if value else value
            m.correction = dict(value) if value else value
        return cam, m

    return op


class Lent(list):
    """Arguments which must not change for as long as anyone holds them."""


def lend(alive, value):
    alive.append(Lent((value, copymodule.deepcopy(value))))
    return value


def item(name, i, value, add=False):
    def op(cam, m, alive):
        if add:
            getattr(cam, name)[i] += value
            m.p[name][i] += value
        else:
            getattr(cam, name)[i] = value
            m.p[name][i] = float(value)
        return cam, m

    return op


def sensor(value):
    def op(cam, m, alive):
        v = None if value is None else np.array(value) if isinstance(value, np.ndarray) else list(value)
        cam.sensorsz = v
        lend(alive, v)
        v = None if v is None else list(v)
        require(v == (None if value is None else list(value)), "argument changed")
        m.sensorsz = None if value is None else list(value) * (2 // len(value))
        return cam, m

    return op


def resize(size, force=False):
    def op(cam, m, alive):
        s = list(size) if np.iterable(size) else size
        before = cam.to_array()
        try:
            cam.resize(s, force=force)
        except ValueError:
            require(np.array_equal(before, cam.to_array()), "a refused size changed the camera")
            require(not m.clone_with_orig().resize(size, force), f"resize to {size} refused")
            return cam, m
        require(m.resize(size, force), f"resize to {size} not refused")
        return cam, m

    return op


def clone_with_orig(self):
    c = self.clone()
    c.orig = {n: list(v) for n, v in self.orig.items()}
    return c


Model.clone_with_orig = clone_with_orig


def there_and_back(cam, m, alive):
    before, size = cam.to_array(), cam.imgsz.copy()
    orig = m.orig["imgsz"]
    for s in (3, (int(orig[0]) * 2, int(orig[1]) * 2), 1):
        cam.resize(s)
    cam.resize(size, force=True)
    require(close(cam.to_array(), before), "resizing back did not restore the camera")
    return cam, m


def idealize(cam, m, alive):
    cam.idealize()
    for n in ("c", "k", "p"):
        m.p[n] = [0.0] * N[n]
    return cam, m


def reset(cam, m, alive):
    cam.reset()
    m.p = {n: list(v) for n, v in m.orig.items()}
    return cam, m


def copy(cam, m, alive):
    alive.append((cam, m.clone_with_orig()))
    return cam.copy(), m.clone()


def copy_away(cam, m, alive):
    """Goes on with the original: the copy must not change."""
    alive.append((cam.copy(), m.clone()))
    return cam, m


def json_file(attributes, **kwargs):
    def op(cam, m, alive):
        cam.to_json("cam.json", attributes=attributes, **kwargs)
        args = {}
        if m.correction and "correction" not in attributes:
            args["correction"] = lend(alive, dict(m.correction))
        if "sensorsz" not in attributes and m.sensorsz is not None:
            args["sensorsz"] = list(m.sensorsz)
        if "fmm" in attributes and m.sensorsz is None:
            args["f"], args["c"] = m.p["f"], m.p["c"]
        new = Camera.from_json("cam.json", **args)
        other = Camera.from_json("cam.json", **{"xyz": (7, 8, 9), "p": (0.01, 0.02), **args})
        require(
            tuple(other.xyz) == (7, 8, 9) and tuple(other.p) == (0.01, 0.02) and close(other.f, m.p["f"]),
            f"given parameters do not override those read: {other.xyz} {other.p} {other.f}",
        )
        txt = cam.to_json(attributes=attributes, **kwargs)
        with open("cam.json") as fp:
            require(fp.read() == txt, "file differs from text")
        alive.append((cam, m.clone_with_orig()))
        return new, m.clone()

    return op


def as_dict(cam, m, alive):
    d = cam.to_dict()
    require(set(d) == set(NAMES), f"{d}")
    new = Camera(**d, sensorsz=m.sensorsz, correction=cam.correction)
    d["f"][0] = d["k"][0] = -5
    if m.correction:
        d = cam.to_dict(("imgsz", "f", "correction"))
        also = Camera(**d)
        require(also.correction == m.correction, f"correction {also.correction}")
        also.correction["radius"] = 5.0
    alive.append((cam, m.clone_with_orig()))
    return new, m.clone()


def rebuild(cam, m, alive):
    alive.append((cam, m.clone_with_orig()))
    new = fresh(cam)
    new.sensorsz = m.sensorsz
    if m.correction:
        require(new.correction is not cam.correction, "cameras share their correction")
    return new, m.clone()


def array(cam, m, alive):
    a = cam.to_array()
    a[:] = -1
    return cam, m


OPS = {
    "xyz3": assign("xyz", [1.0, -2.0, 0.5]),
    "xyz1": assign("xyz", [0.25]),
    "xyz=": assign("xyz", np.array((0.5, 0.25, -0.5))),
    "xyz+": item("xyz", 1, -0.75, add=True),
    "dir3": assign("viewdir", (10.0, -5.0, 3.0)),
    "dir1": assign("viewdir", [-8.0]),
    "dir+": item("viewdir", 2, 2.5, add=True),
    "f1": assign("f", 14.0),
    "f[1]": assign("f", [9.0]),
    "f2": assign("f", [13.0, 12.0]),
    "f+": item("f", 0, 1.5, add=True),
    "c2": assign("c", (0.75, 0.5)),
    "c1": assign("c", [-0.5]),
    "k1": assign("k", [0.03]),
    "k6": assign("k", np.array((0.01, -0.005, 0.002, 0.004, 0.003, -0.001))),
    "k+": item("k", 4, 0.01),
    "p2": assign("p", [0.002, 0.004]),
    "p1": assign("p", 0.005),
    "p+": item("p", 1, -0.003),
    "imgsz": assign("imgsz", [20, 14]),
    "imgsz1": assign("imgsz", [16]),
    "sensor": sensor((12.0, 6.0)),
    "sensor1": sensor((15.0,)),
    "sensor0": sensor(None),
    "sensor=": sensor(np.array((12.0, 6.0))),
    "sensor+": sensor_item(1, 11.0),
    "corr": correction({"radius": 5000.0, "refraction": 0.25}),
    "corr+": correction("edit"),
    "corr0": correction(False),
    "fmm": assign_mm("f", (20.0, 25.0)),
    "fmm1": assign_mm("f", (28.0,)),
    "cmm": assign_mm("c", (0.5, -0.5)),
    "cmm1": assign_mm("c", (0.25,)),
    "x.5": resize(0.5),
    "x2": resize(2),
    "x1": resize(1),
    "x1/3": resize(1 / 3),
    "x(6,4)": resize((6, 4)),
    "x(20,12)": resize((20, 12)),
    "x(7,5)!": resize((7, 5), force=True),
    "x..x": there_and_back,
    "ideal": idealize,
    "reset": reset,
    "copy": copy,
    "away": copy_away,
    "json": json_file(NAMES),
    "jsonmm": json_file(("xyz", "viewdir", "imgsz", "sensorsz", "fmm", "cmm", "k", "p"), indent=4, flat_arrays=True),
    "json+": json_file((*NAMES, "sensorsz", "correction")),
    "dict": as_dict,
    "rebuild": rebuild,
    "array": array,
}
CORE = (
    "xyz3", "dir3", "f2", "f+", "c2", "k6", "p+", "imgsz", "sensor", "fmm", "cmm1", "x.5",
    "x2", "x(6,4)", "x(7,5)!", "ideal", "reset", "copy", "away", "json",
)


def begin(start, alive):
    kw = dict(START[start])
    given = {
        k: np.array(v, int if k == "imgsz" else float) if isinstance(v, tuple) else copymodule.copy(v)
        for k, v in kw.items()
    }
    snapshot = copymodule.deepcopy(given)
    for value in given.values():
        lend(alive, value)
    cam = Camera(**given)
    require(
        list(given) == list(snapshot) and all(np.array_equal(given[k], snapshot[k]) for k in given),
        f"constructor changed its arguments to {given}",
    )
    p = {"xyz": [0] * 3, "viewdir": [0] * 3, "imgsz": kw["imgsz"], "f": [1, 1], "c": [0, 0], "k": [0] * 6, "p": [0, 0]}
    corr = kw.get("correction")
    corr = {"radius": 6.3781e6, "refraction": 0.13, **(corr if isinstance(corr, dict) else {})} if corr else False
    m = Model(p, kw.get("sensorsz"), corr)
    for n in NAMES:
        if n in kw:
            m.put(n, kw[n])
    if "fmm" in kw:
        m.mm("f", kw["fmm"])
    if "cmm" in kw:
        m.mm("c", kw["cmm"])
    m.rebase()
    return cam, m


def histories(start, first, names, depth):
    """All sequences which begin with one edit."""
    states, total = set(), 0
    with scratch():
        for rest in sequences(names, depth - 1, 0):
            seq = (first, *rest)
            alive = []
            cam, m = begin(start, alive)
            for i, name in enumerate(seq):
                cam, m = OPS[name](cam, m, alive)
                if i == len(seq) - 1:
                    where = f"{start}: {' '.join(seq[: i + 1])}"
                    agree(cam, m, where)
                    states.add(tuple(np.round(cam.to_array(), 9)))
            require(
                np.allclose(
                    fresh(cam).xyz_to_uv(POINTS), cam.xyz_to_uv(POINTS), rtol=1e-9, atol=1e-9, equal_nan=True
                ),
                f"{where}: differs from a new camera with the same parameters",
            )
            for old, om in [a for a in alive if not isinstance(a, Lent)]:
                agree(old, om, f"{where} (camera left behind)")
                old.reset()
                om.p = {n: list(v) for n, v in om.orig.items()}
                agree(old, om, f"{where} (camera left behind, reset)")
            cam.reset()
            m.p = {n: list(v) for n, v in m.orig.items()}
            agree(cam, m, f"{where} reset")
            for now, before in [a for a in alive if isinstance(a, Lent)]:
                require(np.array_equal(now, before), f"{where}: argument {before} became {now}")
            total += len(seq)
    return stats(states, total, (start, first, len(states)), True, total)


def scales(old, news):
    """A size is accepted if and only if some factor reaches it, whatever the chance."""
    n = 0
    for new in news:
        lo = max(Fraction(2 * b - 1, 2 * a) for a, b in zip(old, new))
        hi = min(Fraction(2 * b + 1, 2 * a) for a, b in zip(old, new))
        cam = Camera(imgsz=old, f=10, c=(1, 2))
        where = f"resize from {old} to {new}"
        try:
            cam.resize(new)
        except ValueError:
            require(lo >= hi, f"{where} refused")
            continue
        n += 1
        require(lo < hi, f"{where} not refused")
        require(tuple(cam.imgsz) == tuple(new), f"{where}: {cam.imgsz}")
        s = np.array(new) / np.array(old)
        require(close(cam.f, 10 * s) and close(cam.c, np.array((1, 2)) * s), f"{where}: {cam.f} {cam.c}")
        cam.resize(1)
        require(close(cam.f, 10) and tuple(cam.imgsz) == tuple(old), f"{where}: not restored")
    return stats([(old, n)], len(news), (old, n), n > 0)


def refused(args):
    """Ambiguous or incomplete parameters are refused."""
    try:
        Camera(**args)
    except ValueError:
        return stats([], 1, repr(args), False)
    require(False, f"{args} not refused")


def explore(ck):
    depth = 3
    cases = [(s, first, tuple(OPS), 2) for s in START for first in OPS]
    cases += [(s, first, CORE, depth) for s in ("full", "mm") for first in CORE]
    if ck.thorough:
        cases += [(s, first, tuple(OPS), 3) for s in START for first in OPS]
        cases += [("full", first, CORE, 4) for first in CORE]
    ck.sweep(histories, cases, chunk=1, timeout=600)
    olds = (1, 2, 3, 5, 8, 13, 40, 133)
    news = [tuple(x) for x in itertools.product((1, 2, 3, 4, 7, 26, 94), repeat=2)]
    ck.sweep(scales, [(old, news) for old in itertools.product(olds, repeat=2)])
    ck.sweep(
        refused,
        [
            [dict(imgsz=(4, 3))],
            [dict(imgsz=(4.5, 3), f=1)],
            [dict(imgsz=(4, 3.5), f=1)],
            [dict(imgsz=(4.5, 3.5), f=1)],
            [dict(imgsz=4.5, f=1)],
            [dict(imgsz=None, f=1)],
            [dict(imgsz=(4, 3), cmm=(1, 1), f=2)],
            [dict(imgsz=(4, 3), fmm=1)],
            [dict(imgsz=(4, 3), f=1, cmm=1)],
            [dict(imgsz=(4, 3), f=1, fmm=1, sensorsz=1)],
            [dict(imgsz=(4, 3), f=1, c=1, cmm=1, sensorsz=1)],
        ],
    )
