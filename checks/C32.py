"""Particles are weighted by how well the image around them matches the template."""
import itertools
import math
import warnings

import numpy as np
import scipy.ndimage

from mc import trackkit as tk
from mc.core import require, stats
from glimpse import Raster, Tracker, helpers

LEVEL = "model_checking"
RULE = (
    "A case is a template position (on a quarter-pixel lattice), template size, image kind "
    "and filter settings; its states are the particle sets (shifts from the template "
    "position) for which the tracker is asked for likelihoods, and each is compared, "
    "particle by particle, with the mean squared difference of template and image windows. "
    "Non-trivial when at least one set of particles was not skipped."
)
ASSUMPTIONS = [
    "Between whole-pixel displacements, values are checked for bilinear interpolation only; "
    "at whole-pixel displacements for splines of any order.",
    "The extent of the searched image region is recorded, not prescribed: it must contain "
    "the window of every particle.",
    "Template matching is in single precision.",
]

SHAPE = (30, 34)


def pixels(kind, seed, shape=SHAPE):
    a = tk.texture(shape, seed=seed)
    if kind == "f8":
        return a / 3 - 7
    a = np.clip(a, 0, 255)
    if kind == "u1":
        return a.astype(np.uint8)
    if kind == "rgb":
        return np.dstack([a, 255 - a / 2, a[::-1]]).astype(np.uint8)
    if kind == "two":
        return (np.where(a > 128, 200, 10)).astype(np.uint8)
    raise ValueError(kind)


class Boxes(tk.Probe):
    def __init__(self):
        self.boxes = []

    def __call__(self, actor, call, **info):
        if call == "extract":
            self.boxes.append((actor[1], info["img"], [int(x) for x in info["box"]]))


def tracker(kinds, probe, sigmas, interpolation, highpass, shape=SHAPE):
    observers = []
    for k, kind in enumerate(kinds):
        images = [
            Raster(pixels(kind, 10 * k + i, (SHAPE, shape)[i]), datetime=tk.day(i)) for i in range(2)
        ]
        observers.append(
            tk.HookObserver(images, key=k, probe=probe, sigma=sigmas[k], cache=True)
        )
    kwargs = {}
    if interpolation is not None:
        kwargs["interpolation"] = dict(kx=interpolation[0], ky=interpolation[1])
    if highpass is not None:
        kwargs["highpass"] = {"size": tuple(highpass)}
    return Tracker(observers, **kwargs)


def gray(a):
    a = np.asarray(a, dtype=float)
    return a.mean(axis=2) if a.ndim > 2 else a


def normalized(a):
    s = a.std()
    return (a - a.mean()) * (1 / s if s else 0)


def prepared(a, box, histogram, highpass):
    """The tile as documented: gray, normalized, matched, high-pass filtered."""
    x0, y0, x1, y1 = box
    tile = normalized(gray(a[y0:y1, x0:x1]))
    if histogram is not None:
        tile = helpers.match_cdf(tile, histogram)
    full = tile
    return full - scipy.ndimage.median_filter(full, size=highpass), full


def likelihoods(kinds, uv0, size, sets, sigmas, interpolation, highpass, shape=SHAPE):
    probe = Boxes()
    shape = tuple(shape)
    t = tracker(kinds, probe, sigmas, interpolation, highpass, shape)
    where0 = f"{kinds} template {size} at {uv0}"
    ny, nx = shape
    w, h = size
    grid = t.observers[0].images[0].grid if hasattr(t.observers[0].images[0], "grid") else t.observers[0].images[0]

    def particles(uv):
        p = np.zeros((len(uv), 6))
        p[:, 0:3] = grid.uv_to_xyz(np.asarray(uv, dtype=float))
        p[:, 2] = 0
        p[:, 3] = 0.5
        return p

    t.particles = particles([uv0])
    t.initialize_weights()
    templates = {}
    for obs in range(len(kinds)):
        t.initialize_template(obs, 0, size)
        box = probe.boxes[-1][2]
        require(probe.boxes[-1][:2] == (obs, 0), f"{where0}: template read from {probe.boxes[-1]}")
        require(
            box[2] - box[0] == w and box[3] - box[1] == h
            and all(abs((box[k] + box[k + 2]) / 2 - uv0[k]) <= 0.5 for k in range(2)),
            f"{where0}: template box {box}",
        )
        a = pixels(kinds[obs], 10 * obs)
        tile, full = prepared(a, box, None, highpass or (5, 5))
        templates[obs] = (tile, helpers.compute_cdf(full, return_inverse=False), box)
    linear = interpolation == [1, 1] or interpolation == (1, 1)
    seen, outcomes, used = [], [], 0
    for shifts in sets:
        uv = [(uv0[0] + a, uv0[1] + b) for a, b in shifts]
        p = particles(uv)
        t.particles = p.copy()
        t.initialize_weights()
        where = f"{where0}, particles at shifts {shifts}"
        parts = []
        for obs in range(len(kinds)):
            probe.boxes.clear()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = t.compute_observer_log_likelihoods(obs, 1)
            lo = [min(q[k] for q in uv) for k in range(2)]
            hi = [max(q[k] for q in uv) for k in range(2)]
            near = all(
                lo[k] - s / 2 >= 4 and hi[k] + s / 2 <= n - 4
                for k, s, n in zip(range(2), size, (nx, ny))
            )
            out = any(
                lo[k] - s / 2 < -0.5 or hi[k] + s / 2 > n + 0.5
                for k, s, n in zip(range(2), size, (nx, ny))
            )
            if got is None:
                require(not near, f"{where}: skipped well within the image")
                continue
            require(not out, f"{where}: not skipped beyond the image")
            require(
                len(probe.boxes) == 1 and probe.boxes[0][:2] == (obs, 1),
                f"{where}: read {probe.boxes}",
            )
            box = probe.boxes[0][2]
            template, histogram, tbox = templates[obs]
            search, _ = prepared(pixels(kinds[obs], 10 * obs + 1, shape), box, histogram, highpass or (5, 5))

            def mse(dx, dy):
                x, y = tbox[0] + dx - box[0], tbox[1] + dy - box[1]
                require(
                    x >= 0 and y >= 0 and x + w <= search.shape[1] and y + h <= search.shape[0],
                    f"{where}: searched region {box} lacks the window displaced by {(dx, dy)}",
                )
                return float(((search[y : y + h, x : x + w] - template) ** 2).mean())

            want = np.full(len(uv), np.nan)
            for i, (a, b) in enumerate(shifts):
                fa, fb = math.floor(a), math.floor(b)
                ra, rb = a - fa, b - fb
                if ra == 0 and rb == 0:
                    want[i] = mse(fa, fb)
                elif linear:
                    want[i] = sum(
                        wa * wb * mse(fa + da, fb + db)
                        for da, wa in ((0, 1 - ra), (1, ra)) if wa
                        for db, wb in ((0, 1 - rb), (1, rb)) if wb
                    )
            want = want / (2 * sigmas[obs] ** 2)
            ok = ~np.isnan(want)
            tol = 2e-4 * (1 + np.abs(want[ok]).max() if ok.any() else 1)
            require(np.shape(got) == (len(uv),) and np.isfinite(got).all(), f"{where}: {got}")
            require(
                np.allclose(got[ok], want[ok], atol=tol),
                lambda: f"{where}: observer {obs} gives {np.asarray(got).tolist()}, not {want.tolist()}",
            )
            parts.append(np.array(got))
        require(np.array_equal(t.particles, p), f"{where}: particles were changed")
        # Weights
        prior = 0.3 * np.arange(len(uv)) ** 2

        class Model:
            @staticmethod
            def compute_log_likelihoods(x):
                require(np.array_equal(x, p), f"{where}: prior of other particles")
                return prior

        for model, imgs in itertools.product((None, Model()), itertools.product((None, 1), repeat=len(kinds))):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t.initialize_weights()
                t.update_weights(imgs, model)
                terms = [t.compute_observer_log_likelihoods(o, i) for o, i in enumerate(imgs)]
            terms = [x for x in terms if x is not None] + ([prior] if model else [])
            total = np.exp(-sum(terms)) if terms else np.ones(len(uv))
            got = np.asarray(t.weights)
            require(
                got.shape == (len(uv),)
                and np.allclose(got * total.sum(), total * got.sum(), rtol=1e-9, atol=1e-290)
                and (got > 0).all(),
                lambda: f"{where}: weights {got.tolist()} for {total.tolist()} (images {imgs})",
            )
        require(np.array_equal(t.particles, p), f"{where}: particles were changed")
        seen.append((where, len(parts)))
        used += bool(parts)
        outcomes.append([np.round(x, 3).tolist() for x in parts])
    return stats(seen, len(sets) * (len(kinds) + 2 ** (len(kinds) + 1)), outcomes, used > 0)


WHOLE = [
    [(0, 0)],
    [(0, 0)] * 3,
    [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)],
    [(a, b) for a in range(-3, 4) for b in range(-2, 3)],
    [(-4, 2), (3, 2)],
    [(-1, -4), (-1, 3)],
    [(5, 5)],
    [(-5, -6), (2, 1)],
]
PART = [
    [(0.25, 0)],
    [(0, -0.25)],
    [(0.5, 0.5), (-0.5, -0.25)],
    [(a / 4, b / 4) for a in range(-5, 6, 2) for b in range(-4, 5)],
    [(2.75, -1.25), (2.75, 3)],
]
EDGE = [[(s * k, 0)] for s in (1, -1) for k in (6, 7, 8, 9, 10, 12, 16, 24)] + [
    [(0, 0), (0, s * k)] for s in (1, -1) for k in (5, 6, 7, 8, 9, 10, 14, 22)
] + [[(40, 3)], [(3, -50)]]


def explore(ck):
    deep = ck.thorough
    quarters = [k / 4 for k in range(4)]
    sizes = [(7, 7), (8, 6), (5, 8)] + ([(9, 4), (6, 6), (15, 11)] if deep else [])
    kinds = [["f8"], ["rgb"], ["u1", "two"]] + ([["rgb", "f8", "u1"]] if deep else [])
    inters = [None, (1, 1), (1, 3), (2, 1)] + ([(3, 2), (2, 2), (5, 5), (4, 1)] if deep else [])
    cases = []
    for a, b in itertools.product(quarters, repeat=2):
        uv0 = (16 + a, 14 + b)
        for size, kind in itertools.product(sizes, kinds):
            for inter in inters:
                if not deep and (len(kind) > 1) != (inter in ((1, 1), None)) and size == (8, 6):
                    continue
                sets = WHOLE + PART + (EDGE if size == (8, 6) or deep else EDGE[::3])
                sig = [0.3, 2.0, 0.9][: len(kind)]
                cases.append((kind, uv0, size, sets, sig, inter, None))
    for hp in ((1, 1), (3, 5), (5, 3)):
        for kind in (["f8"], ["two"]):
            cases.append((kind, (15.5, 14.25), (8, 7), WHOLE + PART, [1.5], (1, 1), hp))
    # Images of another size than the one of the template
    for shape, kind in itertools.product(((36, 40), (24, 40), (40, 26), (24, 27)), (["f8"], ["rgb", "u1"])):
        for inter in (None, (1, 1)):
            cases.append((kind, (15.5, 12.25), (8, 6), WHOLE + PART + EDGE, [0.5, 2.0][: len(kind)], inter, None, shape))
    # Many observers
    many = ["f8", "two", "u1", "rgb", "f8"]
    for n in (4, 5):
        cases.append((many[:n], (15.5, 14.25), (8, 6), WHOLE[2:4] + PART[2:3], [1.5, 2.0, 0.9, 1.1, 3.0][:n], (1, 1), None))
    ck.sweep(likelihoods, cases, timeout=120)
