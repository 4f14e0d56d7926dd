"""Edits of a match graph keep images, pairs and points aligned."""
import copy
import itertools
import os

import numpy as np
import scipy.sparse

from mc import trackkit
from mc.core import HarnessError, Violation, require, stats
from mc.trackkit import camera_xy
from glimpse import Camera, Image
from glimpse.optimize import (
    KeypointMatcher,
    Matches,
    RotationMatches,
    RotationMatchesXY,
    RotationMatchesXYZ,
)

LEVEL = "model_checking"
RULE = (
    "A case is one match graph (every set of pairs on 2-4 images) from which every "
    "sequence of edits up to the depth is applied to the real matcher, states visited "
    "once per abstract state, and compared after every edit with a dictionary model; or "
    "one pair of cameras with every filter and index. Non-trivial when an edit changes "
    "the graph."
)
ASSUMPTIONS = [
    "Rotation matches are not resized: their documentation excludes changes of camera size."
]

TYPES = {"Matches": Matches, "R": RotationMatches, "XY": RotationMatchesXY, "XYZ": RotationMatchesXYZ}
SIZES = [(40, 30), (40, 30), (60, 48), (20, 16)]
DIRS = [(0, 0, 0), (6, -3, 2), (-5, 4, -3), (3, 5, 1)]
FOCAL = [60, 60, 84, 30]
LENS = [(), (), (0.05, -0.02), ()]


def camera(i, size=None):
    cam = Camera(imgsz=SIZES[i], f=FOCAL[i], viewdir=DIRS[i], xyz=(1, 2, 3), k=LENS[i])
    return cam


def points(a, b):
    """Point pairs: seen at uvs[0] in a, and off by a known error in b."""
    ca, cb = camera(a), camera(b)
    w, h = SIZES[a]
    fractions = [(0.5, 0.5), (0.62, 0.4), (0.45, 0.63)]
    offsets = [(0.5, 0), (0, -3), (6, 2)]
    weights = [1.5, 3.0, 2.0]
    k = (a + b) % 3
    out = []
    for i in range(3):
        uva = np.array([[fractions[(i + a) % 3][0] * w, fractions[(i + b) % 3][1] * h]])
        uvb = cb.xyz_to_uv(ca.uv_to_xyz(uva), directions=True) + offsets[(i + k) % 3]
        out.append((uva[0], uvb[0], weights[(i + k) % 3] + 0.01 * a + 0.1 * b))
    return out[: 3 if (a + b) % 2 else 2]


WORLD = {(a, b): points(a, b) for a, b in itertools.combinations(range(4), 2)}


def harness(ok):
    if not ok:
        raise HarnessError("a point is at the limit of a filter")


class World:
    """The real matcher of a graph."""

    @staticmethod
    def build(n, pairs):
        images = [
            Image(f"/nowhere/{i}.jpg", cam=camera(i), datetime=trackkit.day(i)) for i in range(n)
        ]
        matcher = KeypointMatcher(images)
        matcher.keypoints = [f"keypoints {i}" for i in range(n)]
        data = np.empty(len(pairs), dtype=object)
        for k, (a, b) in enumerate(pairs):
            uva, uvb, weights = zip(*WORLD[a, b])
            data[k] = Matches(
                cams=(images[a].cam, images[b].cam), uvs=(np.array(uva), np.array(uvb)), weights=np.array(weights)
            )
        matches = scipy.sparse.coo_matrix(
            ([1] * len(pairs), ([a for a, _ in pairs], [b for _, b in pairs])), shape=(n, n)
        )
        matches.data = data
        matcher.matches = matches
        return matcher


class Model:
    def __init__(self, n, pairs):
        self.images = list(range(n))
        self.pairs = {p: list(range(len(WORLD[p]))) for p in pairs}
        self.type = "Matches"
        self.cleared = False
        self.weights = True
        self.scale = 1.0

    def key(self):
        pairs = tuple((p, tuple(k)) for p, k in self.pairs.items())
        return (tuple(self.images), pairs, self.type, self.cleared, self.weights, self.scale)

    def size(self, i):
        return np.array(SIZES[i]) * self.scale

    def camera(self, i):
        cam = camera(i)
        if self.scale != 1:
            cam.resize(self.scale)
        return cam

    def uvs(self, p):
        return [np.array([WORLD[p][k][c] for k in self.pairs[p]]).reshape(-1, 2) * self.scale for c in (0, 1)]

    # -- edits --

    def drop(self, imgs):
        gone = {self.images[i] for i in imgs}
        self.pairs = {p: k for p, k in self.pairs.items() if not gone & set(p)}
        kept = {i for p in self.pairs for i in p}
        self.images = [i for i in self.images if i in kept]

    def filter(self, n_best=None, min_weight=None, cam=0, max_error=None, max_distance=None, scaled=False):
        """False if the filter must be refused."""
        if (n_best or min_weight) and not self.weights and self.pairs:
            return False
        for p in self.pairs:
            keep = []
            ranks = sorted(self.pairs[p], key=lambda k: -WORLD[p][k][2])
            ci, co = p[cam], p[1 - cam]
            a, b = self.camera(ci), self.camera(co)
            unit = self.size(ci)[0] if scaled else 1
            for k in self.pairs[p]:
                ok = True
                if n_best:
                    ok &= k in ranks[:n_best]
                if min_weight:
                    ok &= WORLD[p][k][2] >= min_weight
                mine, other = WORLD[p][k][cam] * self.scale, WORLD[p][k][1 - cam] * self.scale
                if max_error:
                    seen = a.xyz_to_uv(b.uv_to_xyz(other[None]), directions=True)[0]
                    error = np.hypot(*(seen - mine))
                    harness(abs(error - max_error * unit) > 1e-3)
                    ok &= bool(error <= max_error * unit)
                if max_distance:
                    d = np.hypot(*(other * self.size(ci) / self.size(co) - mine))
                    harness(abs(d - max_distance * unit) > 1e-3)
                    ok &= bool(d <= max_distance * unit)
                if ok:
                    keep.append(k)
            self.pairs[p] = keep
        return True


FILTERS = [
    {"n_best": 1},
    {"n_best": 2},
    {"min_weight": 2.05},
    {"max_error": 1.77},
    {"max_error": 4.4, "cam": 1},
    {"max_error": 0.0873, "scaled": True, "cam": 1},
    {"max_distance": 7.3},
    {"max_distance": 0.21, "scaled": True, "cam": 1},
    {"n_best": 2, "max_error": 2.55},
    {"max_error": 1e-9},
]
WEIGHING = {("filter", 0), ("filter", 1), ("filter", 2), ("filter", 8), ("filter and clear", 0), ("filter and clear", 2)}
CONVERT = [("Matches", False), ("R", False), ("XY", False), ("XY", True), ("XYZ", False), ("XYZ", True), ("R", True)]


def edits(model, full):
    n = len(model.images)
    for i in range(n):
        yield ("drop", i)
    for pair in itertools.combinations(range(n), 2):
        yield ("drop", list(pair))
    for i in range(len(FILTERS)):
        yield ("filter", i)
    yield ("clear",)
    for i in (0, 2):
        yield ("filter and clear", i)
    for t, c in CONVERT:
        yield ("convert", t, c)
    if model.type == "Matches":
        for s in (0.5, 1.0):
            yield ("resize", s, full)


def apply(matcher, model, op, parallel=False):
    """One edit of the real matcher and the model."""
    what = f"{op}"
    if op[0] == "drop":
        matcher.drop_images(op[1] if not isinstance(op[1], list) else np.array(op[1]))
        model.drop(op[1] if isinstance(op[1], list) else [op[1]])
    elif op[0] == "filter":
        kwargs = FILTERS[op[1]]
        ok = model.filter(**kwargs)
        try:
            matcher.filter_matches(parallel=parallel, **kwargs)
        except ValueError:
            require(not ok, f"{what}: refused")
        else:
            require(ok, f"{what}: filtered on weights which are missing")
    elif op[0] == "filter and clear":
        kwargs = FILTERS[op[1]]
        ok = model.filter(**kwargs)
        try:
            matcher.filter_matches(clear_weights=True, parallel=parallel, **kwargs)
        except ValueError:
            require(not ok, f"{what}: refused")
        else:
            require(ok, f"{what}: filtered on weights which are missing")
            if model.pairs:
                model.weights = False
    elif op[0] == "clear":
        matcher.filter_matches(clear_weights=True, parallel=parallel)
        if model.pairs:
            model.weights = False
    elif op[0] == "convert":
        matcher.convert_matches(TYPES[op[1]], clear_uvs=op[2], parallel=parallel)
        if model.pairs:
            if op[1] != model.type and op[1] in ("Matches", "R"):
                model.cleared = False
            model.type = op[1]
            if op[2] and op[1] in ("XY", "XYZ"):
                model.cleared = True
    elif op[0] == "resize":
        if op[2]:
            # Cameras first, then the points follow
            for img in matcher.images:
                img.cam.resize(op[1])
            for m in matcher.matches.data:
                m.resize()
        else:
            # With the cameras, in any order
            for m in matcher.matches.data[::-1]:
                m.resize(op[1])
            for img in matcher.images:
                img.cam.resize(op[1])
        model.scale = op[1]


def compare(matcher, model, what):
    images, matches = matcher.images, matcher.matches
    n = len(model.images)
    names = [os.path.basename(img.path) for img in images]
    require(names == [f"{i}.jpg" for i in model.images], f"{what}: images {names} instead of {model.images}")
    require(
        list(matcher.keypoints) == [f"keypoints {i}" for i in model.images],
        f"{what}: keypoints {matcher.keypoints} for images {model.images}",
    )
    require(matches.shape == (n, n), f"{what}: shape {matches.shape} for {n} images")
    got = [(model.images[r], model.images[c]) for r, c in zip(matches.row, matches.col)]
    require(got == list(model.pairs), f"{what}: pairs {got} instead of {list(model.pairs)}")
    require(len(matches.data) == len(got), f"{what}: {len(matches.data)} matches for {len(got)} pairs")
    for m, r, c, p in zip(matches.data, matches.row, matches.col, got):
        where = f"{what}: pair {p}"
        require(type(m) is TYPES[model.type], f"{where}: {type(m).__name__} instead of {model.type}")
        require(m.cams[0] is images[r].cam and m.cams[1] is images[c].cam, f"{where}: wrong cameras")
        ids = model.pairs[p]
        require(m.size == len(ids), f"{where}: {m.size} points instead of {len(ids)}")
        if model.weights:
            require(
                np.array_equal(m.weights, [WORLD[p][k][2] for k in ids]), f"{where}: weights {m.weights}"
            )
        else:
            require(m.weights is None, f"{where}: weights {m.weights}")
        uvs = model.uvs(p)
        cams = [model.camera(i) for i in p]
        xys = [camera_xy(cam, uv) if len(uv) else uv for cam, uv in zip(cams, uvs)]
        if model.cleared:
            require(m.uvs is None, f"{where}: image coordinates were kept")
        else:
            for c_ in (0, 1):
                require(
                    m.uvs[c_].shape == uvs[c_].shape and np.allclose(m.uvs[c_], uvs[c_], rtol=0, atol=1e-6),
                    lambda: f"{where}: points {m.uvs[c_].tolist()} instead of {uvs[c_].tolist()}",
                )
        for c_ in (0, 1):
            me, other = cams[c_], cams[1 - c_]
            indices = [slice(None)] + ([slice(1, None), [len(ids) - 1]] if ids else [])
            for index in indices:
                rays = other._xy_to_xyz(xys[1 - c_])[index] if ids else np.zeros((0, 3))
                if model.type in ("Matches", "R"):
                    observed, predicted = uvs[c_][index], me.xyz_to_uv(rays, directions=True)
                elif model.type == "XY":
                    observed, predicted = xys[c_][index], me._xyz_to_xy(rays, directions=True)
                else:
                    mine = me._xy_to_xyz(xys[c_])[index] if ids else np.zeros((0, 3))
                    observed = None
                    predicted = mine / np.linalg.norm(mine, axis=1, keepdims=True)
                key = images[(r, c)[c_]].cam if index == slice(None) else c_
                for name, value, want in (("observed", observed, observed), ("predicted", predicted, predicted)):
                    if want is None:
                        try:
                            m.observed(c_)
                        except NotImplementedError:
                            continue
                        raise Violation(f"{where}: observed is not disabled")
                    value = getattr(m, name)(cam=key, index=index)
                    require(
                        value.shape == want.shape and np.allclose(value, want, rtol=0, atol=1e-5),
                        lambda: f"{where}: {name} {value.tolist()} instead of {want.tolist()} for camera {c_}",
                    )
    # Summaries
    per = [sum(len(k) for p, k in model.pairs.items() if i in p) for i in model.images]
    require(list(matcher.matches_per_image()) == per, f"{what}: matches per image {matcher.matches_per_image()}")
    per = [sum(len(k) > 0 for p, k in model.pairs.items() if i in p) for i in model.images]
    require(list(matcher.images_per_image()) == per, f"{what}: images per image {matcher.images_per_image()}")
    for minimum in (0, 1, 2, 3):
        want = [
            k
            for k, i in enumerate(model.images[:-1])
            if sum(p[0] == i for p in model.pairs) < max(1, min(minimum, n - 1 - k))
        ]
        got = matcher.match_breaks() if minimum == 0 else matcher.match_breaks(min_matches=minimum)
        require(list(got) == want, f"{what}: breaks {list(got)} instead of {want} for {minimum}")


def graph(n, pairs, depth, full):
    """Every sequence of edits from one graph."""
    pairs = [tuple(p) for p in pairs]
    start = (World.build(n, pairs), Model(n, pairs), ())
    compare(start[0], start[1], "initially")
    seen = {start[1].key()}
    frontier, steps = [start], 0
    for level in range(depth):
        following = []
        for matcher, model, path in frontier:
            for op in edits(model, full):
                a, b = copy.deepcopy(matcher), copy.deepcopy(model)
                apply(a, b, op)
                steps += 1
                compare(a, b, f"{n} images, pairs {pairs}, edits {list(path) + [op]}")
                if b.key() not in seen:
                    seen.add(b.key())
                    following.append((a, b, path + (op,)))
        frontier = following
    return stats(seen, steps, len(seen), len(seen) > 1, traces=steps)


def random_order(n, pairs, shuffle):
    """Pairs in any order in the matrix: edits keep each pair's points."""
    pairs = [tuple(pairs[i]) for i in shuffle]
    matcher, model = World.build(n, pairs), Model(n, pairs)
    for op in [("filter", 3), ("drop", 0), ("convert", "XY", False), ("drop", 0)]:
        apply(matcher, model, op)
        compare(matcher, model, f"pairs {pairs}, {op}")
    return stats([tuple(pairs)], 4, len(model.pairs), True)


def concurrent(n, pairs, ops, assignment, order):
    """Edits of matches in worker processes, results arriving in any order."""
    pairs = [tuple(p) for p in pairs]
    matcher, model = World.build(n, pairs), Model(n, pairs)
    factory = lambda np=None, **kw: trackkit.PermutedPool(np, assignment, order)
    with trackkit.backend(factory):
        for op in ops:
            apply(matcher, model, tuple(op), parallel=2)
            compare(matcher, model, f"pairs {pairs}, {ops} in workers {assignment}, order {order}")
    return stats([model.key()], len(ops), len(model.pairs), len(set(assignment)) > 1)


def commute(n, pairs, i, j):
    """Independent edits commute."""
    pairs = [tuple(p) for p in pairs]
    results = []
    for order in ((i, j), (j, i)):
        model = Model(n, pairs)
        ops = [op for op in edits(model, False)]
        matcher = World.build(n, pairs)
        for k in order:
            apply(matcher, model, ops[k])
        compare(matcher, model, f"{pairs}: {[ops[k] for k in order]}")
        results.append(model.key())
    return stats(results, 4, results[0] == results[1], True)


def refuse(case):
    """Pairs of cameras and points that do not belong together are refused."""
    a, b = camera(0), camera(1)
    uv = np.zeros((2, 2))
    moved = camera(1)
    moved.xyz = (0, 0, 0)
    cases = {
        "same": lambda t: t(cams=(a, a), uvs=(uv, uv)),
        "three": lambda t: t(cams=(a, b), uvs=(uv, uv, uv)),
        "lengths": lambda t: t(cams=(a, b), uvs=(uv, uv[:1])),
        "position": lambda t: t(cams=(a, moved), uvs=(uv, uv)).predicted(0),
        "nothing": lambda t: t(cams=(a, b), uvs=None),
    }
    kind, name = case
    try:
        cases[name](TYPES[kind])
    except (ValueError, TypeError) as e:
        require(isinstance(e, ValueError) or (name == "nothing" and kind == "Matches"), f"{case}: {e!r}")
    else:
        raise Violation(f"{case} was accepted")
    return stats([tuple(case)], 1, "refused", True)


def changed(kind, attribute, element=0, who=1):
    """Rotation matches notice changes of the camera, plain matches follow them."""
    a, b = camera(0), camera(1)
    uva, uvb, _ = zip(*WORLD[0, 1])
    m = TYPES[kind](cams=(a, b), uvs=(np.array(uva), np.array(uvb)))
    before = m.predicted(0)
    moving = (a, b)[who]
    value = np.array(getattr(moving, attribute), dtype=float)
    value[element] = value[element] + 2 if attribute == "imgsz" else value[element] * 1.01 + 0.01
    setattr(moving, attribute, value)
    position = attribute == "xyz"
    internal = attribute in ("imgsz", "f", "c", "k", "p")
    try:
        after = m.predicted(0)
    except ValueError:
        require(position or (internal and kind != "Matches"), f"{kind}: refused a change of {attribute}")
    else:
        require(not position, f"{kind}: predicts with cameras at different positions")
        require(kind == "Matches" or not internal, f"{kind}: predicts with a changed {attribute}")
        rays = b.uv_to_xyz(np.array(uvb))
        if kind in ("Matches", "R"):
            require(np.allclose(after, a.xyz_to_uv(rays, directions=True), atol=1e-6), f"{kind}: {attribute} ignored")
            require(not np.array_equal(before, after), f"{kind}: {attribute} has no effect")
    # Back to what it was
    setattr(moving, attribute, getattr(camera(who), attribute))
    require(np.allclose(m.predicted(0), before), f"{kind}: different after restoring {attribute}")
    return stats([(kind, attribute, element, who)], 3, position, True)


def members(kind):
    """Cameras are chosen by position or by themselves, and others are refused."""
    a, b = camera(0), camera(1)
    uva, uvb, _ = zip(*WORLD[0, 1])
    m = TYPES[kind](cams=(a, b), uvs=(np.array(uva), np.array(uvb)))
    n = 0
    calls = [lambda cam: m.predicted(cam)]
    if kind != "XYZ":
        calls.append(lambda cam: m.observed(cam))
    if kind in ("Matches", "R"):
        calls.append(lambda cam: m.plot(cam=cam, width=1)["selected"].XY)
    for k, call in enumerate(calls):
        for i, cam in enumerate((a, b)):
            require(np.array_equal(call(i), call(cam)), f"{kind}: call {k} of camera {i}")
            n += 1
        require(not np.array_equal(call(0), call(1)), f"{kind}: call {k} ignores the camera")
        for bad in (2, 7, camera(2)):
            try:
                call(bad)
            except (IndexError, ValueError):
                n += 1
            else:
                raise Violation(f"{kind}: call {k} accepted camera {bad}")
    import matplotlib.pyplot as plt

    plt.close("all")
    return stats([kind], n, kind, True)


def limits(kind, pair, cam, scaled, name):
    """Filters by error or distance, with a limit between any two of the values."""
    ca, cb = (camera(i) for i in pair)
    uva = np.array([(k % 3, k // 3) for k in range(9)]) / 4 * ca.imgsz + ca.imgsz / 4
    shifts = np.array([(3, 0), (0, 3.5), (-4, 0.25), (0.5, -5), (6, 6), (-1, 1), (0, 0.25), (9, -1), (2, 2)])
    uvb = cb.xyz_to_uv(ca.uv_to_xyz(uva), directions=True) + shifts
    uvs = uva, uvb
    me, other = (ca, cb)[cam], (ca, cb)[1 - cam]
    if name == "max_error":
        seen = me.xyz_to_uv(other.uv_to_xyz(uvs[1 - cam]), directions=True)
    else:
        seen = uvs[1 - cam] / other.imgsz * me.imgsz
    off = np.linalg.norm(seen - uvs[cam], axis=1)
    unit = me.imgsz[0] if scaled else 1
    ordered = np.sort(off)
    n, kept = 0, set()
    for low, high in zip(ordered[:-1], ordered[1:]):
        if high - low < 1e-3:
            continue
        m = TYPES[kind](cams=(ca, cb), uvs=uvs, weights=np.arange(9.0))
        m.filter(**{name: (low + high) / 2 / unit, "cam": (cam, me)[n % 2], "scaled": scaled})
        want = np.flatnonzero(off < (low + high) / 2)
        what = f"{kind} of {pair}, {name} {(low + high) / 2} seen by {cam}, scaled {scaled}"
        require(m.weights.tolist() == want.tolist(), f"{what}: kept {m.weights.tolist()}, not {want.tolist()}")
        require(all(np.array_equal(x, y[want]) for x, y in zip(m.uvs, uvs)), f"{what}: points")
        kept.add(tuple(want))
        n += 1
    return stats(kept, n, (pair, len(kept)), len(kept) > 1, traces=n)


def undefined(kind, cam, first):
    """Matches which one camera cannot see are beyond any error."""
    ca, cb = (Camera(imgsz=(40, 30), f=20, viewdir=(d, 0, 0), xyz=(1, 2, 3)) for d in (0, 80))
    uv = np.array([(u, v) for u in (1.0, 12, 25, 39) for v in (4.0, 20)])
    # Some seen by both, some behind one of the cameras
    pairs = [list(ca.xyz_to_uv(cb.uv_to_xyz(uv), directions=True)), list(cb.xyz_to_uv(ca.uv_to_xyz(uv), directions=True))]
    uvs = [np.vstack((uv, uv)), np.vstack((uv, uv + 1.0))]
    for c, values in enumerate(pairs):
        for k, value in enumerate(values):
            if not np.isnan(value).any():
                uvs[c][(0 if c == 0 else len(uv)) + k] = value + 0.75
    me, other = (ca, cb)[cam], (ca, cb)[1 - cam]
    off = np.linalg.norm(me.xyz_to_uv(other.uv_to_xyz(uvs[1 - cam]), directions=True) - uvs[cam], axis=1)
    gone = np.isnan(off)
    require(0 < gone.sum() < len(off), "harness: all or no points are seen")
    kept = set()
    for limit in (0.5, 1.0, 3.0, 1e3, np.inf):
        for best in (None, 3):
            m = TYPES[kind](cams=(ca, cb), uvs=uvs, weights=np.arange(float(len(off))))
            kwargs = {"n_best": best} if best else {}
            order = [("max_error", limit)] + list(kwargs.items())
            m.filter(**dict(order if first else order[::-1]), cam=cam)
            want = [k for k in range(len(off)) if off[k] <= limit and (not best or k >= len(off) - best)]
            what = f"{kind}, errors {off.tolist()} in camera {cam} at most {limit}, best {best}"
            require(m.weights.tolist() == want, f"{what}: kept {m.weights.tolist()}, not {want}")
            kept.add(tuple(want))
    return stats(kept, 10, len(kept), len(kept) > 1)


def coordinates(kind):
    """Matches made from camera coordinates instead of image coordinates."""
    a, b = camera(0), camera(2)
    uva, uvb, w = zip(*WORLD[0, 2])
    uvs = [np.array(uva), np.array(uvb)]
    xys = [a._uv_to_xy(uvs[0]), b._uv_to_xy(uvs[1])]
    steps = 0
    for target in TYPES:
        one = TYPES[kind](cams=(a, b), xys=xys, weights=np.array(w))
        two = TYPES[kind](cams=(a, b), uvs=uvs, weights=np.array(w))
        for m in (one, two):
            m.filter(max_error=2.4)
        require(one.size == two.size, f"{kind}: {one.size} and {two.size} points after filtering")
        c1, c2 = one.to_type(TYPES[target]), two.to_type(TYPES[target])
        steps += 1
        for c in (0, 1):
            require(
                np.allclose(c1.predicted(c), c2.predicted(c), atol=1e-5),
                f"{kind} to {target}: {c1.predicted(c).tolist()} and {c2.predicted(c).tolist()}",
            )
        require(np.array_equal(c1.weights, c2.weights), f"{kind} to {target}: weights")
        require(c1.cams[0] is a and c1.cams[1] is b, f"{kind} to {target}: cameras")
    return stats([kind], steps, kind, True)


def ranked(kind, weights):
    """Filters on weights, which may be equal."""
    n = len(weights)
    cams = camera(0), camera(1)
    uva = np.column_stack((np.arange(n) * 1.5 + 20, np.arange(n) % 3 + 15.25)).reshape(-1, 2)
    shifts = np.array([(1.0, 0), (0, 4.0), (-2.0, 0), (0.5, 0.5), (6.0, 0)])[:n].reshape(-1, 2)
    uvb = uva + shifts
    steps, kept = 0, []
    for n_best in (None, 1, 2, 3, 4, 5, 6):
        for least in (None, 1, 2, 2.5, 4):
            for distance in (None, 3.0):
                m = TYPES[kind](cams=cams, uvs=[uva, uvb], weights=np.array(weights, dtype=float))
                xys = None if kind == "Matches" else [x.copy() for x in m.xys]
                m.filter(n_best=n_best, min_weight=least, max_distance=distance)
                steps += 1
                at = f"{kind} {weights} n_best={n_best} min_weight={least} max_distance={distance}"
                ids = [int(round((u - 20) / 1.5)) for u, _ in m.uvs[0]]
                kept.append(tuple(ids))
                require(ids == sorted(set(ids)), f"{at}: {ids} are not in order")
                require(
                    np.array_equal(m.uvs[0], uva[ids])
                    and np.array_equal(m.uvs[1], uvb[ids])
                    and np.array_equal(m.weights, np.array(weights, dtype=float)[ids]),
                    f"{at}: points, or their weights, are mixed up",
                )
                if xys is not None:
                    require(
                        all(np.array_equal(x[ids], y) for x, y in zip(xys, m.xys)),
                        f"{at}: camera coordinates are mixed up",
                    )

                def passes(k):
                    near = distance is None or np.hypot(*shifts[k]) <= distance
                    return near and (least is None or weights[k] >= least)

                require(all(passes(k) for k in ids), f"{at}: kept {ids}")
                best = sorted(weights, reverse=True)[: n_best or n]
                limit = best[-1] if best else 0
                # Those among the best in every order of equal weights
                surely = [
                    k for k in range(n) if passes(k)
                    and (n_best is None or sum(w >= weights[k] for w in weights) <= n_best)
                ]
                require(
                    set(surely) <= set(ids) and all(weights[k] >= limit for k in ids),
                    f"{at}: kept {ids}, not the best",
                )
                require(len(ids) <= (n_best or n), f"{at}: kept {ids}")
                if least is None and distance is None:
                    require(len(ids) == min(n_best or n, n), f"{at}: kept {ids}")
    return stats(set(kept), steps, tuple(kept), len(set(kept)) > 1)


def subsets(items):
    for r in range(len(items) + 1):
        yield from itertools.combinations(items, r)


def explore(ck):
    for kind in TYPES:
        for name in ("same", "three", "lengths", "position", "nothing"):
            ck.run(refuse, (kind, name))
        for attribute, length in (("xyz", 3), ("viewdir", 3), ("imgsz", 2), ("f", 2), ("c", 2), ("k", 6), ("p", 2)):
            for element in range(length):
                for who in (0, 1):
                    ck.run(changed, kind, attribute, element, who)
        ck.run(members, kind)
        for pair in itertools.permutations(range(4), 2):
            for cam in (0, 1):
                for scaled in (False, True):
                    for name in ("max_error", "max_distance"):
                        ck.run(limits, kind, pair, cam, scaled, name)
        for cam in (0, 1):
            for first in (False, True):
                ck.run(undefined, kind, cam, first)
        if kind != "Matches":
            ck.run(coordinates, kind)
    sizes = range(6) if ck.thorough else range(5)
    ck.sweep(
        ranked,
        [
            (kind, w)
            for kind in TYPES
            for n in sizes
            for w in itertools.product((1, 2, 3), repeat=n)
            if ck.thorough or kind in ("Matches", "XY") or n < 4
        ],
    )
    deep = 3 if ck.thorough else 2
    cases = []
    for n in (2, 3, 4):
        for pairs in subsets(list(itertools.combinations(range(n), 2))):
            depth = {2: 3, 3: deep, 4: deep - 1}[n]
            if n == 4 and not ck.thorough and len(pairs) in (4, 5):
                # Kept small: a representative of each shape is enough here
                depth = 1
            if n == 4 and len(pairs) == 6:
                depth = deep
            for full in (False, True) if n < 4 or ck.thorough else (False,):
                cases.append((n, pairs, depth, full))
    ck.sweep(graph, cases, chunk=1, timeout=600)
    pairs3, pairs4 = list(itertools.combinations(range(3), 2)), list(itertools.combinations(range(4), 2))
    cases = [(3, pairs3, p) for p in itertools.permutations(range(3))]
    cases += [(4, pairs4, p) for p in itertools.permutations(range(6)) if ck.thorough or p[0] < 2]
    ck.sweep(random_order, cases, chunk=32)
    cases = []
    programs = [
        [("filter", 3)],
        [("convert", "XYZ", True)],
        [("clear",)],
        [("filter and clear", 0)],
        [("convert", "R", False), ("filter", 0), ("convert", "Matches", False)],
    ]
    for ops in programs:
        for assignment in trackkit.assignments(3, 2):
            for order in trackkit.completion_orders(assignment):
                cases.append((3, pairs3, ops, assignment, order))
    ck.sweep(concurrent, cases, chunk=4)
    ops = list(edits(Model(3, pairs3), False))
    cases = [
        (3, pairs3, i, j)
        for i, j in itertools.combinations_with_replacement(range(6, len(ops)), 2)
        # Not filters on weights with those which clear them
        if not {"filter and clear", "clear"} & {ops[i][0], ops[j][0]} or not {ops[i], ops[j]} & WEIGHING
        # Rotation matches are not resized
        if {ops[i][0], ops[j][0]} != {"convert", "resize"}
    ]
    ck.sweep(commute, cases, chunk=16)
