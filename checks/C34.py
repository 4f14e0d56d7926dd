"""Control points and lines measure how far the camera is off."""
import itertools

import matplotlib.pyplot as plt
import numpy as np

from mc.core import require, stats
from glimpse import Camera
from glimpse.optimize import Lines, Matches, Points

LEVEL = "model_checking"
RULE = (
    "A case is one camera with one set of world lines, for which every image point of a lattice "
    "is compared; or one history of resizes of a camera which several controls share; or one "
    "selection to plot. Non-trivial when some error is not zero."
)
ASSUMPTIONS = [
    "World lines start and end in front of the camera, or their vertices behind it are discarded with the segments which they end.",
    "Projection of single points is that of the camera (see C16 and C17).",
]

CAMERAS = {
    "plain": dict(imgsz=(24, 16), f=20),
    "turned": dict(imgsz=(24, 16), f=20, viewdir=(10, -5, 30), xyz=(1, -2, 3)),
    "uneven": dict(imgsz=(24, 16), f=(18, 24), c=(2, -1)),
    "distorted": dict(imgsz=(24, 16), f=20, k=(0.08, 0.01), p=(0.004, -0.003)),
    "pincushion": dict(imgsz=(24, 16), f=20, k=(0.3,)),
    "barrel": dict(imgsz=(24, 16), f=22, k=(-0.12,), viewdir=(3, 2, 0)),
}
# World vertices, relative to a camera which looks north
VERTICES = {
    "a": (-3, 10, 0),
    "b": (3, 10, 1),
    "c": (0, 5, -1),
    "d": (40, 20, 3),
    "e": (-40, 25, -6),
    "f": (0.5, 30, 9),
    "g": (0, -10, 0),
    "h": (55, 22, 9),
    "i": (-30, 12, -3),
}


def world(cam, names, directions):
    """Vertices in front of a camera, however it is turned."""
    xyz = np.array([VERTICES[n] for n in names], dtype=float)
    turn = Camera(imgsz=2, f=1, viewdir=cam.viewdir)
    base = Camera(imgsz=2, f=1)
    # Same position relative to the turned camera
    xyz = (turn.R.T @ base.R @ xyz.T).T
    return xyz if directions else xyz + cam.xyz


def dense(cam, line, directions, n=400):
    """Image coordinates along a world line, by projecting many of its points."""
    parts = []
    for a, b in zip(line[:-1], line[1:]):
        t = np.linspace(0, 1, n)[:, None]
        # Evenly in the image rather than in the world
        rel = (np.array([a, b]) - (0 if directions else cam.xyz)) @ cam.R.T
        if (rel[:, 2] <= 0).any():
            continue
        depth = rel[:, 2]
        s = t * depth[0] / (t * depth[0] + (1 - t) * depth[1])
        parts.append(cam.xyz_to_uv(a + s * (b - a), directions=directions))
    # Vertices in front with no neighbour in front are kept as points
    front = ((line - (0 if directions else cam.xyz)) @ cam.R.T)[:, 2] > 0
    for k in np.nonzero(front)[0]:
        if not front[max(k - 1, 0) : k].any() and not front[k + 1 : k + 2].any():
            parts.append(cam.xyz_to_uv(line[[k, k]], directions=directions))
    return parts


def distance(points, curve):
    """Distance of points to a polyline, and whether the nearest is in view."""
    best = np.full(len(points), np.inf)
    for part in curve:
        a, b = part[:-1], part[1:]
        d = b - a
        length = np.maximum((d ** 2).sum(axis=1), 1e-30)
        t = np.clip(((points[:, None] - a) * d).sum(axis=2) / length, 0, 1)
        nearest = a + t[..., None] * d
        best = np.minimum(best, np.linalg.norm(points[:, None] - nearest, axis=2).min(axis=1))
    return best


def lattice(step):
    u, v = np.meshgrid(np.arange(0, 24.1, step), np.arange(0, 16.1, step))
    return np.column_stack((u.ravel(), v.ravel()))


def lines(camera, names, directions, density):
    """Every image point has its nearest point on the world lines."""
    cam = Camera(**CAMERAS[camera])
    xyzs = [world(cam, word, directions) for word in names]
    uv = lattice(4)
    curve = []
    for line in xyzs:
        curve += dense(cam, line, directions)
    # Points on the lines, too
    for part in curve:
        seen = part[np.all((part >= 0) & (part <= cam.imgsz), axis=1)]
        uv = np.vstack((uv, seen[:3], seen[3:-3:7], seen[-3:]))
    control = Lines(cam, uvs=[uv[:10], uv[10:11], uv[11:]], xyzs=xyzs, directions=directions, density=density)
    require(control.size == len(uv), f"{control.size} points")
    require(np.array_equal(control.observed(), uv), "observed points")
    what = f"{camera}, lines {names}, directions {directions}, density {density}"
    # The part in view
    inside = []
    for part in curve:
        edge = np.all((part >= 0) & (part <= cam.imgsz), axis=1)
        if edge.any() and not (edge[0] or edge[-1]):
            # Segments which cross the view without a vertex in it are not looked for
            return stats([what], 0, "crossing", False, traces=0)
        for k in np.nonzero(edge[:-1] & edge[1:])[0]:
            inside.append(part[k : k + 2])
    inside = [np.vstack([p[0] for p in g] + [g[-1][1]]) for g in runs(inside)]
    before = cam.to_array()
    got = control.predicted()
    require(np.array_equal(before, cam.to_array()), f"{what}: changed the camera")
    require(got.shape == uv.shape, f"{what}: shape {got.shape}")
    step = 1 / density
    outcome = 0
    if inside:
        off = distance(got, curve)
        require((off < 0.05 * step + 0.02).all(), lambda: f"{what}: {off.max():.3f} pixels off the lines")
        want = distance(uv, inside)
        actual = np.linalg.norm(got - uv, axis=1)
        extra = actual - want
        # Distortion may stretch the step
        limit = step * 0.75 + 0.05
        if not cam.k.any():
            # The number of steps is rounded
            shortest = min(np.linalg.norm(np.diff(part, axis=0), axis=1).sum() for part in inside)
            limit = step * 0.5 * (1 + 0.5 / max(int(shortest / step), 1)) + 0.02
        require(
            (extra < limit).all(),
            lambda: f"{what}: {uv[extra.argmax()].tolist()} to {got[extra.argmax()].tolist()}, {extra.max():.3f} pixels farther than needed",
        )
        outcome = round(float(actual.sum()), 3)
    else:
        # Without anything in view, vertices in front
        vertices = np.vstack([cam.xyz_to_uv(line, directions=directions) for line in xyzs])
        vertices = vertices[~np.isnan(vertices[:, 0])]
        off = np.abs(got[:, None] - vertices).max(axis=2).min(axis=1)
        require((off < 1e-6).all(), f"{what}: {got[off.argmax()].tolist()} is no vertex")
        best = np.linalg.norm(uv[:, None] - vertices, axis=2).min(axis=1)
        require(np.allclose(np.linalg.norm(got - uv, axis=1), best), f"{what}: not the nearest vertex")
    for index in ([0], [5, 2], slice(3, 9), slice(None), np.array([7, 7])):
        part = control.predicted(index=index)
        require(np.allclose(part, got[index], atol=1e-9), f"{what}: index {index}")
        require(np.array_equal(control.observed(index=index), uv[index]), f"{what}: index {index}")
    return stats([what], len(uv) + 5, outcome, bool(inside), traces=len(uv))


def runs(segments):
    """Group consecutive segments."""
    out = []
    for s in segments:
        if out and np.array_equal(out[-1][-1][1], s[0]):
            out[-1].append(s)
        else:
            out.append([s])
    return out


XYZ = np.array([(0, 10, 0), (2, 10, 1), (-3, 12, -2), (1, 8, 2), (0, -10, 1), (90, 10, 0)], dtype=float)
UV = np.array([(12, 8), (3, 4.5), (20.25, 11), (0, 0), (7, 7), (24, 16)], dtype=float)


def points(camera, directions):
    """Every selection of points, before and after the camera is changed."""
    base = Camera(**CAMERAS[camera])
    seen, steps = set(), 0
    changes = {"none": {}, "viewdir": {"viewdir": (5, 1, 2)}, "f": {"f": 31}, "k": {"k": (0.1,)}, "c": {"c": (1, 1)}, "xyz": {"xyz": (4, 4, 4)}}
    for i in range(3):
        # One coordinate alone
        changes[f"xyz{i}"] = {"xyz": tuple(base.xyz[j] + 0.5 * (i == j) for j in range(3))}
    for name, change in changes.items():
        cam = base.copy()
        xyz = world_points(cam, directions)
        control = Points(cam, uv=UV, xyz=xyz, directions=directions)
        for key, value in change.items():
            setattr(cam, key, value)
        fresh = Camera(**{**CAMERAS[camera], **change})
        for n in range(len(UV) + 1):
            for index in itertools.combinations(range(len(UV)), n):
                for kind in ("list", "mask", "array"):
                    i = list(index)
                    if kind == "mask":
                        i = np.isin(np.arange(len(UV)), i)
                    elif kind == "array":
                        i = np.array(i[::-1], dtype=int)
                    what = f"{camera}, directions {directions}, {name} changed, index {i}"
                    rows = np.arange(len(UV))[np.asarray(i, dtype=bool if kind == "mask" else int)]
                    try:
                        got = control.predicted(i if len(index) or kind != "list" else slice(0, 0))
                    except ValueError:
                        require(directions and name[:3] == "xyz", f"{what}: refused")
                        steps += 1
                        continue
                    require(not (directions and name[:3] == "xyz"), f"{what}: accepted")
                    want = fresh.xyz_to_uv(xyz[rows], directions=directions)
                    require(np.allclose(got, want, equal_nan=True), f"{what}: {got.tolist()}")
                    require(
                        np.array_equal(control.observed(i if len(index) or kind != "list" else slice(0, 0)), UV[rows]),
                        f"{what}: observed",
                    )
                    seen.add((name, n))
                    steps += 1
    return stats(seen, steps, len(seen), True, traces=steps)


def world_points(cam, directions):
    turn, base = Camera(imgsz=2, f=1, viewdir=cam.viewdir), Camera(imgsz=2, f=1)
    xyz = (turn.R.T @ base.R @ XYZ.T).T
    return xyz if directions else xyz + cam.xyz


def lengths(n, m, directions):
    """Every image point needs its world point."""
    cam = Camera(**CAMERAS["plain"])
    try:
        control = Points(cam, uv=np.zeros((n, 2)), xyz=np.ones((m, 3)), directions=directions)
    except ValueError:
        require(n != m, f"{n} image points and {m} world points were refused")
        return stats([(n, m, directions)], 1, "refused", True)
    require(n == m, f"{n} image points and {m} world points were accepted")
    require(control.size == n and control.predicted().shape == (n, 2), f"{n} points: size {control.size}")
    return stats([(n, m, directions)], 1, n, n > 0)


OPS = ["points half", "lines half", "lines 1", "match 2", "camera 0.5", "camera 3", "update", "points exact", "wide", "update points", "refused"]


def resizes(ops):
    """Controls which share a camera follow each other's resizes."""
    cam, other = Camera(imgsz=(24, 16), f=20, k=(0.05,)), Camera(imgsz=(24, 16), f=22, viewdir=(2, 0, 0))
    cam = cam.copy()
    p = Points(cam, uv=UV, xyz=XYZ)
    given = [UV[:3].copy(), UV[3:].copy()]
    l = Lines(cam, uvs=given, xyzs=[[VERTICES["a"], VERTICES["b"]]], density=5)
    m = Matches(cams=(cam, other), uvs=(UV, UV[::-1]))
    now = {"cam": (24, 16), "other": (24, 16), "p": (24, 16), "l": (24, 16), "m0": (24, 16), "m1": (24, 16)}
    base, what = (24, 16), []
    exact = p.predicted() / base
    vertices = l.predicted() / base
    for k in ops:
        op = OPS[k]
        what.append(op)
        if op == "points half":
            p.resize(0.5)
            now["cam"] = now["p"] = (12, 8)
        elif op == "lines half":
            l.resize(0.5)
            now["cam"] = now["l"] = (12, 8)
        elif op == "lines 1":
            l.resize(1)
            now["cam"] = now["l"] = base
        elif op == "match 2":
            m.resize(2)
            now["cam"] = now["other"] = now["m0"] = now["m1"] = (48, 32)
        elif op == "camera 0.5":
            cam.resize(0.5)
            now["cam"] = (12, 8)
        elif op == "camera 3":
            cam.resize(3)
            now["cam"] = (72, 48)
        elif op == "update":
            for control in (p, l, m):
                control.resize()
            now["p"] = now["l"] = now["m0"] = now["cam"]
            now["m1"] = now["other"]
        elif op == "update points":
            p.resize()
            now["p"] = now["cam"]
        elif op == "points exact":
            p.resize((36, 24))
            now["cam"] = now["p"] = (36, 24)
        elif op == "wide":
            p.resize((48, 16), force=True)
            now["cam"] = now["p"] = (48, 16)
        elif op == "refused":
            for control in (p, l, m):
                try:
                    control.resize((30, 16))
                except ValueError:
                    continue
                require(False, f"after {what}: a size of another shape was accepted")
        at = f"after {what}"
        require(tuple(cam.imgsz) == now["cam"] and tuple(other.imgsz) == now["other"], f"{at}: camera size {cam.imgsz}")
        for key, got, uv in (
            ("p", p.uv, UV),
            ("p", p.observed(), UV),
            ("l", l.uv, UV),
            ("l", np.vstack(l.uvs), UV),
            ("m0", m.uvs[0], UV),
            ("m1", m.uvs[1], UV[::-1]),
        ):
            want = uv / base * now[key]
            require(np.allclose(got, want, rtol=1e-12, atol=1e-12), f"{at}: {key} has {got.tolist()}")
        require(
            np.allclose(p.predicted(), exact * now["cam"], equal_nan=True, atol=1e-6), f"{at}: predicted points"
        )
        if now["l"] == now["cam"]:
            # Nearest points move with the sampling
            close = np.abs(l.predicted() / now["cam"] - vertices) * np.max(now["cam"]) < 0.6 * np.max(now["cam"]) / 12
            require(close.all() or now["cam"] == (48, 16), f"{at}: predicted lines")
        require(np.array_equal(np.vstack(given), UV), f"{at}: given coordinates were changed")
    return stats([str(now)], len(ops), str(now), True)


def plots(kind, index, flags):
    """Arrows lead from observed to predicted coordinates of the selected points."""
    plt.close("all")
    cam = Camera(**CAMERAS["turned"])
    xyz = world_points(cam, False)[:4]
    if kind == "points":
        control = Points(cam, uv=UV[:4], xyz=xyz)
    elif kind == "lines":
        control = Lines(cam, uvs=[UV[:1], UV[1:4]], xyzs=[world(cam, "acb", False)], density=4)
    else:
        control = Matches(cams=(cam, Camera(**{**CAMERAS["turned"], "f": 25})), uvs=(UV[:4], UV[1:5]))
    selected, unselected = ({0: None, 1: "red", 2: {"color": "blue", "width": 2}}[f] for f in flags)
    i = [k for k, bit in enumerate(index) if bit]
    uv, duv = control.observed(), control.predicted() - control.observed()
    what = f"{kind}, index {i}, selected {selected}, unselected {unselected}"
    result = control.plot(index=np.array(i, dtype=int), selected=selected, unselected=unselected)
    other = [k for k in range(4) if k not in i]
    for label, rows, args in (("selected", i, selected), ("unselected", other, unselected)):
        if not rows or args is None:
            require(result[label] is None, f"{what}: {label} was plotted")
            continue
        q = result[label]
        require(np.allclose(q.XY, uv[rows]), f"{what}: arrows of {label} start at {q.XY}")
        require(np.allclose(np.column_stack((q.U, q.V)), duv[rows]), f"{what}: arrows of {label} are {q.U}, {q.V}")
        require(q.scale == 1 and q.angles == "xy" and q.scale_units == "xy", f"{what}: arrows are not in image coordinates")
    if kind == "lines":
        got = [line.get_xydata() for line in result["observed"]]
        require(len(got) == 2 and all(np.allclose(a, b) for a, b in zip(got, control.uvs)), f"{what}: image lines")
        require(len(result["predicted"]) >= 1, f"{what}: world lines")
        drawn = np.vstack([line.get_xydata() for line in result["predicted"]])
        near = np.abs(control.predicted()[:, None] - drawn).max(axis=2).min(axis=1)
        require((near < 1e-9).all(), f"{what}: world lines are not those of the errors")
    ax = plt.gca()
    require(ax.get_xlim() == (0, 24) and ax.get_ylim() == (16, 0), f"{what}: limits {ax.get_xlim()}, {ax.get_ylim()}")
    plt.close("all")
    return stats([what], 1, (len(i), flags), bool(i))


def explore(ck):
    words = ["ab", "cb", "acb", "fa", "bf", "ae", "da", "cg", "agb", "gac", "ed", "de"]
    # Out of view
    outside = ["dh", "hd", "ei", "dhd", "ghd", "dhg", "gie"]
    sets = [(w,) for w in words] + list(itertools.combinations(words[:6] if not ck.thorough else words, 2))
    sets += [(w,) for w in outside] + list(itertools.permutations(outside, 2))
    sets += [("dh", "ab"), ("cb", "ei"), ("ei", "cb", "dh")]
    cases = [
        (camera, s, directions, density)
        for camera in CAMERAS
        for s in sets
        for directions in (False, True)
        for density in (1, 3, 10)
    ]
    ck.sweep(lines, cases, chunk=16)
    ck.sweep(points, [(camera, directions) for camera in CAMERAS for directions in (False, True)], chunk=1)
    for directions in (False, True):
        for n, m in itertools.product(range(5), repeat=2):
            ck.run(lengths, n, m, directions)
    depth = 4 if ck.thorough else 3
    ck.sweep(resizes, [(list(ops),) for ops in itertools.product(range(len(OPS)), repeat=depth)], chunk=64)
    cases = [
        (kind, index, flags)
        for kind in ("points", "lines", "matches")
        for index in itertools.product((0, 1), repeat=4)
        for flags in itertools.product((0, 1, 2), repeat=2)
    ]
    ck.sweep(plots, cases, chunk=16)
