"""Projecting to and from the image are inverse operations."""
import itertools
import math

import numpy as np

from mc.core import require, stats
from glimpse import Camera, config

LEVEL = "model_checking"
RULE = (
    "A case is a camera (view direction, focal length, principal point, a subset of the "
    "eight distortion terms, elevation corrections) with a lattice of image points and "
    "of world points around it, compared with the projection formula written out in "
    "plain Python. Non-trivial when some points are in front of and some behind it."
)
ASSUMPTIONS = [
    "Distortions are small enough that the documented iteration converges.",
    "Elevation corrections only apply when projecting absolute world coordinates.",
]
K = (0.06, -0.03, 0.02, 0.05, -0.02, 0.01)
P = (0.004, -0.003)
IMGSZ = (12, 8)


def axes(viewdir):
    yaw, pitch, roll = (math.radians(a) for a in viewdir)
    fwd = (math.cos(pitch) * math.sin(yaw), math.cos(pitch) * math.cos(yaw), math.sin(pitch))
    right = (math.cos(yaw), -math.sin(yaw), 0.0)
    down = (math.sin(pitch) * math.sin(yaw), math.sin(pitch) * math.cos(yaw), -math.cos(pitch))
    c, s = math.cos(roll), math.sin(roll)
    x = [c * a + s * b for a, b in zip(right, down)]
    y = [-s * a + c * b for a, b in zip(right, down)]
    return x, y, fwd


def reference(cam, d):
    """Image point and depth of the direction d, in plain Python."""
    x_, y_, f_ = axes(cam["viewdir"])
    z = sum(a * b for a, b in zip(d, f_))
    if z <= 0:
        return (math.nan, math.nan), z
    x = sum(a * b for a, b in zip(d, x_)) / z
    y = sum(a * b for a, b in zip(d, y_)) / z
    r2 = x * x + y * y
    k, (p1, p2) = cam["k"], cam["p"]
    dr = (1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3) / (
        1 + k[3] * r2 + k[4] * r2 ** 2 + k[5] * r2 ** 3
    )
    xd = x * dr + 2 * x * y * p1 + p2 * (r2 + 2 * x * x)
    yd = y * dr + p1 * (r2 + 2 * y * y) + 2 * x * y * p2
    u = xd * cam["f"][0] + cam["imgsz"][0] / 2 + cam["c"][0]
    v = yd * cam["f"][1] + cam["imgsz"][1] / 2 + cam["c"][1]
    return (u, v), z


def same(a, b, tol=1e-8):
    return np.allclose(a, b, rtol=1e-9, atol=tol, equal_nan=True)


def world(cam):
    """Directions around the camera, relative to its axes."""
    x, y, f = (np.array(a) for a in axes(cam["viewdir"]))
    out = []
    for a, b, c in itertools.product((-0.5, 0, 0.2), (-0.3, 0, 0.4), (1, 5, -2)):
        out.append(c * (f + a * x + b * y))
    out += [x, -x, y, 0.3 * x - 2 * y, 0 * x]
    return np.array(out)


def camera(viewdir, f, c, kmask, pmask, sign, xyz, correction, matmul, imgsz=IMGSZ):
    p = dict(
        imgsz=imgsz, viewdir=viewdir, f=f, c=c, xyz=xyz,
        k=[sign * v if m else 0.0 for v, m in zip(K, kmask)],
        p=[sign * v if m else 0.0 for v, m in zip(P, pmask)],
    )
    before = config.matmul
    config.matmul = matmul
    try:
        return check(p, correction)
    finally:
        config.matmul = before


def check(p, correction):
    cam = Camera(**{k: list(v) for k, v in p.items()}, correction=correction)
    where = f"{p} correction {correction} matmul {config.matmul}"
    xyz0 = np.array(p["xyz"], float)
    big = np.abs(xyz0).max() > 1e4
    tol = 1e-6 if big else 1e-8
    # ---- From the image, and back
    nx, ny = p["imgsz"]
    u = sorted({0, 0.5, 3, nx / 2, nx / 2 + p["c"][0], 9.75, nx})
    v = sorted({0, 0.5, 2.5, ny / 2, ny / 2 + p["c"][1], 6.75, ny})
    uv = np.array(list(itertools.product(u, v)))
    n = len(uv)
    keep = uv.copy()
    d = cam.uv_to_xyz(uv)
    require(np.array_equal(uv, keep), f"{where}: image points changed")
    require(d.shape == (n, 3), f"{where}: {d.shape}")
    back = np.array([reference(p, x)[0] for x in d.tolist()])
    bad = ~np.isclose(back, uv, rtol=0, atol=1e-8).all(axis=1)
    require(
        not bad.any(),
        lambda: f"{where}: direction {d[bad][0]} of image point {uv[bad][0]} projects to {back[bad][0]}",
    )
    depth = [reference(p, x)[1] for x in d.tolist()]
    require(same(depth, 1), f"{where}: depth of directions is {depth}")
    require(same(cam.xyz_to_uv(d, directions=True), uv), f"{where}: round trip of directions")
    # ---- Depths
    depths = (
        3, 2.5, np.float64(4), np.linspace(1, 9, n), list(range(1, n + 1)), 1, 0.5,
        np.float64(0.25), np.linspace(0.125, 1, n), [0.5, *[1] * (n - 1)], np.full(n, 0.75),
    )
    for depth in (0, np.zeros(n)):
        got = cam.uv_to_xyz(uv, depth=depth, directions=False)
        require(same(got, np.tile(xyz0, (n, 1))), f"{where}: not the camera at depth 0")
    require(cam.uv_to_xyz(uv[:0]).shape == (0, 3), f"{where}: no image points")
    require(cam.xyz_to_uv(d[:0]).shape == (0, 2), f"{where}: no world points")
    for k in (0, n - 1):
        require(same(cam.uv_to_xyz(uv[k : k + 1], depth=7), 7 * d[k : k + 1]), f"{where}: single point {k}")
    for depth in depths:
        want = d * np.atleast_1d(depth).reshape(-1, 1)
        got = cam.uv_to_xyz(uv, depth=depth)
        require(same(got, want), f"{where}: directions at depth {depth}")
        got = cam.uv_to_xyz(uv, depth=depth, directions=False)
        require(same(got, want + xyz0, tol), f"{where}: coordinates at depth {depth}")
        if not correction:
            uv2, z = cam.xyz_to_uv(got, return_depth=True)
            require(same(uv2, uv, tol), f"{where}: round trip at depth {depth}")
            require(same(z, np.broadcast_to(depth, n), tol), f"{where}: returned depth {z}")
    require(
        same(cam.uv_to_xyz(uv, directions=False), d + xyz0, tol), f"{where}: coordinates"
    )
    # ---- From the world
    w = world(p)
    for scale in (1, 100, 3000) if correction else (1, 100):
        pts = w * scale + xyz0
        rel = pts - xyz0
        for directions in (False, True):
            given = rel.copy() if directions else pts.copy()
            ds = rel.copy()
            if correction and not directions:
                c = correction if isinstance(correction, dict) else {}
                ds[:, 2] += (c.get("refraction", 0.13) - 1) * (rel[:, 0] ** 2 + rel[:, 1] ** 2) / (
                    2 * c.get("radius", 6.3781e6)
                )
            ref = [reference(p, x) for x in ds.tolist()]
            want = np.array([r[0] for r in ref])
            wz = np.array([r[1] for r in ref])
            sharp = np.abs(wz) > 1e-6 * scale
            got, z = cam.xyz_to_uv(given, directions=directions, return_depth=True)
            only = cam.xyz_to_uv(given, directions=directions)
            require(np.array_equal(got, only, equal_nan=True), f"{where}: depends on return_depth")
            require(
                np.array_equal(given, rel if directions else pts), f"{where}: world points changed"
            )
            bad = sharp & ~np.isclose(got, want, rtol=1e-7, atol=tol, equal_nan=True).all(axis=1)
            require(
                not bad.any(),
                lambda: f"{where}: {given[bad][0]} (directions={directions}) projects to "
                f"{got[bad][0]}, expected {want[bad][0]}",
            )
            require(same(z, wz, tol * scale), f"{where}: depths {z}, expected {wz}")
            front = cam.infront(given, directions=directions)
            require(
                np.array_equal(front[sharp], ~np.isnan(got[sharp, 0])),
                lambda: f"{where}: points (directions={directions}) {given[sharp][front[sharp] == np.isnan(got[sharp, 0])]} "
                "are in front or missing, not both",
            )
            inside = cam.inframe(got)
            want_in = [
                not math.isnan(a) and 0 <= a <= p["imgsz"][0] and 0 <= b <= p["imgsz"][1]
                for a, b in got.tolist()
            ]
            require(inside.tolist() == want_in, f"{where}: inframe")
        # The zero vector and points in the camera plane are never in front
    ints = np.array([(3, 7, -2), (0, 0, 0), (-4, 9, 1), (5, -6, 2)])
    require(
        same(cam.xyz_to_uv(ints + xyz0.astype(int)), cam.xyz_to_uv((ints + xyz0.astype(int)).astype(float))),
        f"{where}: integers",
    )
    require(
        same(cam.xyz_to_uv(ints, directions=True), cam.xyz_to_uv(ints.astype(float), directions=True)),
        f"{where}: integer directions",
    )
    # ---- Resizing scales the image
    uv1 = cam.xyz_to_uv(w, directions=True)
    if tuple(p["imgsz"]) != IMGSZ:
        return stats([np.round(d, 9).tobytes()], n, repr(p) + repr(correction), True)
    for s in (0.5, 2, 3):
        small = cam.copy()
        small.resize(s)
        require(same(small.xyz_to_uv(w, directions=True), uv1 * s), f"{where}: resized by {s}")
        require(same(small.uv_to_xyz(uv * s), d), f"{where}: resized by {s}, directions")
    states = [np.round(d, 9).tobytes(), np.round(uv1, 9).tobytes()]
    return stats(states, 2 * n + 8 * len(w), repr(p) + repr(correction), True)


def plane(xyz, directions, kmask):
    """Points in the plane of the camera are not in front of it, and those next to it are."""
    cam = Camera(imgsz=(6, 4), f=(5, 7), xyz=xyz, k=[v * m for v, m in zip(K, kmask)])
    sides = (-3, 0, 0.5, 2)
    pts = np.array([(a, b, c) for a in sides for b in (-1, 0, 1) for c in sides], float)
    given = pts if directions else pts + xyz
    uv, z = cam.xyz_to_uv(given, directions=directions, return_depth=True)
    front = pts[:, 1] > 0
    require(np.array_equal(cam.infront(given, directions=directions), front), f"in front {pts[front]}")
    missing = np.isnan(uv)
    require(np.array_equal(missing.all(axis=1), ~front), lambda: f"missing {pts[missing.all(axis=1)]}")
    require(np.array_equal(missing.any(axis=1), ~front), lambda: f"half missing {uv}")
    require(np.array_equal(z, pts[:, 1]), f"depths {z}")
    return stats([(xyz, directions, kmask)], len(pts), (xyz, directions, kmask), True)


def strong(k, p, imgsz):
    """Distortions for which the iteration takes many steps."""
    cam = Camera(imgsz=imgsz, f=10, k=k, p=p)
    spec_ = dict(imgsz=imgsz, viewdir=(0, 0, 0), f=(10, 10), c=(0, 0), k=[*k, *[0] * (6 - len(k))], p=p)
    uv = np.array(list(itertools.product(np.linspace(0, imgsz[0], 5), np.linspace(0, imgsz[1], 5))))
    d = cam.uv_to_xyz(uv)
    back = np.array([reference(spec_, x)[0] for x in d.tolist()])
    require(
        np.allclose(back, uv, rtol=0, atol=1e-6),
        lambda: f"k {k}, p {p}: {uv[0]} is cast to {d[0]}, which projects to {back[0]}",
    )
    return stats([(k, p)], len(uv), (k, p), True)


def rotations(viewdir):
    """Rotation matrix, its derivative, and the view geometry."""
    cam = Camera(imgsz=(6, 4), f=(5, 7), c=(0.5, -0.25), viewdir=viewdir, xyz=(10, -20, 30))
    R = np.array(axes(viewdir))
    require(same(cam.R, R), f"{viewdir}: rotation {cam.R}")
    h = 1e-4
    for m in range(3):
        lo, hi = list(viewdir), list(viewdir)
        lo[m] -= h
        hi[m] += h
        want = (np.array(axes(hi)) - np.array(axes(lo))) / (2 * h)
        got = cam.Rprime[:, m, :].T
        require(
            np.allclose(got, want, atol=1e-9), lambda: f"{viewdir}: derivative {m} is {got}, expected {want}"
        )
    # View box and polygon
    for depth in (1, 2.5, 40):
        corners = [(a, b) for a in (0, 6) for b in (0, 4)]
        x, y, f = (np.array(a) for a in axes(viewdir))
        def out(u, v):
            return depth * (f + (u - 3.5) / 5 * x + (v - 1.75) / 7 * y) + np.array((10, -20, 30))
        pts = np.array([out(*c) for c in corners] + [(10, -20, 30)])
        box = cam.viewbox(depth)
        require(
            same(box, np.concatenate((pts.min(axis=0), pts.max(axis=0)))),
            lambda: f"{viewdir}: view box {box}",
        )
        poly = cam.viewpoly(depth)
        want = [(10, -20, 30), out(0, 1.75), out(6, 1.75), (10, -20, 30)]
        require(same(poly, want), lambda: f"{viewdir}: view polygon {poly}, expected {want}")
    return stats([tuple(viewdir)], 4, viewdir, True)


def spherical(xyz, azimuths, altitudes, distances):
    cam = Camera(imgsz=4, f=4, xyz=xyz)
    rows = list(itertools.product(azimuths, altitudes, distances))
    a = np.array(rows, float)
    keep = a.copy()
    got = cam.spherical_to_xyz(a)
    require(np.array_equal(a, keep), "angles changed")
    want = np.array(
        [
            (
                r * math.cos(math.radians(h)) * math.sin(math.radians(z)) + xyz[0],
                r * math.cos(math.radians(h)) * math.cos(math.radians(z)) + xyz[1],
                r * math.sin(math.radians(h)) + xyz[2],
            )
            for z, h, r in rows
        ]
    )
    require(same(got, want), "spherical to world")
    unit = cam.spherical_to_xyz(a[:, :2])
    require(same(unit * a[:, 2:] + np.array(xyz), want), "spherical to directions")
    for directions in (False, True):
        back = cam.xyz_to_spherical(unit if directions else want, directions=directions)
        cols = 2 if directions else 3
        require(back.shape == (len(a), cols), f"{back.shape}")
        if not directions:
            require(same(back[:, 2], a[:, 2]), "distances")
        require(np.allclose(back[:, 1], a[:, 1], atol=1e-5), "altitudes")
        turn = np.abs((back[:, 0] - a[:, 0] + 180) % 360 - 180)
        flat = np.abs(a[:, 1]) < 89.9
        require(np.all(turn[flat] < 1e-6), "azimuths")
        require(np.all((back[:, 0] >= 0) & (back[:, 0] <= 360)), "azimuths outside 0-360")
    return stats([tuple(xyz)], len(a), (xyz, len(a)), True)


def typed(dtype, first, xyz):
    """Integers of any type are the numbers they represent."""
    cam = Camera(imgsz=(9, 6), f=8, k=(0.01, 0.02), p=0.001, xyz=xyz, viewdir=(3, -4, 5), correction=True)
    values = (0, 1, 7, 15, 16, 100, 127)
    if not dtype.startswith("int8"):
        values += (200, 255)
    rows = np.array([(first, b, c) for b in values for c in values if first or b or c])
    ints, floats = rows.astype(dtype), rows.astype(float)
    keep = ints.copy()
    for name in ("xyz_to_spherical", "xyz_to_uv"):
        for directions in (False, True):
            got = getattr(cam, name)(ints, directions=directions)
            want = getattr(cam, name)(floats, directions=directions)
            require(
                np.allclose(got, want, rtol=1e-6, atol=1e-6, equal_nan=True),
                lambda: f"{name} with {dtype} directions={directions}",
            )
    for cols in (2, 3):
        got, want = cam.spherical_to_xyz(ints[:, :cols]), cam.spherical_to_xyz(floats[:, :cols])
        require(np.allclose(got, want, rtol=1e-6, atol=1e-6), f"spherical_to_xyz with {dtype}")
    for directions in (False, True):
        got = cam.uv_to_xyz(ints[:, :2], directions=directions)
        want = cam.uv_to_xyz(floats[:, :2], directions=directions)
        require(np.allclose(got, want, rtol=1e-6, atol=1e-6), f"uv_to_xyz with {dtype}")
        got = cam.uv_to_xyz(ints[:, :2], directions=directions, depth=ints[:, 2])
        want = cam.uv_to_xyz(floats[:, :2], directions=directions, depth=floats[:, 2])
        require(np.allclose(got, want, rtol=1e-6, atol=1e-6), f"uv_to_xyz with depths {dtype}")
    got, want = cam.inframe(ints[:, :2]), cam.inframe(floats[:, :2])
    require(np.array_equal(got, want), f"inframe with {dtype}")
    require(np.array_equal(ints, keep), f"{dtype} changed")
    return stats([(dtype, first)], len(rows) * 12, (dtype, first), True)


def frame(nx, ny, step):
    """Edge points and pixel grids."""
    cam = Camera(imgsz=(nx, ny), f=10)
    e = cam.edges(step)
    sx, sy = step if np.iterable(step) else (step, step)
    ku, kv = max(int(nx / sx), 1), max(int(ny / sy), 1)
    us = [nx * i / ku for i in range(ku + 1)]
    vs = [ny * i / kv for i in range(kv + 1)]
    want = (
        [(u, 0) for u in us]
        + [(nx, v) for v in vs[1:-1]]
        + [(u, ny) for u in us[::-1]]
        + [(0, v) for v in vs[-2:0:-1]]
    )
    require(same(e, want), lambda: f"{nx} x {ny} by {step}: edges {e.tolist()}, expected {want}")
    if not np.iterable(step) or True:
        g = cam.grid(step)
        gx = [0.5 + i * sx for i in range(-20, 20) if 0 <= 0.5 + i * sx <= nx]
        gy = [0.5 + i * sy for i in range(-20, 20) if 0 <= 0.5 + i * sy <= ny]
        want = [(x, y) for y in gy for x in gx]
        require(
            len(g) == len(want) and same(g, want) if want else len(g) == 0,
            lambda: f"{nx} x {ny} by {step}: grid {g.tolist()}, expected {want}",
        )
    return stats([(nx, ny, step)], len(e), (nx, ny, step), True)


def averages(cells, d):
    """Points are averaged in the pixels which contain them, the frame included."""
    cam = Camera(imgsz=(3, 2), f=1)
    uv = np.array(cells, float)
    values = np.array([(i + 1) ** 2 for i in range(len(cells))], float)
    if d:
        values = np.column_stack([values * (k + 1) for k in range(d)])
    want = np.full((2, 3) + ((d,) if d and d > 1 else ()), np.nan)
    sums = {}
    for (u, v), x in zip(cells, values):
        if 0 <= u <= 3 and 0 <= v <= 2:
            sums.setdefault((min(int(v), 1), min(int(u), 2)), []).append(x)
    for (i, j), xs in sums.items():
        mean = sum(xs) / len(xs)
        want[i, j] = mean if d != 1 else mean[0]
    got = cam.rasterize(uv, values)
    require(
        got.shape == want.shape and same(got, want),
        lambda: f"points {cells}, values {values.tolist()}: {got.tolist()}, expected {want.tolist()}",
    )
    return stats([tuple(map(tuple, cells))], len(cells), (cells, d), bool(sums))


def reversible(imgsz, f, c, k, p):
    """Cameras whose distortion folds the image are told from those it does not."""
    cam = Camera(imgsz=imgsz, f=f, c=c, k=k, p=p)
    got = cam.reversible()
    folds, doubtful = False, False
    for axis in (0, 1):
        low = (-imgsz[axis] / 2 - c[axis]) / f[axis]
        high = (imgsz[axis] / 2 - c[axis]) / f[axis]
        x = np.linspace(low, high, 4001)
        r2 = x ** 2
        radial = (1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3) / (
            1 + k[3] * r2 + k[4] * r2 ** 2 + k[5] * r2 ** 3
        )
        y = x * radial + 3 * r2 * p[1 - axis]
        falling = np.diff(y) < 0
        # Longer than two pixels
        share = falling.sum() / len(falling) * imgsz[axis]
        if share > 3:
            folds = True
        elif share > 0 or np.diff(y).min() < 1e-3 * (x[1] - x[0]):
            doubtful = True
    if folds or not doubtful:
        require(
            bool(got) == (not folds), lambda: f"reversible is {got}, but folds is {folds}"
        )
    return stats([(f, c, k, p)], 1, (bool(got), folds, doubtful), nontrivial=folds)


def explore(ck):
    dirs = list(itertools.product((0, 37, 180, 270.5), (0, -20, 45, -90), (0, 13, -90)))
    cases = []
    masks = list(itertools.product((0, 1), repeat=6))
    pmasks = list(itertools.product((0, 1), repeat=2))
    far = (5e5, 6.7e6, 1000.0)
    # Every subset of the distortion terms
    for km in masks:
        for pm in pmasks:
            for sign in (1, -1) if ck.thorough or sum(km) < 3 else (1,):
                for c in ((0, 0), (0.7, -0.4)):
                    cases.append(((20, -10, 5), (14, 11), c, km, pm, sign, (1, 2, 3), False, False))
    # Every direction, position, focal length, correction, matrix product
    some = [(0,) * 6, (1, 0, 0, 0, 0, 0), (1, 1, 0, 0, 1, 0)]
    for vd in dirs:
        for km in some:
            for pm in ((0, 0), (1, 1)):
                for corr in (False, True, {"radius": 1000.0, "refraction": 0.5}):
                    for xyz in ((0, 0, 0), far):
                        for matmul in (False, True):
                            if matmul and not ck.thorough and pm != (0, 0):
                                continue
                            f = (10, 13) if pm[0] else (12, 12)
                            cases.append((vd, f, (0.25, 0.5), km, pm, 1, xyz, corr, matmul))
    if ck.thorough:
        for vd in ((0, 0, 0), (123, 30, -40), (-70, -60, 170)):
            for km in masks:
                for pm in pmasks:
                    for sign in (1, -1):
                        for corr in (False, True):
                            cases.append((vd, (13, 12), (0.3, 0), km, pm, sign, (7, -8, 9), corr, False))
    ck.sweep(camera, cases)
    for imgsz in ((11, 7), (10, 5), (1, 1)):
        for km in some:
            for pm in ((0, 0), (1, 1)):
                for c in ((0, 0), (0.25, -0.5)):
                    cases.append(((20, -10, 5), (12, 13), c, km, pm, 1, (1, 2, 3), False, False, imgsz))
    cases = cases[-len(some) * 12 :]
    ck.sweep(camera, cases)
    ck.sweep(
        plane,
        [
            (xyz, directions, km)
            for xyz in ((0, 0, 0), (5, -7, 2), (1024, 2048, 64))
            for directions in (False, True)
            for km in some
        ],
    )
    ck.sweep(
        strong,
        [
            ((a, b), p, imgsz)
            for a in (-0.12, -0.08, 0.1, 0.2)
            for b in (0, 0.02)
            for p in ((0.01, -0.02), (0.02, 0.01))
            for imgsz in ((12, 8), (13, 9))
        ],
    )
    angles = (-180, -90, -45, 0, 30, 90, 135, 200)
    ck.sweep(rotations, [[v] for v in itertools.product(angles, angles, angles)])
    ck.sweep(
        spherical,
        [
            (xyz, list(range(0, 360, 15)), [-90, -60, -1, 0, 45, 89, 90], [1, 2.5, 1000])
            for xyz in ((0, 0, 0), (1, -2, 3), (-50, 60, 7))
        ],
    )
    ck.sweep(
        typed,
        [
            (dtype, first, xyz)
            for dtype in ("uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64")
            for first in (0, 1, 16, 100, *(() if dtype == "int8" else (250,)))
            for xyz in ((0, 0, 0), (3, -20, 13))
        ],
    )
    steps = (1, 2, 0.5, 3, 7, (1, 2), (4, 0.5))
    ck.sweep(frame, [(nx, ny, s) for nx in (1, 2, 3, 6) for ny in (1, 2, 4, 5) for s in steps])
    lattice = [(0, 0), (0.5, 0.5), (0.75, 0.25), (3, 0.5), (2.5, 2), (3, 2), (1, 1), (-0.1, 1), (1, 2.1)]
    cells = []
    for n in (1, 2, 3):
        cells += list(itertools.product(lattice, repeat=n))
    ck.sweep(averages, [(c, d) for c in cells for d in (0, 1, 2)])
    ks = [
        tuple(v if i == j else 0 for i in range(6))
        for j in range(6)
        for v in (-0.9, -0.5, -0.2, 0.3, 0.9)
    ]
    ks += [(0,) * 6, (-0.6, 0.4, 0, 0, 0, 0), (0.5, -0.7, 0.1, 0, 0, 0), (0.2, 0, 0, 0.9, 0.5, 0)]
    ps = list(itertools.product((-0.3, -0.1, 0, 0.02, 0.25), repeat=2))
    cases = [
        ((60, 40), f, c, k, p)
        for f in ((40, 40), (60, 35), (100, 100))
        for c in ((0, 0), (25, 0), (0, -15), (-20, 12))
        for k in ks
        for p in (ps if ck.thorough else ps[::3])
    ]
    ck.sweep(reversible, cases)
