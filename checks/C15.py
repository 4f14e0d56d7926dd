"""Viewsheds and horizons match line-of-sight geometry."""
import itertools
import math
import warnings

import numpy as np

from mc import rasterkit as rk
from mc.core import require, stats
from glimpse import Raster

LEVEL = "model_checking"
RULE = (
    "A case is a batch of terrains seen from one viewpoint in one grid. In 1-D, every "
    "cell is compared with the greatest elevation angle in front of it, in 2-D with "
    "the horizon of the nearer ring of cells. Non-trivial when some cell is hidden."
)
ASSUMPTIONS = [
    "In 2-D the horizon of a ring of cells is interpolated in heading to the next ring, "
    "as the implementation documents; exact sight lines are only claimed in 1-D.",
    "Cells whose elevation angle ties with the horizon are not judged.",
]
R, REFRACTION = 6.3781e6, 0.13


def terrains(levels, n):
    return itertools.product(levels, repeat=n)


def bend(dist, correction):
    if correction is False or correction is None:
        return 0.0
    r = correction.get("radius", R) if isinstance(correction, dict) else R
    f = correction.get("refraction", REFRACTION) if isinstance(correction, dict) else REFRACTION
    return (f - 1) * dist ** 2 / (2 * r)


def build(z, dtype, d, dirs, origin=(20.0, -7.0)):
    """z is listed by ascending x (columns) and y (rows)."""
    z = np.asarray(z, float)[:: dirs[1], :: dirs[0]]
    ny, nx = z.shape
    xlim, ylim = rk.limits(nx, ny, (d, d), origin, dirs)
    return Raster(z.astype(dtype), x=xlim, y=ylim)


def profiles(n, levels, at, offset, height, axis, dirs, dtype, d, correction, z0):
    """All terrains along one line."""
    states, hidden, total = set(), 0, 0
    pos = [(i + 0.5) * d for i in range(n)]
    view = pos[at] + offset * d
    for prof in terrains(levels, n):
        prof = [math.nan if p is None else p + z0 for p in prof]
        z = [prof] if axis == 0 else [[p] for p in prof]
        r = build(z, dtype, d, dirs)
        xy = (20.0 + view, -7.0 + d / 2) if axis == 0 else (20.0 + d / 2, -7.0 + view)
        if not np.issubdtype(np.dtype(dtype), np.floating):
            assert not any(map(math.isnan, prof))
        eye = (prof[at] if not math.isnan(prof[at]) else z0) + height
        if eye == int(eye):
            eye = int(eye)
        before = r.array.copy()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            vis = r.viewshed((*xy, eye), correction=correction)
        require(vis.shape == r.shape and vis.dtype == bool, f"{vis.shape} {vis.dtype}")
        require(np.array_equal(before, r.array, equal_nan=True), "terrain changed")
        vis = vis[:: dirs[1], :: dirs[0]].ravel()
        out = []
        for side in (range(at - 1, -1, -1), range(at + 1, n)):
            top = None
            for i in side:
                dist = abs(pos[i] - view)
                if math.isnan(prof[i]):
                    require(not vis[i], lambda: f"{prof} from {at} at {eye}: missing cell {i} visible")
                    continue
                slope = (prof[i] - eye + bend(dist, correction)) / dist
                if top is None or abs(slope - top) > 1e-12 * (abs(slope) + abs(top)) + 1e-15:
                    want = top is None or slope > top
                    require(
                        bool(vis[i]) == want,
                        lambda: f"{prof} ({dtype}, cells {d}, axis {axis} {dirs}, correction "
                        f"{correction}) from {view} (cell {at}) at {eye}: cell {i} is "
                        f"{'visible' if vis[i] else 'hidden'}",
                    )
                    hidden += not want
                top = slope if top is None else max(top, slope)
        require(
            bool(vis[at]) == (not math.isnan(prof[at])),
            lambda: f"{prof} from {view} (cell {at}) at {eye}: viewpoint's own cell is {vis[at]}",
        )
        total += 1
        states.add(tuple(vis))
    return stats(states, total, (n, at, offset, height, axis, dirs, hidden, len(states)), hidden > 0, total)


def interpolate(h, ring):
    """Circular linear interpolation of [(heading, value)] at h."""
    ring = sorted(ring)
    for a, v in ring:
        if a == h:
            return v
    ext = [(ring[-1][0] - 2 * math.pi, ring[-1][1])] + ring + [(ring[0][0] + 2 * math.pi, ring[0][1])]
    for (a, v), (b, w) in zip(ext, ext[1:]):
        if a < h < b:
            return v + (w - v) * (h - a) / (b - a)
    raise AssertionError


def rings(z, pos, view, eye, d, correction):
    """Reference: {cell: True, False, or None (tie)}."""
    by = {}
    for (i, j), (x, y) in pos.items():
        dx, dy = x - view[0], y - view[1]
        dist = math.hypot(dx, dy)
        k = int(dist / d + 0.5)
        by.setdefault(k, []).append((i, j, math.atan2(dy, dx), dist))
    vis = {}
    for i, j, _, _ in by.pop(0, []):
        vis[i, j] = not math.isnan(z[i][j])
    prev = None
    for k in sorted(by):
        now = []
        for i, j, h, dist in by[k]:
            s = (z[i][j] - eye + bend(dist, correction)) / dist
            if prev is None:
                vis[i, j] = not math.isnan(s)
                now.append((h, s))
                continue
            top = interpolate(h, prev)
            if math.isnan(s):
                vis[i, j] = False
                now.append((h, top))
            elif math.isnan(top):
                vis[i, j] = True
                now.append((h, s))
            else:
                vis[i, j] = None if abs(s - top) < 1e-9 else s > top
                now.append((h, max(s, top)))
        prev = now
    return vis


def scenes(shape, levels, part, parts, view, height, dirs, dtype, correction, datum):
    """All terrains of a small grid (one part of them)."""
    ny, nx = shape
    states, hidden, total = set(), 0, 0
    pos = {(i, j): (20.5 + j, -6.5 + i) for i in range(ny) for j in range(nx)}
    at = (20.0 + view[0], -7.0 + view[1])
    for flat in itertools.islice(terrains(levels, nx * ny), part, None, parts):
        z = [[(math.nan if v is None else v) for v in flat[i * nx : (i + 1) * nx]] for i in range(ny)]
        r = build(np.array(z) + datum, dtype, 1.0, dirs)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            vis = r.viewshed((*at, height + datum), correction=correction)[:: dirs[1], :: dirs[0]]
        ref = rings(z, pos, at, height, 1.0, correction)
        for (i, j), want in ref.items():
            if want is None:
                continue
            hidden += not want
            require(
                bool(vis[i, j]) == want,
                lambda: f"{z} by ascending y, datum {datum}, {dtype} {dirs} from {view} at "
                f"{height}, correction {correction}: cell row {i}, column {j} is "
                f"{'visible' if vis[i, j] else 'hidden'}",
            )
        total += 1
        states.add(vis.tobytes())
    return stats(states, total, (shape, part, view, height, dirs, dtype, hidden), hidden > 0, total)


def walls(n, dirs, dtype, base, height):
    """Over flat ground everything is seen; a ring wall hides what is behind it."""
    c = n // 2
    z = np.zeros((n, n)) + base
    r = build(z, dtype, 2.0, dirs, (0.0, 0.0))
    at = (2.0 * c + 1, 2.0 * c + 1)
    vis = r.viewshed((*at, base + height))
    require(vis.all(), lambda: f"flat ground: {vis}")
    ii, jj = np.meshgrid(range(n), range(n), indexing="ij")
    ring = np.floor(np.hypot(ii - c, jj - c) + 0.5)
    wall = 2
    z[ring == wall] += 5 * height
    r = build(z, dtype, 2.0, dirs, (0.0, 0.0))
    vis = r.viewshed((*at, base + height))
    require(vis[ring <= wall].all(), lambda: f"wall hidden: {vis}")
    require(not vis[ring > wall].any(), lambda: f"seen through a wall: {vis}")
    # A breach shows the ground behind it
    z[c, c + wall] = base
    r = build(z, dtype, 2.0, dirs, (0.0, 0.0))
    vis = r.viewshed((*at, base + height))[:: dirs[1], :: dirs[0]]
    cells = [(c, c + k) for k in range(1, c + 1)]
    require(all(vis[i, j] for i, j in cells), lambda: f"breach: {vis}")
    return stats([vis.tobytes()], 3, (n, dirs, dtype), True)


# ---- Horizons ----


def sightings(shape, flat, part, parts, at, height, dirs, dtype, correction):
    """Horizons along the axes and diagonals, from inside."""
    ny, nx = shape
    states, total, found = set(), 0, 0
    d = 2.0
    view = (20.0 + (at[1] + 0.5) * d, -7.0 + (at[0] + 0.5) * d)
    steps = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}
    if nx == ny and at[0] == at[1]:
        steps.update({45: (1, 1), 225: (-1, -1)})
    if nx == ny and at[0] == nx - 1 - at[1]:
        steps.update({135: (-1, 1), 315: (1, -1)})
    headings = sorted(steps)
    for values in itertools.islice(terrains(flat, nx * ny), part, None, parts):
        z = np.array([math.nan if v is None else v for v in values], float).reshape(ny, nx)
        r = build(z, dtype, d, dirs)
        expected, loose = [], False
        for h in headings:
            cells, k = [], 1
            while True:
                i, j = at[0] + k * steps[h][0], at[1] + k * steps[h][1]
                if not (0 <= i < ny and 0 <= j < nx):
                    break
                dist = math.hypot(i - at[0], j - at[1]) * d
                if not math.isnan(z[i, j]):
                    cells.append(((z[i, j] - height + bend(dist, correction)) / dist, -k, (i, j)))
                k += 1
            if not cells:
                expected.append(None)
                continue
            top = max(s for s, _, _ in cells)
            best = [c for c in cells if c[0] > top - 1e-9]
            loose |= len(best) > 1
            # The nearest of equals
            _, k, (i, j) = max(best, key=lambda c: c[1])
            if k == cells[-1][1]:
                expected.append(None)
            else:
                expected.append((20.0 + (j + 0.5) * d, -7.0 + (i + 0.5) * d, z[i, j]))
        got = r.horizon((*view, height), headings=headings, correction=correction)
        if loose:
            total += 1
            continue
        # Split into unbroken segments, the first one continuing the last one
        want, run = [], []
        for e in expected + [None]:
            if e is None:
                if run:
                    want.append(run)
                run = []
            else:
                run.append(e)
        if len(want) > 1 and expected[0] is not None and expected[-1] is not None:
            want[0] = want.pop() + want[0]
        found += bool(want)
        require(
            len(got) == len(want)
            and all(g.shape == (len(w), 3) and np.allclose(g, w) for g, w in zip(got, want)),
            lambda: f"{z.tolist()} by ascending y, {dtype} {dirs}, from {at} at {height}, "
            f"correction {correction}: horizon at {headings} is {got}, expected {want}",
        )
        total += 1
        states.add(repr(want))
    return stats(states, total, (shape, part, at, height, dirs, found), found > 0, total)


def around(n, at, height, dirs, ridge, inside):
    """All headings: every point lies along its heading and none is higher there."""
    d = 1.0
    ii, jj = np.meshgrid(range(n), range(n), indexing="ij")
    z = ((ii * 7 + jj * 3) % 5).astype(float)
    if ridge == "hole":
        z[n // 3 : n // 3 + 2, n // 2 :] = np.nan
    if ridge == "wall":
        z[:, n // 2] += 20
    r = build(z, "f8", d, dirs, (0.0, 0.0))
    view = np.array((at[1] + 0.5, at[0] + 0.5))
    headings = sorted([5 * k + 1 for k in range(72)] + [0, 90, 180, 270])
    n_found = 0
    for h in headings:
        got = r.horizon((*view, height), headings=[h])
        pts = np.concatenate(got) if got else np.empty((0, 3))
        require(len(pts) <= 1, f"{len(pts)} points for one heading")
        t = math.radians(90 - h)
        u = np.array((math.cos(t), math.sin(t)))
        # Cells whose centres the sight line passes closely
        rel = np.stack((jj + 0.5 - view[0], ii + 0.5 - view[1]), axis=-1)
        along, across = rel @ u, np.abs(rel @ np.array((-u[1], u[0])))
        if len(pts):
            n_found += 1
            p = pts[0, :2] - view
            i, j = int(pts[0, 1]), int(pts[0, 0])
            require(
                np.allclose(pts[0, :2], (j + 0.5, i + 0.5)) and np.isclose(pts[0, 2], z[i, j]),
                f"heading {h}: {pts[0]} is not a cell",
            )
            require(
                p @ u > 0 and abs(p @ np.array((-u[1], u[0]))) <= 1.01,
                f"heading {h} from {view}: {pts[0]} is off the sight line",
            )
            top = (z[i, j] - height) / np.hypot(*p)
            near = (along > 0) & (across < 0.05) & ~np.isnan(z)
            if h % 90:
                # The traced cells may be next to the sight line farther away
                near &= (along < 2.5) & inside
            slopes = (z[near] - height) / np.hypot(*rel[near].T)
            require(
                np.all(slopes <= top + 1e-9),
                f"heading {h} from {view}: {pts[0]} is below the horizon",
            )
    everything = r.horizon((*view, height), headings=headings)
    require(
        sum(map(len, everything)) == n_found, "headings together differ from headings alone"
    )
    return stats([(at, height, dirs, ridge)], 72, (at, height, dirs, ridge, n_found), n_found > 0)


def defaults(n, at, height):
    """By default, the horizon is that of every whole degree, without corrections."""
    z = np.array([[(i * i + 3 * j) % 7 for j in range(n)] for i in range(n)], float)
    r = build(z, "f8", 10.0, (1, -1))
    view = (20.0 + 10 * at[0], -7.0 + 10 * at[1], height)
    where = f"{n}x{n} from {at} at {height}"
    want = r.horizon(view, headings=list(range(360)), correction=False)
    got = r.horizon(view)
    require(
        len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)),
        f"{where}: default horizon {got} instead of {want}",
    )
    for given, same in ((None, False), (True, {}), ({}, {"radius": R, "refraction": REFRACTION})):
        a, b = (r.viewshed(view, correction=c) for c in (given, same))
        require(np.array_equal(a, b), f"{where}: viewshed with correction {given} is not that with {same}")
        a, b = (r.horizon(view, headings=[0, 50, 190], correction=c) for c in (given, same))
        require(
            len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)),
            f"{where}: horizon with correction {given} is not that with {same}",
        )
    require(
        np.array_equal(r.viewshed(view), r.viewshed(view, correction=False)),
        f"{where}: default viewshed",
    )
    return stats([where], 9, where, len(want) > 0)


def explore(ck):
    ck.sweep(
        defaults,
        [(n, at, h) for n in (5, 8) for at in ((2.5, 2.5), (0.5, 3.5), (1.25, 4.75)) for h in (0.5, 3, 9)],
        chunk=2,
    )
    corrections = (False, True, {"radius": 50.0, "refraction": 0.2})
    cases = []
    for n in (1, 2, 3, 4, 5):
        for at in range(n):
            for offset in (0, 0.25, -0.125):
                for height in (-1, 0.5, 2):
                    for axis in (0, 1):
                        for dirs in rk.DIRS if n < 5 or ck.thorough else ((1, -1),):
                            cases.append((n, (0, 1, 3), at, offset, height, axis, dirs, "f8", 1.0, False, 0))
    for n, levels in ((5, (0, 1, 3)), (4, (0, 2, None)), (1, (0, 2, None)), (2, (0, 2, None))):
        for at in range(n):
            for dtype in ("f8", "f4", "i4", "u1", "i2"):
                if None in levels and dtype[0] != "f":
                    continue
                for c in corrections:
                    for d, z0 in ((1.0, 0), (2.0, 64), (0.5, 8)):
                        for height in (2, 0.75, -1) if d == 1 or ck.thorough else (2,):
                            if z0 + height < 0 and dtype == "u1":
                                continue
                            cases.append((n, levels, at, 0, height, 0, (1, -1), dtype, d, c, z0))
    # Curvature hides what is far away, or what is on a small planet
    for at in range(5):
        for dtype in ("f8", "i4"):
            for height in (2, 0.5, 6):
                for c, d in ((True, 5000.0), ({}, 2000.0), ({"radius": 5.0}, 1.0), ({"radius": 5.0, "refraction": 0.5}, 1.0)):
                    cases.append((5, (0, 1, 3), at, 0, height, 0, (1, -1), dtype, d, c, 8))
                    cases.append((5, (0, 2, 9), at, 0, height, 1, (-1, 1), dtype, d, c, 8))
    if ck.thorough:
        for n in (6, 7, 8):
            for at in range(n):
                for height in (-1, 0.5, 2):
                    cases.append((n, (0, 1, 3), at, 0, height, 0, (1, -1), "f8", 1.0, False, 0))
                    cases.append((n, (0, 2, None), at, 0.25, height, 1, (1, -1), "f8", 1.0, True, 0))
    ck.sweep(profiles, cases, timeout=300)
    cases = []
    views = [(0.5, 0.5), (1.5, 1.5), (1.5, 0.5), (2.5, 1.5), (1.75, 1.375), (-0.75, 1.375), (0.25, 4.125)]
    for view in views:
        for height in (0.5, 2.25) if not ck.thorough else (0.5, 2.25, -1):
            for dirs in ((1, -1), (-1, 1)) if not ck.thorough else rk.DIRS:
                cases.append(((3, 3), (0, 3), 0, 1, view, height, dirs, "f8", False, 0))
                cases.append(((2, 4), (0, 1, 3), 0, 4, view, height, dirs, "f8", True, 64))
                cases.append(((2, 4), (0, 1, 3), 1, 8, view, height, dirs, "f8", {"radius": 4.0}, 64))
                for dtype in ("i4", "u1"):
                    cases.append(((3, 3), (0, 3), 0, 4, view, height, dirs, dtype, False, 16))
                cases.append(((3, 2), (0, 2, None), 0, 1, view, height, dirs, "f4", False, 0))
    for view in ((0.5, 0.5), (1.5, 2.5), (2.125, 1.75)):
        for part in range(16):
            q = 1 if ck.thorough else 16
            cases.append(((4, 4), (0, 2), part, 16 * q, view, 1.5, (1, -1), "f8", False, 0))
    if ck.thorough:
        for view in ((2.5, 2.5), (1.5, 1.5), (1.375, 1.25)):
            for part in range(8):
                cases.append(((3, 3), (0, 1, 3), part, 8, view, 0.5, (1, -1), "f8", True, 0))
                cases.append(((3, 3), (0, 2, None), part, 8, view, 0.5, (1, -1), "f8", False, 0))
    # From far away, down to a single ring of cells
    for view in ((-30.25, 0.75), (40.5, -30.5), (1.5, 20.5), (0.5, -9.25)):
        for height in (0.5, -0.25, 4):
            for dirs in rk.DIRS:
                for c in (False, True):
                    for shape in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2)):
                        cases.append((shape, (0, 3, None), 0, 1, view, height, dirs, "f8", c, 0))
                    cases.append(((2, 3), (0, 3), 0, 1, view, height, dirs, "i4", c, 16))
    ck.sweep(scenes, cases, timeout=300)
    ck.sweep(
        walls,
        [
            (n, dirs, dtype, base, h)
            for n in (5, 7, 9)
            for dirs in rk.DIRS
            for dtype in ("f8", "i4", "u1")
            for base in (0, 100)
            for h in (1, 2)
        ],
    )
    cases = []
    for at in itertools.product(range(3), repeat=2):
        for height in (0.5, 2, -1):
            for dirs in rk.DIRS:
                cases.append(((3, 3), (0, 2), 0, 1, at, height, dirs, "f8", False))
            for c in (*corrections, {"radius": 8.0}):
                cases.append(((3, 3), (0, 1, None), 0, 8 if not ck.thorough else 1, at, height, (1, -1), "f8", c))
            cases.append(((3, 3), (0, 2), 0, 4, at, height, (1, -1), "u1", False))
            cases.append(((3, 3), (0, 2), 0, 4, at, height, (1, -1), "i4", True))
    for at in ((0, 0), (1, 1), (2, 1), (0, 4)):
        for part in range(4):
            cases.append(((3, 5), (0, 2), part, 32, at, 0.5, (1, -1), "f8", False))
    ck.sweep(sightings, cases, timeout=300)
    ck.sweep(
        around,
        [
            (9, at, height, dirs, ridge, inside)
            for at, inside in (
                ((4, 4), True), ((0, 0), True), ((2, 7), True),
                ((-3, 4), False), ((4, 13), False), ((12, 12), False), ((-2, -3), False),
            )
            for height in (1.5, 10, 30)
            for dirs in rk.DIRS
            for ridge in ("", "hole", "wall")
        ],
    )
