"""Geometry helpers agree with exact geometry."""
import itertools
import warnings
from fractions import Fraction as F

import numpy as np

from mc.core import require, stats
from glimpse import helpers as h

LEVEL = "model_checking"
RULE = (
    "A case is one family of lattice configurations (all rays from an origin, all "
    "polylines with given first vertices, all lines from a cell, all polygons with given "
    "vertices, all masks of a length, ...), each compared with exact rational geometry. "
    "Non-trivial when something intersects, is inside or is split."
)
ASSUMPTIONS = [
    "Whether a ray which touches the box in a single point hits it, and whether a ray "
    "starting on the boundary enters it there, are not judged.",
    "Cells whose centre lies exactly on a polygon edge are not judged.",
]


def near(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol


# ---- rays and boxes ----


def slab(origin, direction, box):
    """Exact interval of t for which origin + t * direction is in the closed box."""
    n = len(origin)
    lo, hi = None, None
    for i in range(n):
        a, b = box[i] - origin[i], box[n + i] - origin[i]
        if direction[i] == 0:
            if a > 0 or b < 0:
                return None
            continue
        t0, t1 = sorted((F(a) / F(direction[i]), F(b) / F(direction[i])))
        lo = t0 if lo is None else max(lo, t0)
        hi = t1 if hi is None else min(hi, t1)
    return None if lo > hi else (lo, hi)


def rays(origin, box, values, float_):
    """Every ray from an origin, together and alone."""
    n = len(origin)
    dirs = [d for d in itertools.product(values, repeat=n) if any(d)]
    array = np.array(dirs, dtype=float if float_ else int)
    copies = array.copy(), tuple(box), tuple(origin)
    with np.errstate(all="ignore"):
        t0, t1 = h.intersect_rays_box(origin, array, box, t=True)
        p0, p1 = h.intersect_rays_box(origin, array, box)
    require((array == copies[0]).all(), "the directions were changed")
    require(t0.shape == t1.shape == (len(dirs), 1), f"shape {t0.shape}")
    require(p0.shape == p1.shape == (len(dirs), n), f"shape {p0.shape}")
    hits = 0
    for i, d in enumerate(dirs):
        where = f"origin {origin} direction {d} box {box}"
        got = t0[i, 0], t1[i, 0]
        exact = slab(origin, d, box)
        with np.errstate(all="ignore"):
            alone = h.intersect_rays_box(origin, array[i : i + 1], box, t=True)
        require(
            np.array_equal([alone[0][0, 0], alone[1][0, 0]], got, equal_nan=True),
            f"{where}: depends on the other rays",
        )
        if exact is None or exact[1] < 0:
            require(np.isnan(got).all(), f"{where}: {got}, but misses")
            continue
        lo, hi = exact
        hits += 1
        touches = lo == hi or hi == 0
        if touches and np.isnan(got[0]) and (np.isnan(got[1]) or got[1] == 0):
            continue
        require(near(got[1], hi), f"{where}: exit {got[1]}, not {hi}")
        if lo < 0 or (lo == 0 and np.isnan(got[0])):
            require(np.isnan(got[0]), f"{where}: entrance {got[0]} from inside")
        else:
            require(near(got[0], lo), f"{where}: entrance {got[0]}, not {lo}")
        for p, t in zip((p0[i], p1[i]), got):
            if np.isnan(t):
                require(np.isnan(p).all(), f"{where}: point {p} for no intersection")
            else:
                for k in range(n):
                    require(near(p[k], origin[k] + t * d[k]), f"{where}: point {p}")
    return stats([(origin, box)], len(dirs), (t0.tobytes(), t1.tobytes()), hits > 0)


def inside(p, box):
    n = len(p)
    return all(box[i] <= p[i] <= box[n + i] for i in range(n))


def clip(line, box, m):
    """Exact pieces of a line around its vertices inside the box."""
    out, piece = [], None
    for i, p in enumerate(line):
        if not inside(p, box):
            piece = None
            continue
        if piece is None:
            piece = []
            out.append(piece)
            if i:
                q = line[i - 1]
                t, _ = slab(q, [b - a for a, b in zip(q, p)], box)
                if t < 1:
                    piece.append([a + t * (b - a) for a, b in zip(q, p)] + m * [i - 1 + t])
        piece.append(list(p) + m * [i])
        if i + 1 < len(line) and not inside(line[i + 1], box):
            q = line[i + 1]
            _, t = slab(p, [b - a for a, b in zip(p, q)], box)
            if t > 0:
                piece.append([a + t * (b - a) for a, b in zip(p, q)] + m * [i + t])
    return out


def polylines(first, points, box, n, float_):
    """Every polyline of n vertices with the given first vertices."""
    outcomes, found = [], 0
    for rest in itertools.product(points, repeat=n - len(first)):
        line = list(map(tuple, first)) + list(map(tuple, rest))
        for m in (0, 1):
            array = np.array(
                [list(p) + m * [i] for i, p in enumerate(line)],
                dtype=float if float_ else int,
            )
            before = array.copy()
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                got = h.clip_polyline_box(array, box, t=bool(m))
            want = clip(line, box, m)
            where = f"line {line} in box {box}"
            require((array == before).all(), f"{where}: the line was changed")
            require(len(got) == len(want), f"{where}: {got}, expected {len(want)} pieces")
            for g, w in zip(got, want):
                require(
                    g.shape == np.shape(w) and np.allclose(g, np.array(w, dtype=float), atol=1e-9),
                    lambda: f"{where}: {g.tolist()}, not {[[str(x) for x in p] for p in w]}",
                )
            found += len(got)
            outcomes.append([len(w) for w in want])
        if n == 2 and line[0] != line[1]:
            p, q = line
            d = [b - a for a, b in zip(p, q)]
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                t = h.intersect_edge_box(p, d, box)
            exact = slab(p, d, box)
            ok = {None}
            if exact and exact[0] < exact[1]:
                ok = {next((x for x in exact if 0 < x < 1), None)}
            elif exact:
                ok.add(exact[0])
            require(
                any((t is None) if x is None else (t is not None and near(t, x)) for x in ok),
                f"edge {p} {q} meets box {box} at {t}, not {ok}",
            )
    return stats([tuple(map(tuple, first))], len(outcomes), outcomes, found > 0)


def boxes(boxes_):
    """Intersection and membership of boxes."""
    n = len(boxes_[0]) // 2
    lo = [max(b[i] for b in boxes_) for i in range(n)]
    hi = [min(b[n + i] for b in boxes_) for i in range(n)]
    try:
        got = h.intersect_boxes(boxes_).tolist()
    except ValueError:
        got = None
    want = lo + hi if all(a < b for a, b in zip(lo, hi)) else None
    require(got == want, f"{boxes_}: {got}, not {want}")
    points = list(itertools.product(range(-1, 4), repeat=n))
    for box in boxes_:
        mask = h.in_box(np.array(points), box)
        require(mask.tolist() == [inside(p, box) for p in points], f"points in box {box}")
        require(h.unravel_box(box).tolist() == [list(box[:n]), list(box[n:])], "unravelled")
        odd = [b[:-1] for b in boxes_]
        for fn, given in ((h.unravel_box, box[:-1]), (h.intersect_boxes, odd)):
            try:
                got = fn(given)
            except ValueError:
                continue
            require(False, f"{fn.__name__}({given}) gave {got}")
        corners = [p for p in points if inside(p, box)]
        if corners and n == 2:
            poly = h.box_to_polygon(box).tolist()
            x0, y0, x1, y1 = box
            require(
                poly[0] == poly[-1] and len(poly) == 5
                and sorted(map(tuple, poly[:4])) == sorted({(x0, y0), (x0, y1), (x1, y0), (x1, y1)})
                and all((a[0] == b[0]) != (a[1] == b[1]) for a, b in zip(poly, poly[1:])),
                f"box {box} as polygon: {poly}",
            )
            require(
                h.bounding_box(poly).tolist() == list(box), f"box {box} of its own polygon"
            )
    return stats([str(boxes_)], 1, got, got is not None)


def grids(lo, hi, step, snap):
    """Grids of points in boxes (dyadic numbers, so exactly)."""
    n = len(lo)
    steps = step if isinstance(step, (list, tuple)) else [step] * n
    origin = lo if snap is None else snap
    axes = []
    for a, b, s, o in zip(lo, hi, steps, origin):
        a, b, s, o = F(a), F(b), F(s), F(o)
        k = -((o - a) // s)
        x = o + k * s
        out = []
        while x <= b:
            out.append(float(x))
            x += s
        axes.append(out)
    box = list(lo) + list(hi)
    where = f"box {box} step {step} snap {snap}"
    vectors = h.box_to_grid(box, step, snap=snap, mode="vectors")
    require([list(v) for v in vectors] == axes, f"{where}: {vectors}, not {axes}")
    X = h.box_to_grid(box, step, snap=snap)
    if n == 2:
        want = [[x, y] for y in axes[1] for x in axes[0]]
        require(all(g.shape == (len(axes[1]), len(axes[0])) for g in X), f"{where}: shapes")
        points = h.box_to_grid(box, step, snap=snap, mode="points").tolist()
        require(points == want, f"{where}: points {points}")
        require(
            [list(p) for p in zip(X[0].ravel(), X[1].ravel())] == want, f"{where}: grids"
        )
    else:
        points = {tuple(p) for p in h.box_to_grid(box, step, snap=snap, mode="points")}
        require(points == set(itertools.product(*axes)), f"{where}: points")
    return stats([where], 1, axes, all(axes))


# ---- cells ----


def lines(start, reach):
    """Every line of cells from a cell."""
    x1, y1 = start
    for x2, y2 in itertools.product(range(x1 - reach, x1 + reach + 1), range(y1 - reach, y1 + reach + 1)):
        got = h.bresenham_line((x1, y1), (x2, y2)).tolist()
        where = f"line {start} to {(x2, y2)}: {got}"
        dx, dy = x2 - x1, y2 - y1
        n = max(abs(dx), abs(dy))
        require(len(got) == n + 1, f"{where}: {len(got)} cells")
        for k, (x, y) in enumerate(got):
            ex = F(x1) + (F(dx * k, n) if n else 0)
            ey = F(y1) + (F(dy * k, n) if n else 0)
            require(abs(x - ex) <= F(1, 2) and abs(y - ey) <= F(1, 2), f"{where}: cell {k}")
            require((x if abs(dx) == n else y) == (ex if abs(dx) == n else ey), where)
    return stats([start], (2 * reach + 1) ** 2, reach)


def circles(center, radius):
    """Circles are closed, symmetric, connected paths of cells at the radius."""
    got = h.bresenham_circle(center, radius)
    where = f"circle {center} radius {radius}"
    require(np.isfinite(got).all() and (got == np.round(got)).all(), f"{where}: not cells")
    path = [(int(x - center[0]), int(y - center[1])) for x, y in got]
    require(path[0] == path[-1], f"{where}: not closed")
    cells = set(path)
    if radius:
        require(len(cells) == len(path) - 1, f"{where}: repeats cells")
    for x, y in cells:
        for a, b in ((x, -y), (-x, y), (y, x)):
            require((a, b) in cells, f"{where}: ({a}, {b}) missing")
        require(abs((x * x + y * y) ** 0.5 - radius) < 1, f"{where}: ({x}, {y}) off the circle")
    for a, b in zip(path, path[1:]):
        require(max(abs(a[0] - b[0]), abs(a[1] - b[1])) <= 1, f"{where}: gap {a} {b}")
    require({(radius, 0), (0, radius), (-radius, 0), (0, -radius)} <= cells, f"{where}: poles")
    return stats([(center, radius)], 1, sorted(cells), radius > 0)


def winding(polygon, x, y):
    """Even-odd rule, or None on an edge."""
    odd = False
    for (x1, y1), (x2, y2) in zip(polygon, polygon[1:] + polygon[:1]):
        cross = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        if cross == 0 and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
            return None
        if (y1 > y) != (y2 > y):
            if (cross > 0) == (y2 > y1):
                odd = not odd
    return odd


def mask_of(polygons, holes, size):
    nx, ny = size
    out = np.empty((ny, nx), dtype=object)
    for j, i in itertools.product(range(ny), range(nx)):
        x, y = i + F(1, 2), j + F(1, 2)
        ins = [winding(p, x, y) for p in polygons]
        hole = [winding(p, x, y) for p in holes]
        value = True if True in ins else (None if None in ins else False)
        if True in hole:
            value = False
        elif None in hole and value is not False:
            value = None
        out[j, i] = value
    return out


def polygons(first, points, n, size):
    """Every polygon of n vertices with the given first vertices."""
    outcomes = []
    for rest in itertools.product(points, repeat=n - len(first)):
        polygon = [tuple(p) for p in first] + list(rest)
        if len(set(polygon)) < n:
            continue
        area = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(polygon, polygon[1:] + polygon[:1]))
        if n == 3 and area == 0:
            continue
        outcomes.append(judge([polygon], None, size))
    return stats([str(first)], len(outcomes), outcomes, bool(outcomes))


def judge(polys, holes, size):
    got = h.polygons_to_mask(polys, size, holes)
    where = f"polygons {polys} holes {holes} in {size}"
    require(got.shape == (size[1], size[0]) and got.dtype == bool, f"{where}: {got.shape} {got.dtype}")
    want = mask_of(polys, holes or [], size)
    for (j, i), w in np.ndenumerate(want):
        require(w is None or got[j, i] == w, lambda: f"{where}: row {j} column {i} is {got[j, i]}")
    return got.tobytes()


SHAPES = [
    [(0, 0), (3, 0), (3, 3), (0, 3)],
    [(1, 1), (5, 1), (5, 4), (1, 4)],
    [(2, 0), (6, 2), (4, 5)],
    [(-2, -2), (2, -1), (1, 4)],
    [(4, 3), (8, 3), (8, 8), (4, 8)],
]


def collections(polys, holes):
    polys = [SHAPES[i] for i in polys]
    holes = None if holes is None else [SHAPES[i] for i in holes]
    out = [judge(polys, holes, s) for s in ((6, 5), (3, 6), (np.int64(4), np.int64(4)))]
    arrays = h.polygons_to_mask(
        [np.array(p, dtype=float) for p in polys],
        (6, 5),
        None if holes is None else [np.array(p, dtype=float) for p in holes],
    )
    require(arrays.tobytes() == out[0], "polygons as arrays differ from lists")
    return stats([str((polys, holes))], 1, out)


# ---- splitting, aggregating, interpolating, searching ----


def splits(mask, circular):
    mask = list(mask)
    n = len(mask)
    groups = []
    for value, items in itertools.groupby(range(n), key=lambda i: mask[i]):
        groups.append((value, list(items)))
    if circular and len(groups) > 1 and groups[0][0] == groups[-1][0]:
        groups[0] = (groups[0][0], groups[-1][1] + groups[0][1])
        groups.pop()
    for shape, axis in (((n,), 0), ((n, 2), 0), ((2, n), 1)):
        a = np.arange(np.prod(shape)).reshape(shape)
        for include in ("all", "true", "false"):
            got = h.boolean_split(a, np.array(mask, dtype=bool), axis=axis, circular=circular, include=include)
            want = [
                np.take(a, g, axis=axis)
                for value, g in groups
                if include == "all" or value == (include == "true")
            ]
            require(
                len(got) == len(want)
                and all(np.array_equal(x, y) for x, y in zip(got, want)),
                lambda: f"mask {mask} {include} circular {circular}: {got}, not {want}",
            )
    return stats([str(mask)], 9, [len(g) for _, g in groups], len(groups) > 1)


def aggregates(cells, shape):
    """Points in cells (all assignments of points to cells)."""
    n = len(cells)
    ny, nx = shape
    rows = [c // nx for c in cells]
    cols = [c % nx for c in cells]
    v = [2.0 ** k for k in range(n)]
    w = [[x, -3 * x] for x in v]
    mean = {c: F(0) for c in cells}
    for c, x in zip(cells, v):
        mean[c] += F(x) / cells.count(c)
    order = sorted(mean)
    for make in (tuple, list, np.array):
        idx, means = h.rasterize_points(make(rows), make(cols), make(v), shape=shape)
        require(list(idx) == order, f"cells {cells}: indices {idx}")
        require(
            all(near(m, mean[c]) for m, c in zip(means, order)), f"cells {cells}: means {means}"
        )
        idx, means = h.rasterize_points(make(rows), make(cols), make(w), shape=shape)
        require(list(idx) == order and means.shape == (len(order), 2), f"cells {cells}: {means}")
        for k, f in enumerate((1, -3)):
            require(all(near(m, f * mean[c]) for m, c in zip(means[:, k], order)), f"{cells}: {means}")
        want = np.full(ny * nx, np.nan)
        for c in order:
            want[c] = float(mean[c])
        want = want.reshape(ny, nx)
        for form in ("2d", "3d1", "col", "3d2"):
            tail = {"2d": (), "3d1": (1,), "col": (1,), "3d2": (2,)}[form]
            a = np.full((ny, nx) + tail, np.nan)
            values = make(w) if form == "3d2" else np.array(v)[:, None] if form == "col" else make(v)
            out = h.rasterize_points(make(rows), make(cols), values, a=a)
            require(out is None, "in-place rasterization returned something")
            expect = {"2d": want, "3d1": want[..., None], "col": want[..., None]}.get(form)
            if expect is None:
                expect = np.dstack((want, -3 * want))
            require(np.allclose(a, expect, equal_nan=True), f"cells {cells} into {form}: {a.tolist()}")
    return stats([str(cells)], 1, order)


def along(vertices, xs, q):
    """Exact position at distance q (inside the range of increasing xs)."""
    for i in range(len(xs) - 1):
        if xs[i] <= q <= xs[i + 1]:
            t = F(0) if xs[i] == xs[i + 1] else F(q - xs[i]) / F(xs[i + 1] - xs[i])
            return [float(a + t * (b - a)) for a, b in zip(vertices[i], vertices[i + 1])]
    return list(map(float, vertices[0]))


def interpolation(vertices, xs, kind):
    """Interpolating along a line by given or cumulative distances."""
    vertices = [tuple(v) for v in vertices]
    line = np.array(vertices, dtype=float)
    if xs is None:
        dist = [F(0)]
        for a, b in zip(vertices, vertices[1:]):
            d2 = sum((p - q) ** 2 for p, q in zip(a, b))
            r = round(d2 ** 0.5)
            if r * r != d2:
                return stats(outcome="irrational", nontrivial=False)
            dist.append(dist[-1] + r)
        x = None
    else:
        dist = [F(v) for v in xs]
        x = kind(xs)
    lo, hi = min(dist), max(dist)
    up = dist[0] <= dist[-1]
    inc = list(zip(dist, vertices)) if up else list(zip(dist, vertices))[::-1]
    ref = lambda q: along([v for _, v in inc], [d for d, _ in inc], q)
    inner = [lo + (hi - lo) * F(k, 4) for k in range(5)]
    inner = inner if up else inner[::-1]
    where = f"line {vertices} at {xs}"
    got = h.interpolate_line(line, x=x, xi=[float(q) for q in inner])
    want = [ref(q) for q in inner]
    require(np.allclose(got, want, atol=1e-9), f"{where}: {got.tolist()}, not {want}")
    for q in (lo - 1, hi + 1):
        try:
            h.interpolate_line(line, x=x, xi=[float(lo), float(q)])
        except ValueError:
            pass
        else:
            require(False, f"{where}: {q} out of range was accepted")
    queries = [lo - 1, lo, hi, hi + 1]
    first, last = vertices[0], vertices[-1]
    ends = [first if up else last, ref(lo), ref(hi), last if up else first]
    got = h.interpolate_line(line, x=x, xi=[float(q) for q in queries], error=False)
    require(np.allclose(got, np.array(ends, dtype=float)), f"{where}: end points {got.tolist()}")
    for fill in ((-7.0, 9.0), np.nan):
        a, b = (fill, fill) if fill is np.nan else (fill if up else fill[::-1])
        want = np.array(ends, dtype=float)
        want[0], want[3] = a, b
        got = h.interpolate_line(
            line, x=x, xi=[float(q) for q in queries], error=False, fill=fill
        )
        require(np.allclose(got, want, equal_nan=True), f"{where} fill {fill}: {got.tolist()}")
    for n in (1, 2, 3, 5):
        got = h.interpolate_line(line, x=x, n=n)
        qs = [dist[0] + (dist[-1] - dist[0]) * F(k, max(n - 1, 1)) for k in range(n)]
        want = [ref(q) for q in qs]
        require(np.allclose(got, want, atol=1e-9), f"{where} n {n}: {got.tolist()}, not {want}")
    length = hi - lo
    for dx in (F(1, 2), 1, 2, F(5, 4), 3):
        got = h.interpolate_line(line, x=x, dx=float(dx))
        if length == 0:
            continue
        ratio = length / dx
        parts = [k for k in (ratio.__floor__(), ratio.__ceil__()) if k > 0 and abs(ratio - k) <= F(1, 2)]
        ok = False
        for k in parts or [1]:
            want = [ref(dist[0] + (dist[-1] - dist[0]) * F(i, k)) for i in range(k + 1)]
            ok |= got.shape == np.shape(want) and np.allclose(got, want, atol=1e-9)
        require(ok, f"{where}: spaced {dx}: {got.tolist()}")
    require((line == np.array(vertices, dtype=float)).all(), f"{where}: the line was changed")
    return stats([where], 1, [float(d) for d in dist], length > 0)


def nearest(xs):
    """Nearest neighbours in sorted values."""
    ys = [F(k, 4) for k in range(-4, 4 * 6)]
    got = h.sorted_nearest(list(xs), [float(y) for y in ys])
    for y, i in zip(ys, got):
        require(
            abs(xs[i] - y) == min(abs(x - y) for x in xs), f"nearest to {y} in {xs} is {xs[i]}"
        )
    pairs = h.pairwise_distance(list(xs), [float(y) for y in ys], metric="cityblock")
    require(
        all(near(pairs[i, j], abs(x - y)) for i, x in enumerate(xs) for j, y in enumerate(ys)),
        f"distances from {xs}",
    )
    return stats([tuple(xs)], len(ys), list(map(int, got)))


def explore(ck):
    deep = ck.thorough
    # Rays
    B2 = [(0, 0, 2, 2), (1, 0, 3, 1), (-1, 1, 0, 3)]
    span = range(-2, 5) if deep else range(-1, 4)
    vals = tuple(range(-4, 5)) if deep else tuple(range(-3, 4))
    ck.sweep(rays, [(o, b, vals, f) for b in B2 for o in itertools.product(span, repeat=2) for f in (0, 1)])
    span = range(-1, 4) if deep else (-1, 0, 1, 3)
    vals = (-2, -1, 0, 1, 3) if not deep else (-3, -2, -1, 0, 1, 2)
    ck.sweep(rays, [(o, (0, 0, 0, 2, 1, 3), vals, f) for o in itertools.product(span, repeat=3) for f in (0, 1)])
    # Polylines
    pts = list(itertools.product(range(5), repeat=2))
    ck.sweep(polylines, [((p,), pts, (1, 1, 3, 3), 2, f) for p in pts for f in (0, 1)])
    ck.sweep(polylines, [((p, q), pts, (1, 1, 3, 3), 3, 1) for p in pts for q in pts])
    pts3 = list(itertools.product((0, 1, 2, 4), repeat=3))
    ck.sweep(polylines, [((p,), pts3, (1, 0, 1, 3, 2, 2), 2, 1) for p in pts3])
    if deep:
        pts = list(itertools.product((0, 1, 2, 4), repeat=2))
        ck.sweep(polylines, [((p, q), pts, (1, 0, 3, 2), 4, 1) for p in pts for q in pts])
        ck.sweep(polylines, [((p, q), pts3, (1, 0, 1, 3, 2, 2), 3, 1) for p in pts3 for q in pts3], timeout=300)
    # Boxes and grids of points
    one = [(a, b) for a in range(4) for b in range(4) if a < b]
    two = [(a, c, b, d) for (a, b), (c, d) in itertools.product(one, repeat=2)]
    ck.sweep(boxes, [((x, y),) for x in one for y in one] + [((x, y, z),) for x in one for y in one for z in one])
    ck.sweep(boxes, [((x, y),) for x in two for y in two])
    q = (0, 0.5, 1, 2.75)
    cases = [
        ((x0, y0), (x0 + dx, y0 + dy), step, snap)
        for x0 in (0, -1.5) for y0 in (0, 0.25)
        for dx in (0, *q[1:], 5) for dy in (*q[1:], 4)
        for step in (0.5, 1, (1, 2), (1.5, 0.25), 8)
        for snap in (None, (0, 0), (0.5, 0.5), (-3.25, 7), (100, -100))
    ]
    cases += [((0, 1, -1), (2, 3, 1.5), step, snap) for step in (1, (1, 0.5, 2)) for snap in (None, (0.5, 0, 0.25))]
    ck.sweep(grids, cases)
    # Cells
    reach = 14 if deep else 8
    ck.sweep(lines, [((x, y), reach) for x in range(-2, 3) for y in range(-2, 3)])
    ck.sweep(circles, [(c, r) for c in ((0, 0), (3, -2), (-5, 11)) for r in range(0, 200 if deep else 60)])
    # Polygons
    pts = list(itertools.product(range(-1, 5), repeat=2)) if deep else list(itertools.product(range(5), repeat=2))
    ck.sweep(polygons, [((p,), [q for q in pts if q > p], 3, (4, 4)) for p in pts])
    pts = list(itertools.product((0, 2, 4) if not deep else (0, 1, 3, 4), repeat=2))
    ck.sweep(polygons, [((p, q), pts, 4, (4, 3)) for p in pts for q in pts if q > p])
    subsets = [s for r in (0, 1, 2, 3) for s in itertools.combinations(range(len(SHAPES)), r)]
    ck.sweep(collections, [(p, q) for p in subsets if p for q in [None, *subsets]])
    # Splitting, aggregating, interpolating, searching
    ck.sweep(splits, [(m, c) for n in range(1, 11 if deep else 8) for m in itertools.product((0, 1), repeat=n) for c in (0, 1)])
    ck.sweep(aggregates, [(c, (2, 3)) for n in range(1, 6 if deep else 5) for c in itertools.product(range(6), repeat=n)])
    pts = [(0, 0), (3, 4), (3, 0), (-1, 0), (0, 2)]
    cases = [(v, None, list) for n in (2, 3, 4 if deep else 3) for v in itertools.product(pts, repeat=n)]
    for n in (2, 3):
        for v in itertools.product(((0, 0), (3, 4), (-1, 7)), repeat=n):
            for xs in itertools.permutations((0, 1, 3, 7), n):
                if list(xs) in (sorted(xs), sorted(xs)[::-1]):
                    cases += [(v, xs, k) for k in (list, np.array)]
    ck_cases = [(v, xs, "list" if k is list else "array") for v, xs, k in cases]
    ck.sweep(interpolate, ck_cases)
    cases = [
        (v, xs, dtype)
        for n in (1, 2, 3)
        for v in itertools.product(((0, 0), (3, 4), (100, 7), (3, 90)), repeat=n)
        for xs in (None, tuple(range(n)), tuple(range(n))[::-1], tuple(100 * k for k in range(n))[::-1])
        for dtype in ("uint8", "int8", "uint16", "int32", "uint64", "float32")
    ]
    ck.sweep(typed, [c for c in cases if not (c[2] in ("int8",) and c[1] and max(c[1]) > 127)], chunk=64)
    spots = [(0, 0), (5, 1), (1, 3), (2, 2), (100, 4)]
    ck.sweep(
        numbers,
        [
            (p, box, dtype)
            for p in itertools.permutations(spots, 3)
            for box in ((1, 1, 3, 3), (4, 0, 110, 5))
            for dtype in ("uint8", "int8", "uint16", "int32", "int64", "uint64", "float32")
        ],
        chunk=32,
    )
    for what in ("interpolate_line", "interpolate_line x", "box_to_grid", "box_to_grid case"):
        ck.run(unspecified, what)
    ck.sweep(nearest, [(xs,) for n in range(1, 6) for xs in itertools.combinations(range(6), n)])


def interpolate(vertices, xs, kind):
    return interpolation(vertices, xs, list if kind == "list" else np.array)


def typed(vertices, xs, dtype):
    """Vertices and distances of any type of number are those numbers."""
    line, plain = np.array(vertices, dtype=dtype), np.array(vertices, dtype=float)
    x = None if xs is None else np.array(xs, dtype=dtype)
    where = f"line {vertices} at {xs} as {dtype}"
    given = line.copy()
    n = 0
    calls = [{"n": k} for k in (1, 2, 3, 5)] + [{"dx": d} for d in (1, 0.75, np.uint8(2))]
    for kwargs in calls:
        got = h.interpolate_line(line, x=x, **kwargs)
        want = h.interpolate_line(plain, x=None if xs is None else np.array(xs, dtype=float), **kwargs)
        require(got.shape == want.shape and np.allclose(got, want), f"{where}, {kwargs}: {got.tolist()}, not {want.tolist()}")
        n += 1
    lo, hi = (0, 1) if xs is None else (min(xs), max(xs))
    xi = np.array([lo, hi], dtype=dtype)
    for error, fill in ((True, "endpoints"), (False, "endpoints"), (False, (7, 9))):
        want = h.interpolate_line(plain, x=xs if xs is None else [float(v) for v in xs], xi=xi.astype(float), error=False, fill=fill)
        got = h.interpolate_line(line, x=x, xi=xi, error=error and xs is not None, fill=fill)
        require(np.allclose(got, want), f"{where} at {xi}: {got.tolist()}, not {want.tolist()}")
        n += 1
    require(np.array_equal(line, given) and line.dtype == given.dtype, f"{where}: the line was changed")
    for mode in ("vectors", "grids", "points"):
        box = (0, 1, 5, 6)
        want = h.box_to_grid(box, step=2, mode=mode)
        got = h.box_to_grid(np.array(box, dtype=dtype), step=np.array(2, dtype=dtype), mode=mode)
        require(np.allclose(np.hstack(got) if mode != "points" else got, np.hstack(want) if mode != "points" else want), f"{mode} as {dtype}: {got}")
    return stats([where], n, dtype, True)


def unspecified(what):
    """Requests which say too little, or something unknown, are refused."""
    line = np.array([(0, 0), (3, 4)], dtype=float)
    calls = {
        "interpolate_line": lambda: h.interpolate_line(line),
        "interpolate_line x": lambda: h.interpolate_line(line, x=[0, 1]),
        "box_to_grid": lambda: h.box_to_grid((0, 0, 1, 1), step=1, mode="other"),
        "box_to_grid case": lambda: h.box_to_grid((0, 0, 1, 1), step=1, mode="Points"),
    }
    try:
        got = calls[what]()
    except ValueError:
        return stats([what], 1, "refused", True)
    require(False, f"{what}: {got}")


def equal(a, b):
    if isinstance(a, (list, tuple)) and not isinstance(a[0] if len(a) else 0, (int, float)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)


def numbers(points, box, dtype):
    """Whatever type of number coordinates have, geometry is that of their values."""
    given, plain = np.array(points, dtype=dtype), np.array(points, dtype=float)
    b, fb = np.array(box, dtype=dtype), [float(v) for v in box]
    where = f"{points} and box {box} as {dtype}"
    whole = np.issubdtype(given.dtype, np.integer)
    pairs = [
        ("in_box", h.in_box(given, b), h.in_box(plain, fb)),
        ("clip_polyline_box", h.clip_polyline_box(given, b), h.clip_polyline_box(plain, fb)),
        ("clip_polyline_box t", h.clip_polyline_box(np.column_stack((given, given[:, 0])), b, t=True), h.clip_polyline_box(np.column_stack((plain, plain[:, 0])), fb, t=True)),
        ("intersect_rays_box", h.intersect_rays_box(given[0], given[1:], b), h.intersect_rays_box(plain[0], plain[1:], fb)),
        ("bounding_box", h.bounding_box(given), h.bounding_box(plain)),
        ("box_to_polygon", h.box_to_polygon(b), h.box_to_polygon(fb)),
        ("intersect_boxes", h.intersect_boxes([b, b]), h.intersect_boxes([fb, fb])),
        ("pairwise_distance", h.pairwise_distance(given, given), h.pairwise_distance(plain, plain)),
    ]
    x, y = np.sort(given[:, 0]), given[:, 1]
    pairs.append(("sorted_nearest", abs(x.astype(float)[h.sorted_nearest(x, y)] - y), abs(plain[:, 0][:, None] - plain[:, 1]).min(axis=0)))
    if whole:
        ends = [[int(v) for v in row] for row in points]
        pairs.append(("bresenham_line", h.bresenham_line(given[0], given[1]), h.bresenham_line(ends[0], ends[1])))
    closed = [*points, points[0]]
    mask = h.polygons_to_mask([[[float(v) for v in row] for row in closed]], (6, 6))
    pairs.append(("polygons_to_mask", h.polygons_to_mask([np.array(closed, dtype=dtype)], (6, 6)), mask))
    full = [[(0, 0), (6, 0), (6, 6), (0, 6), (0, 0)]]
    pairs.append(("holes", h.polygons_to_mask(full, (6, 6), holes=[np.array(closed, dtype=dtype)]), ~mask))
    for name, got, want in pairs:
        require(equal(got, want), lambda: f"{name} of {where}: {got}, not {want}")
    require(np.array_equal(given, np.array(points, dtype=dtype)), f"{where}: changed")
    return stats([where], len(pairs), dtype, True)
