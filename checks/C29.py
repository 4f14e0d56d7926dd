"""Summaries and plots of tracks report exactly their valid part."""
import itertools
import warnings

import matplotlib

matplotlib.use("agg")
import matplotlib.pyplot as plt
import numpy as np

from mc import trackkit as tk
from mc.core import require, stats
from glimpse import Raster, Tracker
from glimpse.track.tracks import Tracks

LEVEL = "model_checking"
RULE = (
    "A case is a family of patterns of missing estimates (every pattern completing a "
    "given one), or one pattern plotted or animated with one choice of tracks, frames and "
    "contents; compared with a scan of each track. Non-trivial when some estimate is "
    "valid and some is missing."
)
ASSUMPTIONS = ["Estimates are missing as a whole (as tracking leaves them)."]


def values(n, m):
    """Distinct numbers for every track, time and component."""
    i, j, k = np.meshgrid(range(n), range(m), range(6), indexing="ij")
    return 100.0 * i + 10.0 * j + k + 0.25 * i * j


def build(pattern, **kwargs):
    n, m = len(pattern), len(pattern[0])
    means = values(n, m)
    missing = ~np.array(pattern, dtype=bool)
    means[missing] = np.nan
    kwargs = {"sigmas": means / 7, **kwargs}
    return Tracks([tk.day(j) for j in range(m)], tk.DAY, means=means, **kwargs)


def selections(n):
    out = [slice(None), slice(1, None), slice(None, None, -1), slice(0, 0)]
    for size in range(1, n + 1):
        out += [list(s) for s in itertools.permutations(range(n), size)]
    out += [np.array([True] * (n - 1) + [False]), [0] * 2]
    return out


def scan(row):
    idx = [j for j, ok in enumerate(row) if ok]
    return (idx[0], idx[-1]) if idx else None


def endpoints(head, n, m):
    """End points of every pattern which starts with the rows ``head``."""
    rows = list(itertools.product((0, 1), repeat=m))
    sels = selections(n)
    outcomes, count = set(), 0
    for tail in itertools.product(rows, repeat=n - len(head)):
        pattern = [tuple(r) for r in head] + list(tail)
        tracks = build(pattern)
        for sel in sels:
            chosen = np.arange(n)[sel]
            want = [scan(pattern[i]) for i in chosen]
            valid, first, last = tracks.endpoints(sel)
            where = f"pattern {pattern}, tracks {sel}"
            require(
                list(map(bool, valid)) == [w is not None for w in want],
                lambda: f"{where}: valid {list(valid)}, not {want}",
            )
            got = list(zip(map(int, first), map(int, last)))
            require(
                len(first) == len(last) and got == [w for w in want if w],
                lambda: f"{where}: {got}, not {want}",
            )
            count += 1
            outcomes.add((tuple(got), tuple(map(bool, valid))))
    return stats(outcomes, count, sorted(map(str, outcomes)))


class Empty(ValueError):
    """An error which looks like nothing."""

    def __bool__(self):
        return False


def contents(n, m, form, errors):
    """Attributes hold what was given; derived ones are what they say."""
    means = values(n, m)
    rng = np.arange(n * m * 36, dtype=float).reshape(n, m, 6, 6)
    cov = np.sin(rng) + 0.0
    idx = np.arange(6)
    cov[..., idx, idx] = (1 + rng[..., idx, idx] % 7) ** 2
    sigmas = 1 + rng[..., idx, idx] % 7
    sigmas[0, 0] = np.nan
    cov[0, 0] = np.nan
    conv = {
        "array": lambda a: a,
        "list": lambda a: [x for x in a],
        "tuple": lambda a: tuple(x for x in a),
    }[form]
    dts = [tk.day(j) for j in range(m)]
    err = [Empty("x") if e else None for e in errors]
    a = Tracks(dts, tk.DAY, conv(means), sigmas=conv(sigmas), errors=err)
    b = Tracks(np.array(dts), tk.DAY, conv(means), covariances=conv(cov), errors=np.array(err), warnings=[None] * n)
    require(a.means.shape == (n, m, 6) and np.array_equal(a.means, means), "means")
    require(np.array_equal(a.xyz, means[..., :3]) and np.array_equal(a.vxyz, means[..., 3:]), "components")
    for t in (a, b):
        require(np.allclose(t.xyz_sigma, sigmas[..., :3], equal_nan=True), "position deviations")
        require(np.allclose(t.vxyz_sigma, sigmas[..., 3:], equal_nan=True), "velocity deviations")
        require(list(map(bool, t.success)) == [not e for e in errors], f"success {t.success} for {errors}")
        require(list(t.datetimes) == dts, "datetimes")
    require(b.covariances.shape == (n, m, 6, 6), "covariances")
    none = Tracks(dts, tk.DAY, conv(means))
    require(none.success is None and none.xyz_sigma is None and none.vxyz_sigma is None, "absent values")
    particles = values(n, m)[:, :, None, :] + np.arange(3)[None, None, :, None]
    weights = particles[..., 0]
    c = Tracks(dts, tk.DAY, conv(means), particles=conv(particles), weights=conv(weights))
    require(np.array_equal(c.particles, particles) and np.array_equal(c.weights, weights), "particles")
    return stats([str((n, m, form, errors))], 1, str((errors, form)))


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, equal_nan=True)


def plots(pattern, sel, start, mean, sigma, cov):
    n, m = len(pattern), len(pattern[0])
    tracks = build(pattern)
    if cov:
        full = np.zeros((n, m, 6, 6))
        full[..., np.arange(6), np.arange(6)] = tracks.sigmas ** 2
        tracks.covariances, tracks.sigmas = full, None
    sel = slice(*sel[1:]) if sel[0] == "slice" else list(sel[1:])
    chosen = np.arange(n)[sel]
    x, v, s = tracks.xyz, tracks.vxyz, tracks.xyz_sigma
    vs = tracks.vxyz_sigma
    where = f"pattern {pattern}, tracks {list(chosen)}"
    fig = plt.figure()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = tracks.plot_xy(sel, start=start, mean=mean, sigma=sigma)
        want = {k for k, on in (("mean", mean is not False), ("start", start is not False), ("sigma", sigma is not False)) if on}
        require(set(out) == want, f"{where}: plotted {set(out)}, not {want}")
        if "mean" in out:
            require(len(out["mean"]) == len(chosen), f"{where}: {len(out['mean'])} lines")
            for line, i in zip(out["mean"], chosen):
                require(same(line.get_data(), x[i, :, :2].T), f"{where}: line of track {i}")
                require(line.get_color() == ("red" if isinstance(mean, dict) else "black"), "color")
        if "start" in out:
            pts = np.hstack([np.array(l.get_data(), dtype=float) for l in out["start"]]).T
            pts = pts[~np.isnan(pts).any(axis=1)]
            ends = [(i, scan(pattern[i])) for i in chosen]
            expect = np.array([x[i, e[0], :2] for i, e in ends if e]).reshape(-1, 2)
            require(same(pts, expect), lambda: f"{where}: starts {pts.tolist()}, not {expect.tolist()}")
        if "sigma" in out:
            require(len(out["sigma"]) == len(chosen), f"{where}: {len(out['sigma'])} error bars")
            for bar, i in zip(out["sigma"], chosen):
                _, _, (h, w) = bar
                ok = np.array(pattern[i], dtype=bool)
                hs = np.array([seg for seg in h.get_segments() if len(seg) and not np.isnan(seg).any()])
                ws = np.array([seg for seg in w.get_segments() if len(seg) and not np.isnan(seg).any()])
                eh = np.array([[[x[i, j, 0] - s[i, j, 0], x[i, j, 1]], [x[i, j, 0] + s[i, j, 0], x[i, j, 1]]] for j in range(m) if ok[j]])
                ew = np.array([[[x[i, j, 0], x[i, j, 1] - s[i, j, 1]], [x[i, j, 0], x[i, j, 1] + s[i, j, 1]]] for j in range(m) if ok[j]])
                require(same(hs.ravel(), eh.ravel()) and same(ws.ravel(), ew.ravel()), f"{where}: error bars of track {i}")
        quivers = tracks.plot_vxy(sel)
        require(len(quivers) == len(chosen), f"{where}: {len(quivers)} velocity fields")
        for q, i in zip(quivers, chosen):
            require(same(np.ma.filled(np.ma.asarray(q.XY, dtype=float), np.nan), x[i, :, :2]), f"{where}: velocity positions")
            bad = np.isnan(v[i, :, 0])
            u = np.where(bad, np.nan, np.ma.filled(np.ma.array(q.U, mask=q.Umask, dtype=float), np.nan))
            w = np.where(bad, np.nan, np.ma.filled(np.ma.array(q.V, mask=q.Umask, dtype=float), np.nan))
            require(same(u, v[i, :, 0]) and same(w, v[i, :, 1]), f"{where}: velocities {u} {w}")
        for dim in range(3):
            out = tracks.plot_v1d(dim, sel, mean=mean, sigma=sigma)
            if mean is not False:
                require(len(out["mean"]) == len(chosen), f"{where}: v1d lines")
                for line, i in zip(out["mean"], chosen):
                    xs, ys = line.get_data(orig=True)
                    require(list(xs) == list(tracks.datetimes) and same(ys, v[i, :, dim]), f"{where}: v{dim} of track {i}")
            if sigma is not False:
                require(len(out["sigma"]) == len(chosen), f"{where}: v1d areas")
                for area, i in zip(out["sigma"], chosen):
                    pts = np.vstack([p.vertices for p in area.get_paths()]) if area.get_paths() else np.zeros((0, 2))
                    ok = np.array(pattern[i], dtype=bool)
                    lo, hi = v[i, ok, dim] - vs[i, ok, dim], v[i, ok, dim] + vs[i, ok, dim]
                    require({round(a, 6) for a in pts[:, 1]} == {round(a, 6) for a in (*lo, *hi)}, f"{where}: v{dim} area of track {i}")
                    t = np.round(matplotlib.dates.date2num(np.asarray(tracks.datetimes)[ok]), 6)
                    corners = {(a, round(b, 6)) for a, b in (*zip(t, lo), *zip(t, hi))}
                    got = {(round(a, 6), round(b, 6)) for a, b in pts}
                    require(got == corners, f"{where}: v{dim} area of track {i} at other times")
    plt.close(fig)
    return stats([where], 6, where, any(map(any, pattern)) and not all(map(all, pattern)))


def animations(pattern, absent, track, frames, images, with_particles, gaps):
    """Every frame shows the track up to it, at the scale of the next time."""
    n, m = len(pattern), len(pattern[0])
    days = [0, 1, 3, 4, 7, 8][:m] if gaps else list(range(m))
    dts = [tk.day(d) for d in days]
    means = values(n, m)
    means[..., 0] = 8 + 0.5 * np.arange(m) + 0.25 * np.arange(n)[:, None]
    means[..., 1] = 9 - 0.25 * np.arange(m) + 0.5 * np.arange(n)[:, None]
    means[~np.array(pattern, dtype=bool)] = np.nan
    rasters = [
        Raster(tk.texture((20, 21), seed=k), datetime=dts[j]) for k, j in enumerate(j for j in range(m) if j not in absent)
    ]
    for k, r in enumerate(rasters):
        r.path = f"/nowhere/image{k}.tif"
    obs = tk.HookObserver(rasters)
    other = tk.HookObserver([Raster(tk.texture((20, 21)), datetime=d) for d in dts])
    idx = np.full((m, 2), None)
    for k, j in enumerate(j for j in range(m) if j not in absent):
        idx[j, 1] = k
    idx[:, 0] = range(m)
    particles = means[:, :, None, :] + 0.25 * np.arange(3)[None, None, :, None]
    weights = np.where(np.isnan(means[:, :, :1]), np.nan, 1.0 + np.arange(3) + 10 * np.arange(m)[:, None])
    kwargs = {}
    if with_particles:
        kwargs = dict(particles=particles, weights=weights)
    if images is not None:
        kwargs["tracker"] = Tracker([other, obs])
    tracks = Tracks(dts, tk.DAY, means, images=idx, **kwargs)
    usable = [j for j in range(m) if pattern[track][j] and j not in absent and (frames is None or j in frames)]
    where = f"pattern {pattern}, images missing at {absent}, track {track}, frames {frames}, images {images}"
    if not usable:
        return stats([where], 0, "nothing to show", False)
    require_images = bool(images)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        anim = tracks.animate(
            track, obs=1, frames=frames, images=None if images is None or images else False,
            img_size=(6, 4), map_size=(4, 6),
        )
        anim._draw_was_started = True
        fig = anim._fig
        require(len(fig.axes) == (2 if require_images else 1), f"{where}: {len(fig.axes)} axes")
        shown = list(anim.new_frame_seq())
        require(list(map(int, shown)) == usable[:-1], f"{where}: frames {shown}, not {usable[:-1]}")
        for pos, j in enumerate(usable[:-1]):
            artists = anim._func(j)
            ax = fig.axes[0]
            line = artists[0]
            require(same(line.get_data(), means[track, : j + 1, :2].T), f"{where}: track line of frame {j}")
            step = (days[usable[pos + 1]] - days[j]) if images is not None or with_particles else 1
            quivers = [c for c in ax.collections if hasattr(c, "U")]
            require(len(quivers) == 1 + with_particles, f"{where}: {len(quivers)} arrow sets in frame {j}")
            q = quivers[-1]
            require(same(q.XY, means[track, [j], :2]), f"{where}: mean of frame {j}")
            require(
                same([q.U[0], q.V[0]], means[track, j, 3:5] * step),
                lambda: f"{where}: arrow of frame {j} is {q.U, q.V}, not {means[track, j, 3:5]} times {step}",
            )
            for q in quivers:
                # Arrows end where the next frame is
                require((q.angles, q.scale_units, q.scale) == ("xy", "xy", 1), f"{where}: arrows are not in map units")
            if with_particles:
                q = quivers[0]
                require(same(q.V, particles[track, j, :, 4] * step), f"{where}: particle velocities of frame {j}")
                require(same(q.XY, particles[track, j, :, :2]) and same(q.U, particles[track, j, :, 3] * step), f"{where}: particles of frame {j}")
                require(same(q.get_clim(), (np.nanmin(weights[track]), np.nanmax(weights[track]))), f"{where}: color limits {q.get_clim()}")
                require(same(q.get_array(), weights[track, j]), f"{where}: weights of frame {j}")
            x, y = means[track, j, :2]
            require(same([*ax.get_xlim(), *ax.get_ylim()], [x - 2, x + 2, y - 3, y + 3]), f"{where}: map window of frame {j}")
            if require_images:
                _, text, track_line, tile, dot = artists
                uv = obs.images[idx[j, 1]].xyz_to_uv(means[track, : j + 1, :3])
                require(same(track_line.get_data(), uv.T), f"{where}: image track of frame {j}")
                require(same(np.ravel(dot.get_data()), uv[-1]), f"{where}: image mean of frame {j}")
                points = fig.axes[1].collections
                require(len(points) == int(with_particles), f"{where}: {len(points)} sets of image particles in frame {j}")
                if with_particles:
                    uvs = obs.images[idx[j, 1]].xyz_to_uv(particles[track, j, :, :3])
                    require(same(points[0].get_offsets(), uvs), f"{where}: image particles of frame {j}")
                    require(same(points[0].get_array(), weights[track, j]), f"{where}: image weights of frame {j}")
                    require(same(points[0].get_clim(), (np.nanmin(weights[track]), np.nanmax(weights[track]))), f"{where}: image colors of frame {j}")
                box = obs.tile_box(uv[-1], (6, 4), img=idx[j, 1])
                require(same(tile.get_array(), obs.extract_tile(box, idx[j, 1])), f"{where}: tile of frame {j}")
                require(same(tile.get_extent(), [box[0], box[2], box[3], box[1]]), f"{where}: extent of frame {j}")
                require(text.get_text() == f"image{idx[j, 1]}", f"{where}: label {text.get_text()}")
    plt.close(fig)
    return stats([where], len(usable), where, len(usable) > 1)


def explore(ck):
    deep = ck.thorough
    rows = list(itertools.product((0, 1), repeat=4))
    ck.sweep(endpoints, [([list(r)], 3, 4) for r in rows])
    for n, m in ((1, 1), (2, 1), (1, 5), (2, 5)):
        ck.sweep(endpoints, [([list(r)], n, m) for r in itertools.product((0, 1), repeat=m)])
    if deep:
        ck.sweep(endpoints, [([list(r), list(q)], 4, 4) for r in rows for q in rows], timeout=600)
    for n, m in ((1, 1), (2, 3), (3, 2), (4, 1)):
        for form in ("array", "list", "tuple"):
            for errors in itertools.product((0, 1), repeat=n):
                ck.run(contents, n, m, form, list(errors))
    rows = list(itertools.product((0, 1), repeat=3))
    sels = [("slice", None), ("slice", 1, None), ("list", 0), ("list", 1, 0)]
    cases = []
    for a, b in itertools.product(rows, repeat=2):
        for k, sel in enumerate(sels):
            for cov in (False, True):
                flags = [(True, True, True), (True, True, False), (True, False, False), (False, False, True), (True, {"color": "red"}, True)]
                for f in flags if deep else flags[(k + cov) % 2 :: 2]:
                    cases.append(([a, b], sel, f[0], f[1], f[2], cov))
    ck.sweep(plots, cases)
    cases = []
    for row in itertools.product((0, 1), repeat=4):
        for absent in ([], [0], [2], [0, 1]):
            for frames in (None, [1, 2, 3], [3, 0, 1]):
                for images in (None, False, True):
                    for p in (False, True):
                        if not deep and sum(row) < 2:
                            continue
                        cases.append(([row, (1, 1, 1, 1)], absent, len(cases) % 2 if deep else 0, frames, images, p, True))
    ck.sweep(animations, cases)
