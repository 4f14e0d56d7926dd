"""Tracks start, step, match images and end exactly as documented."""
import datetime
import itertools

import numpy as np

from glimpse import Raster

from mc.core import require, stats
from mc import trackkit as tk

LEVEL = "model_checking"
RULE = (
    "A case is one timeline: image times of two observers, tracked times (forwards, "
    "backwards, with duplicates, gaps and half steps), maximum time difference and "
    "observer mask; the call history and the estimates of the real tracker are compared "
    "with a reference run computed from the recorded observer answers. Non-trivial when "
    "a track has at least one step."
)
ASSUMPTIONS = [
    "Timelines of 4 slots (thorough: 5) and half slots; ties between equally near images "
    "accept either image.",
]

SIZE = (5, 5)


def times(slots):
    return np.array([tk.day(s) for s in slots])


def seconds(a, b):
    return abs((a - b).total_seconds())


def ref_parse(slots, obs_slots, maxdt):
    """Reference for the accepted tracked times (or None when refused)."""
    up = all(b >= a for a, b in zip(slots, slots[1:]))
    down = all(b <= a for a, b in zip(slots, slots[1:]))
    if not (up or down):
        return None
    kept = [s for k, s in enumerate(slots) if k == 0 or s != slots[k - 1]]
    images = sorted({s for o in obs_slots for s in o})
    kept = [s for s in kept if min(abs(s - t) for t in images) <= maxdt]
    return kept if len(kept) >= 2 else None


def ref_matches(slot, obs, maxdt):
    """Indices of the acceptable images of one observer at one time."""
    near = min(abs(slot - t) for t in obs)
    if near > maxdt:
        return []
    return [k for k, t in enumerate(obs) if abs(slot - t) == near]


def parse(obs_slots, slots, maxdt):
    observers = [tk.observer(i, s) for i, s in enumerate(obs_slots)]
    tracker = tk.Tracker(observers)
    union = sorted({s for o in obs_slots for s in o})
    require(
        list(tracker.datetimes) == list(times(union)), "union of observation times"
    )
    expected = ref_parse(slots, obs_slots, maxdt)
    dt = tk.DAY * maxdt
    try:
        got = tracker.parse_datetimes(times(slots), maxdt=dt)
    except ValueError:
        got = None
    if expected is None:
        require(got is None, lambda: f"accepted {slots} as {got}")
        return stats([(obs_slots, slots)], 1, None)
    require(got is not None, f"refused {slots}")
    require(list(got) == list(times(expected)), lambda: f"{slots}: got {got}")
    match = tracker.match_datetimes(got, maxdt=dt)
    require(match.shape == (len(got), len(obs_slots)), "shape of matches")
    for i, s in enumerate(expected):
        for o, obs in enumerate(obs_slots):
            near = ref_matches(s, obs, maxdt)
            require(
                (match[i, o] is None) if not near else (match[i, o] in near),
                lambda: f"time {s}, images {obs}, maxdt {maxdt}: {match[i, o]}",
            )
    return stats([(obs_slots, tuple(expected))], len(got), match.tolist())


class Log:
    def __init__(self):
        self.events = []

    def __call__(self, actor, call, **info):
        self.events.append((tk.CURRENT.track, actor, call, info))


def sorted_rows(a):
    a = np.asarray(a)
    return a[np.lexsort(a.T[::-1])]


def systematic(weights, u):
    """The draw u selects, for every slot, the particle whose cumulated share holds it."""
    share = np.cumsum(weights / weights.sum())
    share[-1] = 1.0
    n = len(weights)
    return [
        next(k for k in range(n) if (j + u) / n <= share[k]) for j in range(n)
    ]


def track(obs_slots, slots, maxdt, masks):
    """Compare one tracking run with the reference."""
    log = Log()
    observers = [
        tk.observer(i, s, probe=log, sigma=0.7 + 0.2 * i)
        for i, s in enumerate(obs_slots)
    ]
    starts = [(11.3 + 0.8 * i, 10.6 + 0.4 * i) for i in range(len(masks))]
    models = [
        tk.HookMotion(i, xy=s, v=(0.4, 0.2), probe=log, prior=i != 1)
        for i, s in enumerate(starts)
    ]
    tracker = tk.Tracker(
        observers, highpass={"size": (3, 3)}, interpolation={"kx": 1, "ky": 1}
    )
    u = 0.37
    with tk.scripted_random(tk.Draws(u)):
        tracks = tracker.track(
            models,
            datetimes=None if slots is None else times(slots),
            maxdt=tk.DAY * maxdt,
            tile_size=SIZE,
            observer_mask=np.array(masks),
            return_particles=True,
        )
    if slots is None:
        slots = sorted({s for o in obs_slots for s in o})
    ts = ref_parse(slots, obs_slots, maxdt)
    require(list(tracks.datetimes) == list(times(ts)), "tracked times")
    require(tracks.time_unit == tk.DAY, "time unit")
    match = tracks.images
    for i, s in enumerate(ts):
        for o, obs in enumerate(obs_slots):
            near = ref_matches(s, obs, maxdt)
            require(
                (match[i, o] is None) if not near else (match[i, o] in near),
                lambda: f"time {s}, images {obs}: reported image {match[i, o]}",
            )
    states = set()
    nsteps = 0
    for j, mask in enumerate(masks):
        where = f"track {j}"
        if len(masks) > 1:
            require(tracks.errors[j] is None, lambda: f"{where}: {tracks.errors[j]}")
        used = [
            {o: match[i, o] for o in range(len(mask)) if mask[o] and match[i, o] is not None}
            for i in range(len(ts))
        ]
        seen = [i for i in range(len(ts)) if used[i]]
        first, last = seen[0], seen[-1]
        outside = [i for i in range(len(ts)) if i < first or i > last]
        for name in ("means", "sigmas", "particles", "weights"):
            value = getattr(tracks, name)[j]
            require(np.isnan(value[outside]).all(), f"{where}: {name} outside the track")
            require(
                not np.isnan(value[first : last + 1]).any(),
                f"{where}: {name} missing inside the track",
            )
        # Split the history into steps
        events = [e for e in log.events if e[0] == j]
        steps, current = {}, None
        for _, actor, call, info in events:
            if call == "init":
                require(current is None, f"{where}: initialised twice")
                current = first
                steps[current] = []
            elif call == "evolve":
                require(current is not None, f"{where}: evolved before the start")
                current += 1
                steps[current] = []
            require(current is not None, f"{where}: {call} before the start")
            steps[current].append((actor, call, info))
        require(
            sorted(steps) == list(range(first, last + 1)),
            lambda: f"{where}: steps {sorted(steps)}, expected {first}..{last}",
        )
        first_use = {}
        for i in range(first, last + 1):
            for o in used[i]:
                first_use.setdefault(o, i)
        P, W = tracks.particles[j], tracks.weights[j]
        for i in range(first, last + 1):
            states.add((j, i, tuple(sorted(used[i].items())), i == first))
            ev = steps[i]
            at = f"{where} step {i}"
            if i == first:
                fresh = tk.HookMotion(
                    j, xy=starts[j], v=(0.4, 0.2)
                ).initialize_particles()
                require(tk.same(P[i], fresh), f"{at}: not the initial particles")
                require(
                    np.allclose(W[i], W[i][0]) and W[i][0] > 0,
                    f"{at}: initial weights differ",
                )
                particles, weights = P[i], W[i]
            else:
                nsteps += 1
                moves = [info for _, call, info in ev if call == "evolve"]
                dt = tk.day(ts[i]) - tk.day(ts[i - 1])
                require(moves[0]["dt"] == dt, lambda: f"{at}: evolved by {moves[0]['dt']}")
                require(
                    tk.same(sorted_rows(moves[0]["before"]), sorted_rows(P[i - 1])),
                    f"{at}: evolved from other particles",
                )
                particles = [info["after"] for _, c, info in ev if c == "evolved"][0]
                weights = W[i - 1]
            boxes = {
                actor[1]: info for actor, call, info in ev if call == "box"
            }
            nboxes = sum(call == "box" for _, call, _ in ev)
            starting = {o for o, k in first_use.items() if k == i}
            require(
                set(boxes) == starting and nboxes == len(starting),
                lambda: f"{at}: templates of {sorted(boxes)}, expected {sorted(starting)}",
            )
            mean = np.average(particles, weights=weights, axis=0)
            for o, info in boxes.items():
                require(info["img"] == used[i][o], f"{at}: template from wrong image")
                require(np.allclose(info["uv"], mean[:2]), f"{at}: template not at mean")
                require(info["size"] == SIZE, f"{at}: template size {info['size']}")
            read = {(a[1], info["img"]) for a, call, info in ev if call == "extract"}
            require(
                read == set(used[i].items()),
                lambda: f"{at}: read images {sorted(read)}, expected {used[i]}",
            )
            sampled = {
                actor[1]: info["values"] for actor, call, info in ev if call == "sampled"
            }
            if i > first:
                require(
                    sum(call == "sampled" for _, call, _ in ev) == len(used[i])
                    and set(sampled) == set(used[i]),
                    lambda: f"{at}: weighted by {sorted(sampled)}, expected {used[i]}",
                )
                total = np.zeros(len(particles))
                for o, values in sampled.items():
                    total = total + values / (2 * observers[o].sigma ** 2)
                prior = j != 1
                if prior:
                    total = total + 0.05 * (
                        particles[:, 0] - starts[j][0]
                    ) ** 2 + 0.4 * np.arange(len(particles))
                weights = (
                    np.exp(-total) + 1e-300 if (sampled or prior) else weights
                )
                index = systematic(weights, u)
                expected = np.column_stack((particles[index], weights[index]))
                got = np.column_stack((P[i], W[i]))
                got[:, 6] *= expected[:, 6].sum() / got[:, 6].sum()
                require(
                    np.allclose(sorted_rows(got), sorted_rows(expected), rtol=1e-9, atol=1e-12),
                    lambda: f"{at}: particles or weights\n{got}\nexpected\n{expected}",
                )
            mean = (P[i] * W[i][:, None]).sum(axis=0) / W[i].sum()
            var = ((P[i] - mean) ** 2 * W[i][:, None]).sum(axis=0) / W[i].sum()
            require(np.allclose(tracks.means[j, i], mean), f"{at}: mean")
            require(
                np.allclose(tracks.sigmas[j, i], np.sqrt(var), atol=1e-7), f"{at}: sigma"
            )
    return stats(
        states, len(log.events), tracks.means.tobytes(), nontrivial=nsteps > 0
    )


class Cached(Raster):
    """Notes whether the whole raster was read to be kept."""

    kept = False

    def read(self, box=None, cache=True):
        self.kept = self.kept or bool(cache)
        return super().read(box=box, cache=cache)


def caching(obs_slots, slots, maxdt, caches, ntracks):
    """Exactly the images of observers which cache them are kept, if they are used."""
    observers = []
    for i, (s, cache) in enumerate(zip(obs_slots, caches)):
        images = [Cached(r.array, datetime=r.datetime) for r in tk.observer(i, s).images]
        observers.append(tk.HookObserver(images, key=i, cache=cache))
    models = [tk.HookMotion(j, xy=(11.3 + j, 10.6), v=(0.4, 0.2)) for j in range(ntracks)]
    tracker = tk.Tracker(observers, highpass={"size": (3, 3)}, interpolation={"kx": 1, "ky": 1})
    with tk.scripted_random(tk.Draws()):
        tracks = tracker.track(models, datetimes=times(slots), maxdt=tk.DAY * maxdt, tile_size=SIZE)
    for o, cache in enumerate(caches):
        want = {i for i in tracks.images[:, o] if i is not None} if cache else set()
        got = {i for i, img in enumerate(observers[o].images) if img.kept}
        require(got == want, f"observer {o} ({cache}): images {sorted(got)} are cached, not {sorted(want)}")
    return stats([(obs_slots, slots, maxdt, caches, ntracks)], 1, str(caches), any(caches))


def reduction(particles, weights):
    """A reduction which keeps everything it was given."""
    return ("reduced", particles.copy(), weights.copy())


def outputs(obs_slots, slots, maxdt, masks, parallel):
    """Whatever a track is asked to return, it is of the same track."""

    def run(**options):
        observers = [tk.observer(i, s) for i, s in enumerate(obs_slots)]
        models = [
            tk.HookMotion(i, xy=(11.3 + 0.8 * i, 10.6 + 0.4 * i), v=(0.4, 0.2))
            for i in range(len(masks))
        ]
        tracker = tk.Tracker(
            observers, highpass={"size": (3, 3)}, interpolation={"kx": 1, "ky": 1}
        )
        with tk.scripted_random(tk.Draws(0.37)), tk.backend(tk.PermutedPool):
            return tracker.track(
                models,
                datetimes=None if slots is None else times(slots),
                maxdt=tk.DAY * maxdt,
                tile_size=SIZE,
                observer_mask=np.array(masks),
                parallel=parallel,
                **options,
            )

    full = run(return_particles=True)
    P, W = np.asarray(full.particles), np.asarray(full.weights)
    require(P.shape[:2] == W.shape[:2] == (len(masks), len(full.datetimes)), "shape")
    for covariances in (False, True):
        for kind in ("none", "particles", "reduced", "reduced and particles"):
            options = {"return_covariances": covariances}
            if "particles" in kind:
                options["return_particles"] = True
            if "reduced" in kind:
                options["reduce_particles"] = reduction
            at = f"covariances {covariances}, {kind}"
            tracks = run(**options)
            require(tk.same(tracks.means, full.means), f"{at}: other means")
            given = {**options, "maxdt": tk.DAY * maxdt, "tile_size": SIZE, "parallel": parallel}
            require(
                len(tracks.params["motion_models"]) == len(masks)
                and np.array_equal(tracks.params["observer_mask"], masks)
                and {k: tracks.params[k] for k in given} == given,
                f"{at}: reported parameters {tracks.params}",
            )
            if covariances:
                require(tracks.sigmas is None, f"{at}: standard deviations")
                C = np.asarray(tracks.covariances)
                require(C.shape == (*P.shape[:2], 6, 6), f"{at}: shape {C.shape}")
                for j, i in np.ndindex(*P.shape[:2]):
                    d = P[j, i] - full.means[j][i]
                    w = W[j, i] / W[j, i].sum()
                    require(
                        np.allclose(
                            C[j, i], (d * w[:, None]).T @ d, atol=1e-9, equal_nan=True
                        ),
                        lambda: f"{at}: covariance of track {j} at {i}",
                    )
            else:
                require(tracks.covariances is None, f"{at}: covariances")
                require(tk.same(tracks.sigmas, full.sigmas), f"{at}: other sigmas")
            require(
                np.allclose(tracks.vxyz_sigma, full.sigmas[..., 3:], atol=1e-7, equal_nan=True),
                f"{at}: velocity sigmas",
            )
            if "reduced" in kind:
                require(
                    tracks.particles is None and tracks.weights is None,
                    f"{at}: particles returned",
                )
                require(
                    isinstance(tracks.reduced, list) and len(tracks.reduced) == len(masks),
                    f"{at}: reduced",
                )
                for j, (name, p, w) in enumerate(tracks.reduced):
                    require(
                        name == "reduced" and tk.same(p, P[j]) and tk.same(w, W[j]),
                        f"{at}: reduced from other particles of track {j}",
                    )
            elif kind == "particles":
                require(
                    tk.same(tracks.particles, P) and tk.same(tracks.weights, W),
                    f"{at}: particles",
                )
            else:
                require(
                    tracks.particles is None and tracks.weights is None,
                    f"{at}: particles returned",
                )
    return stats([(obs_slots, slots, maxdt, masks, parallel)], 8 * len(masks), P.tobytes())


class Lost(tk.HookMotion):
    """Loses one coordinate of one particle at one step."""

    def __init__(self, *args, lose=(), **kwargs):
        super().__init__(*args, **kwargs)
        self.lose, self.steps = lose, 0

    def _lose(self, particles):
        for step, particle, column in self.lose:
            if step == self.steps:
                particles[particle, column] = np.nan

    def initialize_particles(self):
        self.steps = 0
        particles = super().initialize_particles()
        self._lose(particles)
        return particles

    def evolve_particles(self, particles, dt):
        super().evolve_particles(particles, dt)
        self.steps += 1
        self._lose(particles)


def invalid(lose, hidden, mask):
    """Tracks end where a particle is missing or not visible, and only those."""
    log = Log()
    observers = [tk.observer(i, (0, 1, 2)) for i in range(2)]
    n = 3
    models = [
        Lost(
            i, xy=(9.3 + 2.8 * i, 10.6 + 1.4 * i), v=(1.4, 0.7), probe=log,
            lose=lose if i == 1 else (),
        )
        for i in range(n)
    ]
    viewshed = None
    if hidden is not None:
        visible = np.ones((8, 9), dtype=bool)
        for row, col in hidden:
            visible[row, col] = False
        # Cells of 2 x 2, rows downwards
        viewshed = Raster(visible, x=(4.0, 22.0), y=(20.0, 4.0))
    tracker = tk.Tracker(
        observers, viewshed=viewshed,
        highpass={"size": (3, 3)}, interpolation={"kx": 1, "ky": 1},
    )
    with tk.scripted_random(tk.Draws(0.37)):
        tracks = tracker.track(
            models, tile_size=SIZE, return_particles=True,
            observer_mask=np.array([mask] * n),
        )
    ends = []
    for j in range(n):
        # The particles that were tested at each step
        tested = [
            tk.HookMotion(j, xy=models[j].xy, v=models[j].v).initialize_particles()
        ]
        tested += [
            info["after"] for t, actor, call, info in log.events if t == j and call == "evolved"
        ]
        end = None
        for step, p in enumerate(tested):
            p = p.copy()
            if j == 1:
                for s, k, c in lose:
                    if s == step:
                        p[k, c] = np.nan
            bad = np.isnan(p).any()
            if hidden is not None:
                xy = p[:, 0:2]
                for x, y in xy:
                    if np.isnan(x) or np.isnan(y):
                        continue
                    require(4 < x < 22 and 4 < y < 20, "harness: outside viewshed", "harness")
                    row, col = int((20 - y) // 2), int((x - 4) // 2)
                    bad = bad or (row, col) in hidden
            if bad:
                end = step
                break
        ends.append(end)
        require(
            len(tested) == (3 if end is None else end + 1),
            lambda: f"track {j}: {len(tested)} steps, expected to end at {end}",
        )
        error = tracks.errors[j]
        require(
            (error is None) == (end is None),
            lambda: f"track {j}: {error}, expected to end at {end}",
        )
        require(
            end is None or isinstance(error, ValueError), lambda: f"track {j}: {error!r}"
        )
        for name in ("means", "sigmas", "particles", "weights"):
            value = getattr(tracks, name)[j]
            require(
                not np.isnan(value[:end]).any(), f"track {j}: {name} before the end"
            )
            require(
                end is None or np.isnan(value[end:]).all(),
                f"track {j}: {name} after the end",
            )
    return stats(
        [(lose, hidden, j, e) for j, e in enumerate(ends)], len(log.events), ends,
        nontrivial=any(e is not None for e in ends),
    )


def patterns(n):
    return [
        c for k in range(2, n + 1) for c in itertools.combinations(range(n), k)
    ]


def trackable(obs_slots, slots, maxdt, masks):
    if slots is None:
        slots = sorted({s for o in obs_slots for s in o})
    ts = ref_parse(slots, obs_slots, maxdt)
    if ts is None:
        return False
    return all(
        any(m and any(ref_matches(s, obs_slots[o], maxdt) for s in ts) for o, m in enumerate(mask))
        for mask in masks
    )


def explore(ck):
    n = 5 if ck.thorough else 4
    pats = patterns(n)
    half = [k / 2 for k in range(2 * n - 1)]
    # Accepted times and matches
    cases = []
    small = [p for p in pats if len(p) <= 3]
    pairs = [(a, b) for a in small for b in small if a <= b]
    seqs = [s for k in (1, 2, 3) for s in itertools.product(range(n), repeat=k)]
    seqs += [s for s in itertools.combinations(half, 4)]
    for a, b in pairs:
        for k, s in enumerate(seqs):
            if not ck.thorough and (k + len(cases)) % 3:
                continue
            for maxdt in (0, 0.5, 1):
                cases.append(([a, b], s, maxdt))
    ck.sweep(parse, cases)
    # Whole runs
    masksets = [
        [(True, True), (True, False)],
        [(False, True), (True, True)],
        [(True, True)],
    ]
    forward = [s for s in pats]
    sequences = [None] + forward + [s[::-1] for s in forward]
    sequences += [(0, 0, 1, 1, 3), (3, 2, 2, 0), (0.5, 1, 2.5), (0, 0.5, 1.5, 2), (2.5, 2, 0.5)]
    cases = []
    for a in pats:
        for b in pats:
            for slots in sequences:
                for maxdt in (0, 0.5, 1):
                    if maxdt and not ck.thorough and (slots is None or len(slots) > 3):
                        continue
                    for masks in masksets:
                        if trackable((a, b), slots, maxdt, masks):
                            cases.append(([a, b], slots, maxdt, masks))
    if not ck.thorough:
        cases = [c for k, c in enumerate(cases) if k % 2 == 0 or c[2] == 0]
    ck.sweep(track, cases)
    # What is cached
    cases = [
        ((a, b), slots, maxdt, caches, ntracks)
        for k, (a, b) in enumerate(itertools.product(pats, repeat=2))
        for slots, maxdt in (((0, 1, 3), 1), ((3, 2, 0), 0.5), ((0, 2), 0), ((1, 2, 3), 0))
        for caches in itertools.product((True, False), repeat=2)
        for ntracks in (1, 2)
        if trackable((a, b), slots, maxdt, [(True, True)])
        and (ck.thorough or k % 3 == 0)
    ]
    ck.sweep(caching, cases)
    # What is returned
    base = [
        (a, b, slots, maxdt)
        for a in pats
        for b in pats
        for slots, maxdt in ((None, 0), ((0, 1, 3), 1), ((3, 2, 0), 0.5))
    ]
    cases = [
        ((a, b), slots, maxdt, masks, parallel)
        for k, (a, b, slots, maxdt) in enumerate(base)
        for masks in masksets
        for parallel in (False, len(masks))
        if trackable((a, b), slots, maxdt, masks)
        and (ck.thorough or (k % 7 == 0 and not (parallel and k % 2)))
    ]
    ck.sweep(outputs, cases)
    # Missing and hidden particles
    both = (True, True)
    cases = [
        (((step, particle, column),), hidden, mask)
        for step in range(3)
        for particle in (range(4) if ck.thorough else (0, 3))
        for column in range(6)
        for hidden in (None, ())
        for mask in (both, (True, False))
    ]
    cells = [(r, c) for r in range(8) for c in range(9)]
    cases += [((), (cell,), both) for cell in cells]
    if ck.thorough:
        cases += [
            ((), pair, both) for pair in itertools.combinations(cells[9:-9], 2)
        ]
    cases += [(((1, 2, 1),), (cell,), both) for cell in cells[9:-9]]
    ck.sweep(invalid, cases)
