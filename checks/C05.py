"""Time matching and selection pick the right images."""
import datetime
import itertools
import os
import time

import numpy as np

from mc.core import require, stats
from glimpse import Observer, Raster, Tracker
from glimpse import helpers

LEVEL = "model_checking"
RULE = (
    "A case is one pattern of image times with all its queries (constructor order, "
    "index lookups, subsets, snapping, splits), compared with list-comprehension "
    "references; non-trivial when some image is excluded or some query falls between "
    "images."
)
ASSUMPTIONS = [
    "Whole-second slots plus thirds of a second; ties between equally near images accept "
    "either image."
]

BASE = datetime.datetime(2020, 3, 1, 12)
SEC = datetime.timedelta(seconds=1)


def at(s, base=BASE):
    return base + s * SEC


def make(slots, base=BASE, **kwargs):
    images = [
        Raster(np.full((2, 2), float(7)), datetime=at(s, base)) for s in slots
    ]
    return Observer(images, **kwargs), images


def construct(slots):
    """Accepted exactly when two or more images strictly increase in time."""
    images = [
        Raster([[0.0]], datetime=None if s is None else at(s)) for s in slots
    ]
    valid = (
        len(slots) >= 2
        and None not in slots
        and all(b > a for a, b in zip(slots, slots[1:]))
    )
    try:
        obs = Observer(images, sigma=0.5, cache=False)
    except ValueError:
        obs = None
    require((obs is not None) == valid, f"times {slots}: accepted {obs is not None}")
    if obs is not None:
        require(list(obs.datetimes) == [at(s) for s in slots], "datetimes")
        require(all(a is b for a, b in zip(obs.images, images)), "images")
    return stats([tuple(slots)], 1, valid, valid)


def index(slots):
    """Lookups by image and by time."""
    obs, images = make(slots)
    for i, img in enumerate(images):
        got = obs.index(img)
        require(got == i, f"image {i} of {slots} found at {got}")
    other = Raster([[1.0, 2.0]], datetime=at(0))
    try:
        obs.index(other)
        require(False, "found an image which is not there")
    except ValueError:
        pass
    n = 0
    found = []
    for q in [k / 2 for k in range(-4, 2 * max(slots) + 5)]:
        near = min(abs(q - s) for s in slots)
        best = [k for k, s in enumerate(slots) if abs(q - s) == near]
        for maxdt in (None, 0, 0.5, 1, -1, 2):
            dt = None if maxdt is None else maxdt * SEC
            allowed = maxdt is None or near <= abs(maxdt)
            n += 1
            try:
                got = obs.index(at(q), maxdt=dt)
            except ValueError:
                got = None
            require(
                (got in best) if allowed else (got is None),
                f"time {q} in {slots}, maxdt {maxdt}: {got}, expected {best if allowed else None}",
            )
            found.append(got)
    return stats([(tuple(slots), f) for f in set(found)], n, (slots, found))


def subset(slots):
    """Start and end are inclusive; images, order and settings are kept."""
    obs, images = make(slots, sigma=0.25, cache=False)
    ends = [None] + [k / 2 for k in range(-1, 2 * max(slots) + 3)]
    n = 0
    for a, b in itertools.product(ends, repeat=2):
        kwargs = {}
        if a is not None:
            kwargs["start"] = at(a)
        if b is not None:
            kwargs["end"] = at(b)
        keep = [
            k
            for k, s in enumerate(slots)
            if (a is None or s >= a) and (b is None or s <= b)
        ]
        n += 1
        lo = slots[0] if a is None else a
        hi = slots[-1] if b is None else b
        try:
            mask = helpers.select_datetimes(obs.datetimes, **kwargs)
        except ValueError:
            require(lo > hi, f"refused {a}..{b} of {slots}")
            continue
        require(lo <= hi, f"accepted {a}..{b} of {slots}")
        require(
            list(np.flatnonzero(mask)) == keep and len(mask) == len(slots),
            f"{a}..{b} of {slots} selected {mask}",
        )
        try:
            got = obs.subset(**kwargs)
        except ValueError:
            got = None
        require((got is not None) == (len(keep) >= 2), f"subset {a}..{b} of {slots}")
        if got is not None:
            require(
                len(got.images) == len(keep)
                and all(img is images[k] for img, k in zip(got.images, keep)),
                f"subset {a}..{b} of {slots}",
            )
            require(got.sigma == 0.25 and got.cache is False, "settings lost")
            require(len(obs.images) == len(slots), "the original changed")
    return stats([tuple(slots)], n, slots)


def snap(slots, step, maxdt, origin):
    """Images nearest to a regular timeline, within the maximum distance."""
    times = [at(s) for s in slots]
    n = 0
    outcomes = []
    for a, b in [(None, None), (0, None), (None, 4), (1, 3), (0.5, 4.5), (2, 2)]:
        kwargs = {"snap": step * SEC, "origin": at(origin)}
        if maxdt is not None:
            kwargs["maxdt"] = maxdt * SEC
        if a is not None:
            kwargs["start"] = at(a)
        if b is not None:
            kwargs["end"] = at(b)
        lo = slots[0] - step if a is None else a
        hi = slots[-1] + step if b is None else b
        n += 1
        try:
            mask = helpers.select_datetimes(times, **kwargs)
        except ValueError:
            require(lo > hi, f"refused {a}..{b} of {slots}")
            continue
        require(lo <= hi, f"accepted {a}..{b} of {slots}")
        got = set(np.flatnonzero(mask))
        limit = step / 2 if maxdt is None else maxdt
        inside = {
            k
            for k, s in enumerate(slots)
            if (a is None or s >= a) and (b is None or s <= b)
        }
        k0 = int(np.floor((lo - origin) / step)) - 1
        allowed = set()
        for k in range(k0, k0 + int((hi - lo) / step) + 5):
            t = origin + k * step
            if not (lo - 1e-9 <= t <= hi + 1e-9):
                continue
            near = min(abs(t - s) for s in slots)
            if near > limit + 1e-9:
                continue
            best = {k for k, s in enumerate(slots) if abs(abs(t - s) - near) < 1e-9}
            allowed |= best
            require(
                (best & got) or not (best <= inside),
                f"images {slots}, every {step} s from {origin}, within {limit}, "
                f"{a}..{b}: nothing selected at {t}: {sorted(got)}",
            )
        require(
            got <= (allowed & inside),
            f"images {slots}, every {step} s from {origin}, within {limit}, {a}..{b}: "
            f"selected {sorted(got)}, allowed {sorted(allowed & inside)}",
        )
        outcomes.append(tuple(sorted(got)))
    return stats([(tuple(slots), o) for o in outcomes], n, outcomes)


def ref_split(slots, breaks, overlap):
    """Indices of the images of each part, or None if a part is too small."""
    parts = []
    start = None
    for b in breaks[1:]:
        lo = breaks[0] if start is None else start
        part = [k for k, s in enumerate(slots) if lo <= s <= b] if overlap or start is None else [
            k for k, s in enumerate(slots) if lo < s <= b
        ]
        if len(part) < 2:
            return None
        parts.append(part)
        start = slots[part[-min(overlap, len(part))]] if overlap else slots[part[-1]]
    return parts


def split(slots, n, overlap):
    """Parts cover all images in order, overlapping by the requested number."""
    # Offsets in thirds of a second make interval lengths which do not divide evenly
    obs, images = make(slots, sigma=0.25, cache=False)
    if isinstance(n, int):
        total = slots[-1] - slots[0]
        breaks = [slots[0] + total * k / n for k in range(n)] + [slots[-1]]
        # A break within a microsecond of an image may fall on either side
        if any(0 < abs(b - s) < 2e-6 for b in breaks for s in slots):
            return stats(nontrivial=False)
        arg = n
    else:
        breaks = sorted({slots[0], slots[-1], *n})
        arg = [at(s) for s in n]
    expected = ref_split(slots, breaks, overlap)
    try:
        parts = obs.split(arg, overlap=overlap)
    except ValueError:
        parts = None
    if expected is None:
        require(parts is None, f"{slots} split at {breaks}: a part is too small")
        return stats([(tuple(slots), None)], 1, None, False)
    require(parts is not None, f"{slots} split at {breaks}: refused")
    got = [
        [next(k for k, img in enumerate(images) if img is x) for x in p.images]
        for p in parts
    ]
    require(
        got == expected, f"{slots} split by {n}, overlap {overlap}: {got} not {expected}"
    )
    covered = sorted({k for p in got for k in p})
    require(covered == list(range(len(slots))), f"images lost: {got}")
    require(all(p.sigma == 0.25 and p.cache is False for p in parts), "settings lost")
    return stats([(tuple(slots), tuple(map(tuple, got)))], len(got), got)


def timezone(tz, base, slots, maxdt):
    """Image clocks do not follow the time zone of the computer."""
    base = datetime.datetime(*base)
    saved = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        step = 900
        times = [base + s * step * SEC for s in slots]
        obs = Observer([Raster([[0.0]], datetime=t) for t in times])
        queries = [base + s * step * SEC for s in range(max(slots) + 1)]
        match = Tracker([obs]).match_datetimes(queries, maxdt=maxdt * step * SEC)
        dist = helpers.pairwise_distance_datetimes(queries, times)
    finally:
        if saved is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = saved
        time.tzset()
    for q in range(max(slots) + 1):
        near = min(abs(q - s) for s in slots)
        best = [k for k, s in enumerate(slots) if abs(q - s) == near]
        for k, s in enumerate(slots):
            require(
                dist[q, k] == abs(q - s) * step,
                f"{tz}: {queries[q]} to {times[k]} is {dist[q, k]} s",
            )
        require(
            match[q, 0] in best if near <= maxdt else match[q, 0] is None,
            f"{tz}: {queries[q]} matched image {match[q, 0]}, expected {best}",
        )
    return stats([(tz, tuple(slots))], len(queries), match.tolist())


def nearest(x, y):
    """Nearest neighbours in a sorted list, of any length."""
    got = helpers.sorted_nearest(np.array(x), np.array(y))
    require(got.shape == (len(y),), "shape")
    for k, q in enumerate(y):
        near = min(abs(q - v) for v in x)
        require(
            0 <= got[k] < len(x) and abs(x[got[k]] - q) == near,
            f"nearest to {q} in {x}: index {got[k]}",
        )
    return stats([tuple(x)], len(y), got.tolist())


def explore(ck):
    top = 7 if ck.thorough else 6
    alphabet = (None, 0, 1, 2)
    ck.sweep(
        construct,
        [(s,) for n in range(5) for s in itertools.product(alphabet, repeat=n)],
    )
    pats = [
        p for k in range(2, top + 1) for p in itertools.combinations(range(top), k)
    ]
    ck.sweep(index, [(p,) for p in pats])
    ck.sweep(subset, [(p,) for p in pats])
    singles = [(k,) for k in range(3)]
    ck.sweep(
        snap,
        [
            (p, step, maxdt, origin)
            for p in pats + singles
            for step in (1, 2, 3, 1.5)
            for maxdt in (None, 0, 0.5, 1)
            for origin in ((0, 0.5, -7) if ck.thorough else (0, -6.5))
        ],
    )
    thirds = [0, 1, 4 / 3, 2, 8 / 3, 3, 5] + ([6, 19 / 3] if ck.thorough else [])
    thirds = [round(t, 6) for t in thirds]
    uneven = [
        p for k in range(2, len(thirds) + 1) for p in itertools.combinations(thirds, k)
    ]
    cases = [
        (p, n, overlap)
        for p in uneven + pats
        for n in (1, 2, 3, 4)
        for overlap in (0, 1, 2, 3)
    ]
    for p in pats:
        inner = [k / 2 for k in range(2 * p[0] + 1, 2 * p[-1])]
        for k in range(0, 3):
            for b in itertools.combinations(inner, k):
                if ck.thorough or sum(b) % 1 == 0:
                    cases += [(p, list(b), overlap) for overlap in (0, 1, 2)]
                    if k:
                        # In any order, repeated, with the ends
                        cases += [
                            (p, v, (0, 1, 2)[len(cases) % 3])
                            for v in (list(b)[::-1], list(b) * 2, [p[-1], *b], [*b, p[0], p[-1]])
                        ]
    ck.sweep(split, cases)
    zones = ["UTC0", "AKST9AKDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3"]
    bases = [(2020, 3, 8, 1, 0), (2020, 11, 1, 0, 30), (2020, 3, 29, 1, 30), (2020, 10, 25, 1, 0)]
    ck.sweep(
        timezone,
        [
            (z, b, p, m)
            for z in zones
            for b in bases
            for p in itertools.combinations(range(9), 3)
            for m in (0, 1)
        ],
    )
    ck.sweep(
        nearest,
        [
            (x, [k / 4 for k in range(-4, 25)])
            for n in range(1, 5)
            for x in itertools.combinations(range(6), n)
        ],
    )
