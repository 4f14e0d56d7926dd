"""Keypoint matching returns the nearest descriptors, and only those allowed."""
import itertools

import cv2
import numpy as np

from mc import trackkit
from mc.core import HarnessError, require, stats
from glimpse.optimize import detect_keypoints, match_keypoints

LEVEL = "model_checking"
RULE = (
    "A case is one set of descriptors of a first image, matched to every set of "
    "descriptors of a second image (ordered, with repeats) with every combination of "
    "options and both OpenCV matchers, compared with a brute-force search in which "
    "ties may go either way; or one image with every mask. Non-trivial when there is "
    "a match."
)
ASSUMPTIONS = [
    "The mask argument of match_keypoints is that of the matcher (pairs which may match), and is explored with BFMatcher.",
]

VALUES = [0.0, 1.0, 3.0, 7.5]
RATIOS = [None, 0.29, 0.72]
DISTANCES = [None, 2.5, 6.2]


def keypoints(values, side):
    """Keypoints of one image, at distinct places."""
    points = [(3 * i + side, (1 + side) * i + 2) for i in range(len(values))]
    kps = [cv2.KeyPoint(float(x), float(y), 1.0) for x, y in points]
    if not values:
        return [], None
    descriptors = np.zeros((len(values), 4), dtype=np.float32)
    descriptors[:, 0] = values
    descriptors[:, 2] = 5
    return (kps, descriptors), points


def outcomes(a, b, pa, pb, cross, ratio, distance, ratios, allowed=None):
    """Possible results for each keypoint of the first image: None or index."""
    need = 2 if (ratio or ratios) else 1
    if len(a) < need or len(b) < need:
        return [({None}, None)] * len(a)
    d = np.abs(np.subtract.outer(a, b))
    out = []
    for i in range(len(a)):
        order = np.sort(d[i])
        r = None
        if need == 2:
            r = order[0] / order[1] if order[1] else 1.0
        best = np.nonzero(d[i] == order[0])[0]
        options = set()
        for j in best:
            ok = True
            if ratio:
                if abs(r - ratio) < 1e-6:
                    raise HarnessError("ratio at the limit")
                ok &= r < ratio
            if distance:
                length = np.hypot(pa[i][0] - pb[j][0], pa[i][1] - pb[j][1])
                if abs(length - distance) < 1e-6:
                    raise HarnessError("distance at the limit")
                ok &= length < distance
            if not ok:
                options.add(None)
                continue
            if cross:
                mutual = np.nonzero(d[:, j] == d[:, j].min())[0]
                if i not in mutual:
                    options.add(None)
                    continue
                if len(mutual) > 1:
                    options.add(None)
            options.add(int(j))
        out.append((options, r))
    return out


MATCHERS = {"flann": cv2.FlannBasedMatcher, "brute": cv2.BFMatcher, "default": None}


def compare(result, a, b, pa, pb, want, ratios, what):
    require(len(result) == (3 if ratios else 2), f"{what}: returns {len(result)} arrays")
    ua, ub = result[:2]
    require(ua.ndim == 2 and ua.shape[1] == 2 and ua.shape == ub.shape, f"{what}: shapes {ua.shape}, {ub.shape}")
    found = []
    for k in range(len(ua)):
        i, j = pa.index(tuple(ua[k])), pb.index(tuple(ub[k]))
        found.append((i, j))
        require(j in want[i][0], lambda: f"{what}: matches {i} to {j} instead of {want[i][0]}")
        if ratios:
            require(np.isclose(result[2][k], want[i][1], atol=1e-5), f"{what}: ratio {result[2][k]} of {i}: {want[i][1]}")
    firsts = [i for i, _ in found]
    require(firsts == sorted(set(firsts)), f"{what}: matches {found}")
    for i, (options, _) in enumerate(want):
        require(i in firsts or None in options, lambda: f"{what}: lost {i}, which matches {options}")
    if ratios:
        require(len(result[2]) == len(ua), f"{what}: {len(result[2])} ratios for {len(ua)} matches")
    return tuple(found)


def match(a, sizes, matcher):
    """All second images for one first image."""
    ka = keypoints(a, 0)
    pa = ka[1] or []
    ka = ka[0] if a else ka
    seen, steps = set(), 0
    for size in sizes:
        for b in itertools.product(VALUES, repeat=size):
            kb = keypoints(b, 1)
            pb = kb[1] or []
            kb = kb[0] if b else kb
            for cross, ratio, distance, ratios in itertools.product(
                (False, True), RATIOS, DISTANCES, (False, True)
            ):
                kwargs = {} if MATCHERS[matcher] is None else {"matcher": MATCHERS[matcher]()}
                # The trees of FLANN are random
                cv2.setRNGSeed(0)
                result = match_keypoints(
                    ka, kb, cross_check=cross, max_ratio=ratio, max_distance=distance, return_ratios=ratios, **kwargs
                )
                what = (
                    f"{a} to {b}, cross check {cross}, ratio {ratio}, distance {distance}, "
                    f"ratios {ratios}, {matcher}"
                )
                want = outcomes(a, b, pa, pb, cross, ratio, distance, ratios)
                seen.add(compare(result, a, b, pa, pb, want, ratios, what))
                steps += 1
    return stats(seen, steps, len(seen), len(seen) > 1, traces=steps)


def masked(a, b):
    """Every mask of the pairs which may match, with and without ratios."""
    (ka, pa), (kb, pb) = keypoints(a, 0), keypoints(b, 1)
    seen, steps = set(), 0
    d0 = np.abs(np.subtract.outer(a, b)).astype(float)
    for bits in itertools.product((0, 1), repeat=len(a) * len(b)):
        mask = np.reshape(bits, (len(a), len(b)))
        d = np.where(mask, d0, np.inf)
        for cross, ratio, ratios in itertools.product((False, True), (None, 0.62), (False, True)):
            result = match_keypoints(
                ka, kb, mask=mask, cross_check=cross, max_ratio=ratio, return_ratios=ratios, matcher=cv2.BFMatcher()
            )
            want = []
            for i in range(len(a)):
                near = np.sort(d[i][mask[i] == 1])
                r = None
                # Ratios are those of two candidates
                if len(near) < (2 if ratio or ratios else 1):
                    want.append(({None}, None))
                    continue
                if ratio or ratios:
                    r = near[0] / near[1] if near[1] else 1.0
                    if ratio and abs(r - ratio) < 1e-6:
                        raise HarnessError("ratio at the limit")
                if ratio and r >= ratio:
                    want.append(({None}, None))
                    continue
                options = set()
                for j in np.nonzero(d[i] == near[0])[0]:
                    mutual = np.nonzero(d[:, j] == d[:, j].min())[0]
                    if not cross or i in mutual:
                        options.add(int(j))
                    if cross and list(mutual) != [i]:
                        options.add(None)
                want.append((options, r))
            what = f"{a} to {b}, mask {mask.tolist()}, cross check {cross}, ratio {ratio}, ratios {ratios}"
            seen.add(compare(result, a, b, pa, pb, want, ratios, what))
            steps += 1
    return stats(seen, steps, len(seen), len(seen) > 1, traces=steps)


def scene(seed, size=(72, 64)):
    """An image with blobs of several sizes."""
    x, y = np.meshgrid(np.arange(size[0]), np.arange(size[1]))
    image = np.full(size[::-1], 90.0)
    for k in range(14):
        cx, cy = (37 * k + 11 * seed + 9) % size[0], (23 * k + 7 * seed + 5) % size[1]
        r = 2 + (k + seed) % 4
        image += (70 if k % 2 else -60) * np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / (2.0 * r * r))
    return np.clip(image, 0, 255)


def detect(seed, bits, root, kind):
    """Keypoints in masked regions, with their descriptors."""
    array = scene(seed)
    every, descriptors = detect_keypoints(array)
    h, w = array.shape
    mask = np.zeros(array.shape, dtype=bool)
    for k, bit in enumerate(bits):
        if bit:
            mask[(k // 2) * h // 2 : (k // 2 + 1) * h // 2, (k % 2) * w // 2 : (k % 2 + 1) * w // 2] = True
    before = array.copy()
    found, values = detect_keypoints(array, mask=mask.astype(kind), root=root)
    require(np.array_equal(array, before), "the image was changed")
    what = f"image {seed}, mask {bits}, root {root}"
    inside = [mask[int(k.pt[1] + 0.5), int(k.pt[0] + 0.5)] for k in every]
    want = [(k.pt, k.size, k.angle) for k, ok in zip(every, inside) if ok]
    require(
        [(k.pt, k.size, k.angle) for k in found] == want, f"{what}: {len(found)} keypoints instead of {len(want)}"
    )
    if len(want):
        expected = descriptors[inside].astype(float)
        if root:
            expected = np.sqrt(expected / expected.sum(axis=1, keepdims=True))
        require(
            values.shape == expected.shape and np.allclose(values, expected, atol=1e-4), f"{what}: other descriptors"
        )
    else:
        require(values is None or len(values) == 0, f"{what}: descriptors without keypoints")
    return stats([(seed, tuple(bits), root)], 1, len(want), len(want) > 0)


def shift(dx, dy, root, cross):
    """Features of an image moved by whole pixels are matched where they went."""
    big = scene(2, (120, 110))
    a = big[10:90, 15:100]
    b = big[10 + dy : 90 + dy, 15 + dx : 100 + dx]
    ka, kb = detect_keypoints(a, root=root), detect_keypoints(b, root=root)
    cv2.setRNGSeed(0)
    ua, ub = match_keypoints(ka, kb, cross_check=cross, max_ratio=0.7, max_distance=20)
    moved = ub - ua + (dx, dy)
    good = np.abs(moved).max(axis=1) < 0.6
    require(len(good) >= 6, f"shift {dx, dy}: {len(good)} matches")
    require(good.mean() > 0.9, lambda: f"shift {dx, dy}: {np.round(moved, 1).tolist()}")
    return stats([(dx, dy, root, cross)], 1, len(good), True)


def explore(ck):
    sizes = (0, 1, 2, 3)
    firsts = [a for n in sizes for a in itertools.product(VALUES, repeat=n)]
    if not ck.thorough:
        firsts = [a for a in firsts if len(a) < 3 or list(a) in ([0, 1, 3], [7.5, 0, 1], [1, 1, 3], [3, 7.5, 1], [0, 0, 0])]
    cases = [(a, sizes, m) for a in firsts for m in ("brute", "flann")]
    if ck.thorough:
        cases += [(a, (4,), m) for a in firsts for m in ("brute", "flann")]
    cases += [(a, (2, 3), "default") for a in [(0, 1), (7.5, 0, 1)]]
    ck.sweep(match, cases, chunk=2)
    cases = [
        (a, b)
        for a in itertools.product(VALUES[:3], repeat=2)
        for n in (2, 3)
        for b in itertools.product(VALUES, repeat=n)
        if ck.thorough or n == 2 or b[0] < 3
    ]
    ck.sweep(masked, cases, chunk=16)
    cases = [
        (seed, bits, root, kind)
        for seed in range(3)
        for bits in itertools.product((0, 1), repeat=4)
        for root in (False, True)
        for kind in ("bool", "uint8")
    ]
    ck.sweep(detect, cases, chunk=8)
    step = 1 if ck.thorough else 3
    cases = [
        (dx, dy, root, cross)
        for dx in range(-9, 10, step)
        for dy in range(-9, 10, step)
        for root in (False, True)
        for cross in (False, True)
    ]
    ck.sweep(shift, cases, chunk=8)
