"""Keypoint and match files survive restarts, crashes and any schedule."""
import copy
import datetime
import functools
import itertools
import os
import pickle

import cv2
import numpy as np
import scipy.sparse
import sharedmem

from mc import trackkit
from mc.core import REPO, Violation, require, scratch, stats
from mc.faults import Faults, child
from mc.trackkit import camera_xy
from checks.C33 import scene
from glimpse import Camera, Image
from glimpse.optimize import (
    KeypointMatcher,
    Matches,
    RotationMatches,
    RotationMatchesXY,
    RotationMatchesXYZ,
    match_keypoints,
)

# Worker processes are forked from processes which have used OpenCV
cv2.setNumThreads(1)

LEVEL = "model_checking"
RULE = (
    "A case is one state of the matcher and its files (what each image has in memory and "
    "on disk), from which one build with every combination of options is run on real "
    "images and files; or one history of builds, restarts and deletions; or one build "
    "which is killed (or refused) at every change of the file system; or one schedule of a "
    "parallel build. Non-trivial when something is built or read."
)
ASSUMPTIONS = [
    "A crash ends the process at a system call; the files of a run are not changed by others meanwhile.",
]

NAMES = ["a.png", "b-v2.png", "c.png", "d.png"]
BASES = ["a", "b-v2", "c", "d"]
SIZE = (64, 56)
KWARGS = {"A": {}, "B": {"nfeatures": 4}, "C": {"root": True, "contrastThreshold": 0.02}}


@functools.lru_cache(maxsize=None)
def pixels(i):
    """What is written in each image file (the second is in color)."""
    base = scene(0, (96, 80))[3 * i : 3 * i + SIZE[1], 4 * i : 4 * i + SIZE[0]]
    if i == 1:
        return np.dstack([base * f for f in (1.0, 0.9, 0.8)]).astype(np.uint8)
    return base.astype(np.uint8)


def gray(i):
    array = pixels(i)
    return array.mean(axis=2).astype(np.uint8) if array.ndim == 3 else array


@functools.lru_cache(maxsize=None)
def truth(i, variant, clahe=False, masked=False):
    """Keypoints of an image, straight from OpenCV."""
    array = gray(i)
    if clahe:
        array = cv2.createCLAHE(clipLimit=3).apply(array)
    kwargs = dict(KWARGS[variant])
    root = kwargs.pop("root", False)
    keypoints, descriptors = cv2.SIFT_create(**kwargs).detectAndCompute(array, mask(i) if masked else None)
    if root:
        descriptors = np.sqrt(descriptors / (descriptors.sum(axis=1, keepdims=True) + 1e-7))
    return keypoints, descriptors


def mask(i):
    out = np.zeros(SIZE[::-1], dtype=np.uint8)
    out[:, : 30 + 5 * i] = 1
    return out


def key(keypoints):
    """Comparable content of keypoints."""
    if keypoints is None:
        return None
    points = tuple((k.pt, k.size, k.angle, k.response, k.octave, k.class_id) for k in keypoints[0])
    return points, None if keypoints[1] is None else keypoints[1].tobytes()


@functools.lru_cache(maxsize=None)
def label_of(i, content):
    for variant in KWARGS:
        if key(truth(i, variant)) == content:
            return variant
    return "?"


def label(i, keypoints):
    return None if keypoints is None else label_of(i, key(keypoints))


def images(idx):
    return [
        Image(
            NAMES[i], cam=Camera(imgsz=SIZE, f=70 + i, viewdir=(i, 0, 0)), datetime=trackkit.day(i)
        )
        for i in idx
    ]


def world(n=3):
    """Write the images in the current directory."""
    for i in range(n):
        array = pixels(i)
        cv2.imwrite(NAMES[i], array[..., ::-1] if array.ndim == 3 else array)


def load(path):
    with open(path, "rb") as fp:
        return pickle.load(fp)


def dump(obj, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as fp:
        pickle.dump(obj, fp)


def disk(idx, folder="keys"):
    """Labels of keypoint files."""
    out = {}
    for i in idx:
        path = os.path.join(folder, BASES[i] + ".pkl")
        out[i] = label(i, load(path)) if os.path.exists(path) else None
    return out


def only(folder, names, what):
    found = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
    require(found == sorted(names), f"{what}: files {found} instead of {sorted(names)}")


# -- Building keypoints --


def expected_keypoints(mem, files, op):
    """The state after a build, or None if it must be refused."""
    if op.get("clear_keypoints") and not op.get("path"):
        return None
    variant, over = op["variant"], op.get("overwrite", False)
    mem, files = dict(mem), dict(files)
    for i in mem:
        has, written = mem[i], files[i] if op.get("path") else None
        if over:
            has = written = None
        if has is None:
            has = written or variant
        if op.get("path") and not written:
            files[i] = has
        mem[i] = None if op.get("clear_keypoints") else has
    return mem, files


def build_keypoints(matcher, op):
    kwargs = {k: v for k, v in op.items() if k != "variant"}
    if kwargs.get("path"):
        kwargs["path"] = "keys"
    matcher.build_keypoints(**kwargs, **KWARGS[op["variant"]])


def keypoint_ops():
    for variant in "AB":
        for path, overwrite, clear in itertools.product((False, True), repeat=3):
            yield {"variant": variant, "path": path, "overwrite": overwrite, "clear_keypoints": clear}


def step_keypoints(matcher, idx, mem, files, op, what):
    want = expected_keypoints(mem, files, op)
    arrays = [img.cam.to_array() for img in matcher.images]
    try:
        build_keypoints(matcher, op)
    except ValueError:
        require(want is None, f"{what}: {op} was refused")
        want = mem, files
    else:
        require(want is not None, f"{what}: {op} was accepted")
    mem, files = want
    got = {i: label(i, k) for i, k in zip(idx, matcher.keypoints or [None] * len(idx))}
    require(got == mem, f"{what}: {op} gives keypoints {got} instead of {mem}")
    found = disk(files)
    require(found == files, f"{what}: {op} writes {found} instead of {files}")
    only("keys", [BASES[i] + ".pkl" for i in files if files[i]], f"{what}: {op}")
    require(len(matcher.images) == len(idx), f"{what}: images")
    require(
        all(np.array_equal(a, img.cam.to_array()) for a, img in zip(arrays, matcher.images)), f"{what}: cameras changed"
    )
    require(all(img.array is None for img in matcher.images), f"{what}: {op} keeps image data")
    return mem, files


def keypoint_state(mem, files):
    """Every build from one state of memory and files."""
    idx = list(range(len(mem)))
    seen = []
    for op in keypoint_ops():
        with scratch():
            world(len(mem))
            matcher = KeypointMatcher(images(idx))
            if any(mem):
                matcher.keypoints = [v and truth(i, v) for i, v in enumerate(mem)]
            for i, v in enumerate(files):
                if v:
                    dump(truth(i, v), f"keys/{BASES[i]}.pkl")
            what = f"memory {mem}, files {files}"
            out = step_keypoints(matcher, idx, dict(enumerate(mem)), dict(enumerate(files)), op, what)
            seen.append(str(out))
    return stats(seen, len(seen), len(set(seen)), True, traces=len(seen))


HISTORY = [
    {"variant": "A"},
    {"variant": "A", "path": True},
    {"variant": "B", "path": True},
    {"variant": "B", "path": True, "overwrite": True},
    {"variant": "B", "overwrite": True},
    {"variant": "A", "path": True, "clear_keypoints": True},
    [0, 1, 2],
    [1],
    [0, 2],
    "delete",
]


def keypoint_history(ops):
    """Builds in one or several runs over any images, with files deleted between."""
    with scratch():
        world()
        idx, mem, files = [0, 1, 2], dict.fromkeys(range(3)), dict.fromkeys(range(3))
        matcher = KeypointMatcher(images(idx))
        path = []
        for k in ops:
            op = HISTORY[k]
            path.append(op)
            if op == "delete":
                if files[1]:
                    os.remove(f"keys/{BASES[1]}.pkl")
                    files[1] = None
            elif isinstance(op, list):
                idx = op
                mem = dict.fromkeys(idx)
                matcher = KeypointMatcher(images(idx))
            else:
                mem, files = step_keypoints(matcher, idx, mem, files, op, f"history {path}")
    return stats([(str(mem), str(files))], len(ops), (str(mem), str(files)), any(files.values()))


def prepared(clahe, masked, variant):
    """Masks and histogram equalization reach the detector."""
    with scratch():
        world()
        matcher = KeypointMatcher(images(range(3)), clahe={"clipLimit": 3} if clahe else False)
        masks = {"none": None, "each": [mask(i) for i in range(3)], "one": mask(1)}[masked]
        matcher.build_keypoints(masks=masks, clear_images=False, **KWARGS[variant])
        for i, k in enumerate(matcher.keypoints):
            if masked == "one":
                array = cv2.createCLAHE(clipLimit=3).apply(gray(i)) if clahe else gray(i)
                kwargs = dict(KWARGS[variant])
                root = kwargs.pop("root", False)
                want = cv2.SIFT_create(**kwargs).detectAndCompute(array, mask(1))
                if root:
                    want = want[0], np.sqrt(want[1] / (want[1].sum(axis=1, keepdims=True) + 1e-7))
            else:
                want = truth(i, variant, clahe, masked == "each")
            require(key(k) == key(want), f"clahe {clahe}, masks {masked}: other keypoints for image {i}")
        require(all(np.array_equal(img.read(), pixels(i)) for i, img in enumerate(matcher.images)), "images changed")
    return stats([(clahe, masked, variant)], 1, len(want[0]), True)


# -- Building matches --

# The default matcher (FLANN) is random
MATCHER = cv2.BFMatcher()
OPTIONS = {
    "A": {"max_ratio": 0.9, "matcher": MATCHER},
    "M": {"max_ratio": 0.8, "cross_check": True, "matcher": MATCHER},
}
FILTER = {"max_distance": 5}
TYPES = {"Matches": Matches, "R": RotationMatches, "XY": RotationMatchesXY, "XYZ": RotationMatchesXYZ}


@functools.lru_cache(maxsize=None)
def pair(i, j, variant, options, weights):
    """Coordinates and weights of the matches of two images."""
    result = match_keypoints(
        truth(i, variant), truth(j, variant), return_ratios=True, **OPTIONS[options]
    )
    return result[0], result[1], 1 / result[2] if weights else None


def match_key(m):
    return (
        tuple(uv.tobytes() for uv in m.uvs),
        tuple(len(uv) for uv in m.uvs),
        None if m.weights is None else np.asarray(m.weights).tobytes(),
    )


def content(i, j, variant, options, weights, filtered=False):
    uva, uvb, w = pair(i, j, variant, options, weights)
    if filtered:
        keep = np.hypot(*(uva - uvb).T) < FILTER["max_distance"]
        uva, uvb, w = uva[keep], uvb[keep], None if w is None else w[keep]
    return (uva.tobytes(), uvb.tobytes()), (len(uva), len(uvb)), None if w is None else w.tobytes()


def file_of(i, j):
    return f"matches/{BASES[i]}-{BASES[j]}.pkl"


def marker(i, j):
    """Matches of another run, with weights."""
    cams = [img.cam for img in images([i, j])]
    cams[0].f = 33
    uva, uvb, w = pair(i, j, "A", "M", True)
    return Matches(cams=cams, uvs=(uva, uvb), weights=w)


def check_matches(matcher, idx, pairs, contents, mtype, what):
    m = matcher.matches
    require(m.shape == (len(idx),) * 2, f"{what}: shape {m.shape}")
    got = list(zip(m.row.tolist(), m.col.tolist()))
    require(got == pairs, f"{what}: pairs {got} instead of {pairs}")
    require(len(m.data) == len(pairs), f"{what}: {len(m.data)} matches")
    for (a, b), one in zip(got, m.data):
        require(type(one) is TYPES[mtype or "Matches"], f"{what}: pair {a, b} is {type(one).__name__}")
        require(
            one.cams[0] is matcher.images[a].cam and one.cams[1] is matcher.images[b].cam,
            f"{what}: pair {a, b} has other cameras",
        )
        require(match_key(one) == contents[a, b], f"{what}: pair {a, b} has other points or weights")
        if mtype in ("XY", "XYZ"):
            for cam, uv, xy in zip(one.cams, one.uvs, one.xys):
                if len(uv):
                    require(np.allclose(camera_xy(cam, uv), xy, atol=1e-9), f"{what}: pair {a, b} has other xys")


def names(bases):
    """Pairs never share a file, or are refused."""
    idx = range(len(bases))
    with scratch():
        cams = [Camera(imgsz=SIZE, f=70 + i) for i in idx]
        files = ["/nowhere/" + base + ".png" for base in bases]
        matcher = KeypointMatcher([Image(f, cam=c, datetime=trackkit.day(0)) for f, c in zip(files, cams)])
        matcher.keypoints = [truth(i, "A") for i in idx]
        pairs = list(itertools.combinations(idx, 2))
        unique = len({f"{bases[i]}-{bases[j]}" for i, j in pairs}) == len(pairs)
        unique &= len(set(bases)) == len(bases)
        contents = {p: content(*p, "A", "A", False) for p in pairs}
        seen = []
        for again in range(2):
            try:
                matcher.build_matches(path="matches", clear_keypoints=False, **OPTIONS["A"])
            except ValueError:
                require(not unique, f"{bases}: refused")
                seen.append("refused")
                continue
            check_matches(matcher, idx, pairs, contents, None, f"{bases}, run {again}")
            seen.append("unique" if unique else "shared")
    return stats([tuple(bases)], 2, tuple(seen), not unique)


def match_state(missing, keypoint_files, existing, parallel=False):
    """Every build of matches from one state of memory and files."""
    n = 3
    idx = list(range(n))
    pairs = list(itertools.combinations(idx, 2))
    seen = []
    before = scipy.sparse.coo_matrix((n, n))
    for path, overwrite, clear_k, clear_m, weights, mtype, filtered in itertools.product(
        (None, "matches"), (False, True), (False, True), (False, True), (False, True),
        (None, "R", "XYZ") if not parallel else (None, "XY"), (False, True),
    ):
        if not path and (overwrite or any(existing)):
            continue
        options = dict(
            path=path, overwrite=overwrite, clear_keypoints=clear_k, clear_matches=clear_m,
            weights=weights, mtype=TYPES.get(mtype), filter=FILTER if filtered else None,
            keypoints_path="keys" if keypoint_files else None,
        )
        what = f"missing {missing}, keypoint files {keypoint_files}, existing {existing}, {options}"
        with scratch():
            world(n)
            matcher = KeypointMatcher(images(idx))
            memory = [None if i in missing else truth(i, "A") for i in idx]
            matcher.keypoints = list(memory)
            # Of an earlier build
            matcher.matches = before
            if keypoint_files:
                for i in keypoint_files:
                    dump(truth(i, "A"), f"keys/{BASES[i]}.pkl")
            for flag, p in zip(existing, pairs):
                if flag:
                    dump(marker(*p), file_of(*p))
            refuse = (missing and not keypoint_files) or (clear_m and not path)
            try:
                matcher.build_matches(**options, parallel=parallel, **OPTIONS["A"])
            except ValueError:
                require(refuse, f"{what}: refused")
                seen.append("refused")
                continue
            require(not refuse, f"{what}: accepted")
            contents = {}
            for flag, p in zip(existing, pairs):
                reused = flag and path and not overwrite
                if path:
                    stored = load(file_of(*p))
                    want = content(*p, "A", "M", True) if reused else content(*p, "A", "A", weights)
                    require(match_key(stored) == want, f"{what}: file of pair {p}")
                    require(type(stored) is Matches, f"{what}: file of pair {p} is {type(stored).__name__}")
                contents[p] = (
                    content(*p, "A", "M", True, filtered) if reused else content(*p, "A", "A", weights, filtered)
                )
            only("matches", [os.path.basename(file_of(*p)) for p in pairs] if path else [], what)
            if clear_m:
                require(matcher.matches is None, f"{what}: matches were kept")
            else:
                check_matches(matcher, idx, pairs, contents, mtype, what)
            for i, k in enumerate(matcher.keypoints):
                got = label(i, k)
                if clear_k:
                    require(got is None, f"{what}: keypoints {i} were kept")
                elif parallel and i in missing:
                    require(got in (None, "A"), f"{what}: keypoints {i} are {got}")
                else:
                    require(got == "A", f"{what}: keypoints {i} are {got}")
            require(disk(idx) == {i: "A" if i in (keypoint_files or ()) else None for i in idx}, f"{what}: keypoint files")
            seen.append(str(sorted(contents)) + str(clear_m))
    return stats([(tuple(missing), tuple(existing))], len(seen), len(set(seen)), True, traces=len(seen))


def two_runs(first, second, restart, flags):
    """Matches of two runs over any images are those of a single run."""
    path, overwrite, clear = flags
    with scratch():
        world(4)
        for i in range(4):
            dump(truth(i, "A"), f"keys/{BASES[i]}.pkl")
        matcher = None
        for run, (idx, options) in enumerate(((first, "A"), (second, "M"))):
            if matcher is None or restart or idx != first:
                matcher = KeypointMatcher(images(idx))
            matcher.build_matches(
                keypoints_path="keys", path="matches" if path else None, overwrite=overwrite,
                clear_matches=clear, weights=True, **OPTIONS[options]
            )
        pairs = list(itertools.combinations(range(len(second)), 2))
        what = f"images {first} then {second}, restart {restart}, {flags}"
        contents = {}
        for a, b in pairs:
            i, j = second[a], second[b]
            reused = path and not overwrite and i in first and j in first
            contents[a, b] = content(i, j, "A", "A" if reused else "M", True)
            if path:
                require(match_key(load(file_of(i, j))) == contents[a, b], f"{what}: file of {i, j}")
        if clear:
            require(matcher.matches is None, f"{what}: matches were kept")
        else:
            check_matches(matcher, second, pairs, contents, None, what)
    return stats([(tuple(first), tuple(second), restart, tuple(flags))], 2, len(pairs), len(pairs) > 0)


def missing_file(gone, needed):
    """A missing keypoint file is reported, and nothing is lost."""
    with scratch():
        world()
        for i in range(3):
            if i != gone:
                dump(truth(i, "A"), f"keys/{BASES[i]}.pkl")
        matcher = KeypointMatcher(images(range(3)))
        what = f"keypoint file {gone} missing"
        try:
            matcher.build_matches(keypoints_path="keys", path="matches", **OPTIONS["A"])
        except FileNotFoundError:
            pass
        else:
            raise Violation(f"{what}: not reported")
        dump(truth(gone, "A"), f"keys/{BASES[gone]}.pkl")
        matcher.build_matches(keypoints_path="keys", path="matches", **OPTIONS["A"])
        pairs = list(itertools.combinations(range(3), 2))
        check_matches(matcher, range(3), pairs, {p: content(*p, "A", "A", False) for p in pairs}, None, what)
    return stats([gone], 2, gone, True)


# -- Which pairs --


def selection(times):
    """Every selection of pairs of images."""
    n = len(times)
    start = datetime.datetime(2020, 1, 1)
    cams = [Camera(imgsz=SIZE, f=70) for _ in times]
    seen, steps = set(), 0
    matcher = KeypointMatcher(
        [Image(f"/nowhere/{i}.png", cam=cams[i], datetime=start + datetime.timedelta(hours=t)) for i, t in enumerate(times)]
    )
    for maxdt in (None, 0, 1, 2.5, 100):
        for seq in (None, [], [1], [0, 2], [-1, 2, 1], [-1, 2], [-2, -1], [3, 1, 3], np.array([2]), [9]):
            for imgs in (None, [0], [n - 1, 1], [], list(range(n)), np.array([1])):
                for clear in (False, True):
                    matcher.keypoints = [([], None)] * n
                    matcher.build_matches(
                        maxdt=None if maxdt is None else datetime.timedelta(hours=maxdt), seq=seq, imgs=imgs,
                        clear_keypoints=clear,
                    )
                    want = []
                    for i, j in itertools.combinations(range(n), 2):
                        near = maxdt is not None and times[j] - times[i] <= maxdt
                        if maxdt is None and seq is None:
                            near = True
                        if seq is not None and (j - i) in list(seq):
                            near = True
                        if near and (imgs is None or i in list(imgs) or j in list(imgs)):
                            want.append((i, j))
                    what = f"times {times}, maxdt {maxdt}, seq {seq}, imgs {imgs}"
                    empty = np.zeros((0, 2))
                    blank = match_key(Matches(cams=cams[:2], uvs=(empty, empty)))
                    check_matches(matcher, range(n), want, dict.fromkeys(want, blank), None, what)
                    seen.add(tuple(want))
                    steps += 1
    return stats(seen, steps, len(seen), len(seen) > 1, traces=steps)


# -- Crashes --

CRASHES = {
    # build, files before, options of the second run
    "keypoints": ("keypoints", None, {"variant": "A", "path": True}, {}),
    "keypoints cleared": ("keypoints", None, {"variant": "A", "path": True, "clear_keypoints": True}, {}),
    "keypoints overwritten": ("keypoints", "B", {"variant": "A", "path": True, "overwrite": True}, {}),
    "some keypoints": ("keypoints", "some", {"variant": "A", "path": True}, {}),
    "written from memory": ("keypoints", "memory", {"variant": "B", "path": True}, {}),
    "matches": ("matches", None, {}, {}),
    "matches cleared": ("matches", None, {"clear_matches": True}, {}),
    "matches overwritten": ("matches", "M", {"overwrite": True}, {}),
    "some matches": ("matches", "some", {}, {}),
}


def ordered(times):
    """Images are accepted in temporal order, and only then."""
    start = datetime.datetime(2020, 1, 1)
    imgs = [
        Image(f"/nowhere/{i}.png", cam=Camera(imgsz=SIZE, f=70), datetime=start + datetime.timedelta(seconds=t))
        for i, t in enumerate(times)
    ]
    try:
        matcher = KeypointMatcher(imgs)
    except ValueError:
        accepted = False
    else:
        accepted = True
        require(list(matcher.images) == imgs, f"{times}: other images")
    require(accepted == (list(times) == sorted(times)), f"{times}: {'accepted' if accepted else 'refused'}")
    return stats([tuple(times)], 1, accepted, len(times) > 1)


def premature(call, built):
    """Steps which need an earlier one, or somewhere to write, are refused, and change nothing."""
    n = 3
    with scratch():
        world(n)
        with open("file", "w") as fp:
            fp.write("text")
        matcher = KeypointMatcher(images(range(n)))
        if built:
            matcher.keypoints = [truth(i, "A") for i in range(n)]
        calls = {
            "keypoints in file": lambda: matcher.build_keypoints(path="file"),
            "keypoints in file overwriting": lambda: matcher.build_keypoints(path="file", overwrite=True),
            "keypoints nowhere": lambda: matcher.build_keypoints(clear_keypoints=True),
            "matches in file": lambda: matcher.build_matches(path="file"),
            "matches in file overwriting": lambda: matcher.build_matches(path="file", overwrite=True),
            "matches nowhere": lambda: matcher.build_matches(clear_matches=True),
            "convert": lambda: matcher.convert_matches(TYPES["R"]),
            "filter": lambda: matcher.filter_matches(max_ratio=0.5),
            "per image": lambda: matcher.matches_per_image(),
            "images": lambda: matcher.images_per_image(),
            "drop": lambda: matcher.drop_images([0]),
            "breaks": lambda: matcher.match_breaks(),
        }
        what = f"{call}, keypoints {'built' if built else 'missing'}"
        listing = sorted(os.listdir("."))
        try:
            calls[call]()
        except ValueError:
            pass
        else:
            raise Violation(f"{what}: accepted")
        require(sorted(os.listdir(".")) == listing, f"{what}: {sorted(os.listdir('.'))}")
        with open("file") as fp:
            require(fp.read() == "text", f"{what}: wrote in the file")
        require(len(matcher.images) == n and matcher.matches is None, f"{what}: changed images or matches")
        require([label(i, k) for i, k in enumerate(matcher.keypoints or [None] * n)] == ["A" if built else None] * n, f"{what}: keypoints")
    return stats([(call, built)], 1, "refused", True)


PREMATURE = (
    "keypoints in file", "keypoints in file overwriting", "keypoints nowhere", "matches in file",
    "matches in file overwriting", "matches nowhere", "convert", "filter", "per image", "images", "drop", "breaks",
)


def crash(name, error):
    """A build which ends anywhere is completed by the next one."""
    kind, before, op, _ = CRASHES[name]
    idx = [0, 1, 2]
    pairs = list(itertools.combinations(idx, 2))

    def prepare():
        world()
        if kind == "keypoints":
            for i in idx:
                if before == "B" or (before == "some" and i == 1):
                    dump(truth(i, "B"), f"keys/{BASES[i]}.pkl")
            matcher = KeypointMatcher(images(idx))
            if before == "memory":
                matcher.keypoints = [truth(i, "A") for i in idx]
            return matcher
        for i in idx:
            dump(truth(i, "A"), f"keys/{BASES[i]}.pkl")
        for p in pairs:
            if before == "M" or (before == "some" and p == (0, 2)):
                dump(marker(*p), file_of(*p))
        return KeypointMatcher(images(idx))

    def build(matcher):
        if kind == "keypoints":
            build_keypoints(matcher, op)
        else:
            matcher.build_matches(keypoints_path="keys", path="matches", weights=True, **op, **OPTIONS["A"])

    def files():
        if kind == "keypoints":
            return {i: f"keys/{BASES[i]}.pkl" for i in idx}
        return {p: file_of(*p) for p in pairs}

    def old(k):
        if kind == "keypoints":
            return "B" if before == "B" or (before == "some" and k == 1) else None
        return content(*k, "A", "M", True) if before == "M" or (before == "some" and k == (0, 2)) else None

    def new(k):
        if before == "some" and old(k):
            return old(k)
        return "A" if kind == "keypoints" else content(*k, "A", "A", True)

    def found(k, path):
        if not os.path.exists(path):
            return None
        return label(k, load(path)) if kind == "keypoints" else match_key(load(path))

    with scratch() as d:
        matcher = prepare()
        how, events, raised = child(lambda: build(matcher), Faults(d))
        require(how == "done" and not raised, f"{name}: failed: {raised}")
        sizes = []
        for k, path in files().items():
            require(found(k, path) == new(k), f"{name}: wrong content of {path}")
            sizes.append(os.path.getsize(path))
    limits = sorted({0, 1, min(sizes) // 2, min(sizes) - 1})
    points = [(k, None) for k in range(len(events))] + [
        (k, limit) for k, e in enumerate(events) if e == "open" for limit in limits
    ]
    seen = []
    for point, limit in points:
        with scratch() as d:
            matcher = prepare()
            faults = Faults(d, stop=point, limit=limit, error=error)

            def run():
                try:
                    build(matcher)
                except OSError:
                    if not error:
                        raise
                    # Try again with the same matcher
                    faults.clear()
                    build(matcher)
                    if kind == "keypoints" and not op.get("clear_keypoints"):
                        got = [label(i, k) for i, k in enumerate(matcher.keypoints)]
                        if got != [new(i) for i in idx]:
                            raise RuntimeError
                    if kind == "matches" and not op.get("clear_matches"):
                        got = [match_key(m) for m in matcher.matches.data]
                        if got != [new(p) for p in pairs]:
                            raise RuntimeError

            how, _, raised = child(run, faults)
            where = f"{name} {'failed' if error else 'killed'} at operation {point}" + (
                "" if limit is None else f" after {limit} bytes"
            )
            require(not raised, f"{where}: then {raised} in the same process")
            for k, path in files().items():
                try:
                    state = found(k, path)
                except Exception as e:
                    raise Violation(f"{where}: {path} is incomplete: {e!r}")
                require(state in (old(k), new(k)), f"{where}: {path} has other content")
                seen.append((k, state == new(k)))
            if error:
                require(how == "done", f"{where}: did not complete")
            # The next run
            matcher = KeypointMatcher(images(idx))
            if before == "memory":
                matcher.keypoints = [truth(i, "A") for i in idx]
            build(matcher)
            for k, path in files().items():
                require(found(k, path) == new(k), f"{where}: {path} has other content after the next run")
            if kind == "keypoints" and not op.get("clear_keypoints"):
                got = [label(i, k) for i, k in enumerate(matcher.keypoints)]
                require(got == [new(i) for i in idx], f"{where}: the next run gives {got}")
            elif kind == "matches" and not op.get("clear_matches"):
                check_matches(matcher, idx, pairs, {p: new(p) for p in pairs}, None, where)
    return stats(seen, len(points), len(set(seen)), True, traces=len(points))


# -- Schedules --

PROGRAMS = {
    "keypoints": [("keypoints", {"variant": "A"})],
    "keypoints on disk": [("keypoints", {"variant": "A", "path": True, "clear_keypoints": True})],
    "existing keypoints": [("keypoints", {"variant": "B", "path": True}), ("keypoints", {"variant": "A"})],
    "both": [("keypoints", {"variant": "A"}), ("matches", {"clear_keypoints": True, "weights": True})],
    "both on disk": [
        ("keypoints", {"variant": "A", "path": True, "clear_keypoints": True}),
        ("matches", {"keypoints_path": "keys", "path": "matches"}),
        ("matches", {"keypoints_path": "keys", "path": "matches", "mtype": RotationMatchesXYZ}),
    ],
    "kept": [
        ("keypoints", {"variant": "A", "path": True}),
        ("matches", {"keypoints_path": "keys", "clear_keypoints": False, "mtype": RotationMatches, "filter": FILTER}),
    ],
    "cleared": [
        ("keypoints", {"variant": "A", "path": True}),
        ("matches", {"path": "matches", "clear_matches": True}),
        ("keypoints", {"variant": "A", "path": True}),
        ("matches", {"path": "matches", "overwrite": True, "weights": True}),
    ],
    "sequence": [("keypoints", {"variant": "A"}), ("matches", {"seq": [1], "filter": FILTER})],
}


def execute(name, n, parallel):
    """Run a program. Returns everything observable."""
    with scratch():
        world(n)
        matcher = KeypointMatcher(images(range(n)))
        out = []
        for kind, op in PROGRAMS[name]:
            op = copy.copy(op)
            if kind == "keypoints":
                build_keypoints(matcher, {**op, "parallel": parallel})
                out.append([label(i, k) for i, k in enumerate(matcher.keypoints)])
            else:
                matcher.build_matches(parallel=parallel, **op, **OPTIONS["A"])
                m = matcher.matches
                if m is None:
                    out.append(None)
                else:
                    require(
                        all(
                            one.cams[0] is matcher.images[i].cam and one.cams[1] is matcher.images[j].cam
                            for one, i, j in zip(m.data, m.row, m.col)
                        ),
                        f"{name}: matches have other cameras",
                    )
                    out.append(
                        (m.shape, m.row.tolist(), m.col.tolist(), [(type(x).__name__, match_key(x)) for x in m.data])
                    )
                if op.get("clear_keypoints", True):
                    out.append([k is None for k in matcher.keypoints])
        for folder in ("keys", "matches"):
            for file in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
                data = load(os.path.join(folder, file))
                out.append((file, match_key(data) if isinstance(data, Matches) else key(data)))
    return out


@functools.lru_cache(maxsize=None)
def serially(name, n):
    return execute(name, n, False)


def differ(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"result {k}: {str(x)[:200]} instead of {str(y)[:200]}"
    return f"{len(a)} results instead of {len(b)}"


def schedule(name, n, assignment, order):
    factory = lambda np=None, **kw: trackkit.PermutedPool(np, assignment, order)
    with trackkit.backend(factory):
        got = execute(name, n, max(assignment) + 1)
    want = serially(name, n)
    require(got == want, lambda: f"{name}, workers {assignment}, order {order}: {differ(got, want)}")
    return stats([(name, tuple(assignment), tuple(order))], len(order), name, len(set(assignment)) > 1)


def library(name, kind, workers):
    factory = {"process": sharedmem.MapReduce, "thread": sharedmem.MapReduceByThread}[kind]
    with trackkit.backend(factory):
        got = execute(name, 3, workers)
    want = serially(name, 3)
    require(got == want, lambda: f"{name}, {workers} {kind} workers: {differ(got, want)}")
    return stats([(name, kind, workers)], 1, name, True)


def threads(name, n, workers, plan):
    scheduler = trackkit.Scheduler(plan)
    trace = trackkit.line_tracer(scheduler, f"{REPO}/src/glimpse/optimize.py")
    factory = functools.partial(trackkit.ThreadPool, scheduler=scheduler, trace=trace)
    # Only the build of matches, whose tasks share keypoints
    with scratch():
        world(n)
        matcher = KeypointMatcher(images(range(n)))
        matcher.keypoints = [truth(i, "A") for i in range(n)]
        options = {"memory": {}, "files": {"keypoints_path": "keys"}, "kept": {"clear_keypoints": False}, "written": {"path": "matches", "keypoints_path": "keys"}}[name]
        if name in ("files", "written"):
            for i in range(n):
                dump(truth(i, "A"), f"keys/{BASES[i]}.pkl")
            matcher.keypoints = None
        with trackkit.backend(factory):
            matcher.build_matches(parallel=workers, **options, **OPTIONS["A"])
        pairs = list(itertools.combinations(range(n), 2))
        what = f"{name} in {workers} threads, schedule {plan}"
        check_matches(matcher, range(n), pairs, {p: content(*p, "A", "A", False) for p in pairs}, None, what)
        got = [label(i, k) for i, k in enumerate(matcher.keypoints)]
        require(got == ["A" if name == "kept" else None] * n, f"{what}: keypoints {got}")
    require(scheduler.used == set(scheduler.schedule), "schedule was not followed")
    return scheduler


def first_deviations(name, n, workers, keep):
    scheduler = threads(name, n, workers, {})
    for k, (running, enabled) in enumerate(scheduler.points):
        default = running if running is not None else enabled[0]
        keep.extend((k, t) for t in enabled if t != default)
    return stats([name], len(scheduler.points), name)


def interleave(name, n, workers, plan, more):
    states, steps, traces = set(), 0, 0

    def go(plan, budget):
        nonlocal steps, traces
        scheduler = threads(name, n, workers, plan)
        steps += len(scheduler.points)
        traces += 1
        states.add(tuple(sorted(plan.items())))
        if not budget:
            return
        for k in range(max(plan, default=-1) + 1, len(scheduler.points)):
            running, enabled = scheduler.points[k]
            default = running if running is not None else enabled[0]
            for tid in enabled:
                if tid != default:
                    go({**plan, k: tid}, budget - 1)

    go({int(k): v for k, v in plan.items()}, more)
    return stats(states, steps, name, True, traces)


def explore(ck):
    orders = [t for n in range(1, 5) for t in itertools.product(range(3), repeat=n)]
    ck.sweep(ordered, [(t,) for t in orders], chunk=16)
    for call in PREMATURE:
        for built in (False, True):
            ck.run(premature, call, built)
    labels = (None, "A", "B")
    n = 2
    cases = [
        (list(mem), list(files))
        for mem in itertools.product(labels, repeat=n)
        for files in itertools.product(labels, repeat=n)
    ]
    ck.sweep(keypoint_state, cases, chunk=2)
    depth = 4 if ck.thorough else 3
    ck.sweep(keypoint_history, [(list(ops),) for ops in itertools.product(range(len(HISTORY)), repeat=depth)], chunk=32)
    for clahe in (False, True):
        for masked in ("none", "each", "one"):
            for variant in KWARGS:
                ck.run(prepared, clahe, masked, variant)
    cases = [
        (missing, files, list(existing), parallel)
        for missing in ([], [0], [2], [0, 1, 2])
        for files in ([], [0, 1, 2])
        for existing in itertools.product((False, True), repeat=3)
        for parallel in (False, 2)
        if not parallel or (ck.thorough or (missing in ([], [0, 1, 2]) and sum(existing) < 2))
    ]
    ck.sweep(match_state, [c for c in cases if not c[3]], chunk=1, timeout=120)
    ck.sweep(match_state_parallel, [c[:3] for c in cases if c[3]], chunk=1, timeout=300)
    ck.sweep(
        names,
        [
            (list(bases),)
            for n in (2, 3, 4)
            for bases in itertools.permutations(("x", "x-y", "y-z", "z", "y", "x"), n)
        ],
        chunk=16,
    )
    subsets = [[0, 1, 2], [0, 1], [1, 2], [0, 2], [2]]
    flags = [(p, o, c) for p in (False, True) for o in (False, True) for c in (False, True) if p or not (o or c)]
    cases = [
        (a, b, restart, f) for a in subsets for b in subsets + [[0, 1, 2, 3]] for restart in (False, True) for f in flags
    ]
    ck.sweep(two_runs, cases, chunk=8)
    for gone in range(3):
        ck.run(missing_file, gone, True)
    grid = (0, 0.5, 1, 2.5, 5)
    cases = [
        (list(times),)
        for size in ((2, 3, 4) if not ck.thorough else (2, 3, 4, 5))
        for times in itertools.combinations_with_replacement(grid, size)
        if times[0] == 0
    ]
    ck.sweep(selection, cases, chunk=1, timeout=300)
    ck.sweep(crash, [(name, error) for name in CRASHES for error in (False, True)], chunk=1, timeout=600)
    cases = [
        (name, n, a, o)
        for name in PROGRAMS
        for n in ((3,) if not ck.thorough else (3, 4))
        for w in range(1, n + 1)
        for a in trackkit.assignments(n, w)
        if max(a) + 1 == w
        for o in trackkit.completion_orders(a)
    ]
    ck.sweep(schedule, cases, chunk=4)
    for name in PROGRAMS:
        for kind in ("process", "thread"):
            ck.run(library, name, kind, 2, timeout=120)
    plans = [
        (name, 3, workers, more)
        for name in ("memory", "files", "kept", "written")
        for workers, more in (((2, 0), (3, 0)) if not ck.thorough else ((2, 1), (3, 0)))
    ]
    for name, n, workers, more in plans:
        first = []
        ck.run(first_deviations, name, n, workers, first, timeout=300)
        ck.sweep(interleave, [(name, n, workers, {k: t}, more) for k, t in first], chunk=4, timeout=3000)


def match_state_parallel(missing, files, existing):
    """Every build of matches from one state, in worker processes."""
    factory = lambda np=None, **kw: trackkit.PermutedPool(np, [0, 1, 0], [1, 0, 2])
    with trackkit.backend(factory):
        return match_state(missing, files, existing, 2)
