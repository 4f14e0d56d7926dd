"""Lists, names, ranges and scales are completed as documented."""
import datetime
import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.core import Violation, require, stats
from glimpse import Camera, helpers
from glimpse.optimize import Cameras, Lines, Matches, Points, RotationMatches

LEVEL = "model_checking"
RULE = (
    "A case is one argument list of a helper function, and its result is compared with "
    "the documented one. Non-trivial when the result differs from the argument."
)
ASSUMPTIONS = ["Only the documented kinds of arguments are given."]

# ---- lists ----

KINDS = {
    "list": list,
    "tuple": tuple,
    "array": np.array,
    "iterator": iter,
    "set": None,
}


def lists(values, kind, length, default, dtype):
    """Lists are cut, padded or repeated to a length."""
    dtype = {"int": int, "str": str, "bool": bool, "float": float, None: None}[dtype]
    what = f"format_list({kind} {values}, {length}, {default}, {dtype})"
    if kind == "scalar":
        given = values[0]
    elif kind == "none":
        given = None
    else:
        given = KINDS[kind](values)
    try:
        got = helpers.format_list(given, length=length, default=default, dtype=dtype)
    except ValueError as e:
        if "multiple" not in str(e):
            raise
        got = "refused"
    if kind == "list":
        require(given == values, f"{what}: changed its argument to {given}")
    if kind == "none":
        want = None
    else:
        want = list(values)
        if length and len(want) > length:
            want = want[:length]
        elif length and len(want) < length and default is not None:
            want += [default] * (length - len(want))
        elif length and want and len(want) < length:
            want = "refused" if length % len(want) else want * (length // len(want))
        if dtype and want != "refused":
            want = [dtype(v) for v in want]
    require(type(got) is type(want) and got == want, f"{what}: {got}, not {want}")
    if dtype and isinstance(got, list):
        require(all(type(v) is dtype for v in got), f"{what}: {got}")
    return stats([what], 1, str(got), got != values)


# ---- names ----


def names(text, count):
    """The name of a path without its directories and up to some of its extensions."""
    got = helpers.strip_path(text, extensions=count)
    name = text.split("/")[-1]
    for _ in range({True: 99, False: 0}.get(count, count) if isinstance(count, bool) else count):
        if "." in name:
            name = name[: name.rindex(".")]
    require(got == name, f"{text!r} without {count} extensions: {got!r}, not {name!r}")
    return stats([(text, count)], 1, got, got != text)


# ---- datetimes ----

T0 = datetime.datetime(2020, 2, 28, 23, 59, 59, 500000)


def ranges(span, step, unit):
    """Datetimes from start to stop, including stop when a step ends there."""
    unit = datetime.timedelta(microseconds=unit)
    stop = T0 + span * unit
    got = helpers.datetime_range(T0, stop, step * unit)
    want = [T0 + k * step * unit for k in range(abs(span) + 1) if k * abs(step) <= span * (1 if step > 0 else -1)]
    require(got == want, f"{T0} to {stop} by {step * unit}: {got}, not {want}")
    return stats([(span, step, str(unit))], len(want), len(got), len(want) > 1)


def times(x, y):
    """Distances between all pairs of times, in seconds."""
    unit = datetime.timedelta(milliseconds=250)
    got = helpers.pairwise_distance_datetimes([T0 + a * unit for a in x], [T0 + b * unit for b in y])
    want = np.array([[abs(a - b) * 0.25 for b in y] for a in x]).reshape(len(x), len(y))
    require(got.shape == want.shape and np.array_equal(got, want), f"{x} {y}: {got}")
    return stats([(str(x), str(y))], got.size, got.tolist(), bool(got.size))


# ---- scales ----


def scale(old, top):
    """A scale is found for every size which some scale rounds to, and for no other."""
    n, found = 0, 0
    for new in itertools.product(range(1, top + 1), repeat=len(old)):
        got = helpers.get_scale_from_size(old, new)
        low = max(F(2 * b - 1, 2 * a) for a, b in zip(old, new))
        high = min(F(2 * b + 1, 2 * a) for a, b in zip(old, new))
        what = f"{old} to {new}: {got}"
        if low == high:
            # Whether the only such scale rounds to the size depends on its last bit
            continue
        if low > high:
            require(got is None, what)
        else:
            require(got is not None, what)
            rounded = tuple(math.floor(F(float(got)) * a + F(1, 2)) for a in old)
            require(rounded == new, f"{what} gives {rounded}")
            # Exact scales are preferred
            exact = {F(b, a) for a, b in zip(old, new)}
            if len(exact) == 1:
                require(got == new[0] / old[0], f"{what}, not exact")
            found += 1
        n += 1
    return stats([tuple(old)], n, found, found > 0)


# ---- controls ----


def controls(pattern, chosen):
    """Exactly the controls of the chosen cameras are kept, in order."""
    cams = [Camera(imgsz=(10, 8), f=10) for _ in range(3)]
    given = []
    for kind, a, b in pattern:
        if kind == "points":
            given.append(Points(cam=cams[a], uv=[(0, 0)], xyz=[(0, 1, 0)]))
        elif kind == "lines":
            given.append(Lines(cam=cams[a], uvs=[[(0, 0)]], xyzs=[[(0, 0, 0)]]))
        else:
            cls = Matches if kind == "matches" else RotationMatches
            given.append(cls(cams=[cams[a], cams[b]], uvs=[[(0, 0)], [(0, 0)]]))
    got = Cameras.prune_controls(list(given), cams=[cams[k] for k in chosen])
    want = [
        k for k, (kind, a, b) in enumerate(pattern)
        if a in chosen or b in chosen
    ]
    where = [next(k for k, c in enumerate(given) if c is g) for g in got]
    require(where == want, f"{pattern} of {chosen}: {where}, not {want}")
    return stats([(str(pattern), str(chosen))], len(pattern), where, bool(where))


# ---- number types ----

TYPES = ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8", "?"]


def limits(code):
    """The limits of a number type are its own, and nothing of the type is beyond."""
    dtype = np.dtype(code)
    low, high = helpers.numpy_dtype_minmax(dtype)
    if code == "?":
        want = False, True
    elif code[0] == "f":
        # Largest finite number of the format: exponent and fraction bits
        e, m = {"f2": (5, 10), "f4": (8, 23), "f8": (11, 52)}[code]
        top = (2 - F(1, 2 ** m)) * F(2) ** (2 ** (e - 1) - 1)
        want = -top, top
        low, high = F(float(low)), F(float(high))
    else:
        bits = 8 * int(code[1:])
        want = (0, 2 ** bits - 1) if code[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
        low, high = int(low), int(high)
    require((low, high) == want, f"{code}: {low} to {high}, not {want}")
    return stats([code], 1, code, True)


def unsupported(code):
    try:
        got = helpers.numpy_dtype_minmax(np.dtype(code))
    except ValueError:
        return stats([code], 1, "refused", True)
    raise Violation(f"{code}: {got}")


VALUES = [[1], [0], [1, 2], [0, 1, 2], [2.5, -1], [3, 1, 4, 1, 5]]


def explore(ck):
    cases = []
    for values in VALUES:
        for kind in ("list", "tuple", "array", "iterator") + (("scalar",) if len(values) == 1 else ()):
            for length in [None] + list(range(0, 13 if ck.thorough else 8)):
                for default in (None, 0, 7, -0.5):
                    for dtype in (None, "int", "str", "bool", "float"):
                        if kind == "array" and dtype == "str":
                            continue
                        cases.append((values, kind, length, default, dtype))
    cases += [([], kind, n, d, t) for kind in ("list", "tuple", "iterator") for n in (None, 0, 2) for d in (None, 0, 7) for t in (None, "str")]
    cases += [([], "none", n, d, t) for n in (None, 2) for d in (None, 7) for t in (None, "int")]
    ck.sweep(lists, cases, chunk=512)
    alphabet = "a./-"
    cases = [
        ("".join(c), count)
        for n in range(0, 8 if ck.thorough else 7)
        for c in itertools.product(alphabet, repeat=n)
        for count in (True, False, 1, 2)
    ]
    ck.sweep(names, cases, chunk=2048)
    reach = 24 if ck.thorough else 12
    cases = [
        (span, step, unit)
        for span in range(-3, reach)
        for step in [-2, -1] + list(range(1, reach))
        for unit in (1, 250_000, 1_000_000, 86_400_000_000, 999_999)
    ]
    ck.sweep(ranges, cases, chunk=512)
    sets = [list(c) for n in range(0, 4) for c in itertools.product((-400000, -1, 0, 3), repeat=n)]
    ck.sweep(times, [(x, y) for x in sets if x for y in sets if y], chunk=512)
    top = 24 if ck.thorough else 14
    ck.sweep(scale, [(list(old), top + 4) for old in itertools.product(range(1, top + 1), repeat=2)], chunk=8)
    ck.sweep(scale, [([old], 40) for old in range(1, 40)], chunk=8)
    kinds = [("points", 0, None), ("points", 1, None), ("lines", 1, None), ("lines", 2, None),
             ("matches", 0, 1), ("matches", 2, 0), ("rotation", 1, 2)]
    cases = [
        (list(map(list, p)), list(c))
        for n in range(0, 5 if ck.thorough else 4)
        for p in itertools.product(kinds, repeat=n)
        for m in range(0, 4)
        for c in itertools.combinations(range(3), m)
    ]
    ck.sweep(controls, cases, chunk=256)
    for code in TYPES:
        ck.run(limits, code)
    for code in ("c8", "U3", "M8[s]", "O"):
        ck.run(unsupported, code)
