"""Saved data is restored, and a crash while saving never loses it."""
import errno
import itertools
import json
import os
import pickle
import re
import resource
import signal
import sys

from mc.core import HarnessError, require, scratch, stats
from mc.faults import Faults, child
from glimpse import helpers

LEVEL = "model_checking"
RULE = (
    "A case is one set of JSON trees with one set of formatting options, or one save of a "
    "pickle over an existing or absent file which is killed (or refused space) at every "
    "point: before each file-system operation and after each byte of each written file. "
    "Non-trivial when the tree contains an array or the save is interrupted."
)
ASSUMPTIONS = [
    "A crash ends the process at a system call; loss of data already accepted by the "
    "operating system is not explored.",
]

# ---- JSON ----

SCALARS = [0, -1.5e-3, 1e22, "", "a b", "x], [ y", '"', "\\", "[1,  2]", "{", "\n", "\u00e9", None, True]


def trees(depth, width, scalars):
    """All trees of bounded depth and width."""
    if depth == 0:
        return list(scalars)
    inner = trees(depth - 1, width, scalars)
    out = list(scalars)
    for n in range(width + 1):
        for items in itertools.product(inner, repeat=n):
            out.append(list(items))
            out.append({f"k,{i} [": x for i, x in enumerate(items)})
    return out


def squeeze(text):
    """Remove white space outside strings."""
    return re.sub(r'("(?:[^"\\]|\\.)*")|\s+', lambda m: m.group(1) or "", text)


def has_object(x):
    return isinstance(x, dict) or isinstance(x, list) and any(map(has_object, x))


def arrays(x):
    """Arrays without objects, outermost ones only."""
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays(v)]
    if isinstance(x, list):
        return [a for v in x for a in arrays(v)] if has_object(x) else [x]
    return []


OPTIONS = [
    dict(indent=i, separators=s, ensure_ascii=a)
    for i in (None, 0, 2, "\t", -1, "")
    for s in (None, (",", ":"), (", ", ": "), (" , ", " : "))
    for a in (True, False)
]


def texts(objs, path):
    outcomes = []
    n = 0
    with scratch():
        for obj in objs:
            before = json.dumps(obj)
            for options in OPTIONS:
                options = {k: v for k, v in options.items() if v is not None}
                plain = json.dumps(obj, **options)
                for flat in (False, True):
                    where = f"{before} with {options} flat {flat}"
                    text = helpers.write_json(obj, flat_arrays=flat, **options)
                    n += 1
                    require(json.dumps(obj) == before, f"{where}: the object was changed")
                    require(isinstance(text, str), f"{where}: {text}")
                    try:
                        back = json.loads(text)
                    except ValueError as e:
                        require(False, f"{where}: {text!r} is not valid: {e}")
                    require(back == obj and json.dumps(back) == before, f"{where}: {text!r}")
                    if not flat or "indent" not in options:
                        require(text == plain, f"{where}: {text!r}, not {plain!r}")
                    else:
                        require(squeeze(text) == squeeze(plain), f"{where}: {text!r}")
                        separators = options.get("separators", (", ", ": "))
                        for a in arrays(obj):
                            line = json.dumps(a, separators=separators, ensure_ascii=options["ensure_ascii"])
                            require(line in text, lambda: f"{where}: {line!r} not in {text!r}")
                        if not arrays(obj):
                            require(text == plain or isinstance(obj, list), f"{where}: {text!r}")
                    outcomes.append(text)
            if path:
                for name in ("a.json", "b/c/a.json"):
                    out = helpers.write_json(obj, path=name, indent=2)
                    require(out is None, f"{where}: {out} was returned")
                    with open(name) as fp:
                        require(fp.read() == json.dumps(obj, indent=2), f"{where}: file")
                    require(helpers.read_json(name) == obj, f"{where}: file")
    return stats(outcomes, n, outcomes)


# ---- Pickles ----


class Picky:
    """Cannot be pickled."""

    def __reduce__(self):
        raise RuntimeError("refused")


OBJECTS = {
    "small": {"a": [1, 2.5, "x"]},
    "other": (None, b"0123456789" * 3),
    "big": list(range(40000)),
    "none": None,
}


def size(obj, gz):
    with scratch():
        helpers.write_pickle(obj, "size.pkl", gz=gz)
        return os.path.getsize("size.pkl")


def content(path, gz):
    if not os.path.exists(path):
        return "absent"
    return helpers.read_pickle(path, gz=gz)


def saves(old, new, gz, nested, error):
    """Save ``new`` over ``old`` (or nothing), interrupted everywhere."""
    path = "d/e/x.pkl" if nested else "x.pkl"

    def prepare():
        if old is not None:
            helpers.write_pickle(OBJECTS[old], path, gz=gz)

    def save():
        helpers.write_pickle(OBJECTS[new], path, gz=gz)

    before = "absent" if old is None else OBJECTS[old]
    after = OBJECTS[new]
    n_bytes = size(after, gz)
    with scratch() as d:
        prepare()
        how, events, raised = child(save, Faults(d))
        require(how == "done" and not raised, f"saving failed: {raised}")
        require(content(path, gz) == after, "saved data was not restored")
        require("open" in events, "no file was written")
    if n_bytes < 600:
        limits = list(range(n_bytes + 1))
    else:
        limits = sorted({0, 1, n_bytes // 2, n_bytes - 1, n_bytes} | {k * 8192 + e for k in range(n_bytes // 8192 + 1) for e in (-1, 0, 1) if 0 <= k * 8192 + e <= n_bytes})
    points = [(k, None) for k in range(len(events))] + [
        (k, limit) for k, e in enumerate(events) if e == "open" for limit in limits
    ]
    kept, outcomes = set(), []
    for k, limit in points:
        with scratch() as d:
            prepare()
            how, _, raised = child(save, Faults(d, stop=k, limit=limit, error=error))
            where = f"saving {new} over {old} {'failed' if error else 'crashed'} at operation {k}" + (
                f" after {limit} bytes" if limit is not None else ""
            )
            try:
                found = content(path, gz)
            except Exception as e:
                require(False, f"{where}: {path} is incomplete ({type(e).__name__}: {e})")
            require(found == before or found == after, f"{where}: {path} is {found!r}")
            if how == "done" and not raised:
                require(found == after, f"{where}: silently not saved")
            if error and raised:
                # A refused save can be repeated, and so can a crashed one
                require(raised == "OSError", f"{where}: {raised}")
            save()
            require(content(path, gz) == after, f"{where}: cannot be saved again")
            outcomes.append((k, how, raised, "new" if found == after else "old"))
            kept.add((k, limit, how, "new" if found == after else "old"))
    return stats(kept, len(points), sorted(set(map(str, outcomes))))


def refused(old, gz):
    """Data which cannot be pickled does not replace the file."""
    with scratch():
        if old is not None:
            helpers.write_pickle(OBJECTS[old], "x.pkl", gz=gz)
        for obj in (Picky(), [list(range(100000)), Picky()]):
            try:
                helpers.write_pickle(obj, "x.pkl", gz=gz)
            except RuntimeError:
                pass
            else:
                require(False, "an error while pickling was ignored")
            found = content("x.pkl", gz)
            require(found == ("absent" if old is None else OBJECTS[old]), f"failed save left {str(found)[:80]}")
            names = os.listdir(".")
            require(set(names) <= {"x.pkl"}, f"failed save left {names}")
    return stats([(old, gz)], 2, (old, gz))


def restored(name, gz, protocol, nested):
    with scratch():
        path = "a/b/c.pkl" if nested else "c.pkl"
        obj = OBJECTS[name]
        kwargs = {} if protocol is None else {"protocol": protocol}
        helpers.write_pickle(obj, path, gz=gz, **kwargs)
        require(helpers.read_pickle(path, gz=gz) == obj, "data was not restored")
        require(os.listdir(os.path.dirname(path) or ".") == ["c.pkl"], f"files {os.listdir(os.path.dirname(path) or '.')}")
        # Through a link
        os.symlink(path, "link.pkl")
        helpers.write_pickle([1], "link.pkl", gz=gz)
        require(helpers.read_pickle(path, gz=gz) == [1] and helpers.read_pickle("link.pkl", gz=gz) == [1], "link")
    return stats([(name, gz, protocol, nested)], 2, (name, gz, protocol, nested))


def together(old, first, second, other, gz):
    """Another file is saved, or the same one, between any two steps of a save."""
    path, beside = "x.pkl", other

    def prepare():
        if old is not None:
            helpers.write_pickle(OBJECTS[old], path, gz=gz)
        # Files of somebody else
        for name in ("x", "x.tmp", "x.pkl.tmp", "x.pkl~", ".x.pkl", "tmp"):
            with open(name, "w") as fp:
                fp.write(name)

    def others():
        for name in ("x", "x.tmp", "x.pkl.tmp", "x.pkl~", ".x.pkl", "tmp"):
            with open(name) as fp:
                require(fp.read() == name, f"saving {path} changed {name}")

    def save():
        helpers.write_pickle(OBJECTS[first], path, gz=gz)

    with scratch() as d:
        prepare()
        how, events, raised = child(save, Faults(d))
        require(how == "done" and not raised, f"saving failed: {raised}")
        others()
    outcomes = []
    for k, crash in itertools.product(range(len(events)), (None, *range(len(events)))):
        with scratch() as d:
            prepare()

            def between():
                before = "absent" if old is None else OBJECTS[old]
                found = content(path, gz)
                require(found == before or found == OBJECTS[first], f"{path} is {found!r} during a save")
                how, _, raised = child(
                    lambda: helpers.write_pickle(OBJECTS[second], beside, gz=gz),
                    Faults(d, stop=crash),
                )
                require(not raised, f"saving {beside} raised {raised} before operation {k}")

            how, _, raised = child(save, Faults(d, stop=k, call=between))
            where = f"{beside} saved before operation {k} of saving {path}" + (
                "" if crash is None else f", crashing at its operation {crash}"
            )
            require(how == "done" and not raised, f"{where}: {how} {raised}")
            found = content(path, gz)
            allowed = [OBJECTS[first]] + ([OBJECTS[second]] if beside == path else [])
            require(found in allowed, f"{where}: {path} is {found!r}")
            if beside != path:
                found = content(beside, gz)
                require(
                    found == OBJECTS[second] or (crash is not None and found == "absent"),
                    f"{where}: {beside} is {found!r}",
                )
            others()
            outcomes.append((k, crash, str(found)))
    return stats(outcomes, len(outcomes), outcomes)


def explore(ck):
    deep = ck.thorough
    objs = trees(1, 2, SCALARS)
    ck.sweep(texts, [(objs[i : i + 10], True) for i in range(0, len(objs), 10)])
    objs = trees(2, 2, [7, "a, ] b"] if not deep else [7, "a, ] b", "[ "])
    # NOTE: Saved by chunks of equal shape
    ck.sweep(texts, [(objs[i : i + 100], False) for i in range(0, len(objs), 100)], timeout=300)
    objs = trees(3, 1, [7, "a, ] b", "\\"])
    ck.sweep(texts, [(objs[i : i + 40], False) for i in range(0, len(objs), 40)])
    cases = []
    for gz, error, nested in itertools.product((False, True), repeat=3):
        if deep or not nested:
            cases += [("small", "big", gz, nested, error), ("big", "other", gz, nested, error)]
        cases += [(old, new, gz, nested, error) for old in (None, "small", "other") for new in ("small", "other", "none") if old != new]
    ck.sweep(saves, cases, chunk=1, timeout=600)
    for old, gz in itertools.product((None, "small", "big"), (False, True)):
        ck.run(refused, old, gz)
    cases = [
        (old, "small", "other", other, gz)
        for old in (None, "none")
        for other in ("x.pkl", "x.gz", "y.pkl", "x.2.pkl", "x.pkl.gz", "y/x.pkl")
        for gz in (False, True)
    ]
    ck.sweep(together, cases, chunk=2)
    for name, gz, protocol, nested in itertools.product(OBJECTS, (False, True), (None, 2, 4), (False, True)):
        ck.run(restored, name, gz, protocol, nested)
