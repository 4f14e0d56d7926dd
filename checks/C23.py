"""Calibration parameters map to the right cameras."""
import contextlib
import io
import itertools

import cv2
import lmfit
import matplotlib
import numpy as np
import scipy.sparse

from mc import trackkit
from mc.core import Violation, require, stats
from glimpse import Camera, Image, Observer
from glimpse.optimize import (
    Cameras,
    KeypointMatcher,
    Lines,
    Matches,
    ObserverCameras,
    Points,
    RotationMatchesXYZ,
)

matplotlib.use("agg")

LEVEL = "model_checking"
RULE = (
    "A case is one calibration problem (control, cameras, parameters of every camera, "
    "groups and their parameters), whose parameter vector, predictions, residuals, "
    "sparsity, bounds, starting point and faults are compared with a dictionary of "
    "parameters and cameras built by hand. Non-trivial when it has parameters."
)
ASSUMPTIONS = [
    "A parameter is not both camera-specific and shared for the same camera.",
]

NAMES = [
    f"{name}{i}"
    for name, length in [("xyz", 3), ("viewdir", 3), ("imgsz", 2), ("f", 2), ("c", 2), ("k", 6), ("p", 2)]
    for i in range(length)
]
STEP = [0.5] * 3 + [0.4] * 3 + [2.0] * 2 + [4.0] * 2 + [1.5] * 2 + [0.01] * 6 + [0.002] * 2
START, STOP = {}, {}
for _i, _name in enumerate(NAMES):
    START.setdefault(_name[:-1], _i)
    STOP[_name[:-1]] = _i + 1


def camera(i, xyz=(1, 2, 3), size=(60, 40)):
    return Camera(
        imgsz=size, f=(80 + i, 82 + i), c=(0.5 * i, -0.25), xyz=xyz,
        viewdir=(2 * i - 1, -3 + i, 1 - i), k=(0.015, -0.004 * i), p=(0.0005 * i, 0),
    )


XYZ = np.array([(-5, 40, -4), (6, 45, 2), (1, 38, -3), (-3, 50, 3.0)])
GRID = np.array([(x, 40 + (x + z) % 5, z) for x in (-9, 0.5, 10) for z in (-8, -3, 4)])
LINES = [np.array([(-30, 45, -4), (0, 40, -3), (30, 50, -5.0)]), np.array([(-8, 42, 8), (7, 48, -9.0)])]
UV = np.array([(20, 12), (41, 30), (30, 21), (12.5, 33)])
# Names of controls, per problem: which kinds, for which cameras
WORLDS = {
    "points": [("points", 0), ("points", 1)],
    "one": [("points", 0)],
    "lines": [("lines", 0), ("points", 1)],
    "matches": [("matches", 0, 1)],
    "mixed": [("points", 0), ("matches", 1, 0), ("lines", 1)],
    "outside": [("matches", 1, 3), ("matches", 3, 1), ("points", 3), ("points", 0), ("lines", 3), ("matches", 0, 1)],
    "rays": [("rays", 0), ("points", 1)],
    "far": [("far", 0), ("matches", 0, 1)],
    "grids": [("grid", 0), ("grid", 1)],
    "grid": [("grid", 0)],
    "grid and matches": [("grid", 0), ("matches", 0, 1)],
    "chain": [("matches", 0, 1), ("matches", 1, 2), ("points", 2)],
}


def controls(world, cams):
    """The controls of a problem and the number of observations of each."""
    out = []
    for kind, *idx in WORLDS[world]:
        i = idx[0]
        if kind == "points":
            out.append(Points(cam=cams[i], uv=UV[: 3 + i % 2] + 0.1 * i, xyz=XYZ[: 3 + i % 2]))
        elif kind == "far":
            # With a point behind the camera
            xyz = XYZ * [1, [1, -1][0], 1]
            xyz[1] *= [1, -1, 1]
            out.append(Points(cam=cams[i], uv=UV, xyz=xyz))
        elif kind == "grid":
            out.append(Points(cam=cams[i], uv=np.zeros((len(GRID), 2)), xyz=GRID))
        elif kind == "rays":
            out.append(Points(cam=cams[i], uv=UV[:2], xyz=XYZ[:2] - [1, 2, 3], directions=True))
        elif kind == "lines":
            out.append(Lines(cam=cams[i], uvs=[UV[:2], UV[2:3] - 0.3], xyzs=LINES, density=0.25))
        elif kind == "matches":
            j = idx[1]
            out.append(Matches(cams=(cams[i], cams[j]), uvs=(UV[1:], UV[:3] + 0.2)))
    return out


class Moved(Exception):
    """Cameras which are required to be at one position are not."""


def by_hand(world, cams):
    """Predictions for cameras, without any calibration."""
    for kind, *idx in WORLDS[world]:
        if kind == "matches" and any(cams[idx[0]].xyz != cams[idx[1]].xyz):
            raise Moved
    out = []
    for (kind, *idx), control in zip(WORLDS[world], controls(world, cams)):
        if kind == "matches":
            a, b = cams[idx[0]], cams[idx[1]]
            out.append(a.xyz_to_uv(b.uv_to_xyz(control.uvs[1]), directions=True))
        elif kind == "lines":
            out.append(control.predicted())
        else:
            out.append(cams[idx[0]].xyz_to_uv(control.xyz, directions=control.directions))
    return out


def relevant(world, count):
    return [k for k, (_, *idx) in enumerate(WORLDS[world]) if min(idx) < count]


def select(params):
    """Positions selected by parameters such as {'viewdir': [0, 2]}, in order."""
    out = []
    for name, choice in params.items():
        if isinstance(choice, (tuple, list)) and len(choice) == 3 and isinstance(choice, tuple):
            choice = choice[0]
        every = list(range(START[name], STOP[name]))
        if choice is True:
            out += every
        elif choice is None or choice is False:
            pass
        else:
            out += [every[k] for k in np.atleast_1d(choice)]
    return sorted(set(out))


class Problem:
    """A calibration problem and its dictionary of parameters."""

    def __init__(self, world, cam_params, groups, group_params, weights=None, **kwargs):
        count = len(cam_params)
        self.cams = [camera(i) for i in range(4)]
        self.world, self.count = world, count
        self.start = [cam.to_array() for cam in self.cams]
        self.keep = relevant(world, count)
        self.controls = controls(world, self.cams)
        self.groups = [list(range(count))] if groups is None else groups
        # (label, camera indices, position)
        self.entries = []
        for g, (idx, params) in enumerate(zip(self.groups, group_params)):
            for position in select(params):
                self.entries.append((f"group{g}_{NAMES[position]}", list(idx), position))
        for j, params in enumerate(cam_params):
            for position in select(params):
                self.entries.append((f"cam{j}_{NAMES[position]}", [j], position))
        self.build = lambda: Cameras(
            cams=self.cams[:count], controls=self.controls, cam_params=cam_params,
            group_indices=groups, group_params=group_params, weights=weights, **kwargs
        )
        used = [(j, position) for _, idx, position in self.entries for j in idx]
        self.overlap = len(set(used)) < len(used)

    def vector(self, factor=1.0, only=None):
        """A parameter vector in which every value is different."""
        x = []
        for k, (_, idx, position) in enumerate(self.entries):
            mean = np.mean([self.start[j][position] for j in idx])
            if only is None or k in only:
                mean += factor * STEP[position] * (1 + k / 7)
            x.append(mean)
        return np.array(x)

    def expected(self, x):
        """Camera vectors for a parameter vector."""
        vectors = [v.copy() for v in self.start]
        for (_, idx, position), value in zip(self.entries, x):
            for j in idx:
                vectors[j][position] = value
        return vectors

    def hand(self, x):
        """Predictions by hand for a parameter vector."""
        cams = []
        for i, v in enumerate(self.expected(x)):
            cam = camera(i)
            cam.xyz, cam.viewdir, cam.f, cam.c, cam.k, cam.p = (
                v[:3], v[3:6], v[8:10], v[10:12], v[12:18], v[18:20]
            )
            # Image sizes are optimized as real numbers
            cam._vector[6:8] = v[6:8]
            cams.append(cam)
        if self.world == "rays" and any(cams[0].xyz != self.start[0][:3]):
            raise Moved
        # Matches outside of the problem are not evaluated
        world = [WORLDS[self.world][k] for k in self.keep]
        WORLDS["subset"] = world
        return np.vstack(by_hand("subset", cams))

    def observed(self):
        out = []
        for k in self.keep:
            control = self.controls[k]
            out.append(control.uvs[0] if isinstance(control, Matches) else control.uv)
        return np.vstack(out)

    def unchanged(self, what):
        for i, (cam, v) in enumerate(zip(self.cams, self.start)):
            require(np.array_equal(cam.to_array(), v), f"{what}: camera {i} changed to {cam.to_array().tolist()}")


def same(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol, equal_nan=True)


INDICES = [slice(None), slice(1, None, 2), [0], [2, 0], np.array([1, 2]), -1, [-1, 0]]


def problem(world, cam_params, groups, group_params):
    """One problem: vectors, predictions, residuals, sparsity and starting point."""
    cam_params = [decode(p) for p in cam_params]
    group_params = [decode(p) for p in group_params]
    what = f"{world}, {cam_params}, groups {groups}: {group_params}"
    p = Problem(world, cam_params, groups, group_params)
    n = len(p.observed())
    weights = np.array([[1, 2, 0.5, 3, 1.5][k % 5] for k in range(n)])
    model = p.build()
    p.unchanged(f"{what}: building")
    require(
        [any(c is d for d in model.controls) for c in p.controls]
        == [k in p.keep for k in range(len(p.controls))],
        f"{what}: controls {model.controls}",
    )
    # Names, starting point
    labels = [label for label, _, _ in p.entries]
    require(list(model.params) == labels, f"{what}: parameters {list(model.params)} instead of {labels}")
    start = p.vector(0)
    got = [param.value for param in model.params.values()]
    require(same(got, start), f"{what}: initial values {got} instead of {start}")
    # Observations
    observed = p.observed()
    require(model.size == n, f"{what}: size {model.size} instead of {n}")
    for index in INDICES:
        require(same(model.observed(index=index), observed[index]), f"{what}: observed {index}")
    require(same(model.predicted(), p.hand([])), f"{what}: predictions of the cameras")
    steps = 0
    x = p.vector()
    full = model.params.copy()
    for label, value in zip(labels, x):
        full[label].set(value=value, min=-np.inf, max=np.inf)
    expected = p.expected(x)
    for form, params in (("array", x), ("list", list(x)), ("lmfit", full)):
        model.set_cameras(params)
        for j, (cam, v) in enumerate(zip(p.cams, expected)):
            require(
                same(cam.to_array(), v, 1e-12),
                lambda: f"{what}: {form} {labels} = {x.tolist()} sets camera {j} to {cam.to_array().tolist()}",
            )
        model.reset_cameras()
        p.unchanged(f"{what}: reset")
        steps += 1
    try:
        hand = p.hand(x)
    except Moved:
        hand = None
    for weighted in (False, True):
        model.weights = weights if weighted else None
        factor = (weights * n / weights.sum())[:, None] if weighted else np.ones((n, 1))
        for params in (x, full):
            for index in INDICES if params is x else INDICES[:1]:
                where = f"{what}: index {index}, weights {weighted}"
                if hand is None:
                    for method in (model.predicted, model.residuals, model.errors):
                        try:
                            method(params=params, index=index)
                        except ValueError:
                            pass
                        else:
                            raise Violation(f"{where}: predicted in spite of a changed position")
                        p.unchanged(f"{where}: failing {method.__name__}")
                    continue
                if not isinstance(index, int):
                    value = model.predicted(params=params, index=index)
                    require(
                        same(value, hand[index]),
                        lambda: f"{where}: predicted {value.tolist()} instead of {hand[index].tolist()}",
                    )
                    residuals = model.residuals(params=params, index=index)
                    want = ((hand - observed) * factor)[index]
                    require(same(residuals, want), lambda: f"{where}: residuals {residuals.tolist()}")
                    errors = model.errors(params=params, index=index)
                    require(same(errors, np.hypot(*want.T)), f"{where}: errors {errors}")
                p.unchanged(f"{where}: evaluating")
                steps += 1
    # Sparsity and scales
    m = len(labels)
    require(model.sparsity.shape == (2 * n, m), f"{what}: sparsity of shape {model.sparsity.shape}")
    require(len(model.scales) == m and np.all(model.scales > 0), f"{what}: scales {model.scales}")
    pattern = np.asarray(model.sparsity.todense())
    model.weights = weights
    base = model.residuals(p.vector(0))
    for k in range(m):
        moved = []
        for factor in (1, -0.5):
            with contextlib.suppress(ValueError):
                moved.append(model.residuals(p.vector(factor, only=[k])))
        for r in moved:
            changed = (r != base) & ~(np.isnan(r) & np.isnan(base))
            rows = np.nonzero(changed.ravel())[0]
            missing = [int(row) for row in rows if not pattern[row, k]]
            require(not missing, f"{what}: {labels[k]} moves residuals {missing}, which its sparsity omits")
        steps += 1
    # Saving
    if m:
        model.set_cameras(x, save=True)
        model.set_cameras(p.vector(2))
        model.reset_cameras()
        require(
            all(same(cam.to_array(), v, 1e-12) for cam, v in zip(p.cams, expected)),
            f"{what}: reset does not return to the saved cameras",
        )
        model.update_params()
        got = [param.value for param in model.params.values()]
        lower = [param.min for param in model.params.values()]
        upper = [param.max for param in model.params.values()]
        require(same(got, np.clip(x, lower, upper)), f"{what}: updated values {got} instead of {x}")
    return stats([(world, tuple(labels))], steps, tuple(labels), m > 0)


def decode(params):
    """Parameters from their serialised form."""
    out = {}
    for key, value in params.items():
        if isinstance(value, dict):
            value = (value["i"], value["min"], value["max"])
        out[key] = value
    return out


# -- Parameters and bounds --


def parse(entries):
    """Selections and bounds of parameters against a direct reading."""
    params = {}
    mask, low, high = np.zeros(20, bool), np.full(20, -np.inf), np.full(20, np.inf)
    default = np.column_stack((-np.arange(1.0, 21), np.arange(1.0, 21)))
    dlow, dhigh = default.T.copy()
    for name, selection, bounds in entries:
        if bounds:
            params[name] = (selection, *bounds)
        else:
            params[name] = selection
        positions = select({name: selection})
        mask[positions] = True
        if isinstance(selection, list):
            # Bounds are in the order of the selection
            positions = [list(range(START[name], STOP[name]))[k] for k in selection]
        if bounds:
            for value, one, two, sign in ((bounds[0], low, dlow, 0), (bounds[1], high, dhigh, 1)):
                values = value if isinstance(value, list) else [value] * len(positions)
                for position, v in zip(positions, values):
                    if v is not None and not np.isnan(v):
                        one[position] = two[position] = v
    got, limits = Cameras.parse_params(params)
    require(np.array_equal(got, mask), f"{params}: selects {[NAMES[i] for i in np.nonzero(got)[0]]}")
    require(
        np.array_equal(limits[mask], np.column_stack((low, high))[mask]), f"{params}: bounds {limits[mask].tolist()}"
    )
    got, limits = Cameras.parse_params(params, default_bounds=default)
    require(np.array_equal(got, mask), f"{params}: selects {[NAMES[i] for i in np.nonzero(got)[0]]} with defaults")
    require(
        np.array_equal(limits[mask], np.column_stack((dlow, dhigh))[mask]),
        f"{params}: bounds {limits[mask].tolist()} with defaults",
    )
    return stats([tuple(np.nonzero(mask)[0])], 2, mask.tolist(), bool(mask.any()))


def bounds(cam_params, group_params, groups):
    """Bounds and starting points given to the optimizer."""
    cam_params, group_params = [decode(p) for p in cam_params], [decode(p) for p in group_params]
    what = f"{cam_params}, {groups}: {group_params}"
    p = Problem("points", cam_params, groups, group_params)
    if p.overlap:
        return stats([], 0, "overlap", False)
    model = p.build()

    def default(cam):
        k, q = cam.f.mean() / 4000, cam.f.mean() / 40000
        w, h = cam.imgsz / 2
        top = [np.inf] * 3 + [np.inf] * 3 + [np.inf] * 4 + [w, h, k, k / 2, k / 2, k, k, k, q, q]
        low = [-v for v in top]
        low[6:10] = [0] * 4
        return np.array(low), np.array(top)

    def given(params, low, top):
        low, top = low.copy(), top.copy()
        for name, choice in params.items():
            if isinstance(choice, tuple):
                positions = select({name: choice})
                for values, limits in ((choice[1], low), (choice[2], top)):
                    values = values if isinstance(values, list) else [values] * len(positions)
                    for position, v in zip(positions, values):
                        if v is not None:
                            limits[position] = v
        return low, top

    per_cam = [given(params, *default(cam)) for params, cam in zip(cam_params, p.cams)]
    for label, idx, position in p.entries:
        kind, k = label.split("_")[0][:-1], int(label.split("_")[0][-1])
        if kind == "cam":
            low, top = per_cam[k]
        else:
            # Within the bounds of every camera
            low, top = given(
                group_params[k],
                np.max([per_cam[j][0] for j in idx], axis=0),
                np.min([per_cam[j][1] for j in idx], axis=0),
            )
        param = model.params[label]
        require(
            np.isclose(param.min, low[position]) and np.isclose(param.max, top[position])
            or (param.min, param.max) == (low[position], top[position]),
            f"{what}: {label} within {(param.min, param.max)} instead of {(low[position], top[position])}",
        )
        mean = np.mean([p.start[j][position] for j in idx])
        require(
            np.isclose(param.value, np.clip(mean, low[position], top[position]), atol=1e-9),
            f"{what}: {label} starts at {param.value} instead of {mean}",
        )
        require(param.vary, f"{what}: {label} is fixed")
    return stats([tuple(l for l, _, _ in p.entries)], len(p.entries), what, bool(p.entries))


# -- Refused problems --

REFUSED = {
    "no controls": lambda: Cameras([camera(0)], controls("points", [camera(1)] * 4), cam_params=[{"f": True}]),
    "unseen camera": lambda: problem_of([0, 1], ("points", 0), [{}, {"viewdir": 0}], None, None),
    "unseen camera of a group": lambda: problem_of([0, 1], ("points", 0), [{}, {}], [[1]], [{"viewdir": 0}]),
    "size f": lambda: sizes({"f": 0}),
    "size c": lambda: sizes({"c": True}),
    "overlap": lambda: problem_of([0, 1], None, None, [[0, 1], [0]], [{"f": True}, {"f": 0}]),
    "overlap later": lambda: problem_of([0, 1], None, None, [[0], [1], [1]], [{"f": 0}, {"k": 0}, {"k": True}]),
    "repeated": lambda: problem_of([0, 1], None, None, [[0, 1], [1, 0]], [{"viewdir": 2}, {"viewdir": [1, 2]}]),
    "past the end": lambda: problem_of([0, 1], None, [{"f": 2}, {}], None, None),
    "before the start": lambda: problem_of([0, 1], None, [{"viewdir": [0, -4]}, {}], None, None),
}
ACCEPTED = {
    "size viewdir": lambda: sizes({"viewdir": 0}),
    "apart": lambda: problem_of([0, 1], None, None, [[0], [1]], [{"f": 0}, {"f": 0}]),
    "disjoint": lambda: problem_of([0, 1], None, None, [[0, 1], [0]], [{"f": 1}, {"f": 0}]),
    "unseen without parameters": lambda: problem_of([0, 1], ("points", 0), [{"viewdir": 0}, {}], [[0]], [{"f": 0}]),
    "one camera": lambda: Cameras(cams_of([0])[0], Points(cams_of([0])[0], UV, XYZ), {"f": 0}),
    "numpy group": lambda: problem_of([0, 1], None, None, np.array([0, 1]), {"f": 0}),
    "numpy groups": lambda: problem_of([0, 1], None, None, np.array([[0], [1]]), [{"f": 0}, {"f": 1}]),
    "one index": lambda: problem_of([0, 1], None, None, 1, {"f": 0}),
    "numpy index": lambda: problem_of([0, 1], None, None, np.int64(1), {"f": 0}),
    "range": lambda: problem_of([0, 1], None, None, range(2), {"f": 0}),
}
CAMS = {}


def cams_of(idx):
    return [CAMS.setdefault(i, camera(i)) for i in idx]


def problem_of(idx, control, cam_params, groups, group_params):
    cams = cams_of(idx)
    list_ = [Points(cam, UV, XYZ) for cam in cams] if control is None else [Points(cams[control[1]], UV, XYZ)]
    return Cameras(cams, list_, cam_params=cam_params, group_indices=groups, group_params=group_params)


def sizes(params):
    cams = [camera(0), camera(1, size=(30, 20))]
    return Cameras(cams, [Points(cam, UV / (i + 1), XYZ) for i, cam in enumerate(cams)], group_params=params)


def refused(name, ok):
    CAMS.clear()
    try:
        model = (ACCEPTED if ok else REFUSED)[name]()
    except (ValueError, IndexError):
        require(not ok, f"{name} was refused")
    else:
        require(ok, f"{name} was accepted")
        start = [cam.to_array() for cam in model.cams]
        x = [param.value + 0.125 for param in model.params.values()]
        require(len(x) > 0, f"{name}: no parameters")
        model.set_cameras(x)
        moved = [not np.array_equal(a, cam.to_array()) for a, cam in zip(start, model.cams)]
        want = {"unseen without parameters": [True, False], "one camera": [True], "one index": [False, True],
                "numpy index": [False, True]}.get(name, [True, True])
        require(moved == want, f"{name}: cameras moved: {moved}")
    return stats([name], 1, ok, True)


# -- Faults --


class Broken(Exception):
    pass


@contextlib.contextmanager
def breaking(control, after):
    """Make a control fail at its n-th prediction."""
    calls = [0]
    original = control.predicted

    def predicted(*args, **kwargs):
        calls[0] += 1
        if calls[0] > after:
            raise Broken("here")
        return original(*args, **kwargs)

    control.predicted = predicted
    try:
        yield
    finally:
        del control.predicted


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def fault(world, which, after, call):
    """Any evaluation which fails leaves every camera as it was."""
    cam_params = [{"viewdir": True}, {"viewdir": [0, 2]}]
    p = Problem(world, cam_params, None, [{"f": True}])
    model = p.build()
    x, params = p.vector(), model.params
    before = params.valuesdict()
    control = model.controls[which % len(model.controls)]
    calls = {
        "predicted": lambda: model.predicted(x),
        "residuals": lambda: model.residuals(x, index=[0, 1]),
        "errors": lambda: model.errors(x),
        "fit": lambda: model.fit(),
        "leastsq": lambda: model.fit(method="leastsq"),
        "iterative": lambda: model.fit(
            cam_params=[[{"viewdir": 0}, {"viewdir": 0}], cam_params], group_params=[{}, {"f": True}]
        ),
        "plot": lambda: model.plot(x, cam=0) and model.plot(x, cam=1),
    }
    raised = False
    with breaking(control, after), quiet():
        try:
            calls[call]()
        except Broken:
            raised = True
    matplotlib.pyplot.close("all")
    what = f"{world}: {call} with control {which} failing after {after} predictions"
    p.unchanged(what)
    require(model.params.valuesdict() == before, f"{what}: initial values are {model.params.valuesdict()}")
    require(model.controls == [p.controls[k] for k in p.keep], f"{what}: controls")
    return stats([(world, which, after, call)], 1, raised, raised)


def moved(world, how, call):
    """Cameras which were moved since the problem was built stay where they are."""
    cam_params = [{"viewdir": True}, {"viewdir": [0, 2]}]
    p = Problem(world, cam_params, None, [{"f": True}])
    model = p.build()
    x = p.vector()
    if how == "set":
        model.set_cameras(p.vector(0.4))
    elif how == "edited":
        p.cams[0].c += (0.3, -0.2)
        p.cams[1].viewdir += (0.2, 0.1, -0.3)
    elif how == "distorted":
        for cam in p.cams[:2]:
            cam.k = cam.k * 0.5
    elif how == "saved":
        model.set_cameras(p.vector(0.3), save=True)
        model.set_cameras(p.vector(-0.2))
    p.start = [cam.to_array() for cam in p.cams]
    hands = {"at": p.hand(x), "here": p.hand([])}
    observed = p.observed()
    what = f"{world}, cameras {how} after building: {call}"
    before = model.params.valuesdict()
    with quiet():
        if call == "predicted":
            require(same(model.predicted(x), hands["at"]), f"{what}: other predictions")
            require(same(model.predicted(), hands["here"]), f"{what}: other predictions of the cameras")
        elif call == "residuals":
            require(same(model.residuals(x), hands["at"] - observed), f"{what}: other residuals")
            require(same(model.residuals(), hands["here"] - observed), f"{what}: other residuals of the cameras")
        elif call == "errors":
            require(same(model.errors(x), np.hypot(*(hands["at"] - observed).T)), f"{what}: other errors")
        elif call == "plot":
            model.plot(x, cam=0)
            model.plot(x, cam=1)
        else:
            kwargs = {
                "fit": {},
                "leastsq": {"method": "leastsq"},
                "iterative": {"cam_params": [[{"viewdir": 0}, {"viewdir": 0}], cam_params], "group_params": [[{}], [{"f": True}]]},
            }[call]
            model.fit(max_nfev=20, **kwargs)
    matplotlib.pyplot.close("all")
    p.unchanged(what)
    require(model.params.valuesdict() == before, f"{what}: initial values are {model.params.valuesdict()}")
    return stats([(world, how, call)], 1, how, True)


# -- Fits --


class Captured(Exception):
    pass


TRUTH = [0, 0, 0, 1, -0.5, 0.25, 0, 0, 3, -2, 0, 0, 0.005, 0, 0, 0, 0, 0, 0, 0]


def fit(world, cam_params, groups, group_params, how):
    """A fit starts at the cameras, moves to the truth and leaves the cameras."""
    what = f"{world}, {cam_params}, groups {groups}: {group_params}, {how}"
    p = Problem(world, cam_params, groups, group_params, weights=None)
    # Observations of cameras with other parameters
    truth = np.array(
        [np.mean([p.start[j][position] for j in idx]) + TRUTH[position] * (1 - 0.3 * k / (k + 1))
         for k, (_, idx, position) in enumerate(p.entries)]
    )
    cams = []
    for i, v in enumerate(p.expected(truth)):
        cam = camera(i)
        cam._vector = v
        cams.append(cam)
    for control, uv in zip(p.controls, by_hand(world, cams)):
        if isinstance(control, Matches):
            control.uvs = (uv, control.uvs[1])
        else:
            control.uv = uv
    model = p.build()
    if how == "weights":
        model.weights = np.arange(1, model.size + 1)
    kwargs = {
        "leastsq": {"method": "leastsq"},
        "index": {"index": [k for k in range(model.size) if k != 1]},
        "array": {"index": np.arange(model.size)[::-1]},
        "slice": {"index": slice(0, None)},
        "iterative": {
            "cam_params": [[{name: choice for name, choice in list(params.items())[:1]} for params in cam_params], cam_params],
            "group_params": [[{} for _ in group_params], group_params],
        },
        "cameras first": {"cam_params": [cam_params, cam_params]},
        "full": {"full": True},
        "full leastsq": {"full": True, "method": "leastsq"},
    }.get(how, {})
    before = model.params.valuesdict()
    with quiet():
        result = model.fit(**kwargs)
    p.unchanged(what)
    require(model.params.valuesdict() == before, f"{what}: changed the initial values")
    require(result is not None, f"{what}: failed")
    if "full" in how:
        require(result.success and result.nfev > 0, f"{what}: {result}")
        require(
            list(result.params) == [label for label, _, _ in p.entries], f"{what}: parameters {list(result.params)}"
        )
        result = np.array(list(result.params.valuesdict().values()))
    require(
        same(result, truth, 1e-4), lambda: f"{what}: {[l for l, _, _ in p.entries]} = {result} instead of {truth}"
    )
    require(np.nanmax(model.errors(result)) < 1e-4, f"{what}: errors {model.errors(result)}")
    return stats([(world, tuple(l for l, _, _ in p.entries), how)], 1, how, bool(p.entries))


def optimizer(world, cam_params, groups, group_params, index):
    """What reaches the optimizer: start, bounds, sparsity and scales belong together."""
    index = eval(index, {"np": np})
    p = Problem(world, cam_params, groups, group_params)
    n = len(p.observed())
    weights = np.linspace(1, 2, n)
    model = p.build()
    model.weights = weights
    found = {}

    def least_squares(fun, x0, args=(), **kwargs):
        function = fun
        fun = lambda x: function(x, *args, **kwargs.get("kwargs", {}))
        found.update(kwargs, x0=np.array(x0), fun=fun)
        steps = []
        f0 = fun(np.array(x0))
        for k in range(len(x0)):
            for sign in (0.25, -0.25):
                x = np.array(x0)
                x[k] += sign * STEP[p.entries[k][2]] * (0.1 if NAMES[p.entries[k][2]][0] in "kp" else 1)
                steps.append((k, fun(x)))
        found.update(f0=f0, steps=steps)
        raise Captured

    original = lmfit.minimizer.least_squares
    lmfit.minimizer.least_squares = least_squares
    try:
        with quiet():
            model.fit(index=index)
    except Captured:
        pass
    finally:
        lmfit.minimizer.least_squares = original
    what = f"{world}, {cam_params}, groups {groups}: {group_params}, index {index}"
    p.unchanged(what)
    if not found:
        return stats([], 0, "not captured", False)
    start = p.vector(0)
    require(same(found["x0"], start), f"{what}: starts at {found['x0']} instead of {start}")
    residuals = ((p.hand(start) - p.observed()) * (weights * n / weights.sum())[:, None])[index].ravel()
    residuals = residuals[~np.isnan(residuals)]
    require(same(found["f0"], residuals), f"{what}: residuals {found['f0']} instead of {residuals}")
    scales = found.get("x_scale")
    require(
        same(np.ravel(scales), model.scales, 1e-12), f"{what}: scales {scales} instead of {model.scales}"
    )
    pattern = found.get("jac_sparsity")
    if pattern is None:
        # Every residual may depend on every parameter
        pattern = np.ones((len(residuals), len(start)), dtype=bool)
        require(len(start) == 1, f"{what}: no sparsity")
    else:
        pattern = np.asarray(pattern.todense())
    require(pattern.shape == (len(residuals), len(start)), f"{what}: sparsity of shape {pattern.shape}")
    for k, moved in found["steps"]:
        if moved.shape == residuals.shape:
            rows = np.nonzero(moved != found["f0"])[0]
            missing = [int(row) for row in rows if not pattern[row, k]]
            require(not missing, f"{what}: {p.entries[k][0]} moves residuals {missing}, which its sparsity omits")
    return stats([(world, str(index), tuple(l for l, _, _ in p.entries))], len(found["steps"]), len(residuals), True)


# Options of the optimizer, which may be given by the user
OPTIONS = {"x_scale": "ones", "jac_sparsity": "dense", "diag": "ones", "ftol": 1e-5, "xtol": 1e-4, "gtol": 1e-6}


def passed(world, method, given, with_scales, with_sparsity, steps, index):
    """What is given for the optimizer reaches it, and only what is not given is filled in."""
    cam_params = [{"viewdir": True}, {"viewdir": [0, 2]}]
    p = Problem(world, cam_params, None, [{"f": True}], scales=with_scales, sparsity=with_sparsity)
    rows = eval(index, {"np": np})
    size = len(np.arange(len(p.observed()))[rows])
    truth = {"ones": lambda n: np.arange(1, n + 1) / 2, "dense": lambda n: np.ones((2 * size, n), dtype=int)}
    what = f"{world}, {method}, {given} given, scales {with_scales}, sparsity {with_sparsity}, {steps} runs, index {index}"
    model = p.build()
    n = len(model.params)
    kwargs = {k: truth[OPTIONS[k]](n) if OPTIONS[k] in truth else OPTIONS[k] for k in given}
    calls = []

    def optimizer(fun, x0, *args, **options):
        calls.append((np.array(x0), options))
        raise Captured

    names = ("least_squares", "scipy_leastsq")
    originals = [getattr(lmfit.minimizer, name) for name in names]
    for name in names:
        setattr(lmfit.minimizer, name, optimizer)
    before = {k: np.array(v) for k, v in kwargs.items()}
    try:
        with quiet():
            model.fit(index=rows, method=method, cam_params=[cam_params] * steps or None, **kwargs)
    except Captured:
        pass
    finally:
        for name, original in zip(names, originals):
            setattr(lmfit.minimizer, name, original)
    require(len(calls) == 1, f"{what}: {len(calls)} runs")
    options = calls[0][1]
    require(all(np.array_equal(before[k], kwargs[k]) for k in before), f"{what}: changed what was given")
    for key, value in kwargs.items():
        require(key in options, f"{what}: {key} is lost")
        require(np.array_equal(options[key], value), f"{what}: {key} is {options[key]} instead of {value}")
    for key, on, value in [
        ("diag", method == "leastsq" and with_scales, model.scales),
        ("x_scale", method == "least_squares" and with_scales, model.scales),
    ]:
        if key in kwargs:
            continue
        if on:
            require(np.allclose(options[key], value), f"{what}: {key} is {options.get(key)} instead of {value}")
        else:
            require(options.get(key) is None or np.array_equal(options[key], 1.0), f"{what}: {key} is {options.get(key)}")
    if "jac_sparsity" not in kwargs:
        pattern = options.get("jac_sparsity")
        on = method == "least_squares" and with_sparsity
        require((pattern is not None) == on, f"{what}: sparsity {pattern}")
    return stats([what], len(calls), (method, tuple(given)), bool(given))


def policy(world, given, method, with_sparsity, steps):
    """Observations which cannot be predicted are omitted, unless something else is asked for."""
    cam_params = [{"viewdir": [0, 2]}, {"viewdir": True}]
    p = Problem(world, cam_params, None, [{}], sparsity=with_sparsity)
    model = p.build()
    with quiet():
        missing = bool(np.isnan(model.predicted(p.vector(0))).any())
    what = f"{world}, missing residuals {given}, {method}, sparsity {with_sparsity}, {steps} runs"
    kwargs = {} if given is None else {"nan_policy": given}
    try:
        with quiet():
            result = model.fit(method=method, cam_params=[cam_params] * steps or None, **kwargs)
    except ValueError:
        require(missing and given in ("raise", "propagate"), f"{what}: refused")
        result = "refused"
    else:
        require(not (missing and given == "raise"), f"{what}: accepted")
        if not missing or given in (None, "omit"):
            require(result is not None and np.isfinite(result).all(), f"{what}: {result}")
        result = "fitted"
    p.unchanged(what)
    return stats([what], 1, result, missing)


ITERATIONS = [
    [([{}, {"viewdir": 0}], None)],
    [([{"viewdir": 0}, {"viewdir": 1}], None), ([{"viewdir": [1]}, {"viewdir": [0]}], None)],
    [([{"viewdir": True}, {}], None), ([{}, {"viewdir": True}], None), ([{"viewdir": 2}, {}], None)],
    [([{"f": 0}, {"f": [0, 1]}], None)],
    [([{"c": True}, {}], None), ([{}, {"xyz": True}], None)],
    [(None, "f"), (None, "c")],
    [([{"viewdir": 0}, {"viewdir": 0}], "k1")],
]


def iterated(world, cam_params, groups, group_params, steps, method, tolerance, failing=None):
    """Each run starts where the last one to succeed ended, and the last run is returned."""
    what = f"{world}, {cam_params}, groups {groups}: {group_params}, {steps}, {method}, tolerance {tolerance}"
    if failing is not None:
        what += f", run {failing} failing"
    p = Problem(world, cam_params, groups, group_params)
    shift = Problem(world, cam_params, groups, group_params)
    cams = [camera(i) for i in range(4)]
    for i, cam in enumerate(cams):
        cam._vector = shift.start[i] + np.array(TRUTH) * (1 + i / 4)
    for control, uv in zip(p.controls, by_hand(world, cams)):
        if isinstance(control, Matches):
            control.uvs = (uv, control.uvs[1])
        else:
            control.uv = uv
    few = {"k1": {"k": 0}, "f": {"f": 0}, "c": {"c": 1}}
    runs = [
        (
            cam_params if cams is None else cams,
            group_params if shared is None else [few[shared] for _ in group_params],
        )
        for cams, shared in steps
    ]
    problems = [Problem(world, a, groups, b) for a, b in runs + [(cam_params, group_params)]]
    if any(q.overlap or not q.entries for q in problems):
        return stats([], 0, "overlap", False)
    model = p.build()
    found = []
    original = lmfit.Minimizer.minimize

    def minimize(self, *args, **kwargs):
        start = np.array([x.value for x in self.params.values()])
        result = original(self, *args, **kwargs)
        if len(found) == failing:
            result.success = False
        found.append((start, np.array([x.value for x in result.params.values()])))
        return result

    kwargs = {"method": method}
    if any(cams is not None for cams, _ in steps):
        kwargs["cam_params"] = [a for a, _ in runs]
    if any(shared is not None for _, shared in steps):
        kwargs["group_params"] = [b for _, b in runs]
    if tolerance:
        kwargs["ftol"] = kwargs["xtol"] = tolerance
    try:
        lmfit.Minimizer.minimize = minimize
        with quiet():
            result = model.fit(**kwargs)
    finally:
        lmfit.Minimizer.minimize = original
    p.unchanged(what)
    require(len(found) == len(problems), f"{what}: {len(found)} runs instead of {len(problems)}")
    vectors = p.start
    for n, (q, (start, end)) in enumerate(zip(problems, found)):
        q.start = vectors
        require(
            same(start, q.vector(0)),
            f"{what}: run {n} starts at {start} instead of {q.vector(0)}",
        )
        if n != failing:
            vectors = q.expected(end)
    if failing == len(found) - 1:
        require(result is None, f"{what}: {result} though the last run failed")
        result = found[-1][1]
    require(result is not None and same(result, found[-1][1]), f"{what}: {result} instead of {found[-1][1]}")
    moved = any(not np.array_equal(a, b) for a, b in found[:-1])
    return stats([(world, str(steps), method, tolerance)], len(found), len(found), moved)


# -- Scales --


def scales(i, repeats, distance):
    """A step of the size of the scale moves image points by about one pixel."""
    cam = camera(i, size=(600, 400))
    cam.f = (800, 820)
    xyz = XYZ * distance
    control = [Points(cam, UV, xyz)] * repeats + [Lines(cam, [UV], [xyz + 0.5])] * (repeats - 1)
    value = Cameras.camera_scales(cam, control)
    require(value.shape == (20,) and np.all(value > 0), f"scales {value}")
    # Camera position: seen from the mean distance
    everything = np.vstack([xyz] * repeats + [xyz + 0.5] * (repeats - 1))
    mean = np.mean([np.sqrt(np.sum((point - cam.xyz) ** 2)) for point in everything])
    require(np.allclose(value[:3], mean / cam.f.mean()), f"position {value[:3]} for a distance of {mean}")
    # Control of other cameras and directions say nothing about the distance
    other = camera((i + 1) % 3, size=(600, 400))
    foreign = [
        Points(other, UV, xyz * 50),
        Lines(other, [UV], [xyz * 20]),
        Points(cam, UV, xyz - cam.xyz, directions=True),
        Lines(cam, [UV], [xyz * 7], directions=True),
    ]
    for order in (control + foreign, foreign + control):
        require(
            np.array_equal(Cameras.camera_scales(cam, order), value),
            f"scales depend on control of other cameras, or on directions: {Cameras.camera_scales(cam, order)[:3]}",
        )
    alone = Cameras.camera_scales(cam)
    require(np.array_equal(alone[3:], value[3:]) and np.all(alone[:3] > 0), f"scales without control {alone}")
    for none in ([], foreign):
        require(np.array_equal(Cameras.camera_scales(cam, none), alone), "scales without world control")
    u, v = np.meshgrid(np.linspace(10, 590, 12), np.linspace(10, 390, 9))
    uv = np.column_stack((u.ravel(), v.ravel()))
    rays = cam.uv_to_xyz(uv)
    for k, name in enumerate(NAMES):
        if name[:-1] in ("xyz", "imgsz", "k", "p"):
            continue
        moved = camera(i, size=(600, 400))
        moved._vector = cam.to_array()
        moved._vector[k] += value[k]
        d = np.hypot(*(moved.xyz_to_uv(rays, directions=True) - uv).T).mean()
        require(0.3 < d < 3, f"{name}: a step of {value[k]} moves points by {d} pixels")
    return stats([(i, repeats, distance)], 20, repeats, True)


# -- Plots --


def plots(world, cam, with_params, index):
    """Plotted errors are those of the parameters."""
    cam_params = [{"viewdir": True}, {"viewdir": [0, 2]}]
    p = Problem(world, cam_params, None, [{"f": True}])
    model = p.build()
    x = p.vector() if with_params else None
    index = eval(index, {"np": np})
    single = len(model.controls) == 1
    what = f"{world}: plot in camera {cam}, index {index}"
    try:
        results = model.plot(x, cam=cam, index=index)
    except ValueError:
        require(not single and not isinstance(index, slice), f"{what}: refused")
        results = None
    p.unchanged(what)
    steps = 0
    if results is not None:
        hands, k = [], 0
        cams = []
        for i, v in enumerate(p.expected(x if with_params else [])):
            c = camera(i)
            c._vector = v
            cams.append(c)
        for key, control in zip(p.keep, model.controls):
            kind, *idx = WORLDS[world][key]
            if cam not in idx:
                continue
            fresh = controls(world, cams)[key]
            if kind == "matches":
                me = idx.index(cam)
                uv, puv = fresh.uvs[me], cams[cam].xyz_to_uv(cams[idx[1 - me]].uv_to_xyz(fresh.uvs[1 - me]), directions=True)
            else:
                uv, puv = fresh.uv, fresh.predicted()
            quiver = results[k]["selected"]
            d = (puv - uv)[index]
            require(
                same(np.column_stack((quiver.X, quiver.Y)), uv[index])
                and same(np.column_stack((quiver.U, quiver.V)), d, 1e-6),
                f"{what}: control {key} plots {quiver.U}, {quiver.V} instead of {d.tolist()}",
            )
            rest = results[k]["unselected"]
            require((len(d) == len(uv)) == (rest is None), f"{what}: unselected points")
            k += 1
            steps += 1
        require(k == len(results), f"{what}: {len(results)} plots for {k} controls")
    matplotlib.pyplot.close("all")
    return stats([(world, cam, with_params, str(index))], steps, results is not None, True)


# -- Observers --


def orient(pairs, anchors, error):
    """View directions of an observer are recovered relative to the anchors."""
    start = [(10, -5, 2), (11, -4, 1), (9, -6, 3)]
    offset = np.array([(0.5, -0.4, 0.3), (-0.3, 0.2, 0.5), (0.2, 0.5, -0.4)])
    truth = np.array(start, float)
    for i in range(3):
        if i not in anchors:
            truth[i] += offset[i]
    images = [
        Image(f"/nowhere/{i}.jpg", cam=Camera(imgsz=(200, 150), f=300, viewdir=start[i]), datetime=trackkit.day(i))
        for i in range(3)
    ]
    true = [Camera(imgsz=(200, 150), f=300, viewdir=d) for d in truth]
    uv = np.array([(u, v) for u in (40.0, 100, 160) for v in (30.0, 75, 120)])
    data = np.empty(len(pairs), dtype=object)
    for k, (i, j) in enumerate(pairs):
        uvj = true[j].xyz_to_uv(true[i].uv_to_xyz(uv), directions=True)
        data[k] = RotationMatchesXYZ(cams=(images[i].cam, images[j].cam), uvs=(uv, uvj))
    matches = scipy.sparse.coo_matrix(([1] * len(pairs), zip(*pairs)), shape=(3, 3))
    matches.data = data
    kwargs = {} if anchors == [0] and len(pairs) == 3 and not error else {"anchors": anchors}
    model = ObserverCameras(Observer(images), matches=matches, **kwargs)
    what = f"pairs {pairs}, anchors {anchors}"

    def unchanged():
        for i, img in enumerate(images):
            require(np.array_equal(img.cam.viewdir, start[i]), f"{what}: camera {i} at {img.cam.viewdir}")

    # What reaches the optimizer
    def capture(fun, x0, args=(), jac=None, **kwargs):
        found = [np.array(x0), []]
        steps = np.sin(np.arange(len(x0)) * 1.7 + 1).reshape(-1, 3)
        for scale in (0.31, -0.17):
            x = np.array(x0) + (scale * steps * np.array([[i not in anchors] for i in range(3)])).ravel()
            slopes = []
            for k in range(len(x)):
                high, low = x.copy(), x.copy()
                high[k] += 1e-6
                low[k] -= 1e-6
                slopes.append((fun(high) - fun(low)) / 2e-6)
            found[1].append((np.array(jac(x)), np.array(slopes)))
        captured.append(found)
        return scipy.optimize.OptimizeResult(x=x0, success=True)

    if not error:
        captured = []
        with quiet():
            model.fit(method=capture, anchor_weight=3)
        unchanged()
        x0, gradients = captured[0]
        require(np.array_equal(x0.reshape(-1, 3), start), f"{what}: starts at {x0}")
        for found, slopes in gradients:
            # Rays are not normalised in the gradient, and matches of anchors have kinks
            require(
                len(anchors) > 1 or np.linalg.norm(found - slopes) < 0.15 * np.linalg.norm(slopes),
                lambda: f"{what}: gradient {found.tolist()} where the objective has {slopes.tolist()}",
            )
    if error:
        with breaking(data[0], error), quiet():
            try:
                model.fit()
            except Broken:
                pass
        unchanged()
        return stats([(tuple(map(tuple, pairs)), tuple(anchors), error)], 1, "error", True)
    with quiet():
        result = model.fit()
    unchanged()
    found = result.x.reshape(-1, 3)
    require(np.abs(found - truth).max() < 0.02, lambda: f"{what}: {found.tolist()} instead of {truth.tolist()}")
    model.set_cameras(found)
    for m in data:
        d = m.predicted(cam=0) - m.predicted(cam=1)
        require(np.abs(d).max() < 1e-3, f"{what}: matches differ by {np.abs(d).max()}")
    model.reset_cameras()
    unchanged()
    return stats([(tuple(map(tuple, pairs)), tuple(anchors))], 1, "fit", True)


def delegates(n):
    """An observer's cameras are matched as its images are, with ray directions."""
    images = []
    for k in range(n):
        rng = np.random.RandomState(0)
        texture = rng.randint(0, 255, (40, 60)).astype(np.uint8)
        texture = np.kron(np.roll(texture, k, axis=1), np.ones((5, 5), dtype=np.uint8))
        img = Image(f"/nowhere/{k}.jpg", cam=Camera(imgsz=(300, 200), f=300, viewdir=(k, 0, 0)), datetime=trackkit.day(k))
        img.array = texture
        images.append(img)
    observer = Observer(images)
    with quiet():
        model = ObserverCameras(observer)
        model.build_keypoints(clear_images=False)
        model.build_matches(seq=[1], max_ratio=0.8, weights=True, matcher=cv2.BFMatcher())
        matcher = KeypointMatcher(images)
        matcher.build_keypoints(clear_images=False)
        matcher.build_matches(seq=[1], max_ratio=0.8, weights=True, matcher=cv2.BFMatcher())
    matches = model.matches
    require(model.anchors == [0], f"anchors {model.anchors}")
    require(matches.shape == (n, n) and list(zip(matches.row, matches.col)) == [(k, k + 1) for k in range(n - 1)], f"{matches}")
    found = 0
    for m, other, i in zip(matches.data, matcher.matches.data, matches.row):
        require(type(m) is RotationMatchesXYZ, f"{type(m)}")
        require(m.cams[0] is images[i].cam and m.cams[1] is images[i + 1].cam, "cameras")
        require(m.size == other.size and np.array_equal(m.weights, other.weights), f"{m.size} matches, not {other.size}")
        for c in (0, 1):
            rays = images[i + c].cam.uv_to_xyz(other.uvs[c])
            rays /= np.linalg.norm(rays, axis=1, keepdims=True)
            require(np.allclose(m.predicted(c), rays, atol=1e-9), "ray directions")
        found += m.size
    return stats([n], found, found, found > 0)


def weighted(world, weights, index):
    """Weights are drawn at the points they belong to."""
    p = Problem(world, [{"viewdir": True}, {}], None, [{}], weights=None)
    model = p.build()
    n = model.size
    if weights:
        model.weights = np.arange(1, n + 1) ** 2
    idx = eval(index, {"np": np})
    drawn = model.plot_weights(**({} if index == "slice(None)" else {"index": idx}))
    rows = np.arange(n)[idx]
    want = np.arange(1, n + 1) ** 2.0 if weights else np.ones(n)
    want = want * n / want.sum()
    what = f"{world}, weights {weights}, index {index}"
    require(np.allclose(drawn.get_offsets(), model.observed()[rows]), f"{what}: points")
    require(np.allclose(drawn.get_array(), want[rows]), f"{what}: colours {drawn.get_array()}")
    require(np.allclose(drawn.get_sizes(), want[rows]), f"{what}: sizes {drawn.get_sizes()}")
    matplotlib.pyplot.close("all")
    return stats([what], 1, what, weights)


CAM_PARAMS = [
    {},
    {"viewdir": True},
    {"k": [0, 3], "viewdir": 0},
    {"c": 1, "f": True},
    {"p": True, "viewdir": [2, 1], "k": -1},
    {"f": 1, "imgsz": 0},
    {"xyz": [0, 2]},
]
GROUP_PARAMS = [{}, {"f": 0}, {"k": [1, 2], "viewdir": 1}, {"c": True, "xyz": True}]
GROUPS = [None, [[0, 1]], [[1, 0]], [[0], [1]], [[1]], [[0]], [[1], [0, 1]], [[0, 1], [0]]]


def seen(world):
    return {i for _, *idx in WORLDS[world] for i in idx}


def configurations(world, count, alphabet, groups, group_alphabet):
    for cam_params in itertools.product(alphabet, repeat=count):
        for group in groups:
            for group_params in itertools.product(group_alphabet, repeat=len(group) if group else 1):
                p = Problem(world, cam_params, group, group_params)
                if p.overlap:
                    continue
                if {j for _, idx, _ in p.entries for j in idx} - seen(world):
                    continue
                yield world, list(cam_params), group, list(group_params)


def explore(ck):
    for name in REFUSED:
        ck.run(refused, name, False)
    for name in ACCEPTED:
        ck.run(refused, name, True)
    # Selections
    alphabet = []
    for name in START:
        length = STOP[name] - START[name]
        choices = [
            True, False, None, 0, -1, length - 1, [], [0, length - 1], list(range(length)), [length - 1, 0],
            list(range(length))[::-1], [-1, 0],
        ]
        for choice in choices:
            count = len(select({name: choice}))
            alphabet.append((name, choice, None))
            for limits in [(-1, 1), (None, 2), (0.5, None), (float("-inf"), float("inf"))]:
                alphabet.append((name, choice, limits))
            if count > 1:
                alphabet.append((name, choice, (list(range(-count, 0)), [None] + list(range(1, count)))))
    cases = [([a],) for a in alphabet]
    few = [a for a in alphabet if a[2] in (None, (-1, 1))]
    if ck.thorough:
        cases += [([a, b],) for a in few for b in few if a[0] != b[0]]
    else:
        cases += [([a, b],) for a in few for b in few if a[0] != b[0] and (a[0], b[0]) in PAIRS]
    ck.sweep(parse, cases, chunk=256)
    tight = [
        {}, {"k": {"i": True, "min": -0.001, "max": None}}, {"k": [1, 4], "p": True}, {"f": {"i": [0, 1], "min": [81, 70], "max": 90}}, {"c": 0},
        {"viewdir": {"i": [2, 1], "min": -180, "max": 180}},
    ]
    cases = [
        ([a, b], gp, g)
        for a in tight for b in tight for g in ([[0, 1]], [[0], [1]], [[1]])
        for gp in itertools.product(tight, repeat=len(g))
    ]
    ck.sweep(bounds, cases, chunk=16)
    # Problems
    cases = []
    few = CAM_PARAMS if ck.thorough else CAM_PARAMS[:6]
    for world in ("points", "lines", "mixed", "outside"):
        groups = GROUPS if ck.thorough or world == "points" else [None, [[1]], [[1], [0, 1]]]
        cases += list(configurations(world, 2, few, groups, GROUP_PARAMS[: None if ck.thorough else 3]))
    cases += list(configurations("one", 1, CAM_PARAMS, [None], GROUP_PARAMS))
    cases += list(configurations("outside", 1, CAM_PARAMS, [None], GROUP_PARAMS))
    for world in ("matches", "mixed", "rays", "far"):
        cases += list(configurations(world, 2, CAM_PARAMS, [None, [[0], [1]]], GROUP_PARAMS))
    cases += list(
        configurations("chain", 3, CAM_PARAMS[:3], [[[0, 2]], [[1, 2], [0]], [[2], [0, 1]], None], GROUP_PARAMS[:3])
    )
    ck.sweep(problem, cases, chunk=8, timeout=120)
    # Faults
    calls = ("predicted", "residuals", "errors", "fit", "leastsq", "iterative", "plot")
    cases = [
        (world, which, after, call)
        for world in ("points", "mixed", "matches")
        for which in range(3 if world == "mixed" else 2 if world == "points" else 1)
        for after in range(40 if ck.thorough else 12)
        for call in calls
        if after < 4 or call not in calls[:3]
        if world != "matches" or call != "leastsq"
    ]
    ck.sweep(fault, cases, chunk=8)
    # Fits
    simple = [{}, {"viewdir": True}, {"viewdir": [0, 1]}, {"viewdir": 1}]
    cases = []
    for world in ("grids", "grid and matches", "grid"):
        count = 1 if world == "grid" else 2
        for how in ("plain", "leastsq", "weights", "index", "array", "slice", "iterative", "cameras first", "full", "full leastsq"):
            for cam_params in itertools.product(simple, repeat=count):
                if not any(cam_params):
                    continue
                for groups in [None] if count == 1 else [None, [[0]], [[1], [0]]]:
                    for group_params in itertools.product([{}, {"f": True}], repeat=len(groups) if groups else 1):
                        cases.append((world, list(cam_params), groups, list(group_params), how))
    ck.sweep(fit, cases, chunk=8, timeout=120)
    cases = [
        ("grids", list(cam_params), groups, group_params, steps, method, tolerance)
        for cam_params in itertools.product(simple[1:3], repeat=2)
        for groups, group_params in [(None, [{}]), (None, [{"f": True}]), ([[1], [0]], [{"f": True}, {}])]
        for steps in ITERATIONS
        for method in ("least_squares", "leastsq")
        for tolerance in (0, 1e-2)
    ]
    cases += [
        ("grids", [{"viewdir": True}, {"viewdir": [0, 1]}], groups, group_params, steps, "least_squares", 0, failing)
        for groups, group_params in [(None, [{"f": True}]), ([[1], [0]], [{"f": True}, {}])]
        for steps in ITERATIONS
        for failing in range(len(steps) + 1)
    ]
    ck.sweep(iterated, cases, chunk=8, timeout=120)
    indices = ["slice(None)", "slice(1, None, 2)", "[0, 2]", "[3, 1, 2]", "np.array([2, 0, 1])", "np.arange(3)", "[-1, 0]"]
    cases = [
        (world, list(cam_params), groups, group_params, index)
        for world in ("points", "mixed", "far", "lines")
        for cam_params in itertools.product(CAM_PARAMS[:4], repeat=2)
        for groups, group_params in [(None, [{}]), ([[1]], [{"k": 2}]), ([[1], [0]], [{"k": 1}, {"k": [1, 2]}])]
        for index in indices
        if any(cam_params) or any(group_params)
    ]
    cases += [
        ("one", [a], None, [{}], index) for a in CAM_PARAMS[1:] for index in indices[:4] if True
    ]
    ck.sweep(optimizer, [c for c in cases if "[3" not in c[4] or c[0] != "one"], chunk=16)
    options = {
        "least_squares": ("x_scale", "jac_sparsity", "ftol", "xtol", "gtol"),
        "leastsq": ("diag", "ftol", "xtol", "gtol"),
    }
    cases = [
        (world, method, list(given), with_scales, with_sparsity, steps, index)
        for world in ("points", "mixed")
        for method in options
        for n in range(len(options[method]) + 1)
        for given in itertools.combinations(options[method], n)
        for with_scales in (False, True)
        for with_sparsity in (False, True)
        for steps in (0, 1)
        for index in ("slice(None)", "[0, 2, 3]")
    ]
    ck.sweep(passed, cases, chunk=16)
    cases = [
        (world, given, method, with_sparsity, steps)
        for world in ("points", "far", "mixed")
        for given in (None, "omit", "raise", "propagate")
        for method in ("least_squares", "leastsq")
        for with_sparsity in (False, True)
        for steps in (0, 1)
    ]
    ck.sweep(policy, cases, chunk=4)
    for i in range(3):
        for repeats in (1, 2, 5):
            for distance in (1, 3, 10):
                ck.run(scales, i, repeats, distance)
    cases = [
        (world, cam, with_params, index)
        for world in ("points", "mixed", "matches")
        for cam in (0, 1)
        for with_params in (False, True)
        for index in ("slice(None)", "[0, 2]", "np.array([1])", "slice(1, None)")
        if world == "matches" or index in ("slice(None)", "[0, 2]", "np.array([1])")
    ]
    ck.sweep(plots, cases, chunk=4)
    for world in ("points", "mixed", "matches", "grid"):
        for weights in (False, True):
            for index in ("slice(None)", "[2, 0]", "np.array([1])", "slice(1, None)"):
                ck.run(weighted, world, weights, index)
    calls = ("predicted", "residuals", "errors", "plot", "fit", "leastsq", "iterative")
    cases = [
        (world, how, call)
        for world in ("points", "lines", "mixed", "matches", "chain")
        for how in ("nothing", "set", "edited", "distorted", "saved")
        for call in calls
        if (world, call) != ("matches", "leastsq")
    ]
    ck.sweep(moved, cases, chunk=4, timeout=120)
    for n in (2, 3):
        ck.run(delegates, n)
    every = list(itertools.combinations(range(3), 2))
    graphs = [every] + [list(g) for g in itertools.combinations(every, 2)]
    cases = [(g, [a], 0) for g in graphs for a in range(3)] + [(every, [0, 2], 0), (every[::-1], [1], 0)]
    cases += [(every, [0], e) for e in range(1, 9)]
    ck.sweep(orient, cases, chunk=1, timeout=120)


PAIRS = {("f", "c"), ("c", "f"), ("k", "viewdir"), ("viewdir", "xyz"), ("p", "imgsz")}
