"""Motion models follow their documented equations."""
import contextlib
import datetime
import itertools

import numpy as np

from mc.core import require, stats
from glimpse import Raster
from glimpse.track import motion as m

LEVEL = "model_checking"
RULE = (
    "A case is one motion model configuration (class, surface, uncertainties, velocities, "
    "accelerations, time unit) with a history of time steps; the random source answers "
    "with pairwise distinct values which are recovered from the particles by inverting "
    "the documented equations, so each must be used once and nothing else. Non-trivial "
    "when some uncertainty or velocity is non-zero."
)
ASSUMPTIONS = [
    "Surfaces are numbers, constants and planes, for which linear sampling is exact."
]

HOUR = datetime.timedelta(hours=1)
UNITS = {"6h": 6 * HOUR, "day": 24 * HOUR, "30s": datetime.timedelta(seconds=30)}


class Source:
    """Random normal draws: pairwise distinct, remembered."""

    def __init__(self, salt):
        self.k = salt * 1000
        self.pool = []

    def take(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        values = []
        for _ in range(n):
            self.k += 1
            values.append(((self.k * 0.6180339887) % 1 - 0.5) * 4)
        self.pool += values
        return np.array(values).reshape(shape) if shape else values[0]

    def randn(self, *shape):
        return self.take(*shape)

    def standard_normal(self, size=None):
        return self.take(*np.atleast_1d(size)) if size is not None else self.take()

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + np.asarray(scale) * self.take(*np.atleast_1d(size).astype(int))


@contextlib.contextmanager
def scripted(source):
    names = ("randn", "standard_normal", "normal")
    saved = {k: getattr(np.random, k) for k in names}
    rng = np.random.default_rng
    for k in names:
        setattr(np.random, k, getattr(source, k))
    np.random.default_rng = lambda *args, **kwargs: source
    try:
        yield
    finally:
        np.random.default_rng = rng
        for k, v in saved.items():
            setattr(np.random, k, v)


def plane(x, y):
    return 3 + 0.25 * x - 0.5 * y


def surface(kind):
    """(argument, exact function)"""
    if kind is None:
        return None, None
    if kind == "number":
        return 2.5, lambda x, y: np.full(np.shape(x), 2.5)
    if kind == "zero":
        return 0, lambda x, y: np.zeros(np.shape(x))
    L = 5000
    if kind == "constant":
        return (
            Raster(np.full((4, 4), 1.5), x=(-L, L), y=(L, -L)),
            lambda x, y: np.full(np.shape(x), 1.5),
        )
    if kind == "partial":
        # Zero in one half (uncertainty missing there)
        x = np.linspace(-L + 5, L - 5, 1000)
        z = np.where(x > 0, 0.5, 0.0)
        return (
            Raster(z[None, :] * np.ones((4, 1)), x=(-L, L), y=(L, -L)),
            lambda xx, yy: np.interp(xx, x, z),
        )
    x = np.linspace(-0.9 * L, 0.9 * L, 10)
    return Raster(plane(x[None, :], x[::-1, None]), x=(-L, L), y=(L, -L)), plane


CLASSES = {
    "cartesian": (m.CartesianMotion, 3, False),
    "cylindrical": (m.CylindricalMotion, 3, True),
    "tangent": (m.TangentCartesianMotion, 2, False),
    "tangentcyl": (m.TangentCylindricalMotion, 2, True),
}
NAMES = {
    "cartesian": ("vxyz", "axyz"),
    "cylindrical": ("vrthz", "arthz"),
    "tangent": ("vxy", "axy"),
    "tangentcyl": ("vrth", "arth"),
}


def build(cls, n, unit, dem, dem_sigma, xy, xy_sigma, v, v_sigma, a, a_sigma, slope):
    Class, dims, _ = CLASSES[cls]
    vname, aname = NAMES[cls]
    kwargs = {
        vname: v[:dims],
        vname + "_sigma": v_sigma[:dims],
        aname: a[:dims],
        aname + "_sigma": a_sigma[:dims],
    }
    if dims == 2:
        kwargs["slope_sigma"] = slope
    if dem_sigma is not None:
        kwargs["dem_sigma"] = surface(dem_sigma)[0]
    return Class(
        xy=xy, time_unit=UNITS[unit], dem=surface(dem)[0], n=n, xy_sigma=xy_sigma, **kwargs
    )


class Recover:
    """Checks that recovered draws come from the pool, each used once."""

    def __init__(self, source, where):
        self.pool = np.array(source.pool, dtype=float)
        self.used = np.zeros(len(self.pool), dtype=bool)
        self.where = where

    def __call__(self, value, mean, sigma, what):
        """value = mean + sigma * draw, elementwise."""
        value, mean, sigma = np.broadcast_arrays(value, mean, sigma)
        require(np.isfinite(value).all(), f"{self.where}: {what} is not finite: {value}")
        for x, mu, s in zip(value.ravel(), mean.ravel(), sigma.ravel()):
            if s == 0:
                require(
                    abs(x - mu) < 1e-9, f"{self.where}: {what} is {x}, expected {mu}"
                )
                continue
            d = np.abs(self.pool - (x - mu) / s) if len(self.pool) else np.array([9.0])
            k = int(np.argmin(d))
            require(
                d[k] < 1e-6,
                f"{self.where}: {what} {x} is not {mu} + {s} times a random draw",
            )
            require(not self.used[k], f"{self.where}: {what} reuses a random draw")
            self.used[k] = True


def check_init(cls, n, dem, dem_sigma, xy, xy_sigma, v, v_sigma, p, source, where):
    _, dims, cyl = CLASSES[cls]
    require(p.shape == (n, 6), f"{where}: shape {p.shape}")
    r = Recover(source, where)
    r(p[:, 0], xy[0], xy_sigma[0], "x")
    r(p[:, 1], xy[1], xy_sigma[1], "y")
    z = surface(dem)[1](p[:, 0], p[:, 1])
    s = 0 if dem_sigma is None else surface(dem_sigma)[1](p[:, 0], p[:, 1])
    r(p[:, 2], z, s, "z")
    if not cyl:
        for k in range(dims):
            r(p[:, 3 + k], v[k], v_sigma[k], f"velocity {k}")
    else:
        if v_sigma[0] == 0 and v_sigma[1] == 0:
            r(p[:, 3], v[0] * np.cos(v[1]), 0, "vx")
            r(p[:, 4], v[0] * np.sin(v[1]), 0, "vy")
        elif v_sigma[1] == 0:
            # Signed magnitude along a fixed direction
            along = p[:, 3] * np.cos(v[1]) + p[:, 4] * np.sin(v[1])
            across = -p[:, 3] * np.sin(v[1]) + p[:, 4] * np.cos(v[1])
            r(along, v[0], v_sigma[0], "radial velocity")
            r(across, 0, 0, "velocity across")
        elif v_sigma[0] == 0:
            if v[0]:
                r(np.hypot(p[:, 3], p[:, 4]), abs(v[0]), 0, "speed")
                theta = np.arctan2(p[:, 4] / v[0], p[:, 3] / v[0])
                # Angles are known up to whole turns
                turns = [(theta + 2 * np.pi * k) for k in (-2, -1, 0, 1, 2)]
                for j in range(n):
                    ok = []
                    for t in turns:
                        d = np.abs(r.pool - (t[j] - v[1]) / v_sigma[1])
                        ok += [k for k in np.flatnonzero(d < 1e-6) if not r.used[k]]
                    require(ok, f"{where}: direction {theta[j]} is not a draw")
                    r.used[ok[0]] = True
        else:
            # Both drawn: some unused pair of draws explains each particle
            for j in range(n):
                vr = v[0] + v_sigma[0] * r.pool[:, None]
                th = v[1] + v_sigma[1] * r.pool[None, :]
                d = np.abs(vr * np.cos(th) - p[j, 3]) + np.abs(vr * np.sin(th) - p[j, 4])
                d[r.used, :] = np.inf
                d[:, r.used] = np.inf
                np.fill_diagonal(d, np.inf)
                a, b = np.unravel_index(np.argmin(d), d.shape)
                require(d[a, b] < 1e-6, f"{where}: velocity {p[j, 3:5]} is not drawn")
                r.used[[a, b]] = True
        if dims == 3:
            r(p[:, 5], v[2], v_sigma[2], "vz")
    if dims == 2:
        require((p[:, 5] == 0).all(), f"{where}: vz {p[:, 5]}")


def check_step(cls, t, dem, a, a_sigma, slope, p0, p1, source, where):
    _, dims, cyl = CLASSES[cls]
    r = Recover(source, where)
    require(p1.shape == p0.shape, f"{where}: shape")
    dv = p1[:, 3:6] - p0[:, 3:6]
    if t == 0:
        require(np.allclose(p1, p0, atol=1e-12), f"{where}: a zero step moves particles")
        return
    acc = dv / t
    if not cyl:
        for k in range(dims):
            r(acc[:, k], a[k], a_sigma[k], f"acceleration {k}")
    else:
        speed = np.hypot(p0[:, 3], p0[:, 4])
        require(np.isfinite(p1).all(), f"{where}: particles are not finite\n{p1}")
        for j in range(len(p0)):
            if speed[j] == 0:
                if a[0] == 0 and a_sigma[0] == 0:
                    require(
                        np.allclose(p1[j, :2], p0[j, :2]), f"{where}: left its rest"
                    )
                continue
            c, s = p0[j, 3] / speed[j], p0[j, 4] / speed[j]
            r(acc[j, 0] * c + acc[j, 1] * s, a[0], a_sigma[0], "radial acceleration")
            r(
                (acc[j, 1] * c - acc[j, 0] * s) / speed[j],
                a[1],
                a_sigma[1],
                "angular rate",
            )
        if dims == 3:
            r(acc[:, 2], a[2], a_sigma[2], "vertical acceleration")
    move = t * p0[:, 3:6] + 0.5 * acc * t ** 2
    require(
        np.allclose(p1[:, :2], p0[:, :2] + move[:, :2], atol=1e-9),
        lambda: f"{where}: moved by {p1[:, :2] - p0[:, :2]}, expected {move[:, :2]}",
    )
    if dims == 3:
        require(np.allclose(p1[:, 2], p0[:, 2] + move[:, 2], atol=1e-9), f"{where}: z")
    else:
        require((p1[:, 5] == p0[:, 5]).all(), f"{where}: vz changed")
        f = surface(dem)[1]
        offset = p0[:, 2] - f(p0[:, 0], p0[:, 1])
        dist = np.hypot(move[:, 0], move[:, 1])
        r(p1[:, 2] - f(p1[:, 0], p1[:, 1]), offset, slope * dist, "height")


def simulate(cls, n, unit, dem, dem_sigma, xy_sigma, v, v_sigma, a, a_sigma, slope, steps):
    """Initial particles and every step of a history follow the equations."""
    xy = (2.0, -3.0)
    before = [list(map(float, s)) for s in (v, v_sigma, a, a_sigma)]
    model = build(
        cls, n, unit, dem, dem_sigma, xy, xy_sigma, v, v_sigma, a, a_sigma, slope
    )
    source = Source(1)
    with scripted(source), np.errstate(all="ignore"):
        p = model.initialize_particles()
    where = f"{cls} initial"
    check_init(cls, n, dem, dem_sigma, xy, xy_sigma, v, v_sigma, p, source, where)
    states = {p.tobytes()}
    for i, dt in enumerate(steps):
        source = Source(2 + i)
        p0 = p.copy()
        with scripted(source), np.errstate(all="ignore"):
            out = model.evolve_particles(p, dt=dt * HOUR)
        require(out is None, "evolving returns something")
        t = dt * 3600 / UNITS[unit].total_seconds()
        check_step(
            cls, t, dem, a, a_sigma, slope, p0, p, source, f"{cls} step {i} of {steps}"
        )
        states.add(p.tobytes())
    # The likelihood of the surface
    ll = model.compute_log_likelihoods(p)
    if CLASSES[cls][1] == 2 or dem_sigma is None:
        require(ll is None, f"{cls}: likelihood {ll} without uncertainty")
    else:
        z = surface(dem)[1](p[:, 0], p[:, 1])
        s = surface(dem_sigma)[1](p[:, 0], p[:, 1])
        with np.errstate(all="ignore"):
            expected = np.where(s == 0, 0, (z - p[:, 2]) ** 2 / (2 * s ** 2))
        require(np.allclose(ll, expected), f"{cls}: likelihood {ll}, expected {expected}")
    after = [list(map(float, s)) for s in (v, v_sigma, a, a_sigma)]
    require(before == after, "arguments were changed")
    moving = any(v) or any(v_sigma) or any(xy_sigma)
    return stats(states, len(steps), p.tobytes(), moving)


def compose(cls, unit, v, a, splits):
    """Deterministic steps compose and reverse exactly (Cartesian, or unaccelerated)."""
    zero = (0, 0, 0)
    model = build(cls, 2, unit, "plane", "zero", (1.0, 2.0), (1, 1), v, zero, a, zero, 0)

    def start():
        with scripted(Source(5)):
            return model.initialize_particles()

    def go(p, dt):
        with scripted(Source(6)):
            model.evolve_particles(p, dt=dt * HOUR)
        return p

    one = go(start(), sum(splits))
    many = start()
    states = set()
    for dt in splits:
        go(many, dt)
        states.add(many.tobytes())
    require(
        np.allclose(one, many, atol=1e-9), f"{cls}: {splits} differs from one step"
    )
    back = many
    for dt in splits[::-1]:
        go(back, -dt)
    require(np.allclose(back, start(), atol=1e-9), f"{cls}: {splits} is not reversible")
    return stats(states, 2 * len(splits) + 1, one.tobytes())


def base(n, steps, unit, sigma):
    """The minimal model: positions advance by velocity."""
    model = m.Motion((1.0, -2.0), UNITS[unit], n=n, vxyz_sigma=sigma)
    source = Source(7)
    with scripted(source):
        p = model.initialize_particles()
    r = Recover(source, "base")
    require(p.shape == (n, 6), "shape")
    r(p[:, 0], 1, 0, "x")
    r(p[:, 1], -2, 0, "y")
    r(p[:, 2], 0, 0, "z")
    for k in range(3):
        r(p[:, 3 + k], 0, sigma[k], f"velocity {k}")
    for dt in steps:
        q = p.copy()
        model.evolve_particles(p, dt=dt * HOUR)
        q[:, :3] += q[:, 3:6] * dt * 3600 / UNITS[unit].total_seconds()
        require(np.allclose(p, q), f"base step {dt}")
    require(model.compute_log_likelihoods(p) is None, "base likelihood")
    return stats([p.tobytes()], len(steps), p.tobytes(), any(sigma))


def explore(ck):
    onoff = lambda s: [tuple(x * f for x, f in zip(s, k)) for k in itertools.product((0, 1), repeat=len(s))]
    steps = [(6,), (-6,), (0,), (6, 12), (6, -12, 24)]
    cases = []
    for cls, (_, dims, cyl) in CLASSES.items():
        vs = [(0, 0, 0), (1.5, 0.75, -0.5), (-2.0, 2.5, 0.25), (0, 1.0, 0)]
        accs = [(0, 0, 0), (0.5, 0.25, -0.125), (0, -0.5, 0.25)]
        v_sigmas = [s + (0.3,) * (dims == 3) for s in onoff((0.4, 0.3))]
        v_sigmas += [(0.4, 0.3, 0)[: dims]] if dims == 3 else []
        a_sigmas = [s + (0.2,) * (dims == 3) for s in onoff((0.3, 0.15))]
        sigmas = ["zero", "number", "partial"] + ([None] if dims == 3 else [])
        if cls in ("tangent", "tangentcyl"):
            sigmas.append(None)
        for dem in ("number", "constant", "plane"):
            for dem_sigma in sigmas:
                for xy_sigma in ((0, 0), (0.5, 0.25), (0.5, 0)):
                    for v in vs:
                        for i, (v_sigma, acc) in enumerate(itertools.product(v_sigmas, accs)):
                            # Every pair of the remaining factors over the product above
                            for j, a_sigma in enumerate(a_sigmas):
                                k = i + j + len(cases)
                                if not ck.thorough and (i + j) % 3:
                                    continue
                                unit = list(UNITS)[k % 2]
                                cases.append(
                                    (
                                        cls,
                                        1 + k % 3,
                                        unit,
                                        dem,
                                        dem_sigma,
                                        xy_sigma,
                                        v,
                                        v_sigma,
                                        acc,
                                        a_sigma,
                                        (0, 0.5)[(i + j) % 2],
                                        steps[k % len(steps)],
                                    )
                                )
    # Every history of steps, for one configuration of each class
    hs = [s for k in range(1, 4 + ck.thorough) for s in itertools.product((6, -6, 0, 3), repeat=k)]
    for cls in CLASSES:
        for h in hs:
            for v in ((1.5, 0.75, -0.5), (0, 0, 0)):
                cases.append(
                    (cls, 2, "6h", "plane", "zero", (0.5, 0), v, (0, 0, 0), (0, 0, 0), (0, 0, 0), 0, h)
                )
                cases.append(
                    (cls, 2, "day", "plane", "number", (0.5, 0.5), v, (0.1, 0, 0.1), (0.01, 0.05, 0), (0.01, 0, 0.1), 0.25, h)
                )
    ck.sweep(simulate, cases)
    comps = []
    for cls, (_, dims, cyl) in CLASSES.items():
        for v in ((0, 0, 0), (1.5, 0.75, -0.5)):
            for a in ((0, 0, 0), (0.5, 0.25, -0.125)):
                if cyl and any(a):
                    continue
                for s in hs:
                    comps.append((cls, "day", v, a, s))
    ck.sweep(compose, comps)
    ck.sweep(
        base,
        [
            (n, s, u, sig)
            for n in (1, 2, 3)
            for s in steps
            for u in UNITS
            for sig in onoff((0.5, 0.25, 0.125))
        ],
    )
