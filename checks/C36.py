"""Every frame of an animation shows the pixels around the point."""
import itertools

import matplotlib.pyplot as plt
import numpy as np

from mc import trackkit
from mc.core import require, stats
from glimpse import Camera, Image, Observer

LEVEL = "model_checking"
RULE = (
    "A case is one animation (images with cameras which turn, a point, a tile size and a choice "
    "of frames), whose frames are drawn in every order of pairs. Non-trivial when a frame shows "
    "part of an image."
)
ASSUMPTIONS = ["Images are in memory.", "Animated points are in front of the cameras of all images shown.", "The update function of matplotlib's FuncAnimation is called directly."]

SIZE = (40, 30)
# View directions of a sequence of images
TURNS = {
    "still": [(0, 0, 0)] * 3,
    "drift": [(0, 0, 0), (1.3, -0.7, 0), (3.1, 0.4, 1)],
    "swing": [(0, 0, 0), (15, 0, 0), (-9, 12, 0)],
    "away": [(0, 0, 0), (45, 0, 0), (-40, 5, 0)],
}
F = 60
# Sizes of the images of a sequence
TURNS["mixed"] = [(0, 0, 0), (1.3, -0.7, 0), (-1.1, 2, 0)]
SIZES = {"mixed": [SIZE, (56, 42), (36, 44)]}


def dims(i, turns):
    return SIZES[turns][i] if turns in SIZES else SIZE


def pixels(i, bands, turns=None):
    size = dims(i, turns)
    v, u = np.meshgrid(np.arange(size[1]), np.arange(size[0]), indexing="ij")
    layers = [(u * 7 + v * 41 + b * 13 + i * 29) % 256 for b in range(bands)]
    return (layers[0] if bands == 1 else np.dstack(layers)).astype(np.uint8)


def observer(turns, bands):
    images = []
    for i, viewdir in enumerate(TURNS[turns]):
        img = Image(f"/nowhere/img-{i}.png", cam=Camera(imgsz=dims(i, turns), f=F, viewdir=viewdir), datetime=trackkit.day(i))
        img.array = pixels(i, bands, turns)
        images.append(img)
    return Observer(images)


def shown(axes, i, bands, where, near, size, turns):
    """The image in some axes is the region of an image around a point."""
    image = axes.images[0]
    l, r, b, t = image.get_extent()
    array = np.asarray(image.get_array())
    want = []
    for k in range(2):
        want += [max(near[k] - size[k] / 2, 0), min(near[k] + size[k] / 2, dims(i, turns)[k])]
    visible = want[0] < want[1] and want[2] < want[3]
    if visible and min(want[1] - want[0], want[3] - want[2]) > 1:
        box = np.array([l, r, t, b])
        require((box == np.round(box)).all(), f"{where}: extent {box} is not on pixel edges")
        require(
            (np.abs(box - want) <= 0.5 + 1e-6).all(), lambda: f"{where}: extent {box.tolist()} instead of {want}"
        )
        l, r, t, b = box.astype(int)
        region = pixels(i, bands, turns)[t:b, l:r]
        require(
            array.shape == region.shape and np.array_equal(array, region),
            lambda: f"{where}: other pixels than those of image {i} at {box.tolist()}",
        )
    elif not visible:
        require((array == 255).all(), f"{where}: shows something outside the image")
    return visible


def limits(axes, near, size, where):
    x, y = axes.get_xlim(), axes.get_ylim()
    want = [near[0] - size[0] / 2, near[0] + size[0] / 2, near[1] + size[1] / 2, near[1] - size[1] / 2]
    require(np.allclose([*x, *y], want), lambda: f"{where}: limits {x}, {y} instead of {want}")


def marked(axes, near, where):
    dots = [line for line in axes.lines if line.get_marker() == "." and line.get_color() == "red"]
    require(len(dots) == 1, f"{where}: {len(dots)} marks")
    require(np.allclose(np.ravel(dots[0].get_xydata()), near), f"{where}: mark at {dots[0].get_xydata()} instead of {near}")


def text(axes):
    return " ".join(t.get_text() for t in axes.texts)


def labelled(axes, i, where):
    require(f"{i} : img-{i}" in text(axes), f"{where}: label {text(axes)!r}")
    for t in axes.texts:
        x, y = axes.transAxes.inverted().transform(t.get_transform().transform(t.get_position()))
        require(0 <= x <= 1 and 0 <= y <= 1, f"{where}: label is drawn outside the axes")


def fits(uv, size, i, turns):
    """Whether the box around a point is in the image, wherever it is rounded to."""
    return bool(all(size[k] / 2 + 0.5 <= uv[k] <= dims(i, turns)[k] - size[k] / 2 - 0.5 for k in range(2)))


def animate(turns, uv, size, frames, kind, bands):
    plt.close("all")
    obs = observer(turns, bands)
    arrays = [img.cam.to_array() for img in obs.images]
    given = {"all": None, "list": list(frames), "array": np.array(frames)}[kind]
    what = f"{turns}, point {uv}, size {size}, frames {given}"
    order = list(range(3)) if kind == "all" else list(frames)
    try:
        anim = obs.animate(uv=uv, frames=given, size=size, subplots={"figsize": (2, 1)}, animation={"repeat": False})
    except IndexError:
        require(not fits(np.array(SIZE) / 2 if uv is None else uv, size, order[0], turns), f"{what}: refused")
        plt.close("all")
        return stats([what], 0, "refused", False, traces=0)
    require([int(i) for i in anim.new_frame_seq()] == order, f"{what}: frames")
    anim._draw_was_started = True
    fig = plt.gcf()
    left, right = fig.axes
    start = np.array(SIZE) / 2 if uv is None else np.array(uv, dtype=float)
    ray = obs.images[order[0]].cam.uv_to_xyz(start[None])
    steps, seen = 0, 0
    if any(np.isnan(obs.images[i].cam.xyz_to_uv(ray)).any() for i in order):
        # Nothing to center on where the target is behind the camera
        plt.close("all")
        return stats([what], 0, "behind", False, traces=0)
    for i in order + order[::-1]:
        near = obs.images[i].cam.xyz_to_uv(ray)[0]
        where = f"{what}: frame {i}"
        artists = anim._func(i)
        steps += 1
        seen += shown(left, i, bands, f"{where} left", near, size, turns)
        shown(right, i, bands, f"{where} right", near, size, turns)
        limits(left, near, size, f"{where} left")
        limits(right, start, size, f"{where} right")
        marked(left, near, f"{where} left")
        marked(right, near, f"{where} right")
        labelled(left, i, where)
        require(len(artists) >= 5, f"{where}: artists")
    require(all(np.array_equal(a, img.cam.to_array()) for a, img in zip(arrays, obs.images)), f"{what}: cameras changed")
    require(all(np.array_equal(img.array, pixels(i, bands, turns)) for i, img in enumerate(obs.images)), f"{what}: images changed")
    plt.close("all")
    return stats([what], steps, (turns, uv, seen), seen > 0, traces=steps)


PATHS = {
    "inside": [(0, 10, 0), (0.4, 10, -0.3), (0.9, 11, 0.2)],
    "edge": [(-2.5, 10, 1), (-3, 10, 2.2), (3.2, 10, -2.4)],
}


def track(turns, path, size, frames, kind, bands):
    plt.close("all")
    obs = observer(turns, bands)
    order = list(range(3)) if kind == "all" else list(frames)
    given = {"all": None, "list": list(frames), "array": np.array(frames), "tuple": tuple(frames)}[kind]
    xyz = np.array(PATHS[path])[: len(order)]
    what = f"{turns}, {path} path, size {size}, frames {given}"
    for k, i in enumerate(order):
        if not fits(obs.images[i].cam.xyz_to_uv(xyz[k : k + 1])[0], size, i, turns):
            # Tiles are centered on the point
            return stats([what], 0, "outside", False, traces=0)
    anim = obs.track(xyz, frames=given, size=size, subplots={"figsize": (2, 1)}, animation={"repeat": False})
    anim._draw_was_started = True
    require([int(i) for i in anim.new_frame_seq()] == order, f"{what}: frames")
    left, right = plt.gcf().axes
    steps = 0
    first = obs.images[order[0]].cam.xyz_to_uv(xyz[:1])[0]
    for k, i in list(enumerate(order)) + list(enumerate(order))[::-1]:
        anim._func(i)
        where = f"{what}: frame {i}"
        points = obs.images[i].cam.xyz_to_uv(xyz[: k + 1])
        line = [x for x in right.lines if x.get_color() in ("y", "yellow")]
        require(len(line) == 1, f"{where}: {len(line)} tracks")
        require(np.allclose(line[0].get_xydata(), points), lambda: f"{where}: track {line[0].get_xydata().tolist()} instead of {points.tolist()}")
        marked(right, points[-1], where)
        marked(left, first, where)
        image = right.images[0]
        l, r, b, t = (int(x) for x in image.get_extent())
        require(np.array_equal(np.asarray(image.get_array()), pixels(i, bands, turns)[t:b, l:r]), f"{where}: other pixels")
        center = np.array([(l + r) / 2, (t + b) / 2])
        for d in range(2):
            low, high = (l, r) if d == 0 else (t, b)
            ok = high - low == size[d] and abs(center[d] - points[-1][d]) <= 0.5 + 1e-6
            require(ok, lambda: f"{where}: tile {l, t, r, b} around {points[-1].tolist()}")
        shown(left, order[0], bands, f"{where} left", first, size, turns)
        labelled(right, i, where)
        require(f"img-{order[0]}" in text(left), f"{where}: label {text(left)!r}")
        steps += 1
    plt.close("all")
    return stats([what], steps, (turns, path, size), True, traces=steps)


def boxes(box, size, own):
    """Tiles and boxes are drawn where they are."""
    plt.close("all")
    obs = observer("still", 1)
    fig, axes = plt.subplots(ncols=2)
    tile = pixels(0, 1)[: size[1], : size[0]]
    target = axes[0] if own else None
    drawn = obs.plot_tile(tile, box=box, axes=target)
    want = [box[0], box[2], box[3], box[1]] if box is not None else [0, size[0], size[1], 0]
    require(list(drawn.get_extent()) == want and drawn.origin == "upper", f"extent {drawn.get_extent()}")
    require(np.array_equal(drawn.get_array(), tile), "tile")
    require(drawn.axes is (axes[0] if own else axes[1]), "axes")
    if box is not None:
        patch = obs.plot_box(box, axes=target, fill=False)
        x0, y0, x1, y1 = patch.get_bbox().extents
        require((x0, x1) == (box[0], box[2]) and {y0, y1} == {box[1], box[3]}, f"box {patch}")
        require(patch.axes is (axes[0] if own else axes[1]), "axes")
    plt.close("all")
    return stats([str((box, size, own))], 1, str(want), True)


def caching(select):
    """Caching and clearing reach exactly the selected images."""
    for k in range(2):
        obs = observer("still", 1)
        for img in obs.images:
            if k == 0:
                img.array = None
                img.read = lambda img=img, **kw: setattr(img, "array", 1 if kw.get("cache", True) else None)
        index = select if not isinstance(select, str) else {"all": slice(None), "tail": slice(1, None)}[select]
        (obs.cache_images if k == 0 else obs.clear_images)(index)
        got = [img.array is not None for img in obs.images]
        want = np.zeros(3, dtype=bool)
        want[index] = True
        require(got == (want if k == 0 else ~want).tolist(), f"{'cached' if k == 0 else 'kept'} {got}")
    return stats([str(select)], 2, str(want), True)


def explore(ck):
    points = [None, (20, 15), (20.5, 14.5), (7, 25), (1, 1), (39, 15.3), (0, 30)]
    sizes = [(10, 10), (11, 9), (8, 20), (30, 6), (50, 12), (60, 60)]
    choices = [("all", (0, 1, 2)), ("list", (0, 2)), ("array", (1, 2)), ("list", (2, 0, 1))]
    if not ck.thorough:
        choices = choices[:3]
    cases = [
        (turns, uv, size, frames, kind, bands)
        for turns in TURNS
        for uv in points
        for size in sizes
        for kind, frames in choices
        for bands in (1, 3)
        if ck.thorough or bands == 1 or kind == "all"
    ]
    ck.sweep(animate, cases, chunk=4)
    choices = [("all", (0, 1, 2)), ("list", (0, 1, 2)), ("list", (0, 2)), ("array", (1, 2)), ("tuple", (1,)), ("array", (2, 0, 1))]
    cases = [
        (turns, path, size, frames, kind, bands)
        for turns in TURNS
        for path in PATHS
        for size in sizes[:5]
        for kind, frames in choices
        for bands in (1, 3)
    ]
    ck.sweep(track, cases, chunk=4)
    for box in (None, (0, 0, 4, 3), (2, 5, 6, 8), (-1, 2, 3, 5)):
        for own in (False, True):
            ck.run(boxes, box, (4, 3), own)
    for select in ("all", "tail", [0], [0, 2], [True, False, True]):
        ck.run(caching, select)
