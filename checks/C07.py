"""Windowed and cached image reads always show the same pixels."""
import datetime
import itertools
import os

import numpy as np
from osgeo import gdal

from mc.core import require, scratch, stats
from glimpse import Camera, Image

LEVEL = "model_checking"
RULE = (
    "A case is a sequence of reads (whole or window, cached or not), camera resizes, and "
    "cache clearing on one Image of a real file; after every operation the pixels, the "
    "cache and the size are compared with a model which knows the file's pixels only. "
    "Non-trivial when two or more operations are performed."
)
ASSUMPTIONS = [
    "Resized images take the nearest pixel of the file (checked against that closed form "
    "for every size used)."
]

FILES = {
    "gray.png": ("PNG", gdal.GDT_Byte, (6, 4, 1)),
    "rgb.png": ("PNG", gdal.GDT_Byte, (5, 4, 3)),
    "u16.tif": ("GTiff", gdal.GDT_UInt16, (7, 5, 2)),
    "f32.tif": ("GTiff", gdal.GDT_Float32, (4, 6, 1)),
    "rgba.png": ("PNG", gdal.GDT_Byte, (4, 3, 4)),
    "five.tif": ("GTiff", gdal.GDT_Byte, (3, 5, 5)),
    "rgb.jpg": ("JPEG", gdal.GDT_Byte, (16, 8, 3)),
}
DTYPES = {gdal.GDT_Byte: np.uint8, gdal.GDT_UInt16: np.uint16, gdal.GDT_Float32: np.float32}


def make(name):
    driver, gtype, (nx, ny, nb) = FILES[name]
    a = (np.arange(nx * ny * nb) * 7 + 3).reshape(ny, nx, nb) % 251
    a = a.astype(DTYPES[gtype])
    if gtype != gdal.GDT_Byte:
        a = a * 100
    mem = gdal.GetDriverByName("MEM").Create("", nx, ny, nb, gtype)
    for i in range(nb):
        mem.GetRasterBand(i + 1).WriteArray(a[:, :, i])
    gdal.GetDriverByName(driver).CreateCopy(name, mem)
    if driver == "JPEG":
        # Lossy: what the file contains
        ds = gdal.Open(name)
        a = np.dstack([ds.GetRasterBand(i + 1).ReadAsArray() for i in range(nb)])
    return a[:, :, 0] if nb == 1 else a


def resized(pixels, size):
    ny, nx = pixels.shape[:2]
    j = np.floor((np.arange(size[0]) + 0.5) * (nx / size[0])).astype(int)
    i = np.floor((np.arange(size[1]) + 0.5) * (ny / size[1])).astype(int)
    return pixels[i][:, j]


def window(kind, size):
    nx, ny = size
    return {
        "a": (0, 0, 1, 1),
        "b": (nx - 2, 1, nx, ny),
        "c": (1, ny - 2, nx - 1, ny - 1),
        "d": (0, 0, nx, ny),
    }[kind]


class Model:
    def __init__(self, name):
        self.pixels = make(name)
        ny, nx = self.pixels.shape[:2]
        self.size0 = self.size = (nx, ny)
        self.img = Image(
            name,
            cam=Camera(imgsz=(nx, ny), f=10),
            datetime=datetime.datetime(2020, 1, 1),
        )
        self.cached = None

    def full(self):
        return resized(self.pixels, self.size)

    def read(self, box, cache, where):
        before = self.img.array
        usable = before is not None and before.shape[1::-1] == self.size
        got = self.img.read(box, cache=cache)
        want = self.full()
        if box is not None:
            want = want[box[1] : box[3], box[0] : box[2]]
        require(
            got.shape == want.shape, f"{where}: shape {got.shape}, expected {want.shape}"
        )
        require(got.dtype == want.dtype, f"{where}: type {got.dtype}")
        require(
            np.array_equal(got, want), lambda: f"{where}: pixels\n{got}\nexpected\n{want}"
        )
        after = self.img.array
        if not cache or usable:
            require(after is before, f"{where}: the cached array was replaced")
        else:
            require(after is not None, f"{where}: nothing was cached")
            require(np.array_equal(after, self.full()), f"{where}: cached a partial image")

    def step(self, op, where):
        if op[0] == "F":
            self.read(None, op[1] == "+", where)
        elif op[0] == "W":
            self.read(window(op[2], self.size), op[1] == "+", where)
        elif op[0] == "R":
            self.img.cam.resize(float(op[1:]))
            self.size = tuple(int(np.floor(n * float(op[1:]) + 0.5)) for n in self.size0)
        elif op[0] == "Z":
            # Resize directly
            self.size = (self.size0[0], self.size0[1] + 2)
            self.img.cam.imgsz = self.size
        elif op == "C":
            self.img.array = None
        elif op == "S":
            # Cache replaced by an array of another size
            self.img.array = np.zeros((3, 3), dtype=np.uint8)
        require(
            tuple(self.img.size) == self.size, f"{where}: size {self.img.size} {self.size}"
        )
        a = self.img.array
        return self.size, None if a is None else a.shape


def history(name, ops):
    with scratch():
        model = Model(name)
        states = [
            (name, *model.step(op, f"{name} {op} (step {i} of {ops})"))
            for i, op in enumerate(ops)
        ]
        # The next full read is correct whatever happened
        model.read(None, True, f"{name} after {ops}")
        model.read(None, False, f"{name} after {ops}")
        return stats(states, len(ops) + 2, (name, states[-1:]), len(ops) > 1)


def windows(name, scale, first):
    """Every window of one image at one size."""
    with scratch():
        model = Model(name)
        model.step(f"R{scale}", "resize")
        if first:
            model.step(first, "first")
        nx, ny = model.size
        n = 0
        for x0, x1 in itertools.combinations(range(nx + 1), 2):
            for y0, y1 in itertools.combinations(range(ny + 1), 2):
                for kind in (tuple, list, np.array):
                    model.read(
                        kind((x0, y0, x1, y1)), False, f"{name} {(x0, y0, x1, y1)}"
                    )
                    n += 1
        for x0, x1 in itertools.combinations(range(nx + 1), 2):
            for y0, y1 in itertools.combinations(range(ny + 1), 2):
                model.read((x0, y0, x1, y1), True, f"{name} {(x0, y0, x1, y1)}")
                n += 1
        return stats([(name, scale, first)], n, (name, scale, first))


def write(name, ops):
    """A written image is read back as read."""
    with scratch():
        model = Model(name)
        for op in ops:
            model.step(op, f"{name} {op} of {ops}")
        out = "out.tif" if name.endswith("tif") else "out.png"
        model.img.write(out)
        a = gdal.Open(out).ReadAsArray()
        a = np.moveaxis(a, 0, -1) if a.ndim == 3 else a
        require(np.array_equal(a, model.full()), f"{name}: written pixels differ")
        nx, ny = model.size
        img = Image(out, cam={"imgsz": (nx, ny), "f": 10}, datetime=model.img.datetime)
        require(np.array_equal(img.read(), model.full()), f"{name}: read back differs")
        require(os.path.exists(name), "the source image is gone")
        # Other data
        model.img.write(out, array=model.pixels)
        a = gdal.Open(out).ReadAsArray()
        a = np.moveaxis(a, 0, -1) if a.ndim == 3 else a
        require(np.array_equal(a, model.pixels), f"{name}: other pixels than those given were written")
        model.read(None, True, f"{name} after writing")
        return stats([(name, ops)], 3, (name, ops))


OPS = ["F+", "F-", "W+a", "W-a", "W+b", "W-b", "W-c", "R0.5", "R1", "R1.5", "R2", "Z", "C", "S"]


def explore(ck):
    depth = 4 if ck.thorough else 3
    cases = []
    for name in FILES:
        for k in range(1, depth + 1):
            if k == depth and name not in ("rgb.png", "u16.tif") and not ck.thorough:
                continue
            cases += [(name, ops) for ops in itertools.product(OPS, repeat=k)]
    ck.sweep(history, cases)
    scales = (0.5, 1, 1.5, 2) if ck.thorough else (0.5, 1, 1.5)
    ck.sweep(
        windows,
        [
            (name, s, first)
            for name in FILES
            for s in scales
            for first in (None, "F+", "S")
            if name != "rgb.jpg" or s == 0.5
        ],
        timeout=200,
    )
    ck.sweep(
        write,
        [
            (n, ops)
            for n in FILES
            for k in range(4)
            for ops in itertools.product(("R0.5", "R1", "R2", "F+", "W-a", "W+b"), repeat=k)
        ],
    )
