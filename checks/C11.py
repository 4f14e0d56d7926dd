"""Tiles cover a grid exactly once."""
import itertools

import numpy as np

from mc import rasterkit as rk
from mc.core import require, stats
from glimpse import Raster
from glimpse.raster import Grid

LEVEL = "model_checking"
RULE = (
    "A case is one grid, tile size, and overlap; the cells of every tile are counted on "
    "the grid. Non-trivial when there is more than one tile."
)


def tiles(nx, ny, w, h, ox, oy, kind):
    xlim, ylim = rk.limits(nx, ny, (1, 1), (0, 0), rk.DIRS[int(nx + ny + w) % 4])
    if kind == "raster":
        grid = Raster(np.arange(nx * ny).reshape(ny, nx), x=xlim, y=ylim)
        size, overlap = np.array((w, h)), np.array((ox, oy))
    elif kind == "grid":
        grid, size, overlap = Grid(np.array((nx, ny)), x=xlim, y=ylim), (w, h), (ox, oy)
    else:
        grid, size, overlap = Grid((nx, ny)), [w, h], [ox, oy]
    if ox == oy == 0 and kind == "tuple":
        out = grid.tile_indices(size=size)
    else:
        out = grid.tile_indices(size=size, overlap=overlap)
    where = f"{nx}x{ny} tiles {w}x{h} overlap {ox},{oy}: {out}"
    count = np.zeros((ny, nx), dtype=int)
    spans = []
    for rows, cols in out:
        for s, n in ((rows, ny), (cols, nx)):
            require(
                0 <= s.start < s.stop <= n and s.step in (None, 1),
                lambda: f"{where}: {s} leaves the grid of {n}",
            )
        count[rows, cols] += 1
        spans.append(((int(rows.start), int(rows.stop)), (int(cols.start), int(cols.stop))))
    require((count >= 1).all(), lambda: f"{where}: cells without a tile\n{count}")
    if ox == oy == 0:
        require((count == 1).all(), lambda: f"{where}: cells in many tiles\n{count}")
    rows = sorted({r for r, _ in spans})
    cols = sorted({c for _, c in spans})
    require(
        sorted(spans) == sorted(itertools.product(rows, cols)), f"{where}: not a product"
    )
    require(len(set(spans)) == len(spans), f"{where}: repeated tiles")
    require(spans == sorted(spans, key=lambda s: (s[0][1], s[1][1])), f"{where}: order")
    for pieces, n, overlap, want in ((rows, ny, oy, h), (cols, nx, ox, w)):
        pieces = sorted(pieces, key=lambda p: p[1])
        require(pieces[0][0] == 0 and pieces[-1][1] == n, f"{where}: ends")
        for a, b in zip(pieces, pieces[1:]):
            require(a[1] < b[1], f"{where}: a tile inside another")
            require(
                b[0] == max(a[1] - overlap, 0), f"{where}: tiles {a} and {b} overlap"
            )
        ends = [0] + [p[1] for p in pieces]
        for a, b in zip(ends, ends[1:]):
            require(b - a <= 1.5 * want + 1, f"{where}: tile of {b - a}, not {want}")
        if isinstance(want, int) and n % want == 0:
            # Fits exactly
            require(
                all(b - a == want for a, b in zip(ends, ends[1:])),
                f"{where}: {ends} though {want} divides {n}",
            )
    return stats([(nx, ny, len(out))], len(out), (nx, ny, spans), len(out) > 1)


def explore(ck):
    n = 9 if ck.thorough else 6
    cases = [
        (nx, ny, w, h, ox, oy, k)
        for nx in range(1, n + 1)
        for ny in range(1, n + 1)
        for w in range(1, 2 * nx + 3)
        for h in ([1, 2, ny, 2 * ny + 2] if not ck.thorough else range(1, 2 * ny + 3))
        for ox, oy in ((0, 0), (1, 0), (0, 1), (1, 2), (3, 1), (2 * nx, 2 * ny))
        for k in ("raster", "grid", "tuple")
    ]
    # One long axis
    m = 60 if ck.thorough else 32
    lines = [
        (n, w, o)
        for n in range(1, m + 1)
        for w in list(range(1, n + 3)) + [1.2, 1.3, 1.5, 2.5, 3.5]
        for o in (0, 1, 3)
    ]
    cases += [(n, 1, w, 1, o, 0, "grid") for n, w, o in lines]
    cases += [(1, n, 1, w, 0, o, "grid") for n, w, o in lines]
    ck.sweep(tiles, cases)
