"""SVG drawings parse to the coordinates they draw, and are written so that they do."""
import io
import itertools
import warnings
import xml.etree.ElementTree as ET
from fractions import Fraction as F

from mc.core import Violation, require, scratch, stats
from glimpse import svg

LEVEL = "model_checking"
RULE = (
    "A case is a family of path programs sharing their first commands (every continuation "
    "of bounded length, in every number and separator style), of element lists, of drawing "
    "trees with transforms, or of shapes to write and parse; compared with a reference "
    "interpreter of the SVG standard. Non-trivial when vertices are drawn."
)
ASSUMPTIONS = [
    "Coordinates are dyadic, so that sums of relative coordinates are exact.",
    "Transforms are the documented translate, scale and matrix; one kind of composition "
    "is a recorded finding (known_findings.txt).",
]

NPARAMS = dict(M=2, L=2, T=2, H=1, V=1, C=6, S=4, Q=4, A=7, Z=0)
VALUES = ["3", "-2", ".5", "+1.25", "-.75", "10", "1e1", "0", "-25e-2", "7.0", "4", "-1"]
# Arc flags
FLAGS = ["0", "1"]


def number(text):
    return F(text)


def params(cmd, salt):
    n = NPARAMS[cmd.upper()]
    out = [VALUES[(salt * 5 + 3 * k) % len(VALUES)] for k in range(n)]
    if cmd in "Aa":
        out[0], out[1], out[2] = "5", "2.5", "30"
        out[3], out[4] = FLAGS[salt % 2], FLAGS[(salt // 2) % 2]
    return out


def reference(program):
    """Vertices of a program [(command, [group, ...]), ...] by the SVG standard."""
    xy, start, here = [], None, (F(0), F(0))
    for cmd, groups in program:
        c, rel = cmd.upper(), cmd.islower()
        if c == "Z":
            here = start
            xy.append(here)
            continue
        for k, g in enumerate(groups):
            v = [number(t) for t in g]
            ox, oy = here if rel else (0, 0)
            if c == "H":
                here = ox + v[0], here[1]
            elif c == "V":
                here = here[0], oy + v[0]
            else:
                here = ox + v[-2], oy + v[-1]
            if c == "M" and k == 0:
                start = here
            xy.append(here)
    return xy


def compact(tokens):
    """Join numbers with as few separators as the grammar allows."""
    out, prev = "", ""
    for t in tokens:
        if prev and not (t[0] in "+-" or (t[0] == "." and ("." in prev or "e" in prev))):
            out += " "
        out += t
        prev = t
    return out


def render(program, style):
    out, last = [], None
    for cmd, groups in program:
        flat = [t for g in groups for t in g]
        if style == "plain":
            out.append(" ".join([cmd] + flat))
        elif style == "comma":
            pairs = [",".join(flat[i : i + 2]) for i in range(0, len(flat), 2)] if len(flat) % 2 == 0 else [", ".join(flat)]
            out.append(cmd + " " + " ".join(pairs))
        elif style == "tight":
            text = compact(flat)
            same = cmd == last and cmd not in "Zz" or (last == "M" and cmd == "L") or (last == "m" and cmd == "l")
            if same and cmd not in "Mm":
                # The command can be omitted
                if not text[0] in "+-":
                    text = " " + text
                out.append(text)
                last = last if last in "Mm" else cmd
                continue
            out.append(cmd + text)
        elif style == "flags":
            # Arc flags need no separators
            if cmd in "Aa":
                text = " ".join(
                    f"{g[0]},{g[1]} {g[2]} {g[3]}{g[4]}{g[5]},{g[6]}" for g in groups
                )
            else:
                text = " ".join(flat)
            out.append(cmd + text)
        elif style == "space":
            out.append("\n\t" + cmd + "  " + " ,\n ".join(flat) + " ")
        last = cmd
    sep = {"plain": " ", "comma": " ", "tight": "", "flags": "", "space": "\r\n"}[style]
    return sep.join(out)


def xy(points):
    return [(F(x), F(y)) for x, y in points]


def show(points):
    return [(float(x), float(y)) for x, y in points]


STYLES = ["plain", "comma", "tight", "flags", "space"]
COMMANDS = "LlHhVvTtCcSsQqAaZzMm"


def programs(head, depth, reps):
    """Every continuation of a path, in every style."""
    outcomes = set()
    n = 0
    for size in range(0, depth + 1):
        for tail in itertools.product(COMMANDS, repeat=size):
            cmds = list(head) + list(tail)
            program = []
            for k, cmd in enumerate(cmds):
                r = 1 if cmd in "Zz" else 1 + ((k + reps) % 2 if reps else 0)
                groups = [] if cmd in "Zz" else [params(cmd, 2 * k + j + len(cmds)) for j in range(r)]
                program.append((cmd, groups))
            want = reference(program)
            for style in STYLES:
                d = render(program, style)
                n += 1
                try:
                    got = xy(svg.Points.from_element("path", d=d).xy)
                except Exception as e:
                    raise Violation(f"path {d!r}: {type(e).__name__}: {e}")
                require(got == want, lambda: f"path {d!r}: {show(got)}, not {show(want)}")
            outcomes.add(tuple(want))
    return stats(outcomes, n, sorted(map(str, outcomes)))


def shapes(points):
    """Written and parsed again, shapes are the same."""
    pts = [tuple(p) for p in points]
    want = xy(pts)
    n = 0
    for tag in ("path", "polyline", "polygon"):
        given = list(pts)
        a = svg.Points(given)
        attrs = a.to_element(tag)
        require(given == pts, f"{pts}: changed by writing as {tag}")
        require(all(isinstance(v, str) for v in attrs.values()), f"{pts}: {tag} {attrs}")
        got = xy(svg.Points.from_element(tag, **attrs).xy)
        if tag == "polygon":
            # NOTE: Repetitions of the first point at the end are all closing points
            def open_ring(ps):
                ps = list(ps)
                while len(ps) > 1 and ps[-1] == ps[0]:
                    ps.pop()
                return ps

            require(
                open_ring(got) == open_ring(want) and (len(want) < 2 or got[0] == got[-1]),
                f"{pts}: polygon {attrs} gives {show(got)}",
            )
            target = got
        else:
            target = want
        require(got == target, lambda: f"{pts}: {tag} {attrs} gives {show(got)}")
        n += 1
    # Through an XML file
    for indent in (None, 0, 2, "\t"):
        e = svg.svg(svg.g(svg.path(list(pts), id="a"), id="b"))
        text = svg.write(e, indent=indent)
        out = svg.read(io.StringIO(text), key="id")
        require(xy(out["b"]["a"]) == want, f"{pts}: {text} gives {out}")
        n += 1
    if want:
        xs, ys = zip(*want)
        box = (min(xs), min(ys), max(xs), max(ys))
        corners = [(box[0], box[1]), (box[2], box[1]), (box[2], box[3]), (box[0], box[3]), (box[0], box[1])]
        for tag in ("rect", "image", "svg"):
            got = xy(svg.Points.from_element(tag, **svg.Points(pts).to_element(tag)).xy)
            require(
                len(got) == 5 and all(abs(p - q) <= 1e-12 * (abs(q) + abs(p)) + 1e-15 for x, y in zip(got, corners) for p, q in zip(x, y)),
                f"{pts}: {tag} gives {show(got)}",
            )
        got = xy(svg.Points.from_element("line", **svg.Points(pts).to_element("line")).xy)
        require(got == [want[0], want[-1]], f"{pts}: line gives {show(got)}")
        got = xy(svg.Points.from_element("circle", **svg.Points(pts).to_element("circle")).xy)
        require(got == [want[0]], f"{pts}: circle gives {show(got)}")
        n += 5
    return stats([str(want)], n, str(want), bool(want))


# ---- drawings ----

SHAPES = {
    "circle": ('cx="3" cy="-1.5"', [(3, F(-3, 2))]),
    "line": ('x1="1" y1="2" x2="3" y2="4.5"', [(1, 2), (3, F(9, 2))]),
    "rect": ('x="1" y="2" width="3" height="4"', [(1, 2), (4, 2), (4, 6), (1, 6), (1, 2)]),
    "rect0": ('width="3" height="4"', [(0, 0), (3, 0), (3, 4), (0, 4), (0, 0)]),
    "polyline": ('points="0,0 1,2 3.5,4"', [(0, 0), (1, 2), (F(7, 2), 4)]),
    "polygon": ('points="0 0 1 2 3 4"', [(0, 0), (1, 2), (3, 4), (0, 0)]),
    "path": ('d="M1 1l2 0z"', [(1, 1), (3, 1), (1, 1)]),
    "text": ("", {}),
}
TRANSFORMS = [
    (None, lambda p: p),
    ("translate(5,-2)", lambda p: (p[0] + 5, p[1] - 2)),
    ("translate(4)", lambda p: (p[0] + 4, p[1])),
    ("scale(2)", lambda p: (p[0] * 2, p[1] * 2)),
    ("scale(.5 -4)", lambda p: (p[0] / 2, p[1] * -4)),
    ("matrix(1,2,-3,4,5,-6)", lambda p: (p[0] - 3 * p[1] + 5, 2 * p[0] + 4 * p[1] - 6)),
    ("matrix(2 0 0 2 0 0)", lambda p: (p[0] * 2, p[1] * 2)),
    (" translate( -1 , 1 ) ", lambda p: (p[0] - 1, p[1] + 1)),
    ("scale(2 0)", lambda p: (p[0] * 2, p[1] * 0)),
]
IMAGES = [None, (0, 0, 8, 4, 0), (2, -1, 8, 4, 0), (0, 0, 8, 4, 1), (1, 1, 16, 2, 3), (1, 2, 4, 8, 4)]
SIZES = [None, (8, 4), (16, 16), (4, 2)]


def element(name, ident, transform):
    tag = name.rstrip("0")
    attrs, pts = SHAPES[name]
    ident = f' id="{ident}"' if ident else ""
    tr = f' transform="{transform}"' if transform else ""
    return f"<{tag} {attrs}{ident}{tr}/>", pts


def nest(target, name, value):
    target.setdefault(name, []).append(value)


def flatten(d):
    return {
        k: (lambda v: v[0] if len(v) == 1 else v)([flatten(x) if isinstance(x, dict) else x for x in v])
        for k, v in d.items()
    }


def exact(e):
    if isinstance(e, dict):
        return {k: exact(v) for k, v in e.items()}
    if isinstance(e, list):
        if e and isinstance(e[0], tuple):
            return [(F(x), F(y)) for x, y in e]
        return [exact(x) for x in e]
    return e


def compose(fs, pts):
    for f in fs:
        pts = [f(p) for p in pts]
    return pts


def drawing(spec, image, imgsz, key):
    """``spec``: list of items (shape, id, transform index) or (id, transform, items)."""
    imgs = []

    def build(items, outer):
        xml, model, models = "", {}, None
        for item in items:
            if len(item) == 3 and isinstance(item[2], list):
                ident, t, children = item
                text, f = TRANSFORMS[t]
                tr = f' transform="{text}"' if text else ""
                idt = f' id="{ident}"' if ident else ""
                cx, cm = build(children, outer + [f])
                xml += f"<g{idt}{tr}>{cx}</g>"
                nest(model, (key and ident) or "g", cm)
            else:
                name, ident, t = item
                text, f = TRANSFORMS[t]
                ex, pts = element(name, ident, text)
                xml += ex
                value = {} if isinstance(pts, dict) else ("points", pts, outer + [f])
                nest(model, (key and ident) or name.rstrip("0"), value)
        return xml, model

    xml, model = build(spec, [])
    if image is not None:
        x, y, w, h, t = image
        text, f = TRANSFORMS[t]
        tr = f' transform="{text}"' if text else ""
        xml = f'<image x="{x}" y="{y}" width="{w}" height="{h}"{tr}/>' + xml
        corners = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
        imgs.append(([(F(a), F(b)) for a, b in corners], f))
    text = f'<svg xmlns="http://www.w3.org/2000/svg">{xml}</svg>'
    where = f"{text} size {imgsz} key {key}"
    if imgsz is not None and image is None:
        try:
            svg.read(io.StringIO(text), key=key, imgsz=imgsz)
        except ValueError:
            return stats([where], 1, "refused")
        raise Violation(f"{where}: was accepted without an image")
    got = svg.read(io.StringIO(text), key=key, imgsz=imgsz)

    def expected():
        def final(p):
            return p

        if imgs:
            corners, f = imgs[0]
            out = [f(p) for p in corners]
            xs, ys = zip(*out)
            x0, y0, w, h = min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys)
            size = imgsz or (image[2], image[3])

            def final(p):
                return ((p[0] - x0) * F(size[0]) / w, (p[1] - y0) * F(size[1]) / h)

        def walk(m):
            if isinstance(m, tuple):
                _, pts, fs = m
                pts = [(F(a), F(b)) for a, b in pts]
                return [final(p) for p in compose(fs[::-1], pts)]
            out = {}
            for k, v in m.items():
                v = [walk(x) for x in v]
                out[k] = v[0] if len(v) == 1 else v
            return out

        full = walk(model)
        if imgs:
            pts = [final(f(p)) for p in imgs[0][0]]
            if "image" in full:
                raise AssertionError
            full = {"image": pts, **full}
        return full

    def close(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and list(a) == list(b) and all(close(a[k], b[k]) for k in a)
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
        if isinstance(a, tuple):
            return isinstance(b, tuple) and all(abs(x - y) < F(1, 10**9) for x, y in zip(a, b))
        return a == b

    got = exact(got)
    standard = expected()
    require(close(got, standard), lambda: f"{where}: {got}, not {standard}")
    return stats([where], 1, str(got), True)


TREES = [
    [["path", "a", 0]],
    [["path", "a", 0], ["path", "b", 0]],
    [["path", None, 0], ["path", None, 0], ["rect0", None, 0]],
    [["g1", 0, [["circle", "a", 0], ["circle", "b", 0]]], ["rect", None, 0]],
    [["g1", 0, [["g2", 0, [["polygon", "p", 0], ["line", None, 0]]], ["text", None, 0]]]],
    [["g1", 0, []], ["polyline", "q", 0], ["g1", 0, [["polyline", "q", 0]]]],
    [[None, 0, [["path", None, 0]]], [None, 0, [["path", None, 0], ["path", "x", 0]]]],
]


def lists(a, b):
    """Two transforms of one element: the last one is applied first."""
    (ta, fa), (tb, fb) = TRANSFORMS[a], TRANSFORMS[b]
    pts = [(F(1), F(2)), (F(-3), F(1, 2)), (F(0), F(0))]
    outcomes = []
    standard = [fa(fb(p)) for p in pts]
    swapped = [fb(fa(p)) for p in pts]
    for sep in ("", " ", ", "):
        got = xy(svg.Points([(1, 2), (-3, 0.5), (0, 0)]).transform(ta + sep + tb).xy)
        if got != standard:
            raise Violation(
                f"transform {ta}{sep}{tb}: {show(got)}, not {show(standard)}",
                "transform-list-first-to-last" if got == swapped else None,
            )
        outcomes.append(got)
    return stats([ta + tb], 3, outcomes)


def texts(shape, indent, tails):
    """Writing keeps elements, attributes and text, and leaves the tree alone."""
    names = iter("abcdefgh")

    def build(s):
        children = [build(c) for c in s]
        e = svg.g(*children, id=next(names)) if s or tails else svg.path([(0, 1), (2, 3)], id=next(names))
        if tails:
            e.text = "label" if not s else None
            e.tail = {1: None, 2: " kept ", 3: "  "}[tails]
        return e

    root = svg.svg(*[build(c) for c in shape])
    before = ET.tostring(root)
    text = svg.write(root, indent=indent)
    require(ET.tostring(root) == before, "the tree was changed by writing")
    back = ET.fromstring(text)

    def same(a, b, top=False):
        def strip(t):
            return (t or "").strip()

        require(b.tag.split("}")[-1] == a.tag, f"{text}: {b.tag}")
        if not top:
            require(dict(a.attrib) == dict(b.attrib), f"{text}: {b.attrib}")
            require(strip(a.tail) == strip(b.tail), f"{text}: tail {b.tail}")
        require(strip(a.text) == strip(b.text), f"{text}: text {b.text}")
        require(len(a) == len(b), f"{text}: children of {a.tag}")
        for x, y in zip(a, b):
            same(x, y)

    same(root, back, True)
    lines = text.count("\n")
    require((lines == 0) == (indent is None) or not shape, f"{text}: {lines} line breaks")
    with scratch():
        require(svg.write(root, path="a.svg", indent=indent) is None, "text was returned")
        with open("a.svg") as fp:
            require(fp.read() == text, "the file differs from the text")
    return stats([text], 1, text)


def several(boxes, nested, imgsz):
    """With several images, coordinates are relative to the last of them."""
    xml, last = "", None
    for k, (x, y, w, h, t) in enumerate(boxes):
        text, f = TRANSFORMS[t]
        tr = f' transform="{text}"' if text else ""
        e = f'<image x="{x}" y="{y}" width="{w}" height="{h}"{tr}/>'
        outer = lambda p: p
        if k in nested:
            e = f'<g transform="translate(3,1)">{e}</g>'
            outer = TRANSLATED
        xml += e
        corners = [outer(f((F(a), F(b)))) for a in (x, x + w) for b in (y, y + h)]
        last = min(c[0] for c in corners), min(c[1] for c in corners), max(c[0] for c in corners), max(c[1] for c in corners)
        size = imgsz or (w, h)
    for order in (0, 1):
        point = '<circle cx="1" cy="2" id="a"/>'
        text = "<svg>" + (point + xml if order else xml + point) + "</svg>"
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            got = svg.read(io.StringIO(text), key="id", imgsz=imgsz)["a"]
        warned = any(issubclass(w.category, UserWarning) for w in caught)
        require(warned == (len(boxes) > 1), f"{text}: warned {warned}")
        x0, y0, x1, y1 = last
        want = [((1 - x0) * size[0] / (x1 - x0), (2 - y0) * size[1] / (y1 - y0))]
        require(
            len(got) == 1 and all(abs(a - b) < 1e-9 for a, b in zip(got[0], want[0])),
            f"{text} size {imgsz}: {got}, not {want}",
        )
    return stats([text], 2, str(want), len(boxes) > 1)


def TRANSLATED(p):
    return p[0] + 3, p[1] + 1


def written(sizes, nested, given, href):
    """Drawings declare the size of their last image, unless they are given one."""
    images = []
    for k, (w, h) in enumerate(sizes):
        e = svg.image(w, h, href=href, id=f"i{k}")
        require(
            e.get("width") == str(w) and e.get("height") == str(h), f"image({w}, {h}): {e.attrib}"
        )
        images.append(svg.g(e) if k in nested else e)
    attrib = dict(given)
    root = svg.svg(*images, svg.path([(0, 1)], id="p"), **attrib)
    require(attrib == dict(given), "the attributes were changed")
    text = svg.write(root)
    back = ET.fromstring(text)
    require(back.tag == "{http://www.w3.org/2000/svg}svg", f"{text}: {back.tag}")
    want = dict(given)
    if sizes and not {"width", "height"} & set(want):
        want["width"], want["height"] = str(sizes[-1][0]), str(sizes[-1][1])
    require(dict(back.attrib) == want, f"{text}: {back.attrib}, not {want}")
    found = list(back.iter("{http://www.w3.org/2000/svg}image"))
    require(len(found) == len(sizes), f"{text}: {len(found)} images")
    for e, (w, h) in zip(found, sizes):
        link = {"{http://www.w3.org/1999/xlink}href": href} if href else {}
        expected = {"width": str(w), "height": str(h), **link}
        actual = {k: v for k, v in e.attrib.items() if k != "id"}
        require(actual == expected, f"{text}: {actual}, not {expected}")
    return stats([text], 1, text, bool(sizes))


REFUSED = {
    "no drawing": lambda: svg.read(io.StringIO("<g><circle cx='1' cy='1'/></g>")),
    "nested drawings": lambda: svg.read(io.StringIO("<svg><svg></svg></svg>")),
    "three drawings": lambda: svg.read(io.StringIO("<g><svg/><svg/><svg/></g>")),
    "size without image": lambda: svg.read(io.StringIO("<svg><circle cx='1' cy='1'/></svg>"), imgsz=(2, 2)),
    "rotation": lambda: svg.read(io.StringIO("<svg><circle cx='1' cy='1' transform='rotate(45)'/></svg>")),
    "skew of a group": lambda: svg.read(io.StringIO("<svg><g transform='skewX(1)'><circle cx='1' cy='1'/></g></svg>")),
    "skew after translation": lambda: svg.Points([(0, 0)]).transform("translate(1, 2) skewY(1)"),
    "unknown command": lambda: svg.Points.from_element("path", d="M 0,0 X 1,1"),
    "unknown tag": lambda: svg.Points.from_element("ellipse", cx="1", cy="1"),
    "unknown target": lambda: svg.Points([(0, 0)]).to_element("ellipse"),
    "units": lambda: svg.read(io.StringIO("<svg><circle cx='1px' cy='1'/></svg>")),
    "percent": lambda: svg.read(io.StringIO("<svg><rect width='10%' height='1'/></svg>")),
}


def refused(name):
    """What is not supported is refused, rather than drawn somewhere else."""
    try:
        got = REFUSED[name]()
    except ValueError:
        return stats([name], 1, "refused", True)
    raise Violation(f"{name}: gave {got}")


def forests(n):
    """Ordered forests with n nodes."""
    if n == 0:
        return [[]]
    out = []
    for k in range(n):
        for first in forests(k):
            for rest in forests(n - 1 - k):
                out.append([first] + rest)
    return out


def explore(ck):
    deep = ck.thorough
    heads = [(m, c) for m in "Mm" for c in COMMANDS]
    ck.run(programs, ["M"], 0, 0)
    ck.run(programs, ["m"], 0, 1)
    ck.sweep(programs, [(list(h), 3 if deep else 2, r) for h in heads for r in (0, 1, 2)], chunk=1, timeout=600)
    values = [(0, 0), (1, -2), (0.5, 1e-7), (-3.25, 1e20)]
    cases = [(list(map(list, s)),) for n in range(0, 5 if deep else 4) for s in itertools.product(values, repeat=n)]
    ck.sweep(shapes, cases)
    cases = []
    for tree in TREES:
        for image, size in itertools.product(IMAGES, SIZES):
            for key in (None, "id"):
                cases.append((tree, image, size, key))
    # One transform, on the element, on its group, or on the group of its group
    for t in range(1, len(TRANSFORMS)):
        for level in range(3):
            item = ["polyline", "a", t if level == 0 else 0]
            tree = [["g1", t if level == 1 else 0, [item]]]
            tree = [["g2", t if level == 2 else 0, tree], ["circle", "c", 0]]
            for image, size in itertools.product(IMAGES, SIZES):
                cases.append((tree, image, size, "id"))
    # Two and three transforms
    for a, b in itertools.product(range(1, len(TRANSFORMS)), repeat=2):
        tree = [["g1", a, [["polyline", "a", b]]]]
        cases.append((tree, None, None, None))
        cases.append((tree, [2, -1, 8, 4, 0], [16, 2], None))
        if deep:
            for c in range(1, len(TRANSFORMS)):
                cases.append(([["g1", a, [["g2", b, [["polyline", "a", c]]]]]], [1, 1, 16, 2, 3], [16, 2], "id"))
    ck.sweep(drawing, cases)
    for a, b in itertools.product(range(1, len(TRANSFORMS)), repeat=2):
        ck.run(lists, a, b)
    for name in REFUSED:
        ck.run(refused, name)
    boxes = [(0, 0, 8, 4, 0), (2, -1, 8, 4, 0), (1, 1, 16, 2, 3), (1, 2, 4, 8, 4), (0, 5, 4, 4, 1), (3, 0, 4, 4, 0)]
    cases = [
        (list(b), nested, size)
        for n in (1, 2, 3)
        for b in itertools.product(boxes, repeat=n)
        for nested in ([], [n - 1], [0])
        for size in SIZES
        if n < 3 or (ck.thorough or size is None)
    ]
    ck.sweep(several, cases, chunk=64)
    cases = [
        (sizes, nested, given, href)
        for sizes in ([], [(12, 8)], [(12, 8), (3.5, 20)], [("7", "9"), (12, 8), (1, 2)])
        for nested in ([], [0], [len(sizes) - 1])
        for given in ({}, {"width": "5"}, {"height": "5"}, {"width": "6", "height": "5"}, {"viewBox": "0 0 1 1"}, {"id": "<&'\""})
        for href in (None, "photo.jpg", "a b&c\"<'>.jpg", "f\u00f6to.png")
    ]
    ck.sweep(written, cases, chunk=64)
    for n in range(1, 5 if deep else 4):
        for forest in forests(n):
            for indent in (None, 0, 1, 4, "\t", "", -1):
                for tails in range(4):
                    ck.run(texts, forest, indent, tails)
