"""Image metadata survives files, and absent or malformed tags are missing values."""
import datetime
import itertools

import cv2
import numpy as np
import piexif

from mc.core import require, scratch, stats
from glimpse import Exif, Image

LEVEL = "model_checking"
RULE = (
    "A case is a set of tags (every subset present; every value of each tag's menu with "
    "every other tag present or absent; pairs of menus) inserted into an image file, with "
    "or without a thumbnail and previous metadata, and read back; compared with the "
    "recorded values. Non-trivial when a tag is present."
)
ASSUMPTIONS = ["JPEG files; tag encodings are those of the metadata library piexif."]

D = datetime.datetime
MENU = {
    # tag: (raw, expected value) ..., the first one is ordinary
    "DateTimeOriginal": [
        (b"2014:10:13 02:03:36", D(2014, 10, 13, 2, 3, 36)),
        (b"1999:12:31 23:59:59", D(1999, 12, 31, 23, 59, 59)),
        (b"2014:10:13 02:03:36 ", D(2014, 10, 13, 2, 3, 36)),
        (b"0000:00:00 00:00:00", None),
        (b"    :  :     :  :  ", None),
        (b"2014:02:30 00:00:00", None),
        (b"2014:10:13", None),
        (b"soon", None),
        (b"", None),
        (b"\xff\xfe\xfd", None),
    ],
    "SubSecTimeOriginal": [
        (b"28", 280000), (b"2", 200000), (b"028", 28000), (b"000001", 1), (b"280000", 280000),
        (b"0", 0), (b"999999", 999999), (b"1234567", 123456), (b"28 ", 280000), (b"28   ", 280000),
        (b"   ", 0), (b"", 0), (b"x", 0), (b"\xff", 0), (b"00", 0),
        (b"1234", 123400), (b"0012", 1200), (b"12345", 123450), (b"00000", 0), (b"123456789", 123456),
    ],
    "ExposureTime": [((1, 80), 0.0125), ((30, 1), 30.0), ((2, 3), 2 / 3), ((5, 2), 2.5), ((7, 7), 1.0), ((0, 0), None), ((1, 0), None)],
    "FNumber": [((80, 10), 8.0), ((56, 10), 5.6), ((7, 2), 3.5), ((9, 10), 0.9), ((0, 0), None), ((7, 0), None)],
    "FocalLength": [((200, 10), 20.0), ((35, 1), 35.0), ((93, 4), 23.25), ((1, 2), 0.5), ((0, 0), None), ((50, 0), None)],
    "ISOSpeedRatings": [(200, 200), (65535, 65535), ((400, 400), 400), ((100, 0), 100), ((100, 50, 3), 100), (0, None)],
    "PixelXDimension": [(800, 800), (1, 1), (70000, 70000)],
    "PixelYDimension": [(536, 536), (2, 2), (65536, 65536)],
    "Make": [(b"NIKON CORPORATION", "NIKON CORPORATION"), (b"Canon", "Canon"), (b"NIKON", "NIKON"), (b"NIKON CORPORATION  ", "NIKON CORPORATION  "), (b"", None), (b"A\xffB", str), ("Caf\u00e9".encode(), "Caf\u00e9")],
    "Model": [(b"NIKON D200", "NIKON D200"), (b"Canon EOS 40D", "Canon EOS 40D"), (b"E8700", "E8700"), (b" NIKON D2X ", " NIKON D2X "), (b"unknown", "unknown"), (b"", None)],
}
SENSORS = {
    ("NIKON CORPORATION", "NIKON D200"): (23.6, 15.8),
    ("NIKON CORPORATION", "NIKON D2X"): (23.7, 15.7),
    ("NIKON", "E8700"): (8.8, 6.6),
    ("Canon", "Canon EOS 40D"): (22.2, 14.8),
}
TAGS = list(MENU)
GROUP = {t: "0th" if t in ("Make", "Model") else "Exif" for t in TAGS}
# Tags without a property
OTHER = {
    "Exif": {"Flash": 16, "BrightnessValue": (0, 5), "SubjectDistance": (0, 0), "DateTimeDigitized": b"2001:01:01 01:01:01", "ExposureBiasValue": (-1, 3), "LensSpecification": ((1, 2), (3, 4), (5, 6), (7, 8))},
    "0th": {"Software": b"test", "DateTime": b"2002:02:02 02:02:02", "WhitePoint": ((1, 3), (2, 3)), "Orientation": 1},
    "GPS": {"GPSLatitude": ((61, 1), (7, 1), (3012, 100)), "GPSLatitudeRef": b"N"},
    "Interop": {"InteroperabilityIndex": b"R98"},
}
PARSED = {
    ("Exif", "Flash"): 16, ("Exif", "BrightnessValue"): 0, ("Exif", "SubjectDistance"): None, ("0th", "DateTime"): "2002:02:02 02:02:02", ("Exif", "ExposureBiasValue"): -1 / 3,
    ("Exif", "LensSpecification"): ((1, 2), (3, 4), (5, 6), (7, 8)),
    ("0th", "Software"): "test", ("0th", "WhitePoint"): ((1, 3), (2, 3)), ("0th", "Orientation"): 1,
    ("GPS", "GPSLatitude"): ((61, 1), (7, 1), (3012, 100)), ("GPS", "GPSLatitudeRef"): "N",
    ("Interop", "InteroperabilityIndex"): "R98", ("Exif", "Absent"): None, ("GPS", "GPSLongitude"): None,
    ("Nothing", "Flash"): None,
}


def blank(path, size=(6, 5)):
    cv2.imwrite(path, np.full((size[1], size[0], 3), 90, dtype=np.uint8))


def expected(picked):
    """Property values for picked {tag: menu index}."""
    def val(tag):
        return MENU[tag][picked[tag]][1] if tag in picked else None

    when = val("DateTimeOriginal")
    if when is not None and "SubSecTimeOriginal" in picked:
        when = when.replace(microsecond=val("SubSecTimeOriginal"))
    nx, ny = val("PixelXDimension"), val("PixelYDimension")
    make, model = val("Make"), val("Model")
    sensor = None
    if isinstance(make, str) and isinstance(model, str):
        sensor = SENSORS.get((make.strip(), model.strip()))
    return {
        "datetime": when,
        "exposure": val("ExposureTime"),
        "aperture": val("FNumber"),
        "fmm": val("FocalLength"),
        "iso": val("ISOSpeedRatings"),
        "imgsz": (nx, ny) if nx and ny else None,
        "make": make,
        "model": model,
        "sensorsz": sensor,
    }


def compare(exif, want, where):
    for name, value in want.items():
        got = getattr(exif, name)
        if value is str:
            require(got is None or isinstance(got, str), f"{where}: {name} is {got!r}")
        else:
            require(
                got == value and (got is None) == (value is None) and not isinstance(got, bytes),
                f"{where}: {name} is {got!r}, not {value!r}",
            )


def compose(picked, other):
    tags = {"Exif": {}, "0th": {}}
    for tag, k in picked.items():
        tags[GROUP[tag]][tag] = MENU[tag][k][0]
    if other:
        for group, values in OTHER.items():
            tags.setdefault(group, {}).update(values)
    return tags


def thumbnail_bytes():
    ok, buffer = cv2.imencode(".jpg", np.full((4, 4, 3), 40, dtype=np.uint8))
    # NOTE: The library strips segments of the thumbnail
    tags = {"1st": {piexif.ImageIFD.Compression: 6}, "thumbnail": buffer.tobytes()}
    return piexif.load(piexif.dump(tags))["thumbnail"]


def files(cases, other, thumbnail, previous):
    """Insert tags into an image, read them back, insert them into another one."""
    outcomes = []
    with scratch():
        for case in cases:
            picked = {t: k for t, k in case}
            where = f"{ {t: MENU[t][k][0] for t, k in picked.items()} } other {other} thumbnail {thumbnail} over {previous}"
            blank("a.jpg")
            blank("b.jpg", (7, 4))
            if previous:
                full = {t: 0 for t in TAGS}
                e = Exif("a.jpg")
                compare(e, expected({}), f"{where}: blank image")
                e.tags = compose(full, True)
                e.insert("b.jpg")
            tags = compose(picked, other)
            if thumbnail:
                tags["1st"] = {"Compression": 6}
                tags["thumbnail"] = thumbnail_bytes()
            e = Exif("a.jpg")
            e.tags = tags
            snapshot = repr(tags)
            compare(e, expected(picked), f"{where}: in memory")
            e.insert("a.jpg")
            require(repr(e.tags) == snapshot, f"{where}: tags were changed by writing")
            pixels = cv2.imread("a.jpg")
            require(pixels is not None and pixels.shape == (5, 6, 3), f"{where}: pixels")
            back = Exif("a.jpg", thumbnail=True)
            compare(back, expected(picked), f"{where}: read back")
            for group, values in tags.items():
                if group == "thumbnail":
                    require(back.tags["thumbnail"] == values, f"{where}: thumbnail")
                    continue
                for tag, value in values.items():
                    got = back.tags[group][tag]
                    require(got == value, f"{where}: {group} {tag} is {got!r}, not {value!r}")
            plain = Exif("a.jpg")
            require("thumbnail" not in plain.tags and "1st" not in plain.tags, f"{where}: thumbnail was kept")
            compare(plain, expected(picked), f"{where}: without thumbnail")
            for src in (back, plain):
                src.insert("b.jpg")
                again = Exif("b.jpg", thumbnail=True)
                compare(again, expected(picked), f"{where}: copied")
                require(
                    {g: v for g, v in again.tags.items() if v and g not in ("1st", "thumbnail")}
                    == {g: v for g, v in back.tags.items() if v and g not in ("1st", "thumbnail")},
                    f"{where}: copied tags {again.tags}",
                )
                kept = again.tags.get("thumbnail")
                require(kept == (back.tags["thumbnail"] if src is back else None), f"{where}: copied thumbnail {kept}")
            for (group, tag), value in PARSED.items():
                got = plain.parse_tag(tag, group)
                want = value if other else None
                require(got == want, f"{where}: {group} {tag} parses to {got!r}")
            want = expected(picked)
            if want["imgsz"] and want["fmm"] and want["sensorsz"]:
                img = Image("a.jpg")
                require(
                    tuple(img.cam.imgsz) == want["imgsz"] and tuple(img.cam.sensorsz) == want["sensorsz"]
                    and np.allclose(img.cam.fmm, want["fmm"]) and img.datetime == want["datetime"],
                    f"{where}: camera of the image",
                )
            outcomes.append(str(want))
    return stats([str((c, other, thumbnail, previous)) for c in cases], 4 * len(cases), outcomes, any(cases))


VALID = {
    "0th": ("Make", "Software", "Orientation"), "1st": ("Compression", "Make"), "Exif": ("Flash", "FNumber"),
    "GPS": ("GPSLatitudeRef",), "Interop": ("InteroperabilityIndex",),
}
SAMPLE = {
    "Make": b"x", "Software": b"y", "Orientation": 1, "Compression": 6, "Flash": 1, "FNumber": (1, 2),
    "GPSLatitudeRef": b"N", "InteroperabilityIndex": b"R98", "Nothing": 0, "make": b"x",
}


def invalid(group, tag, companions):
    """Groups and tags which do not exist are refused, and the file is left as it was."""
    with scratch():
        blank("a.jpg")
        with open("a.jpg", "rb") as fp:
            before = fp.read()
        e = Exif("a.jpg")
        tags = {"0th": {}, "Exif": {}, **{g: {t: SAMPLE[t] for t in VALID[g]} for g in companions}}
        tags.setdefault(group, {})[tag] = SAMPLE[tag]
        e.tags = tags
        snapshot = repr(tags)
        exists = group in VALID and (tag in VALID[group] or (group in ("0th", "1st") and tag in VALID["0th"] + VALID["1st"]))
        for call in (lambda: e.dump(), lambda: e.insert("a.jpg")):
            try:
                call()
            except ValueError:
                require(not exists, f"{group} {tag} with {companions}: refused")
            else:
                require(exists, f"{group} {tag} with {companions}: accepted")
            require(repr(e.tags) == snapshot, f"{group} {tag}: tags changed")
        with open("a.jpg", "rb") as fp:
            require((fp.read() != before) == exists, f"{group} {tag} with {companions}: file")
    return stats([(group, tag, tuple(companions))], 2, exists, True)


def explore(ck):
    some = [c for n in range(3) for c in itertools.combinations(VALID, n) if "1st" not in c]
    ck.sweep(
        invalid,
        [
            (group, tag, list(c))
            for group in [*VALID, "thumb", "exif", "Image"]
            for tag in SAMPLE
            for c in some
            if group != "1st"
        ],
        chunk=32,
    )
    deep = ck.thorough
    cases = []
    for n in range(len(TAGS) + 1):
        for some in itertools.combinations(TAGS, n):
            cases.append([(t, 0) for t in some])
    for tag in TAGS:
        rest = [t for t in TAGS if t != tag]
        for k in range(len(MENU[tag])):
            cases.append([(tag, k)])
            cases.append([(tag, k)] + [(t, 0) for t in rest])
    pairs = []
    for a, b in itertools.combinations(TAGS, 2):
        if deep or (a, b) in (("DateTimeOriginal", "SubSecTimeOriginal"), ("Make", "Model"), ("PixelXDimension", "PixelYDimension")):
            for i, j in itertools.product(range(len(MENU[a])), range(len(MENU[b]))):
                pairs.append([(a, i), (b, j)])
    cases += pairs
    chunks = [cases[i : i + 40] for i in range(0, len(cases), 40)]
    flags = list(itertools.product((False, True), repeat=3))
    ck.sweep(files, [(c, *f) for c in chunks for f in flags], chunk=2)
