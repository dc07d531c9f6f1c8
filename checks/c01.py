"""C01: raw/mhd voxel fidelity and rejection of wrong sizes (explicit enumeration)."""
import itertools
import os
import pathlib

import numpy as np
import viqa
from viqa.utils import load_mhd, load_raw

from .common import METTYPES, RAWTYPES

RULE = ("Explicit enumeration on the real loader: every extent triple from the extent set x every element type x "
        "every spelling of raw name / mhd header (all orders of the mandatory lines x line end x final newline x blank lines x "
        "spacing), compared voxel by voxel with the file-order model offset = x + X*(y + Y*z); for the size part every byte "
        "length 0..N+2*itemsize of the data file (every torn write) must be rejected except N; larger extents up to megabytes with all structural lengths around them; every directory name/relative path of a list; every header without one or more of the lines needed and every malformed size must be rejected. States: distinct (type, extent, "
        "spelling) configurations; transitions: load calls; traces: loads/rejections compared with the model.")

LINES = ["NDims", "DimSize", "ElementType", "ElementDataFile"]
NAMES = ["img_{d}_{b}.raw", "{b}_{d}.raw", "scan12_{d}_{b}_v2.raw", "a.b-{d}.{b}.raw", "{d}-{b}.raw", "x_{d}_{b}_0042.raw"]
BADRAW = ["img_2x2_8bit.raw", "img_2x2x2.raw", "img.raw", "img_2x2x2_64bit.raw", "img_2x2x2_24bit.raw", "img_8bit.raw"]
BADEXT = ["v_2x2x2_8bit.dat", "v_2x2x2_8bit", "v.nrrd", "v.gz", "v.npy"]

BIG = [(128, 3, 2), (2, 130, 3), (1, 2, 257), (100, 101, 11), (1025, 1, 3), (1, 999, 1), (1, 1, 4097), (64, 65, 33), (257, 129, 9), (300, 2, 200), (256, 256, 3), (512, 3, 2), (2, 512, 3), (3, 2, 512), (1024, 2, 1), (1, 2048, 2), (2, 1, 1024), (12345, 1, 2), (1, 10001, 2), (2, 3, 11111), (100003, 1, 1), (32, 64, 16), (70000, 2, 1)]
BIGGER = [(200, 150, 100), (33, 1000, 40), (2048, 16, 64)]
DIRS = ["8bit_2x2x2", "a b", "v.mhd", "x.raw", "64fbit", "1x1x1/16bit", "ünï", "a=b"]
EXTRA = ["NDims = 3", "BinaryData = True", "BinaryDataByteOrderMSB = False", "CompressedData = False", "TransformMatrix = 1 0 0 0 1 0 0 0 1", "Offset = 0 0 0",
         "ElementSpacing = 0.5 1 2", "ElementSize = 1 1 1", "ElementNumberOfChannels = 1", "AnatomicalOrientation = RAI"]


def extents(tier):
    n = 3 if tier == "quick" else 4
    e = list(itertools.product(range(1, n + 1), repeat=3))
    e += [(5, 3, 2), (2, 5, 3), (10, 2, 3), (3, 11, 2), (2, 3, 12), (7, 1, 5), (16, 9, 4)]
    return e


def keys(tier):
    for d in extents(tier):
        for b in RAWTYPES:
            yield ["raw", list(d), b, 0]
        for m in METTYPES:
            yield ["mhd", list(d), m, 0]
    # larger extents: several digits, more than one page, buffer or megabyte
    for d in BIG + (BIGGER if tier == "thorough" else []):
        for b in RAWTYPES:
            yield ["raw", list(d), b, 0]
            yield ["bigtorn", list(d), "raw", b]
        for m in METTYPES:
            yield ["mhd", list(d), m, 0]
            yield ["bigtorn", list(d), "mhd", m]
    for i in range(len(DIRS)):
        for b in RAWTYPES:
            yield ["dir", i, "raw", b]
        for m in METTYPES:
            yield ["dir", i, "mhd", m]
    for b in RAWTYPES:
        for n in range(len(NAMES)):
            yield ["raw", [3, 4, 2], b, n]
            yield ["raw", [11, 2, 13], b, n]
    perms = list(itertools.permutations(range(4)))
    for m in METTYPES:
        for pi, nl, fin, blank, sp in itertools.product(range(len(perms)), range(2), range(2), range(2), range(3)):
            yield ["hdr", m, pi, nl, fin, blank, sp]
    for d in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 1), (1, 3, 2), (2, 2, 2), (3, 2, 2)]:
        for b in RAWTYPES:
            yield ["tornraw", list(d), b]
        for m in METTYPES:
            yield ["tornmhd", list(d), m]
    yield ["special"]
    for gone in range(1, 8):
        for nl in (0, 1):
            yield ["incomplete", gone, nl]
    for v in BADDIM:
        yield ["baddim", v]
    for n in BADRAW:
        yield ["badraw", n]
    for n in BADEXT:
        yield ["badext", n]
    for t in ["MET_CHAR", "MET_SHORT", "MET_LONG", "FLOAT", ""]:
        yield ["badmet", t]
    for i, name in enumerate(["a b.raw", "x=y.bin", "data", "ünï.raw", "a.b.c"]):
        yield ["datafile", i, name]


def content(d, dt):
    n = int(np.prod(d))
    dt = np.dtype(dt)
    if dt.kind == "u":
        # distinct values, all bytes used
        step = 2654435761 if dt.itemsize == 4 else (40503 if dt.itemsize == 2 else 157)
        return (np.arange(n, dtype=np.uint64) * step % (2 ** (8 * dt.itemsize))).astype(dt)
    v = np.arange(n) - n / 3.0
    return (v * 1.25).astype(dt)


def verify(ctx, got, d, flat, what):
    X, Y, Z = d
    got = np.asarray(got)
    ctx.check(got.shape == (X, Y, Z), what, "shape", got.shape, "expected", (X, Y, Z))
    ctx.check(got.dtype == flat.dtype, what, "type", got.dtype, "expected", flat.dtype)
    x, y, z = np.indices((X, Y, Z))
    want = flat[x + X * (y + Y * z)]
    ctx.check(np.ascontiguousarray(got).tobytes() == want.tobytes(), what, "voxels differ for", d, flat.dtype)
    ctx.trace()


BADDIM = ["", "8", "2 4", "4 2", "1 8", "2 2 2 1", "1 2 2 2", "2 2 1 2 1", "a b c", "2,2,2", "2x2x2", "2.0 2.0 2.0", "2 2 2.0", "-2 -2 2", "-2 2 -2", "2 2 two", "2 2 0x2", "0 0 0", "-1 2 2", "2 2 -1"]


def header(order, dims, met, data, nl="\n", final=True, blank=False, sp=1, extra=True):
    eq = ["=", " = ", "  =\t"][sp]
    val = {"NDims": "3", "DimSize": " ".join(map(str, dims)), "ElementType": met, "ElementDataFile": data}
    lines = [LINES[i] + eq + val[LINES[i]] for i in order]
    if extra:
        lines.insert(0, "ObjectType" + eq + "Image")
        lines.insert(2, "Comment" + eq + "made by a=b")
    if blank:
        lines.insert(1, "")
        lines.insert(4, "   ")
    t = nl.join(lines)
    return t + (nl if final else "")


def put(p, b):
    with open(p, "wb") as f:
        f.write(b)


def run(ctx, key):
    t = ctx.tmp()
    kind = key[0]
    if kind == "raw":
        d, b, n = tuple(key[1]), key[2], key[3]
        flat = content(d, RAWTYPES[b])
        name = NAMES[n].format(d="x".join(map(str, d)), b=b)
        p = os.path.join(t, name)
        put(p, flat.tobytes())
        ctx.state(kind, d, b, n)
        for how, fn in (("load_data(str)", lambda: viqa.load_data(p)), ("load_data(PathLike)", lambda: viqa.load_data(pathlib.Path(p))),
                        ("load_raw", lambda: load_raw(t, name))):
            r = fn()
            ctx.op()
            verify(ctx, r, d, flat, how)
        ctx.check(isinstance(viqa.load_data(p), viqa.ImageArray), "not an image array")
    elif kind == "mhd":
        d, m = tuple(key[1]), key[2]
        flat = content(d, METTYPES[m])
        put(os.path.join(t, "v.raw"), flat.tobytes())
        p = os.path.join(t, "v.mhd")
        put(p, header(range(4), d, m, "v.raw").encode())
        ctx.state(kind, d, m)
        for how, fn in (("load_data(str)", lambda: viqa.load_data(p)), ("load_data(PathLike)", lambda: viqa.load_data(pathlib.Path(p))),
                        ("load_mhd", lambda: load_mhd(t, "v.mhd"))):
            r = fn()
            ctx.op()
            verify(ctx, r, d, flat, how)
    elif kind == "hdr":
        _, m, pi, nl, fin, blank, sp = key
        order = list(itertools.permutations(range(4)))[pi]
        d = (3, 2, 4)
        flat = content(d, METTYPES[m])
        put(os.path.join(t, "v.bin"), flat.tobytes())
        p = os.path.join(t, "v.mhd")
        put(p, header(order, d, m, "v.bin", "\r\n" if nl else "\n", bool(fin), bool(blank), sp).encode())
        ctx.state(*key)
        r = viqa.load_data(p)
        ctx.op()
        verify(ctx, r, d, flat, "header spelling")
    elif kind == "dir":
        _, i, fmt, b = key
        d = (3, 4, 2)
        u = os.path.join(t, DIRS[i])
        os.makedirs(u)
        flat = content(d, RAWTYPES[b] if fmt == "raw" else METTYPES[b])
        ctx.state(*key)
        cases = []
        if fmt == "raw":
            name = "i_3x4x2_%s.raw" % b
            put(os.path.join(u, name), flat.tobytes())
            cases.append(name)
        else:
            os.makedirs(os.path.join(u, "sub"))
            for k, data in enumerate(["v_9x9x9_8bit.raw", "sub/v.bin", os.path.join(t, "abs.bin")]):
                put(os.path.join(u, data), flat.tobytes())
                for pos in (0, len(EXTRA) // 2, len(EXTRA)):
                    lines = header(range(1, 4), d, b, data, final=False, extra=False).split("\n")
                    lines = EXTRA[:pos] + lines[:2] + EXTRA[pos:] + lines[2:]
                    cases.append("h%d_%d.mhd" % (k, pos))
                    put(os.path.join(u, cases[-1]), "\n".join(lines).encode())
        old = os.getcwd()
        for name in cases:
            verify(ctx, viqa.load_data(os.path.join(u, name)), d, flat, "directory name " + DIRS[i])
            try:
                os.chdir(t)
                verify(ctx, viqa.load_data(os.path.join(DIRS[i], name)), d, flat, "relative path")
                os.chdir(u)
                verify(ctx, viqa.load_data(name), d, flat, "bare file name")
                verify(ctx, viqa.load_data("./" + name), d, flat, "bare file name")
            finally:
                os.chdir(old)
            ctx.op(4)
    elif kind == "bigtorn":
        _, d, fmt, b = key
        dt = np.dtype(RAWTYPES[b] if fmt == "raw" else METTYPES[b])
        n = int(np.prod(d)) * dt.itemsize
        if fmt == "raw":
            data = p = os.path.join(t, "i_%dx%dx%d_%s.raw" % (*d, b))
        else:
            data, p = os.path.join(t, "v.bin"), os.path.join(t, "v.mhd")
            put(p, header(range(4), d, b, "v.bin").encode())
        k = dt.itemsize
        lengths = {n - 1, n + 1, n - k, n + k, n // 2, n * 2, n - k * d[0], n + k * d[0], n - k * d[0] * d[1], n + k * d[0] * d[1], n + 512, n + 4096, n - 512, n - 4096,
                   n - n % 4096, n - n % 512, 0}
        put(data, bytes(2 * n + 4096))
        for length in sorted((x for x in lengths if x >= 0 and x != n), reverse=True):
            if length > os.path.getsize(data):
                continue
            os.truncate(data, length)
            ctx.state(fmt, tuple(d), b, length)
            ctx.op()
            ctx.raises(ValueError, lambda: viqa.load_data(p), "%d of %d bytes" % (length, n))
            ctx.trace()
    elif kind in ("tornraw", "tornmhd"):
        d, b = tuple(key[1]), key[2]
        dt = np.dtype(RAWTYPES[b] if kind == "tornraw" else METTYPES[b])
        full = content(d, dt).tobytes() + bytes(range(2 * dt.itemsize))
        n = int(np.prod(d)) * dt.itemsize
        if kind == "tornraw":
            data = p = os.path.join(t, "i_%dx%dx%d_%s.raw" % (*d, b))
        else:
            data, p = os.path.join(t, "v.bin"), os.path.join(t, "v.mhd")
            put(p, header(range(4), d, b, "v.bin").encode())
        for length in list(range(len(full) + 1)) + [2 * n, 3 * n]:
            if length == 2 * n or length == 3 * n:
                put(data, (full[:n] * 3)[:length])
            else:
                put(data, full[:length])
            ctx.state(kind, d, b, length)
            ctx.op()
            if length == n:
                viqa.load_data(p)
            else:
                ctx.raises(ValueError, lambda: viqa.load_data(p), "%d of %d bytes" % (length, n))
            ctx.trace()
    elif kind == "special":
        for b, dt in RAWTYPES.items():
            dt = np.dtype(dt)
            if dt.kind == "f":
                fi = np.finfo(dt)
                vals = np.array([np.nan, np.inf, -np.inf, -0.0, fi.tiny, fi.max, fi.min, fi.smallest_subnormal], dtype=dt)
            else:
                vals = np.array([0, 1, np.iinfo(dt).max, np.iinfo(dt).max - 1, 127, 128, 255, 254], dtype=dt)
            p = os.path.join(t, "s_2x2x2_%s.raw" % b)
            put(p, vals.tobytes())
            ctx.op()
            ctx.state("special", b)
            verify(ctx, viqa.load_data(p), (2, 2, 2), vals, "special values")
    elif kind == "badraw":
        p = os.path.join(t, key[1])
        put(p, bytes(8))
        ctx.op()
        ctx.state(*key)
        ctx.raises(ValueError, lambda: viqa.load_data(p), key[1])
        ctx.trace()
    elif kind == "badext":
        p = os.path.join(t, key[1])
        put(p, bytes(8))
        ctx.op()
        ctx.state(*key)
        ctx.raises(ValueError, lambda: viqa.load_data(p), key[1])
        ctx.trace()
    elif kind == "incomplete":
        # every subset of the lines that carry size, type and data file is left out, misspelled or without '='
        _, gone, nl = key
        put(os.path.join(t, "v.bin"), bytes(8))
        p = os.path.join(t, "v.mhd")
        for how in range(5):
            for order in itertools.permutations(range(4)):
                lines = header(order, (2, 2, 2), "MET_UCHAR", "v.bin", extra=False, final=False).split("\n")
                out = []
                for ln in lines:
                    i = LINES.index(ln.split(" ")[0])
                    if i and gone >> (i - 1) & 1:
                        out += [[], ["X" + ln], [ln.lower()], [ln.replace("=", ":")], ["Comment = " + ln]][how]
                    else:
                        out.append(ln)
                put(p, ("\r\n" if nl else "\n").join(out).encode())
                ctx.op()
                ctx.state(*key, how, order)
                ctx.raises(ValueError, lambda: viqa.load_data(p), "header %r" % out)
                ctx.trace()
    elif kind == "baddim":
        put(os.path.join(t, "v.bin"), bytes(8))
        p = os.path.join(t, "v.mhd")
        put(p, header(range(4), [key[1]], "MET_UCHAR", "v.bin").encode())
        ctx.op()
        ctx.state(*key)
        ctx.raises(ValueError, lambda: viqa.load_data(p), "DimSize = " + key[1])
        ctx.trace()
    elif kind == "badmet":
        put(os.path.join(t, "v.bin"), bytes(8))
        p = os.path.join(t, "v.mhd")
        put(p, header(range(4), (2, 2, 2), key[1], "v.bin").encode())
        ctx.op()
        ctx.state(*key)
        ctx.raises(ValueError, lambda: viqa.load_data(p), key[1])
        ctx.trace()
    elif kind == "datafile":
        d, m = (2, 3, 2), "MET_USHORT"
        flat = content(d, "u2")
        for fin in (True, False):
            put(os.path.join(t, key[2]), flat.tobytes())
            p = os.path.join(t, "v.mhd")
            put(p, header((0, 1, 2, 3), d, m, key[2], final=fin).encode())
            ctx.op()
            ctx.state(*key, fin)
            verify(ctx, viqa.load_data(p), d, flat, "data file name")
