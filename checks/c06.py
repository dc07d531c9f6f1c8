"""C06: RMSE and PSNR against exact arithmetic (explicit enumeration of image pairs)."""
import itertools
import math
from fractions import Fraction

import numpy as np

from .common import GRAY, image, make, patterns

RULE = ("Explicit enumeration on the real code: for every element type all pairs of images with four elements over a three-value alphabet of extremes of the type "
        "(as 2x2, 1x4, 4x1 and 1x2x2), all pairs of one- and two-pixel color images over two extremes, pattern pairs on larger 2D/3D/color shapes, "
        "images up to 300x257 and 40x33x37, pairs that differ in one pixel (every position), pairs of floating point images that differ by 1..2^30 units in the last place, all data ranges; compared with exact rational sums. States: (type, shape, pair); transitions: score calls; traces: comparisons.")

TYPES = ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8"]
RANGES = [1, 255, 65535, 0.5, 1000]


def alpha(dt, n):
    d = np.dtype(dt)
    if d.kind in "ui":
        i = np.iinfo(d)
        v = [i.min, i.max, 1 if d.kind == "u" else -1, 100]
    else:
        m = {2: 200.0, 4: 3e38, 8: 1e100}[d.itemsize]
        v = [-m, m, 0.25, 0.0]
    return v[:n]


def keys(tier):
    for dt in TYPES:
        n = 3 if tier == "quick" else 4
        for first in itertools.product(range(n), repeat=4):
            yield ["pairs", dt, n, list(first)]
        for first in itertools.product(range(2), repeat=6):
            yield ["color", dt, list(first)]
    for dt in TYPES:
        for shape in ([3, 3], [2, 3], [7, 3], [3, 7], [8, 9], [16, 5], [1, 1], [1, 3], [4, 5, 6], [2, 2, 2], [5, 4, 1], [1, 6, 7], [6, 7, 3], [9, 2, 3]):
            yield ["pat", dt, shape]
    # larger images; pairs that differ in exactly one pixel, every position
    for dt in TYPES:
        for shape in ([130, 70], [300, 257], [3, 1000], [40, 33, 37], [2, 3, 500], [90, 110, 3]):
            yield ["big", dt, shape]
        for shape in ([20, 23], [5, 6, 7], [70, 2], [2, 70]):
            yield ["single", dt, shape]
    # pairs that differ by very little compared with their values, and images of very small values
    for dt in ("f2", "f4", "f8"):
        for shape in ([2, 2], [3, 5], [2, 3, 4]):
            for steps in (1, 2, 16, 256) + ((4096, 2 ** 16) if dt != "f2" else ()) + ((2 ** 30, ) if dt == "f8" else ()):
                for base in (1.0, 100.0, 1e-3) + (() if dt == "f2" else (1e-6, 1e6)) + ((1e-9, 1e9) if dt == "f8" else ()):
                    yield ["near", dt, shape, steps, base]


def val(x):
    return Fraction(int(x)) if np.asarray(x).dtype.kind in "ui" else Fraction(float(x))


def mse(a, b):
    fa, fb = a.ravel(), b.ravel()
    return sum((val(x) - val(y)) ** 2 for x, y in zip(fa, fb)) / len(fa)


def root(fr):
    # exact enough square root of a rational
    if fr == 0:
        return 0.0
    return math.sqrt(fr) if fr < 10 ** 300 else float("inf")


def luma(a):
    w = [Fraction(str(x)) for x in GRAY]
    out = np.empty(a.shape[:2], dtype=object)
    for i in np.ndindex(*a.shape[:2]):
        out[i] = sum(val(a[i + (c,)]) * w[c] for c in range(3))
    return out


def mse_obj(a, b):
    fa, fb = a.ravel(), b.ravel()
    return sum((x - y) ** 2 for x, y in zip(fa, fb)) / len(fa)


def check(ctx, a, b, ms, ranges, what, chromatic=None, equal=None):
    ctor = {} if chromatic is None else dict(chromatic=chromatic)
    r = root(ms)
    obj = make("RMSE", 255, **ctor)
    got = obj.score(a, b)
    ctx.op()
    # sums of squares run in single precision for short types
    small = np.dtype(a.dtype).itemsize <= 2 or a.dtype == np.float32
    rt = 1e-5 if small else 1e-9
    at = 1e-9 if not np.issubdtype(a.dtype, np.floating) or a.dtype == np.float64 else 1e-6
    if chromatic is False:
        rt, at = max(rt, 1e-7), max(at, 1e-6 * float(np.max(np.abs(np.asarray(a, dtype=float))) + 1))
        if ms != 0 and r < 1e-3 * float(np.max(np.abs(np.asarray(a, dtype=float)))):
            at = max(at, 1e-3)
    ctx.close(got, r, "RMSE " + what, rtol=rt, atol=at)
    ctx.check(obj.score_val is got or obj.score_val == got, "recorded RMSE")
    ctx.trace()
    for R in ranges:
        p = make("PSNR", R, **ctor)
        got = float(p.score(a, b))
        ctx.op()
        if equal if equal is not None else ms == 0:
            ctx.check(got == float("inf"), "PSNR of equal images", got, what)
        elif r < 1e-4 * (at / 1e-6 if chromatic is False else 1):
            continue  # difference below the resolution of the luminance
        else:
            ctx.check(got != float("inf"), "PSNR infinite for different images", what)
            ctx.close(got, 20 * math.log10(R / r), "PSNR range %s %s" % (R, what), rtol=1e-5, atol=1e-3 if chromatic is False else 1e-4)
        ctx.check(p.score_val == got, "recorded PSNR")
        ctx.trace()


def run(ctx, key):
    kind, dt = key[0], key[1]
    if kind == "big":
        shape = tuple(key[2])
        n = int(np.prod(shape))
        d = np.dtype(dt)
        v, w = np.arange(n) * 7919 % 65521 / 65521, np.arange(n) * 104729 % 65521 / 65521
        if d.kind in "ui":
            i = np.iinfo(d)
            lo, hi = (i.min, i.max) if d.itemsize < 8 else (0 if d.kind == "u" else -2 ** 50, 2 ** 50)
            a, b = (np.floor(x * (hi - lo) + lo).astype(d).reshape(shape) for x in (v, w))
        else:
            a, b = ((x * 400 - 200).astype(d).reshape(shape) for x in (v, w))
        color = shape[-1] == 3 and len(shape) == 3
        for name, x, y in (("far", a, b), ("shift", a, np.roll(a, 1)), ("half", a, np.where(np.arange(n).reshape(shape) < n // 2, a, b)), ("tail", a, np.where(np.arange(n).reshape(shape) < n - 5, a, b))):
            diff = x.astype(np.longdouble) - y.astype(np.longdouble)
            r = float(np.sqrt(np.mean(diff * diff)))
            ctx.state(dt, shape, name)
            ctor = dict(chromatic=True) if color else {}
            ctx.close(make("RMSE", 255, **ctor).score(x, y), r, "RMSE %s %s %s" % (dt, shape, name), rtol=1e-5)
            for R in RANGES:
                ctx.close(float(make("PSNR", R, **ctor).score(x, y)), 20 * math.log10(R / r), "PSNR %s %s %s range %s" % (dt, shape, name, R), rtol=1e-5, atol=1e-4)
                ctx.op()
                ctx.trace()
            if color:
                g = diff @ np.array(GRAY, dtype=np.longdouble)
                r = float(np.sqrt(np.mean(g * g)))
                ctx.close(make("RMSE", 255).score(x, y), r, "RMSE of luminance %s %s %s" % (dt, shape, name), rtol=1e-4)
    elif kind == "single":
        shape = tuple(key[2])
        n = int(np.prod(shape))
        a = image(shape, dt, 17, rng=100)
        one = np.asarray(1, dtype=dt)
        rm, ps = make("RMSE", 255), make("PSNR", 255)
        for i in range(n):
            b = a.copy()
            b.flat[i] = a.flat[i] + one
            m = float(b.flat[i]) - float(a.flat[i])
            r = abs(m) / math.sqrt(n)
            ctx.state(dt, shape, i)
            ctx.close(rm.score(a, b), r, "RMSE, one pixel %d of %s" % (i, shape), rtol=1e-5)
            ctx.close(float(ps.score(b, a)), 20 * math.log10(255 / r), "PSNR, one pixel %d of %s" % (i, shape), rtol=1e-5)
            ctx.op(2)
            ctx.trace()
    elif kind == "near":
        _, _, shape, steps, base = key
        n = int(np.prod(shape))
        a = (base * (1 + np.arange(n) / n)).astype(dt)
        eps = float(np.spacing(np.asarray(base, dtype=dt)))
        for moved in [[i] for i in range(n)] + [list(range(n)), list(range(0, n, 2))]:
            b = a.copy()
            for i in moved:
                b[i] = a[i] + np.asarray(steps * 2 * eps, dtype=dt)
            ctx.state(dt, tuple(shape), steps, base, tuple(moved))
            ms = mse(a, b)
            what = "%s %s base %s moved %s by %d steps" % (dt, shape, base, moved, steps)
            r = root(ms)
            for x, y in ((a, b), (b, a)):
                x, y = x.reshape(shape), y.reshape(shape)
                ctx.close(make("RMSE", 1).score(x, y), r, "RMSE " + what, rtol=1e-4, atol=0)
                ctx.close(float(make("PSNR", 1).score(x, y)), -20 * math.log10(r), "PSNR " + what, rtol=1e-6, atol=1e-3)
                ctx.op(2)
                ctx.trace(2)
    elif kind == "pairs":
        _, _, n, first = key
        al = alpha(dt, n)
        base = np.array([al[i] for i in first], dtype=dt)
        for second in itertools.product(range(n), repeat=4):
            other = np.array([al[i] for i in second], dtype=dt)
            m = mse(base, other)
            ctx.state(dt, tuple(first), second)
            shapes = [(2, 2), (1, 4), (4, 1), (1, 2, 2)]
            s = shapes[sum(second) % 4]
            check(ctx, base.reshape(s), other.reshape(s), m, [RANGES[sum(first) % 5]], "%s %s %s" % (dt, base, other))
    elif kind == "color":
        first = key[2]
        al = alpha(dt, 2)
        for n in (1, 2):
            base = np.array([al[i] for i in first[:3 * n]], dtype=dt).reshape(1, n, 3)
            if n == 1 and any(first[3:]):
                continue
            for second in itertools.product(range(2), repeat=3 * n):
                other = np.array([al[i] for i in second], dtype=dt).reshape(1, n, 3)
                ctx.state(dt, n, tuple(first), second)
                what = "%s %s %s" % (dt, base.tolist(), other.tolist())
                check(ctx, base, other, mse(base, other), [255], what + " chromatic", True)
                if dt not in ("f8", "f4", "f2"):  # huge floats: luminance resolution
                    gm = mse_obj(luma(base), luma(other))
                    check(ctx, base, other, gm, [255], what + " luminance", False)
    else:
        shape = tuple(key[2])
        top = {"u1": 255, "u2": 65535, "u4": 2 ** 32 - 1, "u8": 2 ** 40, "i1": 127, "i2": 32767, "i4": 2 ** 31 - 1, "i8": 2 ** 40,
               "f2": 200.0, "f4": 1.0, "f8": 1.0}[dt]
        if np.prod(shape) == 1:
            pats = {"a": image(shape, dt, 1, rng=100), "b": image(shape, dt, 2, rng=100), "c": image(shape, dt, 3, rng=100)}
        else:
            pats = patterns(shape, dt, top)
        names = list(pats)
        for x, y in itertools.product(names, repeat=2):
            a, b = pats[x], pats[y]
            ctx.state(dt, shape, x, y)
            color = len(shape) == 3 and shape[-1] == 3
            if color:
                check(ctx, a, b, mse(a, b), RANGES, "%s %s %s/%s" % (dt, shape, x, y), True)
                gm = mse_obj(luma(a), luma(b))
                if gm == 0 and x != y:
                    continue
                check(ctx, a, b, gm, RANGES[:2], "%s %s %s/%s luminance" % (dt, shape, x, y), False, equal=np.array_equal(a, b))
            else:
                check(ctx, a, b, mse(a, b), RANGES, "%s %s %s/%s" % (dt, shape, x, y))
