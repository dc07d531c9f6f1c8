"""C19: automatic region search (exhaustive small binary images, all object positions)."""
import itertools
import os

import numpy as np

from .common import make, region_ref

RULE = ("Explicit enumeration on the real code: all 65534 non-constant binary 4x4 images (quick: iterations 1; thorough: 1, 2), all binary 3x5 images, all unions of two rectangles in 7x8 images "
        "(up to symmetry of order), all boxes with at most one hole in 6x7x6 volumes, thin objects, large scenes, discs and balls of all squared radii and pixel/half pixel centers, all octagons up to 13x13, each for all region types - compared with a brute-force closing, erosion and distance map; "
        "automatic CNR/SNR for all positions and sizes of a bright object in textured images and volumes x region types x iterations x thresholds compared with explicit scoring at the "
        "centers found in independently thresholded images. States: (image, iterations, region type); transitions: searches/scores; traces: comparisons.")


def shifts(a):
    """4/6 neighbours, outside = False"""
    out = []
    for ax in range(a.ndim):
        for s in (1, -1):
            b = np.zeros_like(a)
            src = [slice(None)] * a.ndim
            dst = [slice(None)] * a.ndim
            src[ax], dst[ax] = (slice(None, -1), slice(1, None)) if s == 1 else (slice(1, None), slice(None, -1))
            b[tuple(dst)] = a[tuple(src)]
            out.append(b)
    return out


def dilate(a, n):
    for _ in range(n):
        a = np.logical_or.reduce([a] + shifts(a))
    return a


def erode(a, n):
    for _ in range(n):
        a = np.logical_and.reduce([a] + shifts(a))
    return a


_sq = {}


def sqdist(shape):
    if shape not in _sq:
        p = np.indices(shape).reshape(len(shape), -1).T
        _sq[shape] = ((p[:, None, :] - p[None, :, :]) ** 2).sum(-1)
    return _sq[shape]


def distance2(a):
    """squared distance of every pixel to the nearest background pixel"""
    f = a.ravel()
    if f.all():
        return None
    if a.size > 700:  # axis by axis: min over the line of value + squared offset
        d = np.where(a, 10 ** 9, 0)
        for ax, n in enumerate(a.shape):
            k = np.arange(n)
            off = (k[:, None] - k[None, :]) ** 2
            d = np.moveaxis(np.min(np.moveaxis(d, ax, -1)[..., None, :] + off, axis=-1), -1, ax)
        return d
    return sqdist(a.shape)[:, ~f].min(axis=1).reshape(a.shape)


def judge(ctx, f, img, it, rts):
    cleaned = erode(dilate(img, it), it + 1)
    d2 = distance2(cleaned)
    for rt in rts:
        c, r, reg = f(img, iterations=it, region_type=rt)
        ctx.op()
        what = "%s iterations %d %s" % (img.astype(int).tolist() if img.size < 60 else img.shape, it, rt)
        ctx.check(len(c) == img.ndim and all(isinstance(x, int) and 0 <= x < n for x, n in zip(c, img.shape)), what, "center", c)
        ctx.check(d2[c] == d2.max(), what, "center", c, "has distance^2", d2[c], "but", d2.max(), "is possible")
        ctx.check(isinstance(r, int) and r == int(np.floor(np.sqrt(d2.max()) + 1e-9)), what, "radius", r)
        data, mask = np.asarray(np.ma.getdata(reg)), np.ma.getmaskarray(reg)
        if rt in ("cubic", "cube", "square", "spherical", "sphere", "circle"):
            inside = region_ref(img.shape, c, r, "cubic" if rt in ("cubic", "cube", "square") else "spherical")
            ctx.check(np.array_equal(~mask, inside) and np.array_equal(data[inside], cleaned[inside]), what, "region", reg)
        elif rt == "full":
            e = erode(cleaned, 2)
            ctx.check(np.array_equal(~mask, e), what, "eroded object")
        elif rt == "original":
            ctx.check(np.array_equal(data, img) and not mask.any(), what, "original object")
        else:
            ctx.check(np.array_equal(data, cleaned) and not mask.any(), what, "cleaned object")
        ctx.trace()


RTS = ["cubic", "spherical", "full", "original", "cleaned"]


def rects(shape):
    return list(itertools.product(*[[(lo, hi) for lo in range(n) for hi in range(lo + 2, n + 1)] for n in shape]))


LARGE = [((64, 80), "disc"), ((100, 37), "disc"), ((41, 130), "ring"), ((90, 90), "comb"), ((70, 75), "two"), ((120, 60), "noise"), ((30, 31, 33), "disc"), ((26, 40, 24), "two"),
         ((20, 22, 64), "comb"), ((30, 30, 30), "ring"), ((28, 27, 29), "noise")]


def large(sh, what):
    idx = np.indices(sh)
    c = [n / 2 - 0.5 for n in sh]
    d = np.sqrt(sum((idx[k] - c[k]) ** 2 for k in range(len(sh))))
    r = min(sh) / 2 - 3
    if what == "disc":
        return d <= r
    if what == "ring":
        return (d <= r) & (d > r / 3)
    if what == "comb":
        return (d <= r) & (idx[0] % 11 != 0) | (idx[0] > sh[0] * 0.7) & (idx[1] > 4) & (idx[1] < sh[1] - 6)
    if what == "two":
        e = sum((idx[k] - n * 0.28) ** 2 for k, n in enumerate(sh))
        g = sum((idx[k] - n * 0.7) ** 2 for k, n in enumerate(sh))
        return (e <= (min(sh) * 0.2) ** 2) | (g <= (min(sh) * 0.23) ** 2)
    holes = (np.arange(int(np.prod(sh))).reshape(sh) * 7919) % 97 == 0
    return (d <= r) & ~holes


def keys(tier):
    step = 2048
    for it in (1,) if tier == "quick" else (1, 2, 3):
        for lo in range(0, 65536, step):
            yield ["all", 4, 4, it, lo, step]
        for lo in range(0, 32768, step):
            yield ["all", 3, 5, it, lo, step]
    n = len(rects((7, 8)))
    for it in (1, 2) if tier == "quick" else (1, 2, 3, 5):
        for i in range(0, n, 12 if tier == "quick" else 3):
            yield ["rects", it, i]
    for it in (1, 2):
        for i in range(0, len(rects((6, 7, 6))), 40 if tier == "quick" else 8):
            yield ["boxes", it, i]
    yield ["big"]
    for it in (1, 2) if tier == "quick" else (1, 2, 3, 5):
        for off in range(4):
            yield ["disc", it, off]
        for n in range(5, 14):
            yield ["octagon", it, n]
        for r2 in range(3, 20 if tier == "quick" else 30):
            yield ["ball", it, r2]
    for it in (1, 2, 5, 10):
        for i in range(len(LARGE)):
            yield ["large", it, i]
    yield ["reject"]
    for m in ("CNR", "SNR"):
        for d in (2, 3):
            for it in (1, 2, 5):
                for rt in ("cubic", "spherical", "square", "circle", "original"):
                    yield ["auto", m, d, it, rt]
                for rt in ("cubic", "sphere"):
                    yield ["thin", m, d, it, rt]
    for it in (1, 2, 5):
        for lo, hi in ((90, 99), (50, 100), (80, 95), (0, 60)):
            yield ["thresh", it, lo, hi]
    yield ["color"]


def thresholded(img, lo, hi):
    g = np.asarray(img, "f8")
    a, b = np.percentile(np.asarray(img), lo), np.percentile(np.asarray(img), hi)
    return (g > a) & (g <= b)


def scene(shape, center, size, seed=0):
    """bright pyramid-shaped object on a textured background, distinct values"""
    idx = np.indices(shape)
    d = np.max([np.abs(idx[i] - center[i]) for i in range(len(shape))], axis=0)
    tex = (np.arange(int(np.prod(shape))).reshape(shape) * 7 + seed) % 11
    v = np.where(d <= size, 180 - 4 * d, 60 + 0 * d) + tex
    return v.astype("u1")


def run(ctx, key):
    from viqa.utils import find_largest_region as f
    kind = key[0]
    if kind == "all":
        _, m, n, it, lo, step = key
        for b in range(lo, lo + step):
            img = ((b >> np.arange(m * n)) & 1).astype(bool).reshape(m, n)
            if img.all() or not img.any():
                continue
            ctx.state("all", m, n, it, b)
            judge(ctx, f, img, it, ("cubic",) if b % 8 else RTS)
    elif kind == "rects":
        _, it, i = key
        rs = rects((7, 8))
        for a in rs[i:i + (12 if ctx.tier == "quick" else 3)][::4 if ctx.tier == "quick" else 1]:
            for b in rs[rs.index(a)::5 if ctx.tier == "quick" else 1]:
                img = np.zeros((7, 8), bool)
                for (x0, x1), (y0, y1) in (a, b):
                    img[x0:x1, y0:y1] = True
                if img.all():
                    continue
                ctx.state("rects", it, a, b)
                judge(ctx, f, img, it, RTS if rs.index(b) % 7 == 0 else ("cubic", "sphere"))
    elif kind == "boxes":
        _, it, i = key
        rs = rects((6, 7, 6))
        for k in range(i, min(len(rs), i + (40 if ctx.tier == "quick" else 8)), 10 if ctx.tier == "quick" else 1):
            b = rs[k]
            img = np.zeros((6, 7, 6), bool)
            img[tuple(slice(*x) for x in b)] = True
            holes = [None] + [tuple(lo + (hi - lo) // 2 for lo, hi in b), tuple(lo for lo, _ in b)]
            for h in holes:
                im = img.copy()
                if h is not None:
                    im[h] = False
                if im.all() or not im.any():
                    continue
                ctx.state("boxes", it, b, h)
                judge(ctx, f, im, it, RTS)
    elif kind == "big":
        for sh in ((20, 31), (31, 20), (12, 14, 13)):
            for it in (1, 2, 5):
                idx = np.indices(sh)
                for rad in (3, 5, 6):
                    for off in itertools.product((0, 2), repeat=len(sh)):
                        c = [n // 2 - 1 + o for n, o in zip(sh, off)]
                        img = sum((idx[i] - c[i]) ** 2 for i in range(len(sh))) <= rad * rad
                        img[tuple(c)] = False
                        ctx.state("big", sh, it, rad, off)
                        judge(ctx, f, img, it, RTS + ["cube", "square", "sphere", "circle"])
    elif kind == "disc":
        _, it, off = key
        idx = np.indices((23, 24))
        for r2 in range(4, 72):  # all squared radii: the largest distance takes every value
            img = (2 * idx[0] - 22 - off // 2) ** 2 + (2 * idx[1] - 22 - off % 2) ** 2 <= 4 * r2
            ctx.state("disc", it, off, r2)
            judge(ctx, f, img, it, ("cubic", "spherical"))
    elif kind == "octagon":
        _, it, n = key
        for m in range(5, 14):
            for cut in range(0, min(n, m) // 2 + 1):
                i, j = np.indices((n, m))
                body = (i + j >= cut) & (i + m - 1 - j >= cut) & (n - 1 - i + j >= cut) & (n - 1 - i + m - 1 - j >= cut)
                img = np.zeros((n + 4, m + 5), bool)
                img[2:-2, 3:-2] = body
                if img.any():
                    ctx.state("octagon", it, n, m, cut)
                    judge(ctx, f, img, it, ("cubic", "spherical"))
    elif kind == "ball":
        _, it, r2 = key
        idx = np.indices((11, 12, 11))
        for off in itertools.product((0, 1), repeat=3):
            img = sum((2 * idx[k] - 10 - off[k]) ** 2 for k in range(3)) <= 4 * r2
            ctx.state("ball", it, r2, off)
            judge(ctx, f, img, it, ("cubic", "spherical"))
    elif kind == "large":
        _, it, i = key
        img = large(*LARGE[i])
        ctx.state("large", it, i)
        judge(ctx, f, img, it, RTS)
    elif kind == "reject":
        good = np.zeros((5, 6), bool)
        good[1:4, 1:4] = True
        bad = [good.astype("u1"), good.astype("f8"), good.astype(int), good * 255, np.ones((5, 6), bool), np.zeros((5, 6), bool), good.astype("i1") * 2, np.arange(30.0).reshape(5, 6)]
        for i, b in enumerate(bad):
            for rt in RTS:
                ctx.op()
                ctx.state("reject", i, rt)
                ctx.raises(ValueError, lambda: f(b, region_type=rt), "image that is not binary")
                ctx.trace()
        for sh in ((3,), (2, 2, 4, 4)):
            b = np.zeros(sh, bool)
            b.flat[0] = True
            ctx.raises(ValueError, lambda: f(b), "%d dimensions" % len(sh))
            ctx.trace()
        import viqa  # noqa: F401
        a = np.zeros((9, 10), bool)
        a[1:8, 1:9] = True
        r1, r2 = f(a), f(a, iterations=5)
        ctx.check(r1[:2] == r2[:2], "default iterations")
    elif kind == "auto":
        _, m, d, it, rt = key
        sh = (24, 26) if d == 2 else (16, 17, 18)
        pos = list(itertools.product(*[range(6, n - 5, 4 if d == 2 else 5) for n in sh]))
        for c in pos:
            for size in ((3, 5) if d == 2 else (3, 4)):
                img = scene(sh, c, size)
                compare_auto(ctx, f, m, img, it, rt, c, size)
                if it == 1:  # saturated object and empty background: many pixels share the extreme values
                    compare_auto(ctx, f, m, np.where(img >= 180 - 4 * size, np.where(img > 176, 200, img), np.where(img < 64, 60, img)).astype("u1"), it, rt, c, -size)
                    compare_auto(ctx, f, m, np.where(img >= 140, 255, 0).astype("u2") + (img % 2 if size == 3 else img * 0).astype("u2"), it, rt, c, -size - 10)
    elif kind == "thin":
        # background region smaller than the object: everything else has the smallest value and belongs to neither
        _, m, d, it, rt = key
        for a, b in itertools.product(range(3, 10 if d == 2 else 8), range(3, 10 if d == 2 else 8)):
            sh = (32, 34) if d == 2 else (18, 22, 17)
            for val in (0, 40):
                img = np.full(sh, val, "u1")
                tex = (np.arange(img.size).reshape(sh) * 7 % 11).astype("u1")
                x, y = (slice(2, 2 + a),) * d, (slice(16 if d == 2 else 9, (16 if d == 2 else 9) + b),) * d
                for s, v in ((x, 200), (y, 100)):
                    img[s] = v + tex[s]
                compare_auto(ctx, f, m, img, it, rt, (a, b), val)
                compare_auto(ctx, f, m, img.astype("f4") / 255, it, rt, (a, b), val + 1)
    elif kind == "thresh":
        _, it, lo, hi = key
        for c in itertools.product((7, 12), (8, 15)):
            for size in (4, 6):
                img = scene((24, 26), c, size)
                compare_auto(ctx, f, "SNR", img, it, "cubic", c, size, lower_threshold=lo, upper_threshold=hi)
    else:
        for c in itertools.product((8, 13), (9, 15)):
            img = np.stack([scene((24, 26), c, 5, s) for s in (0, 3, 5)], axis=-1)
            for yuv in (True, False):
                for rt in ("cubic", "spherical"):
                    g = img.astype("f8") @ np.array([0.2125, 0.7154, 0.0721])
                    b = thresholded(g, 90, 99)
                    cc, r, _ = f(b, iterations=2, region_type=rt)
                    try:
                        want = make("SNR").score(img, signal_center=cc, radius=r, region_type=rt, yuv=yuv)
                    except (ValueError, TypeError):
                        want = None
                    try:
                        got = make("SNR").score(img, signal_center=None, radius=None, auto_center=True, iterations=2, region_type=rt, yuv=yuv)
                    except (ValueError, TypeError):
                        got = None
                    ctx.op(2)
                    ctx.state("color", c, yuv, rt)
                    ctx.check((got is None) == (want is None), "automatic SNR of a color image", got, want)
                    if want is not None:
                        ctx.close(got, want, "automatic SNR of a color image")
                    ctx.trace()


def compare_auto(ctx, f, m, img, it, rt, c, size, **kw):
    lo, hi = kw.get("lower_threshold", 90), kw.get("upper_threshold", 99)
    fg = thresholded(img, 90, 100) if m == "CNR" else thresholded(img, lo, hi)
    auto = dict(signal_center=None, radius=None, auto_center=True, iterations=it, region_type=rt, **kw)
    if it == 5 and not kw:
        auto.pop("iterations")  # documented default
    if rt == "cubic":
        auto.pop("region_type")
    if m == "CNR":
        auto["background_center"] = None
    try:
        cs, rs, _ = f(fg, iterations=it, region_type=rt)
        ex = dict(signal_center=cs, radius=rs, region_type=rt)
        if m == "CNR":
            cb, rb, _ = f(thresholded(img, 0, 90), iterations=it, region_type=rt)
            ex.update(background_center=cb, radius=min(rs, rb))
        want = make(m).score(img, **ex)
    except (ValueError, TypeError):
        want = None
    try:
        got = make(m).score(img, **auto)
    except (ValueError, TypeError):
        got = None
    ctx.op(2)
    ctx.state("auto", m, img.shape, it, rt, c, size, lo, hi)
    what = "automatic %s of object %s size %d, iterations %d, %s" % (m, c, size, it, rt)
    ctx.check((got is None) == (want is None), what, "got", got, "expected", want)
    if want is not None:
        ctx.close(float(got), float(want), what)
    ctx.trace()
