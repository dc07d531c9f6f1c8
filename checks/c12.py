"""C12: slice-wise metrics (explicit enumeration of all axes and slices of non-cubic volumes)."""
import numpy as np

from .common import METRICS, SLICED, image, make, patterns

RULE = ("Explicit enumeration on the real code: for every slice-wise metric, several non-cubic volumes and element types, several parameter sets, up to 130 slices, every axis and every slice number -n..n-1: the slice score must "
        "equal the 2D score of that slice, the score along an axis the mean of all slice scores; all invalid axes rejected; axis/slice ignored for 2D and color images. "
        "States: (metric, volume, type, axis, slice); transitions: score calls; traces: comparisons.")

SHAPES = {
    "GSM": [(6, 7, 8), (5, 9, 4), (1, 6, 7), (7, 2, 6)],
    "MSSSIM": [(8, 9, 10), (11, 8, 9), (5, 9, 8)],
    "FSIM": [(8, 9, 10), (11, 9, 8)],
    "VSI": [(8, 9, 10)],
    "VIFp": [(41, 42, 5), (4, 43, 41), (42, 6, 41)],
    "MAD": [(9, 10, 11), (12, 9, 10)],
}

PARAMS = {
    "GSM": [dict(c=100), dict(p=0.3)],
    "MSSSIM": [dict(kernel_size=5, scale_weights=[1.0], k1=0.05), dict(kernel_size=3, scale_weights=[0.3, 0.7], kernel_sigma=1.0)],
    "FSIM": [dict(scales=2, orientations=3), dict(min_length=4, mult=3)],
    "VSI": [dict(c1=100.0), dict(sigma_d=100.0, sigma_c=0.002)],
    "VIFp": [dict(sigma_n_sq=1.0), dict(sigma_n_sq=10.0)],
    "MAD": [dict(block_size=5, block_overlap=0.5), dict(block_size=4, beta_1=0.5, beta_2=0.1), dict(block_size=4, scales_num=2, weights=[1, 3], orientations_num=3)],
}
LONG = {
    "GSM": [((6, 7, 70), 2), ((70, 6, 7), 0), ((5, 130, 6), 1)],
    "MSSSIM": [((8, 9, 40), 2), ((40, 9, 8), 0), ((8, 70, 9), 1)],
    "FSIM": [((8, 9, 33), 2), ((33, 9, 8), 0), ((9, 33, 8), 1)],
    "VSI": [((8, 9, 17), 2), ((17, 9, 8), 0), ((9, 17, 8), 1)],
    "VIFp": [((41, 42, 17), 2), ((17, 43, 41), 0), ((41, 17, 42), 1)],
    "MAD": [((9, 10, 20), 2), ((20, 9, 10), 0), ((10, 20, 9), 1)],
}


def keys(tier):
    for m in SLICED:
        shapes = list(SHAPES[m])
        if tier == "thorough":
            shapes += {"VIFp": [(41, 42, 43)], "VSI": [(11, 9, 8), (9, 8, 12)], "GSM": [(9, 10, 11), (12, 5, 6)]}.get(m, [(12, 10, 14)])
        for s in shapes:
            for dt, R in (("u1", 255), ("f4", 255 if m == "MAD" else 1), ("f8", 255), ("u2", 65535)):
                if tier == "quick" and m in ("VSI", "VIFp") and dt == "f8":
                    continue
                for d in range(3):
                    other = [n for i, n in enumerate(s) if i != d]
                    if min(other) < {"VIFp": 41, "MAD": 9, "FSIM": 8, "VSI": 8, "MSSSIM": 8, "GSM": 1}[m]:
                        continue
                    yield ["axis", m, list(s), dt, R, d]
                    if dt == "u1" or dt == "f8" and tier == "thorough":
                        for i in range(len(PARAMS[m])):
                            yield ["axis", m, list(s), dt, R, d, i]
        # many slices
        for s, d in LONG[m]:
            yield ["axis", m, list(s), "u1", 255, d]
            if tier == "thorough":
                yield ["axis", m, list(s), "f4", 255, d]
        yield ["bad", m]
        yield ["ignored", m]


def kwargs(m):
    return dict(METRICS[m]["kw"])


def run(ctx, key):
    kind, m = key[:2]
    if kind == "axis":
        _, _, s, dt, R, d = key[:6]
        s = tuple(s)
        p = patterns(s, dt, R)
        a, b = p["noise1"], p["noise2" if m == "MAD" else "blend"]
        tol = dict(rtol=2e-4, atol=1e-5)
        single = []
        kw = kwargs(m) if len(key) == 6 else PARAMS[m][key[6]]
        for i in range(s[d]):
            x, y = (np.ascontiguousarray(np.take(v, i, axis=d)) for v in (a, b))
            single.append(float(make(m, R).score(x, y, **kw)))
            ctx.op()
        ctx.check(len(set(np.round(single, 7))) > 1 or s[d] == 1, "model: slices must differ", single)
        for i in range(-s[d], s[d]):
            o = make(m, R)
            got = o.score(a, b, dim=d, im_slice=i, **kw)
            ctx.op()
            ctx.state(m, s, dt, R, d, i, *key[6:])
            ctx.close(float(got), single[i], "%s %s %s axis %d slice %d" % (m, s, dt, d, i), **tol)
            ctx.close(o.score_val, single[i], "recorded", **tol)
            ctx.trace()
        for kk in (dict(dim=d), dict(dim=d, im_slice=None)):
            o = make(m, R)
            got = o.score(a, b, **kk, **kw)
            ctx.op()
            ctx.state(m, s, dt, R, d, str(kk), *key[6:])
            ctx.close(float(got), np.mean(single), "%s %s %s along axis %d" % (m, s, dt, d), **tol)
            ctx.close(o.score_val, np.mean(single), "recorded", **tol)
            ctx.trace()
    elif kind == "bad":
        s = SHAPES[m][0]
        a, b = image(s, "u1", 1), image(s, "u1", 2)
        kw = kwargs(m)
        for dim in (None, 3, -1, -3, 4, 10):
            for sl in (None, 0, 1, -1, "none"):
                kk = {} if dim is None else dict(dim=dim)
                if sl != "none":
                    kk["im_slice"] = sl
                o = make(m)
                ctx.op()
                ctx.state(m, "bad", dim, sl)
                ctx.raises(ValueError, lambda: o.score(a, b, **kk, **kw), "%s %s" % (m, kk))
                ctx.check(o.score_val is None, "score recorded")
                ctx.trace()
    else:
        sh = METRICS[m]["shape"]
        kw = kwargs(m)
        for color in (False, True):
            full = sh + (3,) if color else sh
            a, b = image(full, "u1", 1, like=m == "MSSSIM"), image(full, "u1", 2, like=m == "MSSSIM")
            for chrom in ((False, True) if color and m in ("FSIM", "MSSSIM", "VIFp", "VSI") else (False,)):
                want = float(make(m, 255, chromatic=chrom).score(a, b, **kw))
                for dim in (0, 1, 2, 5):
                    for sl in (None, 0, 3, -1):
                        if m == "VSI" and dim in (1, 5):
                            continue
                        got = make(m, 255, chromatic=chrom).score(a, b, dim=dim, im_slice=sl, **kw)
                        ctx.op()
                        ctx.state(m, "ignored", color, chrom, dim, sl)
                        ctx.close(float(got), want, "%s: axis %s slice %s of a 2D image" % (m, dim, sl), rtol=1e-9)
                        ctx.trace()
