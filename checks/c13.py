"""C13: axioms of full-reference scores (explicit enumeration of image pairs, symmetries and parameters)."""
import itertools

import numpy as np

from .common import FR, METRICS, SLICED, make, patterns

RULE = ("Explicit enumeration on the real code: (a) every ordered pair of eleven structurally different images x every element type and range x every parameter set of each metric, 2D, "
        "color and volumes: perfect score for identical images, never better than perfect, exchange of the images, all 8 (2D) / 48 (3D, quick: 8) mirrorings and transpositions; "
        "(b) all pairs of binary 3x3 images (first one up to mirroring/transposition) for RMSE, PSNR, SSIM; all pairs of 2x2 images over {0, 100, 255} for RMSE and PSNR. "
        "States: (metric, settings, pair); transitions: score calls; traces: comparisons.")
ASSUMPTIONS = ["constant images (GSM) and windows without any signal (UQI) have no defined score and are excluded there"]

PERFECT = {"RMSE": 0.0, "MAD": 0.0, "PSNR": float("inf")}
BOUNDED = ["RMSE", "PSNR", "SSIM", "UQI", "MSSSIM", "FSIM", "VSI", "MAD"]
SYMMETRIC = ["RMSE", "PSNR", "SSIM", "UQI", "MSSSIM", "FSIM", "VSI"]
GEOMETRIC = ["RMSE", "PSNR", "SSIM", "UQI"]
PARAMS = {
    "RMSE": [{}], "PSNR": [{}],
    "SSIM": [dict(gaussian_weights=False, win_size=3), dict(gaussian_weights=False), dict(), dict(sigma=1.0),
             dict(gaussian_weights=False, win_size=5, alpha=2, beta=3, gamma=1), dict(K1=0.1, K2=0.2), dict(gaussian_weights=False, win_size=3, alpha=0.5)],
    "UQI": [dict(), dict(win_size=3), dict(win_size=5)],
    "GSM": [dict(), dict(c=100), dict(p=0.3), dict(c=20, p=0.5)],
    "MSSSIM": [dict(kernel_size=3, scale_weights=[0.5, 0.5]), dict(kernel_size=5, scale_weights=[1.0]), dict(kernel_size=3, scale_weights=[0.3, 0.7], kernel_sigma=1.0),
               dict(kernel_size=3, scale_weights=[0.5, 0.5], k1=0.05, k2=0.1)],
    "FSIM": [dict(), dict(scales=2, orientations=3), dict(min_length=4, mult=3), dict(sigma_f=0.7, delta_theta=1.4, k=1.5)],
    "VSI": [dict(), dict(c1=1.0), dict(omega_0=0.03, sigma_f=1.5), dict(sigma_d=100.0, sigma_c=0.002)],
    "VIFp": [dict(), dict(sigma_n_sq=1.0)],
    "MAD": [dict(block_size=4), dict(block_size=5, block_overlap=0.5), dict(block_size=4, beta_1=0.5, beta_2=0.1), dict(block_size=3, block_overlap=0.0, thresh_1=2.5, thresh_2=4.1),
            dict(block_size=4, scales_num=2, weights=[1, 3], orientations_num=3, ms_scale=2)],
}
TYPES = [("u1", 255), ("u2", 65535), ("f4", 1), ("f8", 255), ("i2", 255), ("f2", 1)]
SHAPE = {"SSIM": (13, 14), "UQI": (9, 8)}


def perfect(m):
    return PERFECT.get(m, 1.0)


def images(m, shape, dt, R, const=True):
    p = patterns(shape, dt, R)
    if m == "GSM" or m == "UQI" or not const:
        return p
    p["mid"] = np.full(shape, R // 2 if R > 1 else 0.5).astype(dt)
    p["zero"] = np.zeros(shape, dt)
    return p


def keys(tier):
    slow = ("VSI", "VIFp", "MAD", "FSIM")
    for m in FR:
        for i, kw in enumerate(PARAMS[m]):
            for dt, R in TYPES if m not in slow or tier == "thorough" else TYPES[:3]:
                if m in slow and tier == "quick" and i and dt != "u1":
                    continue
                yield ["pairs", m, i, dt, R]
    for m in FR:
        for dt, R in TYPES[:4] if tier == "thorough" else TYPES[:2]:
            yield ["color", m, dt, R]
            yield ["volume", m, dt, R]
    for m in ("RMSE", "PSNR", "SSIM", "UQI", "GSM", "MSSSIM"):
        for dt, R in TYPES:
            for shape in ([40, 33], [20, 70]):
                yield ["large", m, dt, R, shape]
    n = 102
    for m in ("RMSE", "PSNR", "SSIM"):
        for lo in range(0, n, 2):
            yield ["binary", m, lo, min(n, lo + 2)]
    for m in ("RMSE", "PSNR"):
        for lo in range(0, 81, 3):
            yield ["ternary", m, lo]


def better(m, s, tol):
    if np.isnan(s):
        return True
    if m in ("RMSE", "MAD"):
        return s < 0
    return s > perfect(m) + tol


def same(a, b, tol):
    return a == b or np.isfinite(a) and np.isfinite(b) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def judge(ctx, m, sc, what, tol):
    """sc(i, j): score of pair; identity, bound, exchange"""
    names = what
    val = {}
    for x, y in itertools.product(names, repeat=2):
        val[x, y] = sc(x, y)
        ctx.op()
        if x == y:
            ctx.check(same(val[x, y], perfect(m), tol), m, "of", x, "with itself is", val[x, y])
            ctx.trace()
        elif m in BOUNDED:
            ctx.check(not better(m, val[x, y], tol), m, "of", x, y, "is", val[x, y])
            ctx.trace()
    if m in SYMMETRIC:
        for x, y in itertools.combinations(names, 2):
            ctx.check(same(val[x, y], val[y, x], tol), m, "is not symmetric for", x, y, val[x, y], val[y, x])
            ctx.trace()
    return val


def d4(a):
    for t in (a, np.swapaxes(a, 0, 1)):
        for f0 in (1, -1):
            for f1 in (1, -1):
                yield t[::f0, ::f1]


def binaries():
    seen, reps = set(), []
    for bits in range(512):
        a = np.array([(bits >> i) & 1 for i in range(9)], "u1").reshape(3, 3) * 255
        if a.tobytes() in seen:
            continue
        reps.append(a)
        seen.update(np.ascontiguousarray(t).tobytes() for t in d4(a))
    return reps


def all3():
    return [np.array([(b >> i) & 1 for i in range(9)], "u1").reshape(3, 3) * 255 for b in range(512)]


def run(ctx, key):
    kind, m = key[:2]
    tol = {"MSSSIM": 2e-4, "FSIM": 2e-4, "VSI": 2e-4, "VIFp": 5e-3, "SSIM": 3e-4, "UQI": 3e-4}.get(m, 1e-6)
    if kind in ("pairs", "large"):
        if kind == "pairs":
            _, _, i, dt, R = key
            shape = SHAPE.get(m, METRICS[m]["shape"])
        else:
            _, _, dt, R, shape = key
            i, shape = 0, tuple(shape)
        kw = PARAMS[m][i]
        p = images(m, shape, dt, R)
        if m in ("VSI", "VIFp") and ctx.tier == "quick":
            p = {k: p[k] for k in list(p)[::2]}
        o = make(m, R)
        val = judge(ctx, m, lambda x, y: float(o.score(p[x], p[y], **kw)), list(p), tol)
        for x, y in val:
            ctx.state(m, i, dt, R, shape, x, y)
        if m in GEOMETRIC:
            for x, y in itertools.product(("noise1", "ramp0", "step"), ("noise2", "blend", "dot")):
                for k, (a, b) in enumerate(zip(d4(p[x]), d4(p[y]))):
                    got = float(o.score(a, b, **kw))
                    ctx.op()
                    ctx.state(m, i, dt, R, shape, x, y, k)
                    ctx.check(same(got, val[x, y], tol), m, kw, "changes under mirroring/transposition", k, x, y, got, val[x, y])
                    ctx.trace()
    elif kind == "color":
        _, _, dt, R = key
        shape = SHAPE.get(m, METRICS[m]["shape"]) + (3,)
        p = images(m, shape, dt, R, const=False)
        p = {k: p[k] for k in ("noise1", "blend", "weak", "ramp0")}
        for ch in (False, True):
            if m in ("UQI", "GSM", "MAD") and ch:
                continue
            kw = dict(PARAMS[m][0])
            if m == "SSIM" and ch:
                kw["color_weights"] = [1, 1, 1]
            o = make(m, R, chromatic=ch)
            judge(ctx, m, lambda x, y: float(o.score(p[x], p[y], **kw)), list(p), tol)
            ctx.state(m, "color", ch, dt, R)
    elif kind == "volume":
        _, _, dt, R = key
        shape = {"VIFp": (2, 41, 42), "SSIM": (7, 8, 9), "UQI": (7, 8, 9), "MAD": (2, 12, 13), "FSIM": (2, 9, 10), "VSI": (2, 9, 10)}.get(m, (5, 8, 9))
        p = images(m, shape, dt, R, const=False)
        p = {k: p[k] for k in ("noise1", "blend", "weak", "ramp")}
        kw = dict(PARAMS[m][0])
        if m in SLICED:
            kw["dim"] = 0
        o = make(m, R)
        val = judge(ctx, m, lambda x, y: float(o.score(p[x], p[y], **kw)), list(p), tol)
        ctx.state(m, "volume", dt, R)
        if m in GEOMETRIC:
            perms = list(itertools.permutations(range(3))) if ctx.tier == "thorough" else [(0, 1, 2), (2, 0, 1), (1, 0, 2)]
            for x, y in (("noise1", "blend"), ("weak", "noise1")):
                for pm in perms:
                    for f in itertools.product((1, -1), repeat=3):
                        ix = tuple(slice(None, None, s) for s in f)
                        a, b = p[x].transpose(pm)[ix], p[y].transpose(pm)[ix]
                        if a.shape[-1] == 3:
                            continue
                        got = float(o.score(a, b, **kw))
                        ctx.op()
                        ctx.state(m, "volume", dt, R, x, y, pm, f)
                        ctx.check(same(got, val[x, y], tol), m, "changes under", pm, f, got, val[x, y])
                        ctx.trace()
    elif kind == "binary":
        _, _, lo, hi = key
        reps, al = binaries(), all3()
        assert len(reps) == 102
        kw = PARAMS[m][0]
        o = make(m, 255)
        for a in reps[lo:hi]:
            for b in al:
                s1, s2 = float(o.score(a, b, **kw)), float(o.score(b, a, **kw))
                ctx.op(2)
                ctx.check(same(s1, s2, tol), m, "not symmetric", a.tolist(), b.tolist(), s1, s2)
                eq = np.array_equal(a, b)
                ctx.check(not better(m, s1, tol), m, "better than perfect", a.tolist(), b.tolist(), s1)
                ctx.check(same(s1, perfect(m), tol) if eq else m == "SSIM" or not same(s1, perfect(m), tol), m, a.tolist(), b.tolist(), s1)
                ctx.state(m, a.tobytes(), b.tobytes())
                ctx.trace()
    else:
        _, _, lo = key
        al = [np.array(v, "u1").reshape(2, 2) for v in itertools.product((0, 100, 255), repeat=4)]
        o = make(m, 255)
        for a in al[lo:lo + 3]:
            for b in al:
                s1, s2 = float(o.score(a, b)), float(o.score(b, a))
                ctx.op(2)
                ctx.check(same(s1, s2, tol), m, "not symmetric", a.tolist(), b.tolist(), s1, s2)
                eq = np.array_equal(a, b)
                ctx.check(not better(m, s1, tol) and same(s1, perfect(m), tol) == eq, m, a.tolist(), b.tolist(), s1)
                for ta, tb in zip(d4(a), d4(b)):
                    ctx.op()
                    ctx.check(same(float(o.score(ta, tb)), s1, tol), m, "mirrored/transposed", a.tolist(), b.tolist())
                ctx.state(m, a.tobytes(), b.tobytes())
                ctx.trace()
