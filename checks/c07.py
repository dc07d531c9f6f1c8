"""C07: SSIM and UQI against a direct window-by-window model (explicit enumeration of parameters)."""
import itertools

import numpy as np
from numpy.lib.stride_tricks import sliding_window_view

from .common import gray_ref, image, make, patterns, unit

RULE = ("Explicit enumeration on the real code: the full grid of window kind/size/sigma x exponents x constants x data range x element type x image shape "
        "(2D, 3D, color; up to 256x257) x all ordered pairs of image patterns (incl. constant and almost flat ones), compared with a direct evaluation of the definition "
        "on every window inside the image in double precision. States: (parameters, shape, type, pattern pair); transitions: score calls; traces: comparisons.")

EXP = list(itertools.product((0, 1, 2), repeat=3))
CONST = [(0.01, 0.03), (0.1, 0.3), (0.05, 0.02), (0.0, 0.1), (0.2, 0.01)]
WIN = [("u", None), ("u", 3), ("u", 5), ("u", 9), ("g", 0.5), ("g", 1.0), ("g", 1.5), ("g", None)]


def weights1(win):
    kind, p = win
    if kind == "u":
        n = 7 if p is None else p
        return np.full(n, 1.0 / n), n
    s = 1.5 if p is None else p
    r = int(3.5 * s + 0.5)
    x = np.arange(-r, r + 1)
    w = np.exp(-x * x / (2.0 * s * s))
    return w / w.sum(), 2 * r + 1


def ref(a, b, win, R, K, E):
    """direct evaluation on all windows"""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    w1, n = weights1(win)
    off = a.mean()
    d = a.ndim
    w = w1
    for _ in range(d - 1):
        w = np.multiply.outer(w, w1)
    ax = tuple(range(-d, 0))
    # work on windows directly, means removed per window: no cancellation
    wa = sliding_window_view(a, (n,) * d)
    wb = sliding_window_view(b, (n,) * d)
    ma = (wa * w).sum(axis=ax)
    mb = (wb * w).sum(axis=ax)
    ex = (Ellipsis,) + (None,) * d
    da, db = wa - ma[ex], wb - mb[ex]
    c = 1.0 if win[0] == "g" else n ** d / (n ** d - 1)
    va, vb, vab = (c * (x * w).sum(axis=ax) for x in (da * da, db * db, da * db))
    del off
    c1, c2 = (K[0] * R) ** 2, (K[1] * R) ** 2
    c3 = c2 / 2

    def q(x, y):
        with np.errstate(all="ignore"):
            return np.where((y == 0) & (x == 0), 1.0, x / y)
    lum = q(2 * ma * mb + c1, ma ** 2 + mb ** 2 + c1)
    con = q(2 * np.sqrt(va * vb) + c2, va + vb + c2)
    stru = q(vab + c3, np.sqrt(va * vb) + c3)
    return float((lum ** E[0] * con ** E[1] * stru ** E[2]).mean())


def pats(shape, dt, R):
    p = patterns(shape, dt, R)
    p["const"] = np.full(shape, 0.4 * R).astype(dt)
    p["flat"] = (0.7 * R + 0.0001 * R * unit(shape, 9)).astype(dt)
    return p


def keys(tier):
    full = tier == "thorough"
    # parameter grid on two noise-like pairs
    for win in WIN:
        for K in range(len(CONST)):
            for e in range(len(EXP)):
                for shape in ([12, 13], [9, 10, 11]):
                    yield ["ssim", list(win), K, e, shape, "u1", 255, "few"]
    # types and ranges, all pattern pairs
    for dt, R in (("u1", 255), ("u2", 65535), ("f4", 1), ("f8", 1), ("f8", 255), ("u1", 100), ("i2", 1000), ("f2", 1), ("f4", 65535)):
        for win in (WIN if full else [WIN[1], WIN[4], WIN[7], WIN[0]]):
            for shape in ([12, 13], [16, 11], [11, 12, 11]):
                if len(shape) == 3 and win[1] in (9,) and not full:
                    continue
                yield ["ssim", list(win), 0, EXP.index((1, 1, 1)), shape, dt, R, "all"]
    for shape in ([7, 7], [7, 20], [21, 8], [13, 14], [7, 8, 9], [3, 3], [3, 9], [5, 4, 6]):
        for dt, R in (("u1", 255), ("u2", 65535), ("f4", 1), ("f8", 1)):
            for win in (None, 3, 5, 7):
                if (win or 7) <= min(shape):
                    yield ["uqi", win, shape, dt, R]
    for w in ([1, 1, 1], [0.5, 0.3, 0.2], [3, 0, 0], [0, 3, 0], [0, 0, 3], [0.1, 2, 0.9]):
        for win in WIN[:2] + WIN[4:5] + WIN[7:]:
            for dt, R in (("u1", 255), ("f4", 1), ("u2", 65535)):
                yield ["color", list(win), w, dt, R]
    for win in (["u", 11], ["u", 13], ["u", 15], ["u", 21], ["g", 2.0], ["g", 2.5], ["g", 3.0]):
        for shape in ([24, 25], [23, 31], [21, 22, 1]) if full else ([24, 25], [23, 31]):
            for dt, R in (("u1", 255), ("f4", 1)):
                if min(shape) > 1:
                    yield ["ssim", win, 0, EXP.index((1, 1, 1)), shape, dt, R, "few"]
                    yield ["ssim", win, 1, EXP.index((2, 1, 1)), shape, dt, R, "few"]
        if win[0] == "u":
            for dt, R in (("u1", 255), ("f8", 1)):
                yield ["uqi", win[1], [24, 25], dt, R]
    for win in (["u", 11], ["u", 13], ["g", 1.7], ["g", 2.0]):
        yield ["ssim", win, 0, EXP.index((1, 1, 1)), [15, 16, 17], "u1", 255, "few"]
    # larger images
    for shape in ([64, 70], [130, 40], [20, 200], [256, 257], [40, 20, 22], [12, 60, 13], [12, 13, 64]):
        for win in (["u", None], ["u", 3], ["u", 9], ["g", None], ["g", 0.5]):
            if len(shape) == 3 and win[1] == 9:
                continue
            for dt, R in (("u1", 255), ("f4", 1), ("u2", 65535), ("f8", 1)):
                yield ["ssim", win, 0, EXP.index((1, 1, 1)), shape, dt, R, "few"]
                if win[0] == "u" and dt in ("u1", "f8"):
                    yield ["uqi", win[1], shape, dt, R]
    for mode in ("reflect", "constant", "nearest", "mirror", "wrap"):
        for cval in (0, 50):
            yield ["mode", mode, cval]
    for al in (1.9, 2.0, 0.5, 1):
        yield ["cast", al]


def args(win):
    kw = dict(gaussian_weights=win[0] == "g")
    if win[1] is not None:
        kw["win_size" if win[0] == "u" else "sigma"] = win[1]
    elif win[0] == "g":
        kw.pop("gaussian_weights")  # the default
    return kw


def cmp(ctx, got, want, what, tol=3e-4):
    ctx.close(got, want, what, rtol=tol, atol=tol)
    ctx.trace()


def run(ctx, key):
    kind = key[0]
    if kind == "ssim":
        _, win, k, e, shape, dt, R, which = key
        shape, K, E = tuple(shape), CONST[k], EXP[e]
        if weights1(win)[1] > min(shape):
            return
        p = pats(shape, dt, R)
        if which == "few":
            pairs = [("noise1", "noise2"), ("noise1", "weak"), ("ramp", "weak"), ("weak", "noise2")]
        else:
            pairs = list(itertools.product(p, repeat=2))
        for x, y in pairs:
            obj = make("SSIM", R)
            kw = dict(args(win), alpha=E[0], beta=E[1], gamma=E[2], K1=K[0], K2=K[1])
            if k == 0 and E == (1, 1, 1):
                kw = args(win)
            got = obj.score(p[x], p[y], **kw)
            ctx.op()
            ctx.state("ssim", tuple(win), k, e, shape, dt, R, x, y)
            cmp(ctx, got, ref(p[x], p[y], win, R, K, E), "SSIM %s %s %s range %s K=%s exponents=%s %s/%s" % (win, shape, dt, R, K, E, x, y))
            ctx.check(obj.score_val == got, "recorded score")
    elif kind == "uqi":
        _, win, shape, dt, R = key
        p = patterns(tuple(shape), dt, R)
        names = ["noise1", "noise2", "weak"]  # windows without variance are undefined
        for x, y in itertools.product(names, repeat=2):
            kw = {} if win is None else dict(win_size=win)
            for rng in (R, 2 * R):
                obj = make("UQI", rng)
                got = obj.score(p[x], p[y], **kw)
                ctx.op()
                ctx.state("uqi", win, tuple(shape), dt, rng, x, y)
                cmp(ctx, got, ref(p[x], p[y], ("u", win), R, (0, 0), (1, 1, 1)), "UQI win %s %s %s %s/%s" % (win, shape, dt, x, y), 2e-3)
                ctx.check(obj.score_val == got, "recorded score")
    elif kind == "color":
        _, win, w, dt, R = key
        p = patterns((12, 13, 3), dt, R)
        for x, y in (("noise1", "noise2"), ("noise1", "weak"), ("ramp", "noise2")):
            a, b = p[x], p[y].copy()
            b[..., 1] = b[::-1, :, 1]
            b[..., 2] = a[..., 2]
            want = np.mean([wi * ref(a[..., c], b[..., c], win, R, CONST[0], (1, 1, 1)) for c, wi in enumerate(w)])
            for cw in (w, np.array(w), tuple(w)):
                got = make("SSIM", R, chromatic=True).score(a, b, color_weights=cw, **args(win))
                ctx.op()
                ctx.state("color", tuple(win), tuple(w), dt, x, y, str(type(cw)))
                cmp(ctx, got, want, "color SSIM weights %s %s" % (w, win))
            g = make("SSIM", R).score(a, b, **args(win))
            ctx.op()
            cmp(ctx, g, ref(gray_ref(a), gray_ref(b), win, R, CONST[0], (1, 1, 1)), "SSIM of the luminance")
            if win[0] == "u":
                g = make("UQI", R).score(a, b, **({} if win[1] is None else dict(win_size=win[1])))
                ctx.op()
                if x != "ramp" and y != "ramp":
                    cmp(ctx, g, ref(gray_ref(a), gray_ref(b), win, R, (0, 0), (1, 1, 1)), "UQI of the luminance", 2e-3)
    elif kind == "mode":
        p = patterns((13, 12), "u1", 255)
        for win in WIN:
            if weights1(win)[1] > 12:
                continue
            got = make("SSIM").score(p["noise1"], p["weak"], mode=key[1], cval=key[2], **args(win))
            ctx.op()
            ctx.state(*key, *win)
            cmp(ctx, got, ref(p["noise1"], p["weak"], win, 255, CONST[0], (1, 1, 1)), "border mode %s must not matter" % key[1])
    elif kind == "cast":
        p = patterns((13, 12), "u1", 255)
        p["dark"] = (p["noise1"] // 3).astype(np.uint8)  # other luminance, contrast and (slightly) structure
        v = key[1]
        for pos in range(3):
            E = [1, 1, 1]
            E[pos] = int(v)
            for other in ("weak", "dark"):
                got = make("SSIM").score(p["noise1"], p[other], **{("alpha", "beta", "gamma")[pos]: v})
                ctx.op()
                ctx.state("cast", v, pos, other)
                cmp(ctx, got, ref(p["noise1"], p[other], ("g", None), 255, CONST[0], E), "exponent %s" % v)
    _ = image
