"""C09: SNR on exactly the selected region (explicit enumeration of all centers, radii, color modes)."""
import itertools

import numpy as np
import viqa

from .c08 import SPELL, TYPES, centers, tol, values
from .common import GRAY, image, make, region_ref, snr_ref

RULE = ("Explicit enumeration on the real code: for small gray 2D/3D and color images of every element type all centers x radii x region types whose regions lie inside, "
        "color in YUV and RGB mode, every radius of larger images (up to 150), values from 1e-150 to 1e100 and images in which a single element deviates, compared with a direct evaluation; all centers too close to a border must be rejected. "
        "States: (shape, type, center, radius, region, mode); transitions: calls; traces: comparisons.")

YUV = np.array([[0.2126, 0.7152, 0.0722], [-0.09991, -0.33609, 0.436], [0.615, -0.55861, -0.05639]])


def keys(tier):
    shapes = [[5, 6], [6, 4], [4, 5, 6], [6, 5, 4]] if tier == "quick" else \
        [[5, 6], [6, 4], [9, 8], [4, 5, 6], [6, 5, 4], [7, 8, 6], [9, 8, 10]]
    for shape in shapes:
        for dt in TYPES:
            for r in range(1, min(shape) // 2 + 1):
                yield ["all", shape, dt, r]
    for shape in ([5, 6], [6, 4], [8, 7]):
        for dt in ("u1", "u2", "f4", "f8", "f2"):
            for r in range(1, min(shape) // 2 + 1):
                yield ["color", shape, dt, r]
    for shape in ([5, 6], [9, 7], [6, 8, 7], [4, 4, 4]):
        for dt in TYPES:
            yield ["const", shape, dt]
    for shape in ([4, 5], [5, 5], [4, 4, 5], [4, 5, 3]):
        for r in (1, 2, 3):
            yield ["border", shape, r]
    for shape in ([64, 48], [24, 20, 28], [40, 50, 3]):
        for dt in ("u1", "u2", "f2", "f4"):
            yield ["large", shape, dt]
    # every radius of larger images; very small, very large and weakly varying values
    for shape in ([44, 47], [24, 23, 26]):
        for r in range(1, min(shape) // 2 + 1):
            yield ["radii", shape, r]
    for r in range(23, 36):
        yield ["radii", [72, 70], r]
    for r in (48, 63, 64, 65, 100, 127, 128, 129, 150):
        yield ["radii", [302, 301], r]
    for r in (15, 16, 17, 31, 32, 33):
        yield ["radii", [67, 66, 68], r]
    for shape in ([7, 8], [6, 7, 8]):
        for dt in ("f4", "f8"):
            for e in ((-18, -12, -9, -6, -3, 3, 6, 12) if dt == "f4" else (-150, -60, -30, -18, -12, -9, -6, -3, 3, 6, 9, 12, 30, 100)):
                yield ["scale", shape, dt, e]
        for dt in ("u1", "u2", "i2", "f8"):
            yield ["weak", shape, dt]
    for dt in ("f4", "f8"):
        for e in (-9, -6, -4, -3, -2, -1, 3, 6, 9) if dt == "f4" else (-60, -30, -12, -9, -6, -4, -3, -2, -1, 3, 6, 12, 30):
            yield ["colorscale", [7, 8], dt, e]


def color_ref(img, c, r, rt, yuv):
    v = np.asarray(img, dtype=np.float64)
    m = region_ref(v.shape, c, r, rt)
    if yuv:
        y = (v @ YUV.T)[m]
        return [y[:, 0].mean() / y[:, i].std() for i in range(3)]
    p = v[m]
    lum = p @ GRAY
    return [lum.mean() / lum.std()] + [p[:, i].mean() / p[:, i].std() for i in range(3)]


def compare_color(ctx, img, c, r, rt, sp, dt):
    for yuv in (None, True, False):
        kw = {} if yuv is None else dict(yuv=yuv)
        obj = make("SNR")
        got = obj.score(img, signal_center=c, radius=r, region_type=sp, **kw)
        ctx.op()
        ctx.state(img.shape, dt, c, r, sp, yuv)
        want = color_ref(img, c, r, rt, yuv is not False)
        ctx.close(np.asarray(got, dtype=float), want, "color SNR %s %s center %s radius %d %s yuv=%s" % (img.shape, dt, c, r, sp, yuv),
                  rtol=3e-3 if dt == "f2" else 1e-4 if dt == "f4" else 1e-7)
        ctx.trace()


def run(ctx, key):
    kind = key[0]
    if kind == "all":
        _, shape, dt, r = key
        shape = tuple(shape)
        img = image(shape, dt, 5)
        obj = make("SNR")
        for n, c in enumerate(centers(shape, r)):
            for rt in ("cubic", "spherical", "full"):
                for sp in SPELL[rt]:
                    got = obj.score(img, signal_center=c, radius=r, region_type=sp)
                    ctx.op()
                    ctx.state(shape, dt, c, r, sp)
                    ctx.close(got, snr_ref(img, c, r, rt), "SNR %s %s center %s radius %d %s" % (shape, dt, c, r, sp), **tol(dt))
                    ctx.check(obj.score_val == got, "recorded score")
                    ctx.trace()
            got = make("SNR").score(img, signal_center=c, radius=r)
            ctx.close(got, snr_ref(img, c, r, "cubic"), "default region type", **tol(dt))
            f = viqa.nr_metrics.snr.signal_to_noise_ratio(img, c, r)
            ctx.close(f[0], snr_ref(img, c, r, "cubic"), "signal_to_noise_ratio", **tol(dt))
            ctx.op(2)
            ctx.trace(2)
    elif kind == "color":
        _, shape, dt, r = key
        img = image(tuple(shape) + (3,), dt, 6)
        for c in centers(shape, r):
            for rt in ("cubic", "spherical", "full"):
                for sp in SPELL[rt]:
                    compare_color(ctx, img, c, r, rt, sp, dt)
    elif kind == "colorscale":
        # values of very small and very large amplitude, and small deviations of one channel at a time
        _, shape, dt, e = key
        base = image(tuple(shape) + (3,), "f8", 21, rng=2.0) + 0.5
        imgs = [base * 10.0 ** e]
        if e < 0 and (dt == "f8" and e >= -6 or e >= -3):
            for ch in range(3):
                b = base.copy()
                b[..., ch] = 1 + image(tuple(shape), "f8", 22, rng=1.0) * 10.0 ** e
                imgs.append(b)
        for img in imgs:
            img = img.astype(dt)
            for rt in ("cubic", "spherical", "full"):
                for c in ((3, 3), (4, 5)):
                    compare_color(ctx, img, c, 2, rt, rt, dt)
    elif kind == "const":
        _, shape, dt = key
        shape = tuple(shape)
        for r in range(1, min(shape) // 2 + 1):
            cs = centers(shape, r)
            for val in (0, 7, 100) if np.dtype(dt).kind in "ui" else (0.0, 0.1, 0.3, 1 / 3, 100.7):
                img = np.full(shape, val, dt)
                for c in (cs[0], cs[-1]):
                    for rt in ("cubic", "spherical", "original"):
                        got = make("SNR").score(img, signal_center=c, radius=r, region_type=rt)
                        ctx.op()
                        ctx.state("const", shape, dt, val, c, rt)
                        ctx.check(float(got) == 0, "SNR of a constant", dt, "image of", val, "is", got)
                        ctx.trace()
        if len(shape) == 2:
            img = np.zeros(shape + (3,), dt)
            for yuv in (True, False):
                got = make("SNR").score(img, signal_center=tuple(n // 2 for n in shape), radius=2, yuv=yuv)
                ctx.op()
                ctx.check(all(float(x) == 0 for x in got), "SNR of a black color image", got)
                ctx.trace()
            vals = (3, 90, 200) if np.dtype(dt).kind in "ui" else (0.1, 0.3, 1 / 3)
            for rt in ("cubic", "spherical", "original"):
                c = tuple(n // 2 for n in shape)
                img[...] = vals
                for yuv in (True, False):
                    got = make("SNR").score(img, signal_center=c, radius=2, yuv=yuv, region_type=rt)
                    ctx.op()
                    ctx.state("constcolor", shape, dt, rt, yuv)
                    ctx.check(all(float(x) == 0 for x in (got if yuv else got[1:])), "SNR of a uniform color image", got)
                    ctx.trace()
                for ch in range(3):  # only one channel varies
                    img[...] = vals
                    img[..., ch] = image(shape, dt, 4, rng=100)
                    got = make("SNR").score(img, signal_center=c, radius=2, yuv=False, region_type=rt)
                    ctx.op()
                    want = snr_ref(img[..., ch], c, 2, rt)
                    for k in range(3):
                        ctx.close(got[1 + k], want if k == ch else 0, "channel %d, varying %d" % (k, ch), **tol(dt))
                    ctx.trace()
    elif kind == "border":
        _, shape, r = key
        shape = tuple(shape)
        img = image(shape, "u1", 7)
        sp = shape if shape[-1] != 3 else shape[:2]
        ok = set(centers(sp, r))
        for c in itertools.product(*[range(0, n + 3) for n in sp]):
            if c in ok:
                continue
            for rt in ("cubic", "cube", "square", "spherical", "sphere", "circle"):
                ctx.op()
                ctx.state("border", shape, r, c, rt)
                ctx.raises(ValueError, lambda: make("SNR").score(img, signal_center=c, radius=r, region_type=rt),
                           "center %s radius %d in %s" % (c, r, shape))
                ctx.trace()
    elif kind == "radii":
        _, shape, r = key
        shape = tuple(shape)
        img = image(shape, "u2", 18)
        cs = [tuple(r if k >> i & 1 else n - r for i, n in enumerate(shape)) for k in range(2 ** len(shape))]
        for c in cs + [tuple(n // 2 for n in shape)]:
            for rt in ("cubic", "spherical"):
                got = make("SNR").score(img, signal_center=c, radius=r, region_type=rt)
                ctx.op()
                ctx.state("radii", shape, r, c, rt)
                ctx.close(got, snr_ref(img, c, r, rt), "SNR %s %s %d %s" % (shape, c, r, rt), **tol("u2"))
                ctx.trace()
    elif kind in ("scale", "weak"):
        shape, dt = tuple(key[1]), key[2]
        c = (3,) * len(shape)
        for img in values(key):
            for rt in ("cubic", "spherical", "full"):
                got = make("SNR").score(img, signal_center=c, radius=2, region_type=rt)
                ctx.op()
                ctx.state(*key[:1], shape, dt, key[-1], rt)
                want = snr_ref(img, c, 2, rt)
                ctx.close(got, want, "SNR of %s values %s %s" % (dt, img.ravel()[:3], rt), rtol=1e-4 if dt == "f4" else 1e-6, atol=1e-6)
                ctx.check((got == 0) == (want == 0), "SNR zero", got, want)
                ctx.trace()
    else:
        _, shape, dt = key
        shape = tuple(shape)
        img = image(shape, dt, 8)
        sp = shape if shape[-1] != 3 else shape[:2]
        n = min(sp)
        for r in (1, 2, 3, 5, n // 3, n // 2):
            lo, hi = (r,) * len(sp), tuple(s - r for s in sp)
            mid = tuple((a + b) // 2 for a, b in zip(lo, hi))
            for c in (lo, hi, mid):
                for rt in ("cubic", "spherical"):
                    if shape[-1] == 3:
                        compare_color(ctx, img, c, r, rt, rt, dt)
                        continue
                    got = make("SNR").score(img, signal_center=c, radius=r, region_type=rt)
                    ctx.op()
                    ctx.state("large", shape, dt, r, c, rt)
                    ctx.close(got, snr_ref(img, c, r, rt), "SNR %s %s %s %d %s" % (shape, dt, c, r, rt), **tol(dt))
                    ctx.trace()
