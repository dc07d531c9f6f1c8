"""C08: CNR on exactly the selected regions (explicit enumeration of all centers and radii)."""
import itertools

import numpy as np
import viqa

from .common import cnr_ref, image, make

RULE = ("Explicit enumeration on the real code: for small 2D and 3D images of every element type all signal centers x background centers x radii x region types whose "
        "regions lie inside, compared with a direct evaluation of the definition; and all centers (0..extent) too close to a border, which must be rejected. "
        "Exercised through the metric object and the function. States: (shape, type, centers, radius, region); transitions: calls; traces: comparisons.")

SPELL = {"cubic": ["cubic", "cube", "square"], "spherical": ["spherical", "sphere", "circle"], "full": ["full", "original"]}
TYPES = ["u1", "u2", "u4", "i2", "f2", "f4", "f8"]


def centers(shape, r):
    return list(itertools.product(*[range(r, n - r + 1) for n in shape]))


def keys(tier):
    two = [[5, 6], [6, 4]] if tier == "quick" else [[5, 6], [6, 4], [7, 8], [8, 5]]
    three = [[4, 5, 6]] if tier == "quick" else [[4, 5, 6], [6, 4, 5], [5, 6, 4], [7, 4, 6]]
    for shape in two + three:
        for r in range(1, min(shape) // 2 + 1):
            for c in centers(shape, r):
                yield ["all", shape, r, list(c)]
    for shape in ([5, 6], [9, 7], [6, 8, 7], [4, 4, 4], [8, 2]):
        for dt in TYPES:
            for r in range(1, min(shape) // 2 + 1):
                yield ["types", shape, dt, r]
                yield ["const", shape, dt, r]
    for shape in ([4, 5], [5, 5], [4, 4, 5]):
        for r in (1, 2, 3):
            yield ["border", shape, r]
    for shape in ([64, 48], [24, 20, 28]):
        for dt in TYPES:
            yield ["large", shape, dt]
    # every radius of larger images; very small, very large and weakly varying values
    for shape in ([44, 47], [24, 23, 26]):
        for r in range(1, min(shape) // 2 + 1):
            yield ["radii", shape, r]
    for r in range(23, 36):
        yield ["radii", [72, 70], r]
    for r in (48, 63, 64, 65, 100, 127, 128, 129, 150):
        yield ["radii", [302, 301], r]
    for r in (15, 16, 17, 31, 32, 33):
        yield ["radii", [67, 66, 68], r]
    for shape in ([7, 8], [6, 7, 8]):
        for dt in ("f4", "f8"):
            for e in ((-18, -12, -9, -6, -3, 3, 6, 12) if dt == "f4" else (-150, -60, -30, -18, -12, -9, -6, -3, 3, 6, 9, 12, 30, 100)):
                yield ["scale", shape, dt, e]
        for dt in ("u1", "u2", "i2", "f8"):
            yield ["weak", shape, dt]


def tol(dt):
    return dict(rtol=3e-3, atol=3e-3) if dt == "f2" else dict(rtol=1e-4, atol=1e-5) if dt == "f4" else dict(rtol=1e-9, atol=1e-10)


def values(key):
    """images of tiny, huge or weakly varying values"""
    kind, shape, dt = key[0], tuple(key[1]), key[2]
    if kind == "scale":
        yield ((image(shape, "f8", 19) + 0.5) * 10.0 ** key[3]).astype(dt)
        yield ((image(shape, "f8", 19) - 0.2) * 10.0 ** key[3]).astype(dt)
    else:
        for base in (0, 100) if dt == "u1" else (0, 1000, 30000):
            # exactly one element of the image differs by one
            for i in range(int(np.prod(shape))):
                a = np.full(shape, base, dt)
                a.flat[i] += 1
                yield a


def run(ctx, key):
    kind = key[0]
    if kind == "all":
        _, shape, r, sc = key
        shape, sc = tuple(shape), tuple(sc)
        img = image(shape, "u1", 5)
        obj = make("CNR")
        for n, bc in enumerate(centers(shape, r)):
            for rt in ("cubic", "spherical"):
                sp = SPELL[rt][n % 3]
                got = obj.score(img, signal_center=sc, background_center=bc, radius=r, region_type=sp)
                ctx.op()
                ctx.state(shape, sc, bc, r, rt)
                ctx.close(got, cnr_ref(img, sc, bc, r, rt), "CNR %s signal %s background %s radius %d %s" % (shape, sc, bc, r, sp), rtol=1e-9)
                ctx.check(obj.score_val == got, "recorded score")
                ctx.trace()
    elif kind == "types":
        _, shape, dt, r = key
        shape = tuple(shape)
        img = image(shape, dt, 6) if dt not in ("i2",) else image(shape, dt, 6)
        cs = centers(shape, r)
        pick = [cs[0], cs[-1], cs[len(cs) // 2], cs[len(cs) // 3]]
        for sc, bc in itertools.product(pick, repeat=2):
            for rt in ("cubic", "spherical", "full"):
                for sp in SPELL[rt]:
                    got = make("CNR").score(img, signal_center=sc, background_center=bc, radius=r, region_type=sp)
                    g2 = viqa.nr_metrics.cnr.contrast_to_noise_ratio(img, bc, sc, r, region_type=sp)
                    ctx.op(2)
                    ctx.state(shape, dt, sc, bc, r, sp)
                    want = cnr_ref(img, sc, bc, r, rt)
                    ctx.close(got, want, "CNR %s %s %s %s %d %s" % (shape, dt, sc, bc, r, sp), **tol(dt))
                    ctx.close(g2, want, "contrast_to_noise_ratio %s %s %s %s %d %s" % (shape, dt, sc, bc, r, sp), **tol(dt))
                    ctx.trace(2)
            # default region type
            got = make("CNR").score(img, signal_center=sc, background_center=bc, radius=r)
            ctx.close(got, cnr_ref(img, sc, bc, r, "cubic"), "default region type", **tol(dt))
            ctx.op()
            ctx.trace()
    elif kind == "const":
        _, shape, dt, r = key
        shape = tuple(shape)
        cs = centers(shape, r)
        for val in (0, 7, 100) if np.dtype(dt).kind in "ui" else (0.0, 0.1, 0.3, 1 / 3, 100.7):
            img = np.full(shape, val, dt)
            for bc in (cs[0], cs[-1]):
                for rt in ("cubic", "spherical", "original"):
                    got = make("CNR").score(img, signal_center=cs[len(cs) // 2], background_center=bc, radius=r, region_type=rt)
                    ctx.op()
                    ctx.state("const", shape, dt, val, bc, rt)
                    ctx.check(float(got) == 0, "CNR of a constant", dt, "image of", val, "is", got)
                    ctx.trace()
    elif kind == "border":
        _, shape, r = key
        shape = tuple(shape)
        img = image(shape, "u1", 7)
        ok = set(centers(shape, r))
        inside = next(iter(sorted(ok)), None)
        for c in itertools.product(*[range(0, n + 3) for n in shape]):
            if c in ok:
                continue
            for rt in SPELL["cubic"] + SPELL["spherical"]:
                for s, b in ((c, inside), (inside, c), (c, c)):
                    if s is None or b is None:
                        s = b = c
                    ctx.op()
                    ctx.state("border", shape, r, s, b, rt)
                    ctx.raises(ValueError, lambda: make("CNR").score(img, signal_center=s, background_center=b, radius=r, region_type=rt),
                               "centers %s %s radius %d in %s" % (s, b, r, shape))
                    ctx.trace()
    elif kind == "radii":
        _, shape, r = key
        shape = tuple(shape)
        img = image(shape, "u2", 18)
        cs = [tuple(r if k >> i & 1 else n - r for i, n in enumerate(shape)) for k in range(2 ** len(shape))]
        mid = tuple(n // 2 for n in shape)
        for c in cs + [mid]:
            for rt in ("cubic", "spherical"):
                for s, b in ((c, mid), (mid, c)):
                    got = make("CNR").score(img, signal_center=s, background_center=b, radius=r, region_type=rt)
                    ctx.op()
                    ctx.state("radii", shape, r, s, b, rt)
                    ctx.close(got, cnr_ref(img, s, b, r, rt), "CNR %s %s %s %d %s" % (shape, s, b, r, rt), **tol("u2"))
                    ctx.trace()
    elif kind in ("scale", "weak"):
        shape, dt = tuple(key[1]), key[2]
        s, b = (3,) * len(shape), tuple(n - 2 for n in shape)
        for img in values(key):
            for rt in ("cubic", "spherical", "full"):
                got = make("CNR").score(img, signal_center=s, background_center=b, radius=2, region_type=rt)
                ctx.op()
                ctx.state(*key[:1], shape, dt, key[-1], rt)
                want = cnr_ref(img, s, b, 2, rt)
                ctx.close(got, want, "CNR of %s values %s %s" % (dt, img.ravel()[:3], rt), rtol=1e-4 if dt == "f4" else 1e-6, atol=1e-6)
                ctx.check((got == 0) == (want == 0) or rt == "full", "CNR zero", got, want)
                ctx.trace()
    else:
        _, shape, dt = key
        shape = tuple(shape)
        img = image(shape, dt, 8)
        n = min(shape)
        for r in (1, 2, 3, 5, n // 3, n // 2):
            lo, hi = (r,) * len(shape), tuple(s - r for s in shape)
            mid = tuple((a + b) // 2 for a, b in zip(lo, hi))
            for s, b in itertools.permutations((lo, hi, mid), 2):
                for rt in ("cubic", "spherical"):
                    got = make("CNR").score(img, signal_center=s, background_center=b, radius=r, region_type=rt)
                    ctx.op()
                    ctx.state("large", shape, dt, r, s, b, rt)
                    ctx.close(got, cnr_ref(img, s, b, r, rt), "CNR %s %s %s %s %d %s" % (shape, dt, s, b, r, rt), **tol(dt))
                    ctx.trace()
