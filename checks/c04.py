"""C04: regions of interest (explicit enumeration of all regions of small images, every interface)."""
import itertools
import os

import numpy as np
import viqa

from .common import METRICS, SLICED, TOL, image, make, nr_kw, rmse_ref, write_img, write_raw

RULE = ("Explicit enumeration on the real code: every shape with extents up to 4 (quick) / 5 (thorough) per axis for gray 2D, color and 3D images, every region with "
        "0 <= start < stop <= extent on every axis (extents up to 300 with boundary regions), every interface (crop_image, load_data on arrays and files, metric constructor, MultipleMetrics, BatchMetrics with one region for all and one per pair; 2D images also with z bounds), "
        "compared with the index model; all too large and incomplete regions must be rejected. States: (shape, region, interface); transitions: "
        "calls; traces: comparisons.")


def spans(n):
    return [(a, b) for a in range(n) for b in range(a + 1, n + 1)]


def keys(tier):
    n = 4 if tier == "quick" else 5
    for s in itertools.product(range(1, n + 1), repeat=2):
        if s[1] != 3:
            yield ["crop", list(s)]
        yield ["crop", list(s) + [3]]
    for s in itertools.product(range(1, n + 1), repeat=3):
        if s[2] != 3:
            yield ["crop", list(s)]
    for s in ([5, 6], [6, 4, 3], [4, 5, 6], [6, 5, 4], [2, 5, 7]):
        yield ["crop", s]
    for s in ([70, 5], [5, 70], [300, 4], [4, 300], [64, 65], [129, 6, 3], [6, 129, 3], [70, 6, 5], [6, 70, 5], [5, 6, 70], [33, 34, 35], [130, 4, 2], [2, 260, 4], [4, 2, 260]):
        for dt in ("u1", "u2", "i4", "f4", "f8"):
            yield ["bigcrop", s, dt]
    for s in ([4, 5], [5, 4], [4, 5, 3], [3, 4, 5], [5, 4, 2]):
        for first in spans(s[0]):
            yield ["iface", s, list(first)]
    for m in METRICS:
        for kind in ("g2", "c2", "g3"):
            if m == "CNR" and kind == "c2":
                continue
            yield ["metric", m, kind]
    for s in ([3, 4], [4, 4], [4, 2, 3], [3, 4, 5], [2, 2, 2]):
        yield ["reject", s]


def coded(shape, dt):
    a = np.arange(int(np.prod(shape))).reshape(shape)
    return (a + 1).astype(dt)


def spatial(shape):
    return 2 if len(shape) == 2 or shape[-1] == 3 else 3


def model(a, roi):
    idx = [np.arange(lo, hi) for lo, hi in roi]
    while len(idx) < a.ndim:
        idx.append(np.arange(a.shape[len(idx)]))
    return a[np.ix_(*idx)]


def batch(ctx, t, files, roi, want):
    """region of the batch interface: one for all and one per pair"""
    pairs = os.path.join(t, "pairs.csv")
    with open(pairs, "w") as f:
        f.write("reference_image,modified_image\n" + ",".join(os.path.basename(p) for p in files) + "\n")
    got = viqa.BatchMetrics(t, pairs, [make("RMSE")], [{}]).calculate(roi=roi)
    ctx.close(got["0"]["RMSE"], want, "BatchMetrics roi=%s" % roi)
    got = viqa.BatchMetrics(t, pairs, [make("RMSE")], [{}], rois=[roi]).calculate()
    ctx.close(got["0"]["RMSE"], want, "BatchMetrics rois=[%s]" % roi)
    ctx.op(2)
    ctx.trace(2)


def same(ctx, got, want, what):
    g = np.asarray(got)
    ctx.check(g.shape == want.shape and g.dtype == want.dtype and np.array_equal(g, want), what, "got shape", g.shape, "expected", want.shape)
    ctx.trace()


def run(ctx, key):
    kind = key[0]
    if kind == "crop":
        shape = tuple(key[1])
        for dt in ("u2", "f4"):
            a = coded(shape, dt)
            ia = viqa.ImageArray(a)
            for roi in itertools.product(*[spans(n) for n in shape[:spatial(shape)]]):
                want = model(a, roi)
                ctx.state(shape, dt, roi)
                same(ctx, viqa.crop_image(a, *roi), want, "crop %s of %s" % (roi, shape))
                ctx.op()
                if dt == "u2":
                    got = viqa.crop_image(ia, *roi)
                    ctx.check(isinstance(got, viqa.ImageArray), "image array lost")
                    same(ctx, got, want, "crop of image array")
                    ctx.op()
                    if spatial(shape) == 2:
                        same(ctx, viqa.crop_image(a, *roi, z=(0, 1)), want, "z bounds of a 2D image")
                        ctx.op()
    elif kind == "bigcrop":
        shape, dt = tuple(key[1]), key[2]
        a = (np.arange(int(np.prod(shape))) * 7919 % 65521 % (251 if dt == "u1" else 65521)).reshape(shape).astype(dt)

        def some(n):
            cut = sorted({0, 1, n // 3, n // 2, n - 2, n - 1, n} | ({63, 64, 65, 127, 128, 129, 255, 256} if n > 8 else set()))
            cut = [x for x in cut if 0 <= x <= n]
            return [(x, y) for x in cut for y in cut if x < y]
        d = spatial(shape)
        short = [(0, 1), (1, 2), (0, 2)]
        for roi in itertools.product(*[some(n) if n > 8 and d == 2 or n > 40 else some(n)[::3] if n > 8 else [r for r in short if r[1] <= n] + [(0, n), (n - 1, n)] for n in shape[:d]]):
            want = model(a, roi)
            ctx.state("big", shape, dt, roi)
            same(ctx, viqa.crop_image(a, *roi), want, "crop %s of %s" % (roi, shape))
            same(ctx, viqa.load_data(viqa.ImageArray(a), roi=[list(r) for r in roi]), want, "region %s of %s" % (roi, shape))
            ctx.op(2)
    elif kind == "iface":
        shape, first = tuple(key[1]), tuple(key[2])
        a = coded(shape, "u1")
        b = (a.astype(int) * 7 % 251).astype("u1")
        t = ctx.tmp()
        files = [None, None]
        if len(shape) == 3 and shape[-1] != 3:
            files = [write_raw(t, "a", a), write_raw(t, "b", b)]
        else:
            files = [write_img(t, "a", a, ".png"), write_img(t, "b", b, ".png")]
        mult = viqa.MultipleMetrics([make("RMSE")], [{}])
        for rest in itertools.product(*[spans(n) for n in shape[1:spatial(shape)]]):
            roi = [first] + list(rest)
            wa, wb = model(a, roi), model(b, roi)
            ctx.state("iface", shape, tuple(roi))
            same(ctx, viqa.load_data(a, roi=roi), wa, "load_data array")
            same(ctx, viqa.load_data(files[0], roi=roi), wa, "load_data file")
            if len(shape) == 3 and shape[-1] != 3 and wa.shape[-1] == 3:
                continue  # a volume with three slices cannot be told from a color image
            chrom = shape[-1] == 3
            want = rmse_ref(wa, wb)
            got = make("RMSE", 255, roi=roi, chromatic=chrom).score(a, b)
            ctx.close(got, want, "RMSE(roi=%s)" % roi)
            got = make("RMSE", 255, roi=roi, chromatic=chrom).score(files[0], b)
            ctx.close(got, want, "RMSE(roi=%s) of a file" % roi)
            ctx.op(4)
            ctx.trace(2)
            if spatial(shape) == 2:  # z bounds do not matter
                for z in ((0, 1), (1, 4)):
                    rz = roi + [z]
                    ctx.state("iface z", shape, tuple(rz))
                    same(ctx, viqa.load_data(a, roi=rz), wa, "load_data of a 2D image with z bounds")
                    same(ctx, viqa.load_data(files[0], roi=rz), wa, "load_data of a 2D file with z bounds")
                    ctx.close(make("RMSE", 255, roi=rz, chromatic=chrom).score(a, b), want, "RMSE(roi=%s) of 2D images" % rz)
                    ctx.op(3)
                    ctx.trace()
            if not chrom:
                got = mult.calculate(a, files[1], roi=roi)["RMSE"]
                ctx.close(got, want, "MultipleMetrics roi=%s" % roi)
                ctx.op()
                ctx.trace()
                batch(ctx, t, files, roi, want)
                if spatial(shape) == 2:
                    ctx.close(mult.calculate(a, files[1], roi=roi + [(0, 2)])["RMSE"], want, "MultipleMetrics with z bounds, roi=%s" % roi)
                    batch(ctx, t, files, roi + [(0, 2)], want)
    elif kind == "metric":
        _, m, k = key
        sh = METRICS[m]["shape"]
        full = (sh[0] + 3, sh[1] + 4)
        roi = [(2, sh[0] + 2), (1, sh[1] + 1)]
        if k == "c2":
            full += (3,)
        elif k == "g3":
            z = 9 if m in ("MAD", "CNR", "SNR") else 4
            if m == "MAD":
                full, roi = (12, 14), [(1, 11), (2, 13)]
            full += (z + 2,)
            roi.append((1, z + 1))
        kw = dict(METRICS[m]["kw"] or {})
        if METRICS[m].get("nr"):
            kw = nr_kw(m, 3 if k == "g3" else 2)
        elif k == "g3" and m in SLICED:
            kw.update(dim=2, im_slice=1)
        ctor = dict(chromatic=True) if m == "VSI" and k == "c2" else {}
        n = 1 if METRICS[m].get("nr") else 2
        imgs = [image(full, "u1", 31 + i, like=m == "MSSSIM") for i in range(n)]
        for perm in range(2):
            r = roi if perm == 0 else [(lo - 1, hi - 1) for lo, hi in roi]
            want = make(m, 255, **ctor).score(*[model(x, r).copy() for x in imgs], **kw)
            ctx.state("metric", m, k, tuple(r))
            got = make(m, 255, roi=r, **ctor).score(*imgs, **kw)
            ctx.op(2)
            ctx.close(got, want, "%s %s roi=%s" % (m, k, r), rtol=TOL.get(m, 1e-6))
            ctx.trace()
    elif kind == "reject":
        shape = tuple(key[1])
        a = coded(shape, "u1")
        d = spatial(shape)
        base = [(0, n) for n in shape[:d]]
        for ax in range(d):
            for big in ((0, shape[ax] + 1), (0, shape[ax] + 5), (1, shape[ax] + 3)):
                for other in ("full", "part"):
                    roi = [(0, max(1, n - 1)) if other == "part" else (0, n) for n in shape[:d]]
                    roi[ax] = big
                    ctx.state("reject", shape, tuple(roi))
                    ctx.raises(ValueError, lambda: viqa.crop_image(a, *roi), roi)
                    ctx.raises(ValueError, lambda: viqa.load_data(a, roi=roi), roi)
                    ctx.raises(ValueError, lambda: make("RMSE", 255, roi=roi).score(a, a), roi)
                    ctx.op(3)
                    ctx.trace(3)
        if d == 3:
            ctx.raises(ValueError, lambda: viqa.crop_image(a, *base[:2]), "volume without z")
            ctx.raises(ValueError, lambda: viqa.crop_image(a, (0, 1), (0, 1)), "volume without z")
            ctx.op(2)
            ctx.trace(2)
        same(ctx, viqa.crop_image(a, *base), a, "region as large as the image")
