"""C22: visualisations (explicit enumeration of slices, centers and result lists; figures are inspected in data coordinates)."""
import itertools
import os
import re
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.patches as mp  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import skimage as ski  # noqa: E402
import viqa  # noqa: E402
from viqa.utils import export_image, visualize_2d, visualize_3d  # noqa: E402

from .common import gray_ref, image, make, write_img, write_raw  # noqa: E402

RULE = ("Explicit enumeration on the real code with an inspecting figure oracle: every slice triple (in range, negative and out of range) of small volumes for the volume view; every admissible center of small "
        "images and volumes x radii x region types for the CNR/SNR views (explicit and from stored parameters); every slice of every axis x image pairs (same, other size, cropped, color) and every "
        "number of up to 9 full-reference and 8 no-reference scores for the comparison; batch and multi-metric reports (also after earlier runs with other regions); large volumes and regions; exports under both behaviours of the display (figure kept or closed by showing it). "
        "Figures are read back in data coordinates (pixel under every coordinate, outlines, lines, texts). States: (view, image, slice/center, region); transitions: calls; traces: inspected figures.")

SMALL = dict(dpi=20)


class Shown:
    """plt.show stand-in: optionally closes the figures like interactive backends do"""

    def __init__(self, close=False):
        self.close, self.figs = close, []

    def __enter__(self):
        plt.close("all")
        self.old = plt.show
        plt.show = self
        return self

    def __call__(self, *a, **k):
        self.figs += [plt.figure(n) for n in plt.get_fignums() if plt.figure(n) not in self.figs]
        if self.close:
            plt.close("all")

    def __exit__(self, *a):
        plt.show = self.old
        self.figs += [f for f in map(plt.figure, plt.get_fignums()) if f not in self.figs]
        plt.close("all")


def panels(fig):
    return [a for a in fig.axes if a.images]


def grid(im):
    """displayed array indexed by data coordinates: g[u, v] is the pixel at x = u, y = v"""
    a = np.ma.asarray(im.get_array())
    x0, x1, y0, y1 = im.get_extent()
    n, m = a.shape[:2]
    if x0 > x1:
        a = a[:, ::-1]
    up = im.origin == "upper"
    if (y0 > y1) != up:
        a = a[::-1]
    assert (min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)) == (-0.5, m - 0.5, -0.5, n - 0.5), im.get_extent()
    return a.swapaxes(0, 1)


def eq(a, b, tol=0):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    if a.shape != b.shape or not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
        return False
    a, b = a.filled(0), b.filled(0)
    return np.array_equal(a, b) if not tol else np.allclose(a, b, atol=tol)


def orient(g, want, tol=0):
    """axes of the slice shown horizontally and vertically: (0, 1), (1, 0) or None"""
    if eq(g, want, tol):
        return (0, 1)
    if eq(g, np.ma.asarray(want).swapaxes(0, 1), tol):
        return (1, 0)
    return None


def lines(ax):
    v, h = [], []
    for ln in ax.lines:
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if np.ptp(x) == 0 and np.ptp(y) != 0:
            v.append(float(x[0]))
        elif np.ptp(y) == 0:
            h.append(float(y[0]))
    return v, h


def judge(ctx, ax, want, what, pos=None, region=None, tol=0, overlay=None):
    """pos: slice positions to be marked on the two axes of want; region: (center, radius, type)"""
    o = orient(grid(ax.images[0]), want, tol)
    ctx.check(o is not None, what, "does not show the requested pixels")
    v, h = lines(ax)
    if pos is None:
        ctx.check(not v and not h, what, "unexpected lines")
    else:
        ctx.check(v == [pos[o[0]]] and h == [pos[o[1]]], what, "lines at", v, h, "expected", pos, o)
    if region is not None:
        c, r, rt = region
        if rt in ("full", "original"):
            ctx.check(not ax.patches, what, "outline of", rt)
        else:
            ctx.check(len(ax.patches) == 1, what, "number of outlines", len(ax.patches))
            p = ax.patches[0]
            if rt == "cubic":
                ctx.check(isinstance(p, mp.Rectangle) and not isinstance(p, mp.Circle), what, "outline", p)
                got = (p.get_x() + p.get_width() / 2, p.get_y() + p.get_height() / 2, p.get_width() / 2, p.get_height() / 2)
            else:
                ctx.check(isinstance(p, (mp.Circle, mp.Ellipse)), what, "outline", p)
                got = (*p.center, p.width / 2, p.height / 2)
            ctx.close(got, (c[o[0]], c[o[1]], r, r), what + " outline")
    if overlay is not None:
        ctx.check(len(ax.images) == 2 and orient(grid(ax.images[1]), overlay) == o, what, "region overlay")
    else:
        ctx.check(len(ax.images) == 1, what, "number of images")


def labels(ctx, p, img, c, what):
    """titles and axis labels of the three slices through c name what is shown"""
    shape = img.shape
    for i, ax in enumerate(p):
        m = re.match(r"\W*([xyz])\b.*?(-?\d+)\D*$", ax.get_title())
        ctx.check(m is not None and m.group(1) == "xyz"[i] and int(m.group(2)) % shape[i] == c[i] % shape[i], what, "panel", i, "is titled", ax.get_title(), "for slices", c)
        rest = [a for a in range(3) if a != i]
        sl = slices_of(img, c)[i][0]
        o = orient(grid(ax.images[0]), sl)
        ctx.check(o is not None and (ax.get_xlabel(), ax.get_ylabel()) == ("xyz"[rest[o[0]]], "xyz"[rest[o[1]]]), what, "panel", i, "has axis labels", ax.get_xlabel(), ax.get_ylabel())


def slices_of(img, c):
    """the three slices through c with the coordinates of the two remaining axes"""
    return [(img[c[0]], (c[1], c[2])), (img[:, c[1]], (c[0], c[2])), (img[:, :, c[2]], (c[0], c[1]))]


def one_fig(ctx, s, n, what):
    ctx.check(len(s.figs) == 1, what, "number of figures", len(s.figs))
    p = panels(s.figs[0])
    ctx.check(len(p) == n, what, "number of panels", len(p))
    return p


D4 = [lambda a: a, lambda a: a[::-1], lambda a: a[:, ::-1], lambda a: a[::-1, ::-1]]
D4 = D4 + [lambda a, f=f: f(a.swapaxes(0, 1)) for f in D4]


def judge_pair(ctx, p, a, b, what):
    ga, gb = (np.asarray(x.images[0].get_array()) for x in p)
    tol = 0
    if np.ndim(a) == 3 and ga.ndim == 2:  # color images are shown in gray
        a, b, tol = gray_ref(a), gray_ref(b), 1e-3
    ok = [i for i, f in enumerate(D4) if eq(ga, f(np.asarray(a)), tol)]
    ctx.check(ok, what, "left panel does not show the requested slice of the reference image")
    ctx.check(any(eq(gb, D4[i](np.asarray(b)), tol) for i in ok), what, "right panel does not show the same slice of the modified image in the same orientation")
    ctx.check([x.get_title().strip().lower().split()[:1] for x in p] == [["reference"], ["modified"]], what, "titles", [x.get_title() for x in p])
    ctx.check(p[0].yaxis_inverted() == p[1].yaxis_inverted() and p[0].xaxis_inverted() == p[1].xaxis_inverted(), what, "orientation")


def judge_text(ctx, fig, results, what):
    texts = [(t.get_text(), t.get_position()) for t in fig.texts if ":" in t.get_text()]
    ctx.check(len(texts) == len(results), what, "scores listed", [t for t, _ in texts])
    ctx.check(len({tuple(np.round(p, 6)) for _, p in texts}) == len(texts), what, "scores overlap")
    for name, v in results.items():
        m = [t for t, _ in texts if t.rsplit(":", 1)[0].strip() == name]
        ctx.check(len(m) == 1, what, "score", name, "listed", m)
        x = float(m[0].rsplit(":", 1)[1])
        ctx.check(abs(x - v) <= 0.00501 or x == v, what, m[0], "expected", v)


VOL = (4, 5, 6)
IMG2 = (6, 8)
VOLC = (5, 6, 4)


BIGV = [(40, 41, 43), (17, 70, 33), (66, 34, 40), (34, 37, 129)]
BIG2 = [(64, 70), (33, 130), (257, 40), (41, 41)]


def centers(shape, r):
    return itertools.product(*[range(r, n - r + 1) for n in shape])


def keys(tier):
    for x in range(-VOL[0] - 1, VOL[0] + 1):
        for y in range(-VOL[1] - 1, VOL[1] + 1):
            yield ["vol", x, y]
    for m in ("CNR", "SNR"):
        for rt in ("cubic", "spherical", "full", "original"):
            if m == "CNR" and rt in ("full", "original"):
                continue
            for r in (1, 2):
                for c in centers(IMG2, r):
                    yield ["reg", m, rt, r, list(c)]
                for c in centers(VOLC, r):
                    if tier == "quick" and rt in ("full", "original") and c[0] != 2:
                        continue
                    yield ["reg", m, rt, r, list(c)]
    for sh in BIGV:
        for f in range(5):
            yield ["bigvol", list(sh), f]
    for m, rt in (("CNR", "cubic"), ("CNR", "spherical"), ("SNR", "cubic"), ("SNR", "spherical")):
        for sh in BIG2 + BIGV:
            yield ["bigreg", m, rt, list(sh)]
    for i in range(10):
        yield ["cmp", i]
    for f in range(10):
        for n in range(9):
            yield ["text", f, n]
    for i in range(5):
        yield ["bad", i]
    for i in range(9):
        yield ["export", i]
    yield ["plain"]
    for i in range(6):
        yield ["batch", i]
    for i in range(4):
        yield ["multi", i]


def run(ctx, key):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["k_" + key[0]](ctx, *key[1:])


def k_vol(ctx, x, y):
    img = image(VOL, "u2", 3)
    for z in range(-VOL[2] - 1, VOL[2] + 1):
        c = (x, y, z)
        ctx.op()
        ctx.state("vol", c)
        ok = all(-n <= v < n for v, n in zip(c, VOL))
        for src, call in ((img, lambda a: visualize_3d(a, c, **SMALL)), (img.view(viqa.ImageArray), lambda a: a.visualize(slices=c, **SMALL))):
            if src is not img and (z % 3 or c == (0, 0, 0)):
                continue
            if not ok:
                with Shown():
                    ctx.raises(ValueError, lambda: call(src), "slices %s of volume %s" % (c, VOL))
                continue
            with Shown() as s:
                call(src)
            q = tuple(v % n for v, n in zip(c, VOL))
            ps = one_fig(ctx, s, 3, "volume view")
            for p, (want, pos) in zip(ps, slices_of(img, q)):
                judge(ctx, p, want, "volume view of slices %s" % (c,), pos)
            labels(ctx, ps, img, q, "volume view")
            ctx.trace()


def k_bigvol(ctx, sh, f):
    img = image(sh, ("u2", "f4", "u1", "f8", "i2")[f], 3)
    pos = [(0, n // 3, n - 1, -2, -n)[f] for n in sh], [(n // 2, 1, n - 2, -1, 16)[f] for n in sh], [(1, n - 1, n // 2, 15, -3)[(f + i) % 5] for i, n in enumerate(sh)]
    for c in pos:
        c = tuple(c)
        for call in (lambda: visualize_3d(img, c, **SMALL), lambda: img.view(viqa.ImageArray).visualize(slices=c, **SMALL)):
            with Shown() as s:
                call()
            ctx.op()
            ctx.state("bigvol", sh, c)
            q = tuple(v % n for v, n in zip(c, sh))
            ps = one_fig(ctx, s, 3, "volume view")
            for p, (want, at) in zip(ps, slices_of(img, q)):
                judge(ctx, p, want, "volume view of slices %s of %s" % (c, sh), at)
            labels(ctx, ps, img, q, "volume view")
            ctx.trace()


def k_bigreg(ctx, m, rt, sh):
    top = min(sh) // 2
    for r in sorted({1, 3, 7, 8, 15, 16, top} & set(range(1, top + 1))):
        lo, hi, mid = (r,) * len(sh), tuple(n - r for n in sh), tuple((n - 2 * r) // 3 + r for n in sh)
        for c, bg in ((lo, hi), (hi, mid), (mid, lo)):
            k_reg(ctx, m, rt, r, c, sh, bg)


def k_reg(ctx, m, rt, r, c, sh=None, back=None):
    c = tuple(c)
    d = len(c)
    img = image(sh or (IMG2 if d == 2 else VOLC), "u2", 4)
    bgs = [None]
    if m == "CNR":
        bgs = [tuple(r for _ in c), tuple(n - r for n in img.shape)][(sum(c) % 2):][:1]
        if back is not None:
            bgs = [back]
    # mixed: some are given, the others stored
    given = [x for k in range(1, 2 + (m == "CNR")) for x in itertools.combinations(("signal_center", "radius", "background_center")[:2 + (m == "CNR")], k)]
    forms = ["args", "stored", "scored"] + given if d == 2 else [["args", "stored", "scored"][sum(c) % 3], given[sum(c) % len(given)]]
    for bg, form in itertools.product(bgs, forms):
        kw = dict(signal_center=c, radius=r, region_type=rt)
        if m == "CNR":
            kw["background_center"] = bg
        sig = None
        if rt == "full" and m == "SNR" and form == "args":
            sig = np.ma.array(img, mask=img < np.median(img))
        if form == "args":
            met = make(m, 255)
            # arguments take precedence over whatever is stored
            met.parameters.update(signal_center=(1,) * d, background_center=(1,) * d, radius=1, region_type="cubic")
            vis = dict(kw) if sig is None else dict(kw, signal=sig)
        elif isinstance(form, tuple):
            other = dict(signal_center=(1,) * d, background_center=(1,) * d, radius=1)
            met = make(m, 255, **{k: other[k] if k in form else v for k, v in kw.items() if k not in form or (sum(c) + r) % 2})
            vis = {k: kw[k] for k in form}
        else:
            met = make(m, 255, **kw) if form == "stored" else make(m, 255)
            vis = {}
            if form == "scored":
                met.score(img, **kw)
        with Shown() as s:
            met.visualize_centers(img.copy(), **vis, **SMALL)
        ctx.op()
        ctx.state(m, rt, r, c, bg, form)
        what = "%s view (%s, %s)" % (m, form, kw)
        sc = c
        if m == "SNR" and rt in ("full", "original") and "signal_center" not in vis:
            sc = tuple(n // 2 for n in img.shape)
        regions = [(bg, rt), (sc, rt)] if m == "CNR" else [(sc, rt)]
        if d == 2:
            ps = one_fig(ctx, s, len(regions), what)
            for p, (cc, t) in zip(ps, regions):
                judge(ctx, p, img, what, None, (cc, r, t), overlay=sig)
            if m == "CNR":
                ctx.check([x.get_title().strip().lower().split()[:1] for x in ps] == [["background"], ["signal"]], what, "titles", [x.get_title() for x in ps])
        else:
            p = one_fig(ctx, s, 3 * len(regions), what)
            for i, (cc, t) in enumerate(regions):
                ov = [None] * 3 if sig is None else [x for x, _ in slices_of(sig, cc)]
                for j, (want, pos) in enumerate(slices_of(img, cc)):
                    judge(ctx, p[3 * i + j], want, what, pos, (pos, r, t), overlay=ov[j])
                labels(ctx, p[3 * i:3 * i + 3], img, cc, what)
        ctx.trace()


def k_plain(ctx):
    for sh, dt in itertools.product([(5, 7), (7, 5), (6, 6), (1, 4), (4, 5, 3)], ["u1", "u2", "f4"]):
        if len(sh) == 3 and dt == "u2":
            continue
        img = image(sh, dt, 2)
        for call in (lambda: visualize_2d(img, **SMALL), lambda: img.view(viqa.ImageArray).visualize(**SMALL), lambda: visualize_2d(img, cmap="viridis", **SMALL)):
            with Shown() as s:
                call()
            ctx.op()
            p = one_fig(ctx, s, 1, "image view")
            judge(ctx, p[0], img if len(sh) == 2 else img, "image view of %s" % (sh,))
            ctx.trace()
        ctx.state(sh, dt)
    for sh in [(4,), (4, 5, 6), (2, 3, 4, 3)]:
        with Shown():
            ctx.raises(ValueError, lambda: visualize_2d(image(sh, "u1", 1)), "image view of shape %s" % (sh,))
    vol = image((4, 5, 6), "u1", 1)
    for bad in [(1, 2), (1, 2, 3, 0), (1, 2.0, 3), (1.5, 2, 3), ("1", 2, 3)]:
        with Shown():
            ctx.raises(ValueError, lambda: visualize_3d(vol, bad), "slices %r" % (bad,))
        ctx.op()
    for arr in (image((4, 5), "u1", 1), image((2, 2, 2, 2), "u1", 1)):
        with Shown():
            ctx.raises(ValueError, lambda: visualize_3d(arr, (1, 1, 1)), "volume view of %s" % (arr.shape,))
    with Shown():
        ctx.raises(ValueError, lambda: vol.view(viqa.ImageArray).visualize(), "volume view without slices")
    # color images: the regions are shown in the gray image
    col = image((7, 8, 3), "u1", 5)
    for m, n in (("CNR", 2), ("SNR", 1)):
        kw = dict(signal_center=(3, 4), radius=2, region_type="cubic", **({"background_center": (4, 2)} if m == "CNR" else {}))
        with Shown() as s:
            make(m, 255).visualize_centers(col, **kw, **SMALL)
        for p, c in zip(one_fig(ctx, s, n, m), [(4, 2), (3, 4)][2 - n:]):
            judge(ctx, p, gray_ref(col), m + " view of color image", None, (c, 2, "cubic"), tol=1e-3)
        ctx.op()
        ctx.trace()
    # region outside of the image dimensions, wrong types
    for m in ("CNR", "SNR"):
        for d, sh in ((2, (7, 8, 9)), (3, (7, 8))):
            kw = dict(signal_center=(3, 4, 5)[:d], radius=2, region_type="cubic", **({"background_center": (3, 3, 3)[:d]} if m == "CNR" else {}))
            with Shown():
                ctx.raises(ValueError, lambda: make(m, 255).visualize_centers(image(sh, "u1", 1), **kw), m + " dimension mismatch")
        with Shown():
            ctx.raises(ValueError, lambda: make(m, 255).visualize_centers(image((7, 8), "u1", 1)), m + " without parameters")
    sig = np.ma.array(image((7, 9), "u1", 1), mask=False)
    with Shown():
        ctx.raises(ValueError, lambda: make("SNR", 255).visualize_centers(image((7, 8), "u1", 1), signal_center=(3, 3), radius=1, region_type="full", signal=sig), "signal of other shape")


def pair(i):
    """reference, modified, roi, axes"""
    if i == 0:
        return image((4, 5, 6), "u2", 1), image((4, 5, 6), "u2", 2), None
    if i == 1:
        return image((4, 5, 6), "u2", 1), image((6, 4, 5), "u2", 2), None
    if i == 2:
        return image((5, 6, 7), "u2", 1), image((5, 6, 7), "u2", 2), [(1, 4), (0, 5), (2, 7)]
    if i == 3:
        return image((5, 6, 7), "f4", 1), image((7, 7, 7), "f4", 2), [(1, 5), (2, 6), (0, 6)]
    if i == 4:
        return image((6, 7), "u1", 1), image((8, 5), "u1", 2), None
    if i == 5:
        return image((6, 7, 3), "u1", 1), image((6, 7, 3), "u1", 2), None
    if i == 6:
        return image((70, 131), "u2", 1), image((70, 131), "u2", 2), None
    if i == 7:
        return image((17, 40, 33), "u1", 1), image((17, 40, 33), "u1", 2), None
    if i == 8:
        return image((34, 20, 18), "f8", 1), image((40, 22, 18), "f8", 2), [(1, 33), (3, 20), (0, 17)]
    return image((66, 40, 3), "u1", 1), image((66, 40, 3), "u1", 2), None


def model_pair(a, b, roi, order=1):
    if a.shape != b.shape:
        b = ski.transform.resize(b, a.shape, preserve_range=True, order=order).astype(a.dtype)
    if roi is not None:
        s = tuple(slice(*x) for x in roi)
        a, b = a[s], b[s]
    return a, b


def k_cmp(ctx, i):
    a, b, roi = pair(i)
    res = {"RMSE": 12.345, "CNR_r": -0.5, "CNR_m": 3.0}
    for order in (0, 1):
        ma, mb = model_pair(a, b, roi, order)
        if ma.ndim == 3 and ma.shape[-1] != 3:
            sel = [(ax, k) for ax in range(3) for k in (range(-ma.shape[ax], ma.shape[ax] + 1) if i < 6 else (0, 1, 15, 16, ma.shape[ax] - 1, -1, -16, -ma.shape[ax], ma.shape[ax]))]
        else:
            sel = [(None, 0)]
        for ax, k in sel:
            kw = {} if ax is None else {"xyz"[ax]: k}
            if roi is not None:
                kw["roi"] = roi
            ctx.op()
            ctx.state("cmp", i, order, ax, k)

            def call():
                export_image(dict(res), a.copy(), b.copy(), scaling_order=order, dpi=20, **kw)
            if ax is not None and not -ma.shape[ax] <= k < ma.shape[ax]:
                with Shown():
                    ctx.raises((ValueError, IndexError), call, "comparison of slice %s" % kw)
                continue
            with Shown() as s:
                call()
            p = one_fig(ctx, s, 2, "comparison")
            wa, wb = (ma, mb) if ax is None else (np.take(ma, k, ax), np.take(mb, k, ax))
            judge_pair(ctx, p, wa, wb, "comparison %s" % kw)
            judge_text(ctx, s.figs[0], res, "comparison")
            ctx.trace()


def k_text(ctx, f, n):
    a, b = image((4, 5), "u1", 1), image((4, 5), "u1", 2)
    names = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "MS-SSIM", "FSIM", "VSI", "VIFp"][:f]
    nr = [m + s for m in ("CNR", "SNR", "Q", "NR") for s in ("_r", "_m")][:n]
    allk = names + nr
    for rot in sorted({0, 1, max(1, len(allk) // 2), max(1, len(allk) - 1)}):
        ks = allk[rot:] + allk[:rot]
        res = {k: (-1) ** j * (j * 1.2345 + 0.004) for j, k in enumerate(ks)}
        if len(ks) > 1:
            res[ks[1]] = 0.0
        with Shown() as s:
            export_image(res, a, b, dpi=20)
        ctx.op()
        ctx.state(ks)
        one_fig(ctx, s, 2, "comparison")
        judge_text(ctx, s.figs[0], res, "comparison with %d and %d scores" % (f, n))
        ctx.trace()


def k_bad(ctx, i):
    vol = image((4, 4, 4), "u1", 1)
    sq = image((4, 4), "u1", 1)
    res = {"RMSE": 1.0}
    t = ctx.tmp()
    with Shown():
        if i == 0:
            for n in range(4):
                for kw in itertools.combinations("xyz", n):
                    if n == 1:
                        continue
                    for val in itertools.product((0, 1, 2), repeat=n):
                        ctx.op()
                        ctx.raises(ValueError, lambda: export_image(res, vol, vol, **dict(zip(kw, val))), "axes %s" % (kw,))
        elif i == 1:
            for a, b in ((vol, sq), (sq, vol), (image((3, 3, 3, 3, 3), "u1", 1),) * 2):
                ctx.op()
                ctx.raises(ValueError, lambda: export_image(res, a, b, x=1), "dimensions")
        elif i == 2:
            for name in ("a.jpg", "a", "a.PNG2", "png", "a.png.txt", "a.svg"):
                ctx.op()
                ctx.raises(ValueError, lambda: export_image(res, sq, sq, file_path=t, file_name=name, dpi=20), "file name %s" % name)
                ctx.check(not os.listdir(t), "file written", os.listdir(t))
        elif i == 3:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                export_image({}, sq, sq, dpi=20)
            ctx.op()
            ctx.check(any(issubclass(x.category, UserWarning) and "results" in str(x.message) for x in w), "no warning for empty results")
        else:
            for show in (True, False):
                for name in ("image_comparison.png", "my file.v1.png"):
                    export_image(res, sq, sq, file_path=t, file_name=name, show_image=show, dpi=20)
                    ctx.op()
                    p = os.path.join(t, name)
                    ctx.check(os.path.isfile(p) and plt.imread(p).std() > 0, "file", name)
                    os.remove(p)
            export_image(res, sq, sq, file_path=t, dpi=20)
            ctx.check(os.listdir(t) == ["image_comparison.png"], "default name", os.listdir(t))


def k_export(ctx, i):
    """exported files under both behaviours of the display"""
    img, vol, sq = image((7, 8), "u1", 1), image((6, 7, 6), "u1", 1), image((7, 8), "u1", 9)
    c2, b2, c3, b3 = (3, 4), (4, 3), (3, 4, 2), (2, 3, 4)
    big = dict(dpi=30)
    calls = [lambda a, p: visualize_2d(a[0], export_path=p, **big), lambda a, p: visualize_3d(a[1], (1, 2, 3), export_path=p, **big),
             lambda a, p: a[0].view(viqa.ImageArray).visualize(export_path=p, **big), lambda a, p: a[1].view(viqa.ImageArray).visualize((1, 2, 3), p, **big),
             lambda a, p: make("CNR").visualize_centers(a[0], signal_center=c2, background_center=b2, radius=2, export_path=p, **big),
             lambda a, p: make("CNR").visualize_centers(a[1], signal_center=c3, background_center=b3, radius=2, export_path=p, region_type="spherical", **big),
             lambda a, p: make("SNR").visualize_centers(a[0], signal_center=c2, radius=2, region_type="cubic", export_path=p, **big),
             lambda a, p: make("SNR").visualize_centers(a[1], signal_center=c3, radius=2, region_type="spherical", export_path=p, **big),
             lambda a, p: export_image({"RMSE": 1.0}, a[1], a[1], x=2, file_path=os.path.dirname(p), file_name=os.path.basename(p), **big)]
    t = ctx.tmp()
    files = []
    for j, (close, data) in enumerate([(False, 0), (True, 0), (False, 1), (True, 1)]):
        p = os.path.join(t, "f%d.png" % j)
        a = (img, vol) if not data else (sq, image((6, 7, 6), "u1", 8))
        with Shown(close):
            calls[i](a, p)
        ctx.op()
        ctx.check(os.path.isfile(p), "no file was exported")
        files.append(plt.imread(p))
        ctx.state("export", i, close, data)
    for k in (0, 2):
        ctx.check(files[k].std() > 0.01 and files[k].shape == files[k + 1].shape and np.abs(files[k] - files[k + 1]).max() < 0.02, "exported file", i,
                  "differs if showing the figure closes it")
        ctx.trace()
    ctx.check(files[0].shape != files[2].shape or np.abs(files[0] - files[2]).max() > 0.05, "exported files of different images are equal")


def k_batch(ctx, i):
    from .c10 import PAIRS, pool, write_pairs
    d = 2 if i < 3 else 3
    folder, arr, names = pool(ctx, d)
    rois = {2: [(1, 6), (2, 7)], 3: [(1, 6), (2, 7), (0, 5)]}[d]
    other = {2: [(0, 5), (1, 8)], 3: [(0, 5), (1, 8), (2, 6)]}[d]
    seq = [0, 4, 5]
    pf = write_pairs(folder, names, seq, "pairs22.csv")
    roi = [None, rois, [rois, None, other]][i % 3]
    out = ctx.tmp()
    for ax in ([None] if d == 2 else range(3)):
        for dpi, (project, earlier) in zip((40, 70, 90, 300, 33, 55), ((None, []), ("proj", []), (None, [dict(roi=other)]), (None, [{}]), ("proj", [dict(roi=other), {}]), ("proj", [{}, dict(roi=other)]))):
            # the comparison shows the regions of the last run, whatever was calculated before
            metrics = [make("RMSE"), make("PSNR")]
            b = viqa.BatchMetrics(folder, pf, metrics, [{}, {}], **({"rois": roi} if i % 3 == 2 else {}))
            kw = {"roi": roi} if i % 3 == 1 else {}
            with Shown() as s:
                import io
                import contextlib
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    for e in earlier:
                        b.calculate(**e)
                    res = b.calculate(**kw)
                plt.close("all")
                s.figs.clear()
                b.report(csv=False, metadata=False, image=True, file_path=out, project_name=project, **dict(dpi=dpi), **({} if ax is None else {"xyz"[ax]: 2}))
            ctx.op()
            ctx.check(len(s.figs) == len(seq), "number of comparisons", len(s.figs))
            want_files = sorted("%simage_comparison_%d.png" % ("" if project is None else project + "_", k) for k in range(len(seq)))
            ctx.check(sorted(os.listdir(out)) == want_files, "files", os.listdir(out), "expected", want_files)
            for f in os.listdir(out):
                os.remove(os.path.join(out, f))
            for k, fig in enumerate(s.figs):
                ctx.check(fig.dpi == dpi, "resolution", fig.dpi, "requested", dpi)
                r, m = PAIRS[seq[k]]
                rr = roi if i % 3 < 2 else roi[k]
                a, bb = model_pair(arr[names["r%d" % r]], arr[names["m%d" % m]], rr)
                if ax is not None:
                    a, bb = np.take(a, 2, ax), np.take(bb, 2, ax)
                judge_pair(ctx, panels(fig), a, bb, "batch comparison %d" % k)
                judge_text(ctx, fig, {n: float(v) for n, v in res[str(k)].items() if n in ("RMSE", "PSNR")}, "batch comparison %d" % k)
                ctx.trace()
            ctx.state("batch", i, ax, project, str(earlier))


def k_multi(ctx, i):
    d = 2 if i < 2 else 3
    a, b = (image((7, 8), "u1", 1), image((7, 8), "u1", 2)) if d == 2 else (image((5, 6, 7), "u1", 1), image((5, 6, 7), "u1", 2))
    out = ctx.tmp()
    c = dict(signal_center=(2, 3, 3)[:d], background_center=(3, 2, 2)[:d], radius=1)
    for ax, exp, project in itertools.product([None] if d == 2 else range(3), (True, False), (None, "p")):
        m = viqa.MultipleMetrics(metrics=[make("RMSE"), make("CNR")], metrics_parameters=[{}, c])
        with Shown() as s:
            import io
            import contextlib
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                res = dict(m.calculate(a, b))
                m.report(csv=False, metadata=False, text=bool(i % 2), image=True, export_image=exp, file_path=out, project_name=project, img_r=a, img_m=b,
                         **({} if ax is None else {"xyz"[ax]: 1}))
        ctx.op()
        ctx.state("multi", i, ax, exp, project)
        p = one_fig(ctx, s, 2, "report")
        judge_pair(ctx, p, *((a, b) if ax is None else (np.take(a, 1, ax), np.take(b, 1, ax))), "report")
        judge_text(ctx, s.figs[0], {k: float(v) for k, v in res.items()}, "report")
        want = [("" if project is None else project + "_") + "image_comparison.png"] if exp else []
        ctx.check(os.listdir(out) == want, "files", os.listdir(out))
        for f in want:
            os.remove(os.path.join(out, f))
        ctx.trace()
