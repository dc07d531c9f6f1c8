"""C10: batch processing equals scoring every pair alone (explicit-state exploration of pair/region histories)."""
import copy
import itertools
import os

import numpy as np
import skimage as ski
import viqa

from .common import image, make, write_img, write_raw

RULE = ("Explicit-state exploration of the real batch code: all sequences of up to three (thorough: four) pairs over 2 references x 3 modified images of different sizes x all assignments of "
        "one of three regions (none included) to each pair x metric lists; all sequences of up to three runs of one object with different run arguments; periodic lists of 13 and 150 pairs; equal file names in different folders; references of equal size but other shape; image files rewritten between runs; a missing "
        "file at every position followed by a repaired run; every result compared with fresh metrics on separately loaded, resized and cropped images "
        "(stateless model). States: (pair sequence, regions, metric list, run history); transitions: calculate calls; traces: compared runs.")

ROI2 = [None, [(1, 8), (0, 7)], [(0, 7), (1, 8)]]
ROI3 = [None, [(1, 8), (0, 7), (1, 8)], [(0, 7), (1, 8), (0, 8)]]
CEN = dict(signal_center=(3, 4, 3), background_center=(4, 3, 4), radius=2)


def nr(name, d):
    kw = {k: (v[:d] if isinstance(v, tuple) else v) for k, v in CEN.items()}
    if name == "SNR":
        kw.pop("background_center")
    return kw


# metric lists: (class, constructor arguments, score arguments); built per dimension
def mlist(i, d):
    return [
        [("RMSE", {}, {}), ("CNR", {}, nr("CNR", d))],
        [("SNR", {}, nr("SNR", d)), ("PSNR", {}, {}), ("CNR", {}, nr("CNR", d))],
        [("CNR", nr("CNR", d), {}), ("SNR", nr("SNR", d), dict(region_type="spherical"))],
        [("SSIM", {}, dict(win_size=3, gaussian_weights=False)), ("SNR", {}, nr("SNR", d)), ("UQI", {}, dict(win_size=3)),
         ("GSM", {}, {} if d == 2 else dict(dim=1, im_slice=2))],
        # two SNR objects told apart by their names, and a name that looks like a suffix
        [("SNR", dict(name="SNR_signal"), nr("SNR", d)), ("RMSE", {}, {}), ("SNR", dict(name="SNR"), dict(nr("SNR", d), signal_center=(4, 3, 4)[:d], radius=3)),
         ("SNR", dict(name="S_r"), dict(nr("SNR", d), radius=1))],
    ][i]


def build(ml):
    return [make(n, 255, **copy.deepcopy(c)) for n, c, _ in ml], [copy.deepcopy(p) for _, _, p in ml]


POOL2 = {"r0.png": ((8, 9), "u1", 1), "r1.png": ((10, 12), "u1", 2),
         "m0.png": ((8, 9), "u1", 3), "m1.png": ((12, 8), "u1", 4), "m2.png": ((10, 12), "u1", 5)}
PAIRS = [(r, m) for r in (0, 1) for m in (0, 1, 2)]


def pool(ctx, d):
    folder = os.path.join(ctx.scratch, "pool%d" % d)
    names = {}
    if d == 2:
        arr = {n: image(*v) for n, v in POOL2.items()}
        names = {n: n for n in arr}
        if not os.path.isdir(folder):
            os.makedirs(folder)
            for n, a in arr.items():
                write_img(folder, n[:-4], a, ".png")
    else:
        sh = {"r0": (8, 9, 8), "r1": (9, 8, 10), "m0": (8, 9, 8), "m1": (10, 8, 9), "m2": (9, 8, 10)}
        arr = {n: image(s, "u2", i + 1) for i, (n, s) in enumerate(sh.items())}
        new = not os.path.isdir(folder)
        if new:
            os.makedirs(folder)
        out = {}
        for n, a in arr.items():
            p = os.path.join(folder, "%s_%dx%dx%d_16bit.raw" % (n, *a.shape))
            if new:
                write_raw(folder, n, a)
            out[os.path.basename(p)] = a
            names[n] = os.path.basename(p)
        return folder, out, names
    return folder, arr, {n[:-4]: n for n in arr}


_model = {}


def model(d, ml_i, ra, ma, rid, roi, order=1, norm=None):
    """what fresh metrics say about one pair"""
    k = (d, ml_i, rid, str(roi), order, norm)
    if k in _model:
        return _model[k]
    if norm:
        ra, ma = (np.asarray(viqa.normalize_data(x, (0, norm))) for x in (ra, ma))
    if ra.shape != ma.shape:
        ma = ski.transform.resize(ma, ra.shape, preserve_range=True, order=order).astype(ra.dtype)
    if roi is not None:
        s = tuple(slice(*x) for x in roi)
        ra, ma = ra[s], ma[s]
    out = {}
    for n, c, p in mlist(ml_i, d):
        def fresh(*im):
            return float(make(n, 255, **copy.deepcopy(c)).score(*[x.copy() for x in im], **copy.deepcopy(p)))
        if n in ("CNR", "SNR"):
            n2 = c.get("name", n)
            out[n2 + "_r"], out[n2 + "_m"] = fresh(ra), fresh(ma)
        else:
            out[n] = fresh(ra, ma)
    _model[k] = out
    return out


def keys(tier):
    for d in (2, 3):
        for ml in range(5):
            if d == 3 and tier == "quick" and ml == 3:
                continue
            for n in (1, 2, 3):
                if n == 3 and tier == "quick" and (d == 3 or ml > 1):
                    continue
                for seq in itertools.product(range(6), repeat=n):
                    yield ["seq", d, ml, list(seq)]
    if tier == "thorough":
        for seq in itertools.product(range(6), repeat=4):
            yield ["seq", 2, 0, list(seq)]
    for ml in range(5):
        for runs in itertools.product(range(8), repeat=3 if tier == "thorough" else 2):
            yield ["runs", 2, ml, list(runs)]
    for ml in (0, 1, 2):
        for n in (2, 3):
            for bad in range(n):
                for which in ("ref", "mod"):
                    yield ["fault", ml, n, bad, which]
    # longer lists: every period up to 6 over the pairs, with regions of another period
    for ml in (0, 1):
        for per in range(1, 7):
            for start in range(6):
                for rp in (0, 1, 2, 3, 4):
                    yield ["long", ml, per, start, rp, 13]
        for per in (2, 6):
            yield ["long", ml, per, 0, 0, 150]
    for ml in (0, 1, 2):
        for seq in itertools.product(range(5), repeat=3):
            yield ["mixed", ml, list(seq)]
    for ml in (0, 1, 2):
        for seq in itertools.product(range(4), repeat=3):
            yield ["dirs", ml, list(seq)]
    for ml in (0, 1, 2):
        for seq in itertools.product(range(4), repeat=3):
            yield ["rewrite", ml, list(seq)]
    for ml in range(5):
        for p in range(6):
            yield ["single", 2, ml, p]
            yield ["single", 3, ml, p]


def write_pairs(folder, names, seq, fn="pairs.csv"):
    p = os.path.join(folder, fn)
    with open(p, "w") as f:
        f.write("reference_image,modified_image\n")
        for i in seq:
            r, m = PAIRS[i]
            f.write("%s,%s\n" % (names["r%d" % r], names["m%d" % m]))
    return p


def compare(ctx, got, want, what):
    ctx.check(list(got.keys()) == list(want.keys()) or sorted(got) == sorted(want), what, "keys", list(got), "expected", list(want))
    for k in want:
        ctx.check(isinstance(got[k], float), what, k, "is", type(got[k]))
        ctx.close(got[k], want[k], "%s %s" % (what, k), rtol=1e-5, atol=1e-7)
    ctx.trace()


def run(ctx, key):
    kind = key[0]
    if kind == "seq":
        _, d, ml, seq = key
        folder, arr, names = pool(ctx, d)
        rois_all = ROI2 if d == 2 else ROI3
        n = len(seq)
        choices = range(3)
        if n == 4:
            choices = range(2)
        pf = write_pairs(folder, names, seq)

        def want(i, roi):
            r, m = PAIRS[seq[i]]
            return model(d, ml, arr[names["r%d" % r]], arr[names["m%d" % m]], seq[i], roi)
        for assign in itertools.product(choices, repeat=n):
            ms, ps = build(mlist(ml, d))
            rois = [copy.deepcopy(rois_all[a]) for a in assign]
            bm = viqa.BatchMetrics(folder, pf, ms, ps, rois=rois)
            res = bm.calculate()
            ctx.op()
            ctx.state(d, ml, tuple(seq), assign)
            ctx.check(list(res) == [str(i) for i in range(n)], "pair numbers", list(res))
            ctx.check(bm.results is res or bm.results == res, "results attribute")
            for i in range(n):
                compare(ctx, res[str(i)], want(i, rois_all[assign[i]]), "pairs %s regions %s: pair %d" % ([PAIRS[s] for s in seq], assign, i))
        for g in range(3):
            ms, ps = build(mlist(ml, d))
            bm = viqa.BatchMetrics(folder, pf, ms, ps)
            res = bm.calculate(**({} if g == 0 else dict(roi=rois_all[g])))
            ctx.op()
            ctx.state(d, ml, tuple(seq), "global", g)
            for i in range(n):
                compare(ctx, res[str(i)], want(i, rois_all[g]), "pairs %s region %d for all: pair %d" % ([PAIRS[s] for s in seq], g, i))
    elif kind == "runs":
        _, d, ml, runs = key
        folder, arr, names = pool(ctx, d)
        seq = [1, 1, 4, 0]
        pf = write_pairs(folder, names, seq)
        variants = [dict(), dict(roi=ROI2[1]), dict(roi=ROI2[2]), dict(scaling_order=0), dict(scaling_order=3),
                    dict(data_range=65535, normalize=True), dict(data_range=1, normalize=True, roi=ROI2[1]), dict(data_range=255, normalize=True)]
        for own in (None, [1, 0, 2, 1]):
            ms, ps = build(mlist(ml, d))
            bm = viqa.BatchMetrics(folder, pf, ms, ps, rois=None if own is None else [copy.deepcopy(ROI2[a]) for a in own])
            for step, v in enumerate(runs):
                kw = variants[v]
                res = {k: dict(x) for k, x in bm.calculate(**copy.deepcopy(kw)).items()}
                ctx.op()
                ctx.state("runs", ml, str(own), tuple(runs[:step + 1]))
                for i, s in enumerate(seq):
                    r, m = PAIRS[s]
                    roi = kw.get("roi") if kw.get("roi") is not None or own is None else ROI2[own[i]]
                    compare(ctx, res[str(i)], model(d, ml, arr[names["r%d" % r]], arr[names["m%d" % m]], s, roi,
                                                    kw.get("scaling_order", 1), kw.get("data_range")),
                            "run %d of %s (own regions %s): pair %d" % (step, [variants[x] for x in runs], own, i))
    elif kind == "long":
        _, ml, per, start, rp, n = key
        folder, arr, names = pool(ctx, 2)
        seq = [(start + (i % per) * (1 + i // per % 2)) % 6 for i in range(n)]
        assign = [0 if rp == 0 else (i // rp) % 3 for i in range(n)]
        pf = write_pairs(ctx.tmp(), names, seq)
        ms, ps = build(mlist(ml, 2))
        bm = viqa.BatchMetrics(folder, pf, ms, ps, rois=None if rp == 0 else [copy.deepcopy(ROI2[a]) for a in assign])
        for rep in range(2):
            res = bm.calculate()
            ctx.op()
            ctx.state("long", ml, tuple(seq), tuple(assign), rep)
            ctx.check(list(res) == [str(i) for i in range(n)], "pair numbers", list(res))
            for i, s in enumerate(seq):
                r, m = PAIRS[s]
                compare(ctx, res[str(i)], model(2, ml, arr[names["r%d" % r]], arr[names["m%d" % m]], s, ROI2[assign[i]]), "pair %d of %d" % (i, n))
    elif kind == "dirs":
        # files of the same name in different folders, several spellings of one path, other types
        _, ml, seq = key
        t = ctx.tmp()
        im = {}
        for i, sub in enumerate(("one", "two")):
            os.makedirs(os.path.join(t, sub))
            for j, (stem, sh, dt) in enumerate((("x", (8, 9), "u1"), ("y", (10, 9), "u2" if i else "u1"))):
                im[sub + "/" + stem] = image(sh, dt, 60 + 2 * i + j, rng=250)
                write_img(os.path.join(t, sub), stem, im[sub + "/" + stem], ".png")
        prs = [("one/x", "two/y"), ("two/x", "one/y"), ("one/x", "two/x"), ("two/x", "two/y")]
        spell = ["%s.png", "./%s.png"]
        os.makedirs(os.path.join(t, "lists"))
        pf = os.path.join(t, "lists", "pairs.csv")
        with open(pf, "w") as f:
            f.write("reference_image,modified_image\n" + "".join("%s,%s\n" % (spell[i % 2] % prs[s][0], spell[0] % prs[s][1]) for i, s in enumerate(seq)))
        ms, ps = build(mlist(ml, 2))
        bm = viqa.BatchMetrics(t, pf, ms, ps)
        for roi in (None, ROI2[1]):
            res = bm.calculate(roi=roi)
            ctx.op()
            ctx.state("dirs", ml, tuple(seq), str(roi))
            for i, s in enumerate(seq):
                a, b = prs[s]
                compare(ctx, res[str(i)], model(2, ml, im[a], im[b], ("dirs", s), roi), "same names in two folders: pair %d" % i)
    elif kind == "mixed":
        # references of one shape but different element types, modified images of another shape (converted when resized)
        _, ml, seq = key
        t = ctx.tmp()
        im = {"a.tiff": image((9, 10), "f4", 1, 200), "b.png": image((9, 10), "u1", 2), "c.png": image((11, 12), "u1", 3), "d.tiff": image((12, 9), "f4", 4, 200),
              "e.png": image((10, 9), "u1", 5)}
        for n, a in im.items():
            write_img(t, os.path.splitext(n)[0], a, os.path.splitext(n)[1])
        prs = [("a.tiff", "c.png"), ("b.png", "c.png"), ("a.tiff", "d.tiff"), ("b.png", "d.tiff"), ("e.png", "c.png")]
        pf = os.path.join(t, "pairs.csv")
        with open(pf, "w") as f:
            f.write("reference_image,modified_image\n" + "".join("%s,%s\n" % prs[s] for s in seq))
        for roi in (None, ROI2[1]):
            ms, ps = build(mlist(ml, 2))
            res = viqa.BatchMetrics(t, pf, ms, ps).calculate(roi=roi)
            ctx.op()
            ctx.state("mixed", ml, tuple(seq), str(roi))
            for i, s in enumerate(seq):
                a, b = prs[s]
                compare(ctx, res[str(i)], model(2, ml, im[a], im[b], ("mixed", s), roi), "references of different types: pair %d" % i)
    elif kind == "rewrite":
        # files are replaced between the runs of one object (same or other size): always the current content counts
        _, ml, seq = key
        t = ctx.tmp()
        vers = {"a": [image((9, 10), "u1", 80), image((9, 10), "u1", 81), image((12, 9), "u1", 82)], "b": [image((9, 10), "u1", 83), image((11, 10), "u1", 84), image((9, 10), "u1", 85)]}
        cur = {"a": 0, "b": 0}
        tick = [10 ** 9]

        def put(n):
            p = write_img(t, n, vers[n][cur[n]], ".png")
            tick[0] += 10
            os.utime(p, (tick[0], tick[0]))
        for n in cur:
            put(n)
        pf = os.path.join(t, "pairs.csv")
        with open(pf, "w") as f:
            f.write("reference_image,modified_image\na.png,b.png\nb.png,a.png\na.png,b.png\n")
        ms, ps = build(mlist(ml, 2))
        bm = viqa.BatchMetrics(t, pf, ms, ps)
        for step, op in enumerate([3] + list(seq) + [3]):
            if op < 2:
                n = "ab"[op]
                cur[n] = (cur[n] + 1) % 3
                put(n)
                continue
            roi = ROI2[1] if op == 2 else None
            res = bm.calculate(roi=roi)
            ctx.op()
            ctx.state("rewrite", ml, tuple(seq[:step]), op)
            for i, (x, y) in enumerate(("ab", "ba", "ab")):
                compare(ctx, res[str(i)], model(2, ml, vers[x][cur[x]], vers[y][cur[y]], ("rewrite", x, cur[x], cur[y]), roi), "files replaced (%s): pair %d" % (seq[:step], i))
    elif kind == "fault":
        _, ml, n, bad, which = key
        folder, arr, names = pool(ctx, 2)
        seq = [0, 4, 4][:n] if which == "mod" else [1, 3, 5][:n]
        t = ctx.tmp()
        r, m = PAIRS[seq[bad]]
        victim = names["r%d" % r] if which == "ref" else names["m%d" % m]
        for nm in set(names.values()):
            with open(os.path.join(folder, nm), "rb") as f, open(os.path.join(t, nm), "wb") as g:
                g.write(f.read())
        pf = write_pairs(t, names, seq)
        for before in (False, True):
            ms, ps = build(mlist(ml, 2))
            bm = viqa.BatchMetrics(t, pf, ms, ps)
            if before:
                bm.calculate()
                ctx.op()
            os.rename(os.path.join(t, victim), os.path.join(t, "hidden"))
            for _ in range(2):
                ctx.raises(Exception, lambda: bm.calculate(roi=ROI2[1]), "missing file")
                ctx.op()
            os.rename(os.path.join(t, "hidden"), os.path.join(t, victim))
            for roi in (None, ROI2[2]):
                res = bm.calculate(roi=roi)
                ctx.op()
                ctx.state("fault", ml, n, bad, which, before, str(roi))
                for i, s in enumerate(seq):
                    rr, mm = PAIRS[s]
                    compare(ctx, res[str(i)], model(2, ml, arr[names["r%d" % rr]], arr[names["m%d" % mm]], s, roi),
                            "after a failed run: pair %d" % i)
    else:
        _, d, ml, p = key
        folder, arr, names = pool(ctx, d)
        rois_all = ROI2 if d == 2 else ROI3
        r, m = PAIRS[p]
        rn, mn = names["r%d" % r], names["m%d" % m]
        ms, ps = build(mlist(ml, d))
        mm = viqa.MultipleMetrics(ms, ps)
        for roi in rois_all + rois_all[::-1]:
            for order in (1, 0):
                for norm in ((None, 255, 65535, 1) if d == 2 else (None, 65535, 255)):
                    for a, b in ((arr[rn], arr[mn]), (os.path.join(folder, rn), os.path.join(folder, mn)), (arr[rn], os.path.join(folder, mn))):
                        kw = dict(scaling_order=order)
                        if roi is not None:
                            kw["roi"] = copy.deepcopy(roi)
                        if norm:
                            kw.update(data_range=norm, normalize=True)
                        res = mm.calculate(a, b, **kw)
                        ctx.op()
                        ctx.state("single", d, ml, p, str(roi), order, norm, type(a).__name__, type(b).__name__)
                        compare(ctx, res, model(d, ml, arr[rn], arr[mn], p, roi, order, norm), "single pair %s" % kw)
                        ctx.check(mm.results == res, "results attribute")
