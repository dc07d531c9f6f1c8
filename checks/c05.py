"""C05: rejection of invalid input is atomic (explicit-state exploration of call histories)."""
import copy
import os

import numpy as np
import viqa

from .common import FR, METRICS, NR, SLICED, TOL, image, make, nr_kw, write_img

RULE = ("Explicit-state exploration on real objects: for every metric and image kind every class of invalid call i in the histories [i], [v i], [i v], "
        "[v i w], [i j v], [v i j w] (v, w valid calls with different images; j every other class in the thorough tier, the next class in the quick tier); after "
        "each call the exception type, recorded score and parameters must equal the model state and each valid call the score of a fresh object. "
        "Likewise constructors and the batch interfaces. States: (object state, history prefix); transitions: calls; traces: histories.")

REJ = (ValueError, TypeError, IndexError)
KINDS = {"g2": 2, "c2": 2, "g3": 3}


def shape_of(m, k):
    sh = METRICS[m]["shape"]
    if k == "c2":
        return sh + (3,)
    if k == "g3":
        return (9, 10, 11) if m == "MAD" else sh + (8,)
    return sh


def valid(m, k, n):
    """images, ctor and score arguments of the n-th valid call"""
    sh = shape_of(m, k)
    ctor, kw = {}, dict(METRICS[m]["kw"] or {})
    if k == "c2" and m in FR and m not in ("UQI", "GSM", "MAD"):
        ctor["chromatic"] = True
        if m == "SSIM":
            kw["color_weights"] = [0.5, 0.2, 0.3]
    if m in NR:
        kw = nr_kw(m, KINDS[k], n)
    elif k == "g3" and m in SLICED:
        kw.update(dim=n % 3 if m != "VIFp" else 2, im_slice=n + 1)
    imgs = [image(sh, "u1", 40 + 2 * n + i, like=m == "MSSSIM") for i in range(1 if m in NR else 2)]
    return imgs, ctor, kw


def invalids(m, k, t):
    """list of (label, images, kwargs) that have to be rejected"""
    imgs, ctor, kw = valid(m, k, 0)
    out = []

    def add(label, im=None, **over):
        drop = over.pop("_drop", ())
        kk = {**kw, **over}
        for d in drop:
            kk.pop(d, None)
        out.append((label, imgs if im is None else im, kk))
    a = imgs[0]
    one = len(imgs) == 1
    for label, bad in (("list", a.tolist()), ("int", 5), ("none", None), ("dict", {}), ("vector", a.ravel()),
                       ("4D", np.zeros((4, 4, 4, 4), "u1")), ("scalar", np.array(3)),
                       ("unknown extension", os.path.join(t, "x.dat")), ("no extension", os.path.join(t, "noext"))):
        if one:
            add(label, [bad])
        else:
            add(label + " r", [bad, a])
            add(label + " m", [a, bad])
    if not one:
        add("shape", [a, a[:-1]])
        add("shape transposed", [a, np.swapaxes(a, 0, 1)])
        add("shape 1", [a, a[:1]])
        add("ndim", [a, a[..., 0] if a.ndim == 3 else a[..., None]])
        add("type", [a, a.astype("u2")])
        add("type f", [a.astype("f4"), a])
        add("type sign", [a, a.astype("i1")])
        if k == "g2":
            add("file of another size", [a, os.path.join(t, "other.png")])
    if ctor.get("chromatic"):
        add("gray for color", [a[..., 0], a[..., 0]])
        if m == "SSIM":
            add("no color weights", _drop=("color_weights",))
    if m in ("SSIM", "UQI"):
        lo = min(shape_of(m, k)[:KINDS[k]])
        for w in (2, 4, 6, 8, 10, 0, 99, 101, lo + 1 if lo % 2 == 0 else lo + 2, lo + 3 if lo % 2 == 0 else lo + 4):
            add("win_size %d" % w, win_size=w)
    if m == "SSIM":
        for p in ("K1", "K2", "sigma"):
            for v in (-1, -0.001):
                add("%s=%s" % (p, v), **{p: v})
        add("gaussian too large", gaussian_weights=True, sigma=50, _drop=("win_size",))
    if k == "g3" and m in SLICED:
        add("no dim", _drop=("dim",))
        add("no dim, no slice", _drop=("dim", "im_slice"))
        for d in (3, -1, 7):
            add("dim %d" % d, dim=d)
            add("dim %d full" % d, dim=d, _drop=("im_slice",))
        for s in (1.5, "1", [1], (0,)):
            add("slice %r" % (s,), im_slice=s)
        add("slice beyond", im_slice=99)
        add("slice beyond -", im_slice=-99)
    if m == "MAD":
        for b in (0, -1, 14, 400):
            add("block_size %d" % b, block_size=b)
        for o in (1, 1.5, -0.1):
            add("block_overlap %s" % o, block_overlap=o)
        add("weights", weights=[1, 2])
        add("scales", scales_num=3)
        add("scales+weights", scales_num=2, weights=[1, 2, 3])
        add("monitor", account_monitor=True)
    if m in NR:
        d = KINDS[k]
        for c in ["signal_center"] + (["background_center"] if m == "CNR" else []):
            good = kw[c]
            for ax in range(d):
                for v in (kw["radius"] - 1, 0, a.shape[ax], a.shape[ax] - kw["radius"] + 1):
                    bad = list(good)
                    bad[ax] = v
                    add("%s near border %d %d" % (c, ax, v), **{c: tuple(bad)})
                for rt in ("cube", "square", "spherical", "sphere", "circle"):
                    for v in (kw["radius"] - 1, a.shape[ax] - kw["radius"] + 1):
                        bad = list(good)
                        bad[ax] = v
                        add("%s near border %d %d %s" % (c, ax, v, rt), **{c: tuple(bad), "region_type": rt})
                bad = list(good)
                bad[ax] = good[ax] + 0.5
                add("%s not integer %d" % (c, ax), **{c: tuple(bad)})
            add(c + " short", **{c: good[:-1]})
            add(c + " long", **{c: good + (4,)})
        for r in (0, -1, 1.5, "2", 50):
            add("radius %r" % (r,), radius=r)
        for rt in ("triangle", "", 3):
            add("region %r" % (rt,), region_type=rt)
    return out


def keys(tier):
    for m in METRICS:
        for k in KINDS:
            if m == "CNR" and k == "c2":
                continue
            n = len(invalids(m, k, "/t"))
            for i in range(n):
                if tier == "thorough" and m not in ("VSI", "VIFp"):
                    for j in range(n):
                        yield ["hist", m, k, i, j]
                else:
                    yield ["hist", m, k, i, (i + 1) % n]
    for m in METRICS:
        yield ["ctor", m]
        if m in NR:
            yield ["nocenter", m]
    yield ["multiple"]
    yield ["batch"]
    yield ["load"]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[x], b[x]) for x in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(np.asarray(a), np.asarray(b))
    return a == b


_ref = {}


def fresh(m, k, n):
    if (m, k, n) not in _ref:
        imgs, ctor, kw = valid(m, k, n)
        _ref[(m, k, n)] = make(m, 255, **ctor).score(*imgs, **kw)
    return _ref[(m, k, n)]


def run(ctx, key):
    kind = key[0]
    if kind == "hist":
        _, m, k, i, j = key
        t = ctx.tmp()
        write_img(t, "other", image((4, 5), "u1", 1), ".png")
        for n in ("x.dat", "noext"):
            with open(os.path.join(t, n), "wb") as f:
                f.write(b"abc")
        inv = invalids(m, k, t)
        _, ctor, _ = valid(m, k, 0)
        for hist in (["i"], ["v", "i"], ["i", "v"], ["v", "i", "w"], ["i", "j", "v"], ["v", "i", "j", "w"]):
            obj = make(m, 255, **ctor)
            recorded = None
            for pos, h in enumerate(hist):
                ctx.state(m, k, tuple(hist[:pos + 1]), i if "i" in hist[:pos + 1] else "", j if "j" in hist[:pos + 1] else "")
                ctx.op()
                if h in "vw":
                    n = 0 if h == "v" else 1
                    imgs, _, kw = valid(m, k, n)
                    got = obj.score(*imgs, **copy.deepcopy(kw))
                    ctx.close(got, fresh(m, k, n), "%s %s: valid call in history %s" % (m, k, hist), rtol=TOL.get(m, 1e-9))
                    recorded = obj.score_val
                    ctx.close(recorded, got, "recorded score", rtol=1e-6)
                else:
                    label, imgs, kw = inv[i if h == "i" else j]
                    before = copy.deepcopy(obj.parameters)
                    ctx.raises(REJ, lambda: obj.score(*imgs, **copy.deepcopy(kw)), "%s %s: %s in history %s" % (m, k, label, hist))
                    ctx.check(same(obj.parameters, before), m, k, label, "history", hist, ": rejected call changed the parameters",
                              before, "->", obj.parameters)
                    ctx.check(obj.score_val is recorded or same(obj.score_val, recorded), m, k, label, "history", hist,
                              ": rejected call changed the recorded score", recorded, "->", obj.score_val)
            ctx.trace()
    elif kind == "ctor":
        m = key[1]
        cls = getattr(viqa, m)
        cases = [dict(data_range=None, normalize=True), dict(data_range=0, normalize=True)]
        if m not in ("RMSE", "CNR", "SNR"):
            cases.append(dict(data_range=None))
        for c in cases:
            ctx.state(m, str(c))
            ctx.op()
            ctx.raises(REJ, lambda: cls(**c), "%s(%s)" % (m, c))
            ctx.trace()
    elif kind == "nocenter":
        m = key[1]
        img = image((8, 9), "u1", 3)
        kw = nr_kw(m, 2)
        for drop in range(1, 2 ** len(kw)):
            part = {x: v for b, (x, v) in enumerate(sorted(kw.items())) if not drop >> b & 1}
            obj = make(m)
            ctx.state(m, tuple(part))
            ctx.op(2)
            ctx.raises(REJ, lambda: obj.score(img, **part), "%s with only %s" % (m, part))
            ctx.check(obj.score_val is None, "score recorded")
            ctx.check(same(obj.parameters, make(m).parameters), "parameters kept of a rejected call", obj.parameters)
            ctx.close(obj.score(img, **kw), make(m).score(img, **kw), "after rejected call")
            ctx.trace()
    elif kind == "multiple":
        r, c = make("RMSE"), make("PSNR")
        for bad in (([r], []), ([], [{}]), ([r, c], [{}]), ([r], [{}, {}]), ([r, "PSNR"], [{}, {}]), ([viqa.RMSE], [{}]), ([None], [{}]),
                    ([r], [None]), ([r, c], [{}, []]), ([r, c], [{}, "a"])):
            ctx.state("multiple", str(bad))
            ctx.op()
            ctx.raises(REJ, lambda: viqa.MultipleMetrics(*bad), bad)
            ctx.trace()
        a, b = image((8, 9), "u1", 1), image((8, 9), "u1", 2)
        bads = [dict(img_r=a, img_m=[1]), dict(img_r=a.ravel(), img_m=b), dict(img_r=a, img_m=b, roi=[(0, 20), (0, 2)]),
                dict(img_r=5, img_m=b), dict(img_r=a, img_m=b, normalize=True),
                dict(img_r=np.zeros((2, 2, 2, 2), "u1"), img_m=b)]
        for bi, bad in enumerate(bads):
            mm = viqa.MultipleMetrics([make("RMSE"), make("PSNR")], [{}, {}])
            ctx.raises(REJ, lambda: mm.calculate(**bad), bad.keys())
            ctx.check(mm.results == {}, "results of a rejected call")
            first = dict(mm.calculate(a, b))
            ctx.raises(REJ, lambda: mm.calculate(**bad), bad.keys())
            ctx.check(mm.results == first, "rejected call changed the results")
            second = mm.calculate(b, a)
            ctx.close(second["RMSE"], make("RMSE").score(b, a), "after rejected call")
            ctx.op(4)
            ctx.state("multiple", "calc", str(list(bad)), bi)
            ctx.trace()
        mm = viqa.MultipleMetrics([make("RMSE")], [{}])
        mm.calculate(a, b)
        t = ctx.tmp()
        for name in ("r.txt", "r", "r.csv.bak"):
            ctx.raises(REJ, lambda: mm.export_results(t, name), name)
            ctx.op()
            ctx.trace()
        for name in ("m.csv", "m"):
            ctx.raises(REJ, lambda: mm.export_metadata(t, name), name)
            ctx.op()
            ctx.trace()
        ctx.check(os.listdir(t) == [], "file written by a rejected export")
        # a failing metric in the list
        for where in range(3):
            ms, ps = [make("RMSE"), make("PSNR")], [{}, {}]
            ms.insert(where, make("CNR"))
            ps.insert(where, nr_kw("CNR", 2))
            mm = viqa.MultipleMetrics(ms, ps)
            first = dict(mm.calculate(a, b))
            good = dict(ps[where])
            ps[where]["radius"] = 0
            ctx.raises(REJ, lambda: mm.calculate(b, a), "failing metric")
            ctx.check(mm.results == first, "failing calculation changed the results")
            ps[where]["radius"] = good["radius"]
            ctx.check(mm.calculate(a, b) == first, "results differ after a failed calculation")
            ctx.op(3)
            ctx.state("multiple", "fail", where)
            ctx.trace()
    elif kind == "batch":
        t = ctx.tmp()
        a, b = image((8, 9), "u1", 1), image((8, 9), "u1", 2)
        write_img(t, "a", a, ".png")
        write_img(t, "b", b, ".png")

        def pairs(text):
            p = os.path.join(t, "p.csv")
            with open(p, "w") as f:
                f.write(text)
            return p
        good = "reference_image,modified_image\na.png,b.png\nb.png,a.png\n"
        for bad in (([make("RMSE")], []), ([make("RMSE"), 3], [{}, {}]), ([make("RMSE")], [3])):
            ctx.raises(REJ, lambda: viqa.BatchMetrics(t, pairs(good), *bad), bad)
            ctx.op()
            ctx.state("batch", str(bad))
            ctx.trace()
        for rois in ([], (), [None], [None] * 3, [[(0, 2), (0, 2)]]):
            ctx.raises(REJ, lambda: viqa.BatchMetrics(t, pairs(good), [make("RMSE")], [{}], rois=rois), rois)
            ctx.op()
            ctx.state("batch", str(rois))
            ctx.trace()
        for text in ("reference_image,modified\na.png,b.png\n", "reference,modified_image\na.png,b.png\n", "a.png,b.png\nb.png,a.png\n"):
            ctx.raises(REJ, lambda: viqa.BatchMetrics(t, pairs(text), [make("RMSE")], [{}]), text)
            ctx.op()
            ctx.state("batch", text)
            ctx.trace()
        bm = viqa.BatchMetrics(t, pairs(good), [make("RMSE")], [{}])
        bm.calculate()
        ctx.raises(REJ, lambda: bm.export_results(t, "x.txt"), "x.txt")
        ctx.check(not os.path.exists(os.path.join(t, "x.txt")), "file written")
        ctx.trace()
    elif kind == "load":
        t = ctx.tmp()
        for bad in (5, None, {}, [1, 2], (1, 2), 1.5, b"x.raw", np.zeros(3), np.zeros((2, 2, 2, 2)), np.array(1)):
            ctx.op()
            ctx.state("load", str(type(bad)), str(bad)[:20])
            ctx.raises(REJ, lambda: viqa.load_data(bad), repr(bad)[:40])
            ctx.trace()
        for e in (".dat", ".npy", ".txt", ".gz", ".RAWX", ".nii.zip", ".nii.tar.gz", "nii.gz", ".nii.v2.gz", ".nii2.gz", ".mhd.gz", ".raw.gz", ".png.gz", ""):
            p = os.path.join(t, "v" + e)
            with open(p, "wb") as f:
                f.write(b"1234")
            ctx.op()
            ctx.state("load", e)
            ctx.raises(REJ, lambda: viqa.load_data(p), e)
            ctx.trace()
