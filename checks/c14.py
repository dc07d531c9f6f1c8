"""C14: no call changes its arguments (explicit enumeration of calls x containers x parameter objects)."""
import copy
import hashlib
import os

import numpy as np
import torch
import viqa

from .common import FR, METRICS, NR, SLICED, captured, image, make, nr_kw, write_img, write_nii, write_raw

RULE = ("Explicit enumeration on the real code: every public call (loading, normalising, cropping, all metrics with their parameter objects, statistics, region search, filters, "
        "kernels, fusion, export, batch, visualisation) x every container and memory layout (C, Fortran, reversed, strided window of a larger array, image array, tensor) x 2D, color, "
        "volume x element types; arguments (images with the arrays behind views, lists, dictionaries, weight arrays, input files) are snapshotted before and compared after each call, "
        "including calls that are rejected. States: (call, container, kind, type); transitions: calls; traces: snapshot comparisons.")

FORMS = ["C", "F", "rev", "win", "IA", "tensor"]


def contain(form, a):
    """-> (object to pass, list of objects to watch)"""
    if form == "C":
        return a, [a]
    if form == "F":
        b = np.asfortranarray(a)
        return b, [b]
    if form == "rev":
        b = a[::-1].copy()
        return b[::-1], [b]
    if form == "win":
        b = np.zeros([n + 3 for n in a.shape], a.dtype)
        v = b[tuple(slice(1, n + 1) for n in a.shape)]
        v[...] = a
        return v, [b, v]
    if form == "IA":
        b = a.copy()
        return viqa.ImageArray(b), [b]
    b = torch.tensor(np.ascontiguousarray(a))
    return b, [b]


def freeze(x):
    if isinstance(x, torch.Tensor):
        return ("T", str(x.dtype), tuple(x.shape), x.numpy().tobytes())
    if isinstance(x, np.ndarray):
        return ("A", type(x).__name__, x.dtype.str, x.shape, np.asarray(x).tobytes())
    if isinstance(x, dict):
        return ("D", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    return ("O", id(x))


def special(a, key):
    """with non-finite, signed zero, subnormal and extreme values if the key asks for it"""
    if len(key) > 3:
        i = np.finfo(a.dtype)
        a.flat[:9] = [np.nan, np.inf, -np.inf, -0.0, i.smallest_subnormal, i.max, i.min, i.tiny, -1]
    return a


def tree(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = hashlib.sha256(fh.read()).hexdigest()
    return out


def guarded(ctx, what, fn, watch):
    before = [freeze(w) for w in watch]
    ctx.op()
    try:
        with np.errstate(all="ignore"):
            captured(fn)
    except Exception:  # a rejected call must not change its arguments either; whether it may be rejected is another property
        pass
    after = [freeze(w) for w in watch]
    for b, a in zip(before, after):
        ctx.check(a == b, what, "changed an argument: before %.300s after %.300s" % (b, a))
    ctx.trace()


KINDS = {"g2": "2D", "c2": "color", "g3": "volume"}


def shape_for(m, kind):
    sh = METRICS[m]["shape"]
    if kind == "c2":
        return sh + (3,)
    if kind == "g3":
        return sh + (5,) if m in SLICED else sh + (8,)
    return sh


def objects(m, kind):
    """constructor arguments, list of score argument sets (fresh objects on every call)"""
    ctor, sets = [{}], []
    kw = METRICS[m]["kw"] or {}
    sl = dict(dim=2) if kind == "g3" and m in SLICED else {}
    base = {**copy.deepcopy(kw), **sl}
    sets.append(base)
    if m == "SSIM":
        sets += [dict(base, alpha=2, mode="reflect"), dict(win_size=3, gaussian_weights=False, K1=0.02)]
        if kind == "c2":
            ctor = [{}, dict(chromatic=True)]
            sets += [dict(base, color_weights=np.array([2.0, 1.0, 1.0])), dict(base, color_weights=[1, 2, 1])]
    if m == "MSSSIM":
        sets += [dict(base, scale_weights=np.array([1.0, 3.0])), dict(base, scale_weights=[1, 3]), dict(base, scale_weights=torch.tensor([0.25, 0.75]))]
    if m == "MAD":
        five = [0.5, 0.75, 1, 5, 6]
        sets += [dict(base, weights=np.array(five)), dict(base, weights=list(five)), dict(base, weights=np.array([1.0, 4.0]), scales_num=2),
                 dict(base, csf_function=dict(lambda_csf=0.2, f_peak=6.0), luminance_function=dict(k=0.03, gamma=2.0)),
                 dict(base, account_monitor=True, display_function=dict(disp_res=40.0, view_dis=50.0)),
                 dict(base, thresh_1=2.0, thresh_2=4.0, ms_scale=3, orientations_num=2)]
    if m in ("FSIM", "MSSSIM", "VIFp", "VSI") and kind == "c2":
        ctor = [{}, dict(chromatic=True)]
    if m in NR:
        d = 3 if kind == "g3" else 2
        sets = [nr_kw(m, d, i) for i in range(2)]
        sets += [dict(nr_kw(m, d), region_type=r) for r in ("spherical", "full", "original")]
        sets.append({k: list(v) if isinstance(v, tuple) else v for k, v in nr_kw(m, d).items()})
        auto = dict(signal_center=None, radius=None, auto_center=True, iterations=1)
        if m == "CNR":
            auto["background_center"] = None
        if kind != "c2":
            sets.append(auto)
            sets.append(dict(auto, region_type="spherical"))
        sets.append({**nr_kw(m, d), "auto_center": None, "iterations": None})
    else:
        sets.append(dict(base, color_weights=None, win_size=None) if m == "SSIM" else dict(base, im_slice=None) if m in SLICED else dict(base))
    return ctor, sets


def keys(tier):
    types = [("u1", 255), ("f4", 255), ("f8", 255), ("u2", 65535)]
    for m in FR + NR:
        kinds = ["g2", "g3"] + (["c2"] if m not in ("CNR",) else [])
        for kind in kinds:
            for dt in ("f4", "f8"):
                yield ["metric", m, kind, dt, 255, 1]
            for dt, R in types if tier == "thorough" or m in ("RMSE", "PSNR", "SSIM", "UQI", "CNR", "SNR", "GSM", "MSSSIM") else types[:1] + types[2:3]:
                yield ["metric", m, kind, dt, R]
    for kind in KINDS:
        for dt in ("u1", "u2", "i2", "f2", "f4", "f8"):
            yield ["load", kind, dt]
            yield ["array", kind, dt]
        for dt in ("f2", "f4", "f8"):
            yield ["load", kind, dt, 1]
            yield ["array", kind, dt, 1]
    for w in ("region", "filter", "blocks", "fusion", "export", "files"):
        for dt in ("u1", "u2", "f4", "f8", "i4"):
            yield [w, dt]
    for d in (2, 3):
        yield ["multiple", d]
        yield ["batch", d]
        yield ["vis", d]
        yield ["resize", d]


def run(ctx, key):
    kind = key[0]
    t = ctx.tmp()
    if kind == "metric":
        m, k, dt, R = key[1:5]
        sh = shape_for(m, k)
        ims = [image(sh, dt, 60 + i, rng=R, like=m == "MSSSIM") for i in range(1 if m in NR else 2)]
        if len(key) > 5:
            ims = [special(x, key) for x in ims]
        nctor, nsets = (len(x) for x in objects(m, k))
        for ci in range(nctor):
            for si in range(nsets):
                for form in FORMS:
                    if form == "tensor" and dt == "u2":
                        continue
                    for norm in (False, True):
                        if norm and (form in ("F", "rev") or si > 1) or len(key) > 5 and (si > 1 or form in ("F", "rev")):
                            continue
                        ctor = dict(objects(m, k)[0][ci])
                        kw = objects(m, k)[1][si]
                        full = [(0, n) for n in (sh[:2] if k == "c2" else sh)]
                        ctor["roi"] = full
                        ps = [contain(form, x.copy()) for x in ims]
                        watch = [w for p in ps for w in p[1]] + [kw, ctor] + list(kw.values()) + [full]
                        o = make(m, R if not norm else 255, normalize=norm, **ctor)
                        ctx.state(m, k, dt, ci, si, form, norm)
                        guarded(ctx, "%s %s %s" % (m, form, kw), lambda: o.score(*[p[0] for p in ps], **kw), watch)
    elif kind == "load":
        k, dt = key[1:3]
        sh = {"g2": (5, 6), "c2": (5, 6, 3), "g3": (4, 5, 6)}[k]
        a = special(image(sh, dt, 3), key)
        roi = [(1, 4), (0, 5), (1, 3)][:2 if k != "g3" else 3]
        calls = []
        for R in (1, 255, 65535):
            calls.append(("load normalize %d" % R, lambda x, R=R: viqa.load_data(x, data_range=R, normalize=True), []))
            calls.append(("normalize_data %d" % R, lambda x, R=R: viqa.normalize_data(np.asarray(x), (0, R)), []))
            calls.append(("normalize_data IA %d" % R, lambda x, R=R: viqa.normalize_data(viqa.ImageArray(np.asarray(x)), [0, R]), []))
            lst_o, lst_i = [0, R], [0, 100]
            calls.append(("normalize_data input range", lambda x, o=lst_o, i=lst_i: viqa.normalize_data(np.asarray(x), o, data_range_input=i, automatic_data_range=False), [lst_o, lst_i]))
        calls.append(("load", viqa.load_data, []))
        calls.append(("load roi", lambda x: viqa.load_data(x, roi=roi), [roi]))
        calls.append(("load batch", lambda x: viqa.load_data(x, batch=True), []))
        calls.append(("crop", lambda x: viqa.crop_image(np.asarray(x), *roi), [roi]))
        calls.append(("load norm roi", lambda x: viqa.load_data(x, data_range=255, normalize=True, roi=roi), [roi]))
        calls.append(("bad range", lambda x: viqa.load_data(x, data_range=77, normalize=True), []))
        for form in FORMS:
            if form == "tensor" and dt == "u2":
                continue
            for name, fn, extra in calls:
                x, w = contain(form, a.copy())
                ctx.state("load", k, dt, form, name)
                guarded(ctx, name + " " + form, lambda: fn(x), w + extra)
    elif kind == "array":
        k, dt = key[1:3]
        sh = {"g2": (6, 7), "c2": (6, 7, 3), "g3": (5, 6, 7)}[k]
        for i in range(4):
            b = special(image(sh, dt, 8), key)
            ia = viqa.ImageArray(b)
            ctx.state("array", k, dt, i)
            if i == 0:
                guarded(ctx, "calculate_statistics", ia.calculate_statistics, [b, ia])
                guarded(ctx, "describe", lambda: ia.describe(t, "x"), [b, ia])
            elif i == 1:
                c = image(sh, dt, 9)
                guarded(ctx, "arithmetic", lambda: (ia + c, ia * c, np.sqrt(np.abs(ia)), ia > c, ia.mean(), -ia.astype("f8"), np.median(ia), np.sort(ia, axis=0)), [b, ia, c])
            elif i == 2 and k != "c2":
                import matplotlib.pyplot as plt
                guarded(ctx, "visualize", lambda: ia.visualize(slices=(1, 2, 3), dpi=20) if k == "g3" else ia.visualize(dpi=20), [b, ia])
                plt.close("all")
            else:
                guarded(ctx, "statistics of a view", lambda: viqa.ImageArray(b[::2]).calculate_statistics(), [b])
    elif kind == "region":
        from viqa.utils import find_largest_region
        for d in (2, 3):
            for rt in ("cubic", "spherical", "full", "original", "other"):
                for it in (1, 2):
                    a = np.zeros((9, 10, 9)[:d], bool)
                    a[(slice(1, 8),) * d] = True
                    a[(4,) * d] = False
                    for form in FORMS[:5]:
                        x, w = contain(form, a.copy())
                        ctx.state("region", d, rt, it, form)
                        guarded(ctx, "find_largest_region %s" % rt, lambda: find_largest_region(x, iterations=it, region_type=rt), w)
    elif kind == "filter":
        from viqa.utils import correlate_convolve_abs, gabor_convolve
        dt = key[1]
        for d in (2, 3):
            a = image((6, 7, 5)[:d], dt, 4, rng=100)
            for mode in ("correlate", "convolve"):
                for border in ("constant", "reflect", "nearest", "mirror", "wrap"):
                    for form in FORMS[:5]:
                        x, w = contain(form, a.copy())
                        kn = np.arange(3.0 ** d).reshape((3,) * d)
                        ctx.state("cca", dt, d, mode, border, form)
                        guarded(ctx, "correlate_convolve_abs", lambda: correlate_convolve_abs(x, kn, mode=mode, border_mode=border, value=3), w + [kn])
        a = image((6, 7), dt, 4, rng=100)
        for form in FORMS[:5]:
            x, w = contain(form, a.copy())
            ctx.state("gabor", dt, form)
            guarded(ctx, "gabor_convolve", lambda: gabor_convolve(x, 2, 3), w)
    elif kind == "blocks":
        from viqa.fr_metrics.stat_utils import statisticscalc as sc
        a = image((9, 11), key[1], 4, rng=100)
        for form in FORMS[:5]:
            for bs, st in ((2, 1), (3, 2), (4, 4)):
                for fn in (sc.minstd, sc.getstatistics):
                    x, w = contain(form, a.copy())
                    ctx.state("blocks", key[1], form, bs, fn.__name__)
                    guarded(ctx, fn.__name__, lambda: fn(x, bs, st), w)
    elif kind == "fusion":
        a, b = image((8, 9), key[1], 1, rng=100), image((8, 9), key[1], 2, rng=100)
        ms = [make("RMSE"), make("PSNR")]
        for m in ms:
            m.score(a, b)
        for wts in ([0.25, 0.75], (1, 2), np.array([0.5, 2.0])):
            lst = list(ms)
            sv = [m.score_val for m in ms]
            ctx.state("fusion", key[1], type(wts).__name__)
            guarded(ctx, "fuse", lambda: viqa.fuse_metrics_linear_combination(lst, wts), [lst, wts])
            ctx.check([m.score_val for m in ms] == sv, "fusion changed the scores of the metrics")
            guarded(ctx, "fuse", lambda: viqa.fuse_metrics_linear_combination(lst, list(wts) + [1]), [lst, wts])
    elif kind == "export":
        import matplotlib.pyplot as plt
        a, b = image((8, 9), key[1], 1, rng=100), image((8, 9), key[1], 2, rng=100)
        ms = [make("RMSE"), make("CNR"), make("PSNR")]
        ms[0].score(a, b)
        par = [{}, nr_kw("CNR", 2), dict(x=[1, 2])]
        lst = list(ms)
        ctx.state("export", key[1])
        for rd in (False, True):
            guarded(ctx, "export_results", lambda: viqa.export_results(lst, t, "a.csv", return_dict=rd), [lst] + [m.parameters for m in ms] + [[m.score_val for m in ms]])
            ctx.check(ms[1].score_val is None and ms[2].score_val is None and ms[0].score_val is not None, "export changed scores")
        guarded(ctx, "export_metadata", lambda: viqa.export_metadata(lst, par, t), [lst, par] + [m.parameters for m in ms])
        for form in FORMS[:5]:
            for roi in (None, [(1, 7), (0, 8)]):
                p = [contain(form, x.copy()) for x in (a, b)]
                res = {"RMSE": 1.5, "CNR_r": 2.0, "CNR_m": 3.0}
                ctx.state("export_image", key[1], form, str(roi))
                guarded(ctx, "export_image", lambda: viqa.export_image(res, p[0][0], p[1][0], file_path=t, dpi=20, roi=roi), p[0][1] + p[1][1] + [res, roi])
                plt.close("all")
    elif kind == "files":
        dt = key[1]
        if dt == "i4":
            dt = "u4"
        v = [image((8, 9, 10), dt, i, rng=200) for i in (1, 2)]
        fs = [write_raw(t, "v%d" % i, x) for i, x in enumerate(v)]
        ns = [write_nii(t, "n%d" % i, x.astype("f4")) for i, x in enumerate(v)]
        gs = [write_img(t, "p%d" % i, x[:, :, 0].astype("u1"), e) for i, (x, e) in enumerate(zip(v, (".png", ".tif")))]
        before = tree(t)
        for pair in (fs, ns):
            for norm in (False, True):
                for m in ("RMSE", "SSIM", "GSM"):
                    kw = dict(METRICS[m]["kw"])
                    if m == "GSM":
                        kw.update(dim=1, im_slice=2)
                    make(m, 255, normalize=norm).score(*pair, **kw)
                    ctx.op()
                    ctx.check(tree(t) == before, m, "changed its input files or left files behind")
                    ctx.trace()
            for m in NR:
                make(m).score(pair[0], **nr_kw(m, 3))
                ctx.op()
                ctx.check(tree(t) == before, m, "changed its input files or left files behind")
                ctx.trace()
        x = viqa.load_data(fs[0])
        x += 1  # the loaded image is the caller's; the file is not
        ctx.check(tree(t) == before, "writing into a loaded image changed the file")
        y = viqa.load_data(gs[0])
        y += 1
        ctx.check(tree(t) == before, "writing into a loaded image changed the file")
        ctx.state("files", dt)
    elif kind in ("multiple", "batch"):
        import matplotlib.pyplot as plt
        d = key[1]
        sh = (9, 10, 8)[:d]
        imgs = {n: image(s, "u1", i) for i, (n, s) in enumerate([("a", sh), ("b", sh), ("c", tuple(x + 2 for x in sh))])}
        names = {n: (os.path.basename(write_img(t, n, a, ".png")) if d == 2 else os.path.basename(write_raw(t, n, a))) for n, a in imgs.items()}
        roi = [(1, 9), (0, 8), (0, 8)][:d]
        csvf = os.path.join(t, "pairs.csv")
        with open(csvf, "w") as f:
            f.write("reference_image,modified_image\n%s,%s\n%s,%s\n%s,%s\n" % (names["a"], names["b"], names["a"], names["c"], names["a"], names["c"]))
        for rois in (None, [roi, roi, None]) if kind == "batch" else (None,):
            for r in (None, roi):
                for norm in (False, True):
                    ms = [make("RMSE"), make("CNR"), make("SNR"), make("GSM"), make("SSIM")]
                    par = [{}, nr_kw("CNR", d), dict(nr_kw("SNR", d), region_type="spherical"), dict(dim=None, im_slice=None) if d == 2 else dict(dim=0, im_slice=1), dict(win_size=3, gaussian_weights=False, color_weights=None)]
                    kw = dict(normalize=True, data_range=255) if norm else {}
                    if r is not None:
                        kw["roi"] = r
                    lst = list(ms)
                    before = tree(t)
                    ctx.state(kind, d, str(rois), str(r), norm)
                    watch = [lst, par, rois, kw, r]
                    if kind == "batch":
                        def call():
                            o = viqa.BatchMetrics(t, csvf, lst, par, rois=rois)
                            o.calculate(**kw)
                            o.calculate(**kw)
                        guarded(ctx, "batch", call, watch)
                        ctx.check(tree(t) == before, "batch changed the input files")
                    else:
                        for form in FORMS[:5]:
                            for mod in "bc":
                                p = [contain(form, imgs[n].copy()) for n in ("a", mod)]
                                o = viqa.MultipleMetrics(lst, par)

                                def call():
                                    o.calculate(p[0][0], p[1][0], **kw)
                                    o.report(csv=True, metadata=True, text=True, image=False, file_path=ctx.scratch)
                                guarded(ctx, "multiple " + form, call, watch + p[0][1] + p[1][1])
        plt.close("all")
    elif kind == "vis":
        import matplotlib.pyplot as plt
        d = key[1]
        a = image((9, 10, 11)[:d], "f4", 3)
        for form in FORMS[:5]:
            x, w = contain(form, a.copy())
            ctx.state("vis", d, form)
            sl = [1, 2, 3]
            guarded(ctx, "visualize", (lambda: viqa.visualize_2d(x, dpi=20)) if d == 2 else (lambda: viqa.visualize_3d(x, sl, dpi=20)), w + [sl])
            for m in NR:
                for rt in ("cubic", "spherical", "full"):
                    kw = nr_kw(m, d)
                    kw = {k: list(v) if isinstance(v, tuple) else v for k, v in kw.items()}
                    guarded(ctx, "visualize_centers", lambda: make(m).visualize_centers(x, region_type=rt, dpi=20, **kw), w + [kw] + list(kw.values()))
                plt.close("all")
    else:
        import matplotlib.pyplot as plt
        d = key[1]
        a, b = image((8, 9, 10)[:d], "u1", 3), image((10, 8, 9)[:d], "u1", 4)
        for form in FORMS[:5]:
            for so in (0, 1, 2):
                p = [contain(form, x.copy()) for x in (a, b)]
                kw = {} if d == 2 else dict(z=2)
                ctx.state("resize", d, form, so)
                guarded(ctx, "export_image", lambda: viqa.export_image({"RMSE": 1.0}, p[0][0], p[1][0], dpi=20, scaling_order=so, file_path=t, **kw), p[0][1] + p[1][1])
                plt.close("all")
                guarded(ctx, "multiple", lambda: viqa.MultipleMetrics([make("RMSE")], [{}]).calculate(p[0][0], p[1][0], scaling_order=so), p[0][1] + p[1][1])
