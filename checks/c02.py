"""C02: container and memory-layout independence (explicit enumeration of containers and mixed pairs)."""
import os
import pathlib

import numpy as np
import torch
import viqa

from .common import FR, METRICS, SLICED, TOL, image, make, nr_kw, write_img, write_mhd, write_nii, write_raw

RULE = ("Explicit enumeration on the real code: for every metric x image kind (gray 2D, color, 3D) x element type, every container "
        "(memory layouts C, Fortran, reversed, strided, offset, axis-swapped, read-only, memory-mapped, unaligned, big-endian (both images); ImageArray; torch tensor, also non-contiguous; raw, mhd, "
        "NIfTI, NIfTI.gz, PNG, BMP, TIFF as str/PathLike/relative path) for both images of a pair, mixed pairs included; the score must "
        "equal that of plain C-contiguous arrays and load_data must reproduce the values. States: (metric, kind, type, container pair) "
        "configurations; transitions: score/load calls; traces: comparisons.")

LAYOUTS = ["C", "F", "rev", "strided", "offset", "swap", "ro", "image", "imageF", "tensor", "tensorT", "memmap", "unaligned", "be"]
FILES2 = ["png", "bmp", "tiff", "pngpath", "pngrel"]
FILES3 = ["raw", "mhd", "nii", "niigz", "rawpath", "mhdrel"]


BIGS = [("g2", (65, 70)), ("g2", (300, 7)), ("g2", (5, 520)), ("g2", (513, 300)), ("c2", (130, 67, 3)), ("c2", (300, 260, 3)), ("g3", (40, 33, 37)), ("g3", (5, 130, 9)), ("g3", (100, 100, 4))]


def kinds(metric):
    sh = METRICS[metric]["shape"]
    out = [("g2", "u1"), ("g2", "f4")]
    v3 = sh + (9,) if metric != "VIFp" else sh + (5,)
    if metric == "MAD":
        v3 = (9, 10, 11)
    return out, sh, v3


def types(metric):
    # piq needs non-negative values; every metric takes these
    return ["u1", "u2", "f4", "f8"]


def expensive(metric):
    return metric in ("VSI", "VIFp", "MAD")


def pairs(forms, full, dt):
    # arrays of different byte order are of different element type, so big-endian arrays come in pairs
    if dt[1] != "1":
        return pairs([f for f in forms if f != "be"], full, "x1") + [("be", "be")]
    if full:
        return [(a, b) for a in forms for b in forms]
    out = [(a, a) for a in forms] + [("C", b) for b in forms] + [(a, "C") for a in forms]
    return list(dict.fromkeys(out))


def keys(tier):
    for kind in ("g2", "c2", "g3"):
        for dt in ("u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8"):
            yield ["load", kind, dt]
            yield ["loadopt", kind, dt]
            yield ["detached", kind, dt]
    for kind, shape in BIGS:
        for dt in ("u1", "u2", "f4", "f8"):
            yield ["bigload", kind, list(shape), dt]
    for dt in ("u1", "i2", "u2", "i4", "f4", "f8"):
        for shape in ((5, 7), (4, 5, 6), (1, 5, 7), (5, 7, 3), (5, 7, 1), (5, 1, 7), (1, 1, 4), (3, 1), (1, 6)):
            yield ["nii", list(shape), dt]
    yield ["jpg"]
    for m in ("PSNR", "RMSE", "SSIM", "GSM", "CNR", "SNR"):
        for kind in ("g2", "g3"):
            for dt in ("u1", "u2", "f4", "f8"):
                for f in forms_for(kind, dt):
                    yield ["scoreopt", m, kind, dt, f]
    for m in METRICS:
        kindlist = ["g2", "g3"]
        if m not in ("CNR",):
            kindlist.append("c2")
        for kind in kindlist:
            for dt in types(m):
                full = tier == "thorough" or (not expensive(m) and dt in ("u1",))
                if tier == "quick" and expensive(m) and dt in ("u2", "f8"):
                    continue
                fs = forms_for(kind, dt)
                if METRICS[m].get("nr"):
                    ps = [(a,) for a in fs]
                else:
                    ps = pairs(fs, full, dt)
                if tier == "quick" and m == "VSI" and kind == "g3":
                    ps = [(a, a) for a in fs]
                for p in ps:
                    yield ["score", m, kind, dt, list(p)]


def forms_for(kind, dt):
    fs = list(LAYOUTS)
    if dt in ("u2", "u4", "u8"):
        fs = [f for f in fs if not f.startswith("tensor")]
    if kind in ("g2", "c2"):
        if dt == "u1":
            fs += FILES2
        if kind == "g2" and dt == "u2":
            fs += ["png", "tiff"]
        if kind == "g2" and dt == "f8":
            fs += ["nii", "niigz"]
    else:
        if dt in ("u1", "u2", "u4", "f2", "f4", "f8"):
            fs += ["raw", "rawpath"]
        if dt in ("u1", "u2", "u4", "f4", "f8"):
            fs += ["mhd", "mhdrel"]
        if dt == "f8":
            fs += ["nii", "niigz"]
    return fs


def contain(ctx, a, form, stem):
    """The same pixels in another container."""
    if form == "C":
        return np.ascontiguousarray(a)
    if form == "F":
        return np.asfortranarray(a)
    if form == "rev":
        s = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[s])[s]
    if form == "strided":
        big = np.full(tuple(2 * n if i == 0 else 3 * n for i, n in enumerate(a.shape)), 7, a.dtype)
        s = tuple(slice(None, None, 2 if i == 0 else 3) for i in range(a.ndim))
        big[s] = a
        return big[s]
    if form == "offset":
        big = np.full(tuple(n + 3 for n in a.shape), 9, a.dtype)
        s = tuple(slice(1 + i % 2, 1 + i % 2 + n) for i, n in enumerate(a.shape))
        big[s] = a
        return big[s]
    if form == "swap":
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, 1)), 0, 1)
    if form == "ro":
        r = a.copy()
        r.setflags(write=False)
        return r
    if form == "image":
        return viqa.ImageArray(a.copy())
    if form == "imageF":
        return viqa.ImageArray(np.asfortranarray(a))
    if form == "memmap":
        m = np.memmap(os.path.join(ctx.tmp(), stem + ".dat"), dtype=a.dtype, mode="w+", shape=a.shape)
        m[...] = a
        return m
    if form == "unaligned":
        rec = np.zeros(a.shape, np.dtype([("pad", "u1"), ("v", a.dtype)]))
        rec["v"] = a
        return rec["v"]
    if form == "be":
        return a.astype(a.dtype.newbyteorder(">"))
    if form == "tensor":
        return torch.from_numpy(np.ascontiguousarray(a))
    if form == "tensorT":
        return torch.from_numpy(np.ascontiguousarray(np.swapaxes(a, 0, 1))).transpose(0, 1)
    t = ctx.tmp()
    f = form.replace("path", "").replace("rel", "")
    if f in ("png", "bmp", "tiff"):
        p = write_img(t, stem, a, "." + f)
    elif f == "raw":
        p = write_raw(t, stem, a)
    elif f == "mhd":
        p = write_mhd(t, stem, a)
    elif f == "nii":
        p = write_nii(t, stem, a)
    else:
        p = write_nii(t, stem, a, gz=True)
    if form.endswith("path"):
        return pathlib.Path(p)
    if form.endswith("rel"):
        return os.path.relpath(p)
    return p


def data(m, kind, dt, seed):
    _, sh, v3 = kinds(m)
    shape = sh if kind == "g2" else sh + (3,) if kind == "c2" else v3
    # 255-range for every type: all metrics are defined there
    a = image(shape, dt, seed, rng=255, like=m == "MSSSIM")
    return a


_ref = {}


def run(ctx, key):
    if key[0] == "load":
        _, kind, dt = key
        shape = {"g2": (5, 7), "c2": (5, 7, 3), "g3": (4, 5, 6)}[kind]
        a = image(shape, dt, 11, rng=100) if dt != "f2" else image(shape, dt, 11)
        for f in forms_for(kind, dt):
            x = contain(ctx, a, f, "im")
            ctx.state("load", kind, dt, f)
            r = viqa.load_data(x)
            ctx.op()
            ctx.check(isinstance(r, viqa.ImageArray), f, "is not loaded as image array")
            r = np.asarray(r)
            ctx.check(r.shape == a.shape and np.array_equal(r, a), f, "values differ", r.shape, a.shape)
            ctx.check(r.dtype.newbyteorder("=") == (np.float64 if f.startswith("nii") else a.dtype), f, "type", r.dtype)
            ctx.trace()
        return
    if key[0] == "detached":
        # what was loaded belongs to the caller: neither does it follow the file nor the file it
        _, kind, dt = key
        shape = {"g2": (65, 70), "c2": (65, 70, 3), "g3": (14, 15, 16)}[kind]
        a = image(shape, dt, 13, rng=100) if dt != "f2" else image(shape, dt, 13)
        for f in forms_for(kind, dt):
            if f in LAYOUTS:
                continue
            for what in ("changed", "removed", "written"):
                for o in ({}, dict(normalize=True, data_range=255), dict(roi=[(1, 11), (2, 12)] + [(3, 13)] * (kind == "g3"))):
                    x = contain(ctx, a, f, "im")
                    d = os.path.dirname(os.path.abspath(x))
                    before = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
                    r = viqa.load_data(x, **o)
                    want = np.array(r)
                    ctx.op()
                    ctx.state("detached", kind, dt, f, what, str(o))
                    for n, b in before.items():
                        if what == "changed":
                            with open(os.path.join(d, n), "r+b") as h:
                                h.write(bytes(len(b)))
                                h.flush()
                                os.fsync(h.fileno())
                        elif what == "removed":
                            os.unlink(os.path.join(d, n))
                    if what == "written" and r.flags.writeable:
                        r[...] = 0
                        ctx.check(all(open(os.path.join(d, n), "rb").read() == b for n, b in before.items()), f, "changed with the loaded image", o)
                    else:
                        ctx.check(np.array_equal(np.asarray(r), want), f, "loaded image changed with its file", o)
                    ctx.trace()
        return
    if key[0] == "bigload":
        _, kind, shape, dt = key
        n = int(np.prod(shape))
        v = (np.arange(n) * 7919 + 13) % 65521 % (251 if dt == "u1" else 65521)
        a = v.astype(dt).reshape(shape)
        for f in forms_for(kind, dt):
            x = contain(ctx, a, f, "im")
            ctx.state(kind, tuple(shape), dt, f)
            r = np.asarray(viqa.load_data(x))
            ctx.op()
            ctx.check(r.shape == a.shape and np.array_equal(r, a), f, "values differ", shape, dt)
            ctx.trace()
        return
    if key[0] == "loadopt":
        _, kind, dt = key
        shape = {"g2": (5, 7), "c2": (5, 7, 3), "g3": (4, 5, 6)}[kind]
        a = image(shape, dt, 12, rng=100) if dt != "f2" else image(shape, dt, 12)
        roi = [(1, 4), (2, 6)] + ([(0, 5)] if kind == "g3" else [])
        for f in forms_for(kind, dt):
            for o in (dict(normalize=True, data_range=1), dict(normalize=True, data_range=255), dict(normalize=True, data_range=65535),
                      dict(roi=roi), dict(normalize=True, data_range=255, roi=roi)):
                want = np.asarray(viqa.load_data(np.array(a, order="C"), **o))
                r = viqa.load_data(contain(ctx, a, f, "im"), **o)
                ctx.op(2)
                ctx.state("loadopt", kind, dt, f, str(o))
                ctx.check(isinstance(r, viqa.ImageArray), f, "is not loaded as image array", o)
                r = np.asarray(r)
                if not f.startswith("nii") or "normalize" in o:
                    ctx.check(r.dtype.newbyteorder("=") == want.dtype, f, "type", r.dtype, o)
                if dt == "u1" and f.startswith("nii"):
                    continue
                ctx.check(r.shape == want.shape and np.array_equal(r, want), f, "values differ", o)
                ctx.trace()
        return
    if key[0] == "nii":
        import nibabel as nib
        _, shape, dt = key
        a = image(shape, dt, 31, rng=100)
        t = ctx.tmp()
        for ext in (".nii", ".nii.gz"):
            for slope, inter in ((None, None), (2.0, 0.0), (0.5, -3.0), (1.0, 100.0)):
                img = nib.Nifti1Image(a, np.diag([2.0, 3.0, 4.0, 1.0]))
                if slope is not None:
                    img.header.set_slope_inter(slope, inter)
                p = os.path.join(t, "a%s%s%s" % (slope, inter, ext))
                nib.save(img, p)
                want = np.asarray(nib.load(p).dataobj, dtype=np.float64)
                r = np.asarray(viqa.load_data(p))
                ctx.op()
                ctx.state("nii", tuple(shape), dt, ext, slope, inter)
                ctx.check(r.shape == a.shape and r.dtype == np.float64, ext, r.shape, r.dtype)
                ctx.check(np.array_equal(r, want), ext, "voxel values", slope, inter)
                ctx.trace()
        return
    if key[0] == "scoreopt":
        _, m, kind, dt, f = key
        nr = METRICS[m].get("nr")
        shape = (11, 12) if kind == "g2" else (11, 12, 13)
        imgs = [image(shape, dt, 41 + i, rng=200) for i in range(1 if nr else 2)]
        roi = [(1, 10), (2, 11)] + ([(3, 12)] if kind == "g3" else [])
        kw = nr_kw(m, 2 if kind == "g2" else 3) if nr else dict(METRICS[m]["kw"] or {})
        if m == "GSM" and kind == "g3":
            kw["dim"] = 2
        for o in (dict(normalize=True), dict(roi=roi), dict(normalize=True, roi=roi)):
            for R in (255, 1):
                want = make(m, R, **o).score(*[x.copy() for x in imgs], **kw)
                got = make(m, R, **o).score(*[contain(ctx, x, f, "o%d" % i) for i, x in enumerate(imgs)], **kw)
                ctx.op(2)
                ctx.state(m, kind, dt, f, str(o), R)
                ctx.close(got, want, "%s %s %s %s %s range %s" % (m, kind, dt, f, o, R), rtol=1e-4, atol=1e-6)
                ctx.trace()
        return
    if key[0] == "jpg":
        from PIL import Image
        t = ctx.tmp()
        for ext in (".jpg", ".jpeg", ".png", ".bmp", ".tiff"):
            for shape in ((9, 12), (9, 12, 3)):
                p = os.path.join(t, "a" + ext)
                Image.fromarray(image(shape, "u1", 5)).save(p)
                with Image.open(p) as im:
                    want = np.asarray(im)
                got = np.asarray(viqa.load_data(p))
                ctx.op()
                ctx.state("jpg", ext, len(shape))
                ctx.check(np.array_equal(got, want) and got.dtype == want.dtype, ext, "values differ")
                ctx.trace()
        return
    _, m, kind, dt, forms = key
    chrom = [False]
    if kind == "c2" and m not in ("SNR", "UQI", "GSM", "MAD", "VSI"):
        chrom = [False, True]
    imgs = [data(m, kind, dt, 21 + i) for i in range(len(forms))]
    kw = dict(METRICS[m]["kw"] or {})
    if METRICS[m].get("nr"):
        kw = nr_kw(m, 2 if kind != "g3" else 3)
    elif kind == "g3" and m in SLICED:
        kw.update(dim=1, im_slice=2) if m in ("VSI",) else kw.update(dim=2)
    for c in chrom:
        ck = dict(kw)
        ctor = {}
        if m == "VSI" and kind == "c2":
            ctor = dict(chromatic=True)
        elif c:
            ctor = dict(chromatic=True)
            if m == "SSIM":
                ck["color_weights"] = [0.4, 0.3, 0.3]
        rk = (m, kind, dt, c)
        if rk not in _ref:
            _ref[rk] = make(m, 255, **ctor).score(*[x.copy() for x in imgs], **ck)
            ctx.op()
        cont = [contain(ctx, x, f, "im%d" % i) for i, (x, f) in enumerate(zip(imgs, forms))]
        got = make(m, 255, **ctor).score(*cont, **ck)
        ctx.op()
        ctx.state(*rk, *forms)
        ctx.close(got, _ref[rk], "%s %s %s %s chromatic=%s" % (m, kind, dt, forms, c), rtol=max(TOL.get(m, 1e-9), 1e-4 if dt == "f4" else 0), atol=1e-6 if dt == "f4" else 1e-9)
        ctx.check(np.all(np.isfinite(np.asarray(got, dtype=float))), m, "score is not finite", got)
        ctx.trace()
