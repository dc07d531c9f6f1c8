"""C15: history independence of metric objects (explicit-state exploration of all operation sequences to a depth)."""
import copy
import csv
import itertools
import os
import shutil
import warnings

import numpy as np
import viqa

from .common import FR, METRICS, NR, SLICED, TOL, captured, cnr_ref, image, make, nr_kw, snr_ref, write_img, write_mhd, write_nii, write_raw

RULE = ("Explicit-state exploration of real metric objects: all operation sequences of length d (quick: FR 4 for the fast metrics, 3 for FSIM/MAD/VIFp, 2 for VSI; CNR/SNR 4; thorough one "
        "more) over scoring different images (2D, color, volume, other size and type, other parameters), rejected calls, printing, exporting, comparing, text form; the same for two objects "
        "of one class with different settings, interleaved (length 3), and sequences in which image files are overwritten and arrays are changed in place between the calls. After every operation return value, recorded score and parameters are compared with the abstract state model "
        "(score = a new object in a process of its own; every call directly after every other one over parameter sets that vary each argument, sizes, types and ranges; CNR/SNR: remembered centers and radius). States: (settings, model state, operation); transitions: operations; traces: sequences.")
FAST = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "MSSSIM"]


def depth(m, tier):
    d = {"VSI": 2, "FSIM": 3, "MAD": 3, "VIFp": 3}.get(m, 4)
    return d + (tier == "thorough" and m != "VSI")


# ------------------------------------------------------------------ full reference
def fr_ops(m):
    sh = METRICS[m]["shape"]
    kw = dict(METRICS[m]["kw"])
    like = m == "MSSSIM"

    def pair(s, dt, seed):
        return [image(s, dt, seed + i, rng=255, like=like) for i in range(2)]
    sh2 = (sh[0] + 3, sh[1] + 1)
    other = {"SSIM": dict(gaussian_weights=False, win_size=5, K1=0.1), "UQI": dict(win_size=5), "GSM": dict(c=50), "MSSSIM": dict(kernel_size=5, scale_weights=[1.0]),
             "FSIM": dict(scales=2), "VSI": dict(c1=2.0), "VIFp": dict(sigma_n_sq=1.0), "MAD": dict(block_size=3, block_overlap=0.5)}.get(m, {})
    vol = sh + (8,) if m in ("SSIM", "UQI", "RMSE", "PSNR") else sh + (4,)
    vkw = dict(kw, dim=2, im_slice=1) if m in SLICED else dict(kw)
    a, b = pair(sh, "u1", 1), pair(sh2, "u1", 5)
    return [
        ("s0", "score", a, kw), ("s1", "score", b, kw), ("s2", "score", a, {**kw, **other}), ("sv", "score", pair(vol, "u1", 9), vkw),
        ("sc", "score", pair(sh + (3,), "u1", 13), kw),
        ("xs", "reject", [a[0], b[1]], kw), ("xt", "reject", [a[0], a[1].astype("f4")], kw), ("xn", "reject", ["none.png", a[1]], kw),
        ("p", "print", None, None), ("e", "export", None, None), ("q", "compare", None, None),
    ]


SETTINGS = [dict(), dict(normalize=True), dict(data_range=65535), "roi", "chromatic"]


def settings(m, i):
    s = SETTINGS[i]
    if s == "chromatic":
        return dict(chromatic=True) if m in ("RMSE", "PSNR", "MSSSIM", "FSIM", "VSI", "VIFp") else None
    if s == "roi":
        sh = METRICS[m]["shape"]
        if m in ("VIFp", "VSI", "MAD"):
            return None
        return dict(roi=[(0, sh[0] - 1), (1, sh[1]), (0, 4)])
    if m == "VSI" and i:
        return None
    return s


_ref = {}


def fresh(m, i, op):
    """what a new object says (in a process of its own in which nothing was scored before: see prepare)"""
    k = (m, i, op[0])
    if k not in _ref:
        _ref[k] = outcome(m, dict(settings(m, i)), op[2], op[3])
    return _ref[k]


def outcome(m, ctor, imgs, kw):
    try:
        return "ok", make(m, **copy.deepcopy({"data_range": 255, **ctor})).score(*copy.deepcopy(imgs), **copy.deepcopy(kw))
    except Exception as e:
        return "err", type(e).__name__


# parameter sets per metric, each different from the defaults in another argument
PARAMS = {
    "RMSE": [{}],
    "PSNR": [{}],
    "SSIM": [dict(gaussian_weights=False, win_size=3), dict(gaussian_weights=False, win_size=5), dict(sigma=0.8), dict(sigma=0.6), dict(gaussian_weights=False, win_size=3, K1=0.1),
             dict(gaussian_weights=False, win_size=3, K2=0.2), dict(gaussian_weights=False, win_size=3, alpha=2), dict(gaussian_weights=False, win_size=3, beta=3),
             dict(gaussian_weights=False, win_size=3, gamma=2), dict(sigma=0.8, mode="constant"), dict(sigma=0.8, mode="constant", cval=3)],
    "UQI": [dict(win_size=3), dict(win_size=5), dict(win_size=7)],
    "GSM": [{}, dict(c=50), dict(p=0.5), dict(c=1000, p=0.9)],
    "MSSSIM": [dict(kernel_size=3, scale_weights=[0.5, 0.5]), dict(kernel_size=5, scale_weights=[1.0]), dict(kernel_size=3, scale_weights=[0.2, 0.8]), dict(kernel_size=3, scale_weights=[1.0]),
               dict(kernel_size=3, kernel_sigma=0.7, scale_weights=[1.0]), dict(kernel_size=3, scale_weights=[1.0], k1=0.2), dict(kernel_size=3, scale_weights=[1.0], k2=0.2)],
    "FSIM": [{}, dict(scales=2), dict(orientations=2), dict(min_length=3), dict(mult=3), dict(sigma_f=0.3), dict(delta_theta=2.0), dict(k=1.0)],
    "VSI": [{}, dict(c1=2.0), dict(c2=50.0), dict(c3=10.0), dict(alpha=0.8), dict(beta=0.3), dict(omega_0=0.1), dict(sigma_f=0.5), dict(sigma_d=5.0), dict(sigma_c=0.1)],
    "VIFp": [{}, dict(sigma_n_sq=1.0), dict(sigma_n_sq=9.0)],
    "MAD": [dict(block_size=4), dict(block_size=3), dict(block_size=4, block_overlap=0.5), dict(block_size=4, beta_1=0.9), dict(block_size=4, beta_2=0.5),
            dict(block_size=4, thresh_1=2.5, thresh_2=4.0), dict(block_size=4, csf_function=dict(lambda_csf=0.3, f_peak=7.8909)), dict(block_size=4, csf_function=dict(lambda_csf=0.114, f_peak=3.0)),
            dict(block_size=4, luminance_function=dict(k=0.1, gamma=2.2)), dict(block_size=4, luminance_function=dict(k=0.02874, gamma=1.5)),
            dict(block_size=4, luminance_function=dict(b=1, k=0.02874, gamma=2.2)), dict(block_size=4, ms_scale=3), dict(block_size=4, orientations_num=2),
            dict(block_size=4, scales_num=2, weights=[1, 4]), dict(block_size=4, scales_num=2, weights=[4, 1]), dict(block_size=4, weights=[5, 1, 1, 1, 1]),
            dict(block_size=4, account_monitor=True, display_function=dict(disp_res=20.0, view_dis=30.0)), dict(block_size=4, account_monitor=True, display_function=dict(disp_res=60.0, view_dis=30.0))],
}
CONT = ["", "size", "turned", "range", "norm", "f4", "seed"]  # the images they are scored on


def pcalls(m):
    """all calls of the 'params' histories: (constructor arguments, images, score arguments)"""
    sh = METRICS[m]["shape"]
    out = []
    for kw in PARAMS[m]:
        for c in CONT if kw is PARAMS[m][0] else CONT[:1] if m in ("VSI", "MAD") else CONT[:2]:
            s = {"size": (sh[0] + 2, sh[1] + 3), "turned": sh[::-1]}.get(c, sh)
            ctor = {"range": dict(data_range=65535), "norm": dict(normalize=True, data_range=255)}.get(c, {})
            ims = [image(s, "f4" if c == "f4" else "u1", (70 if c == "seed" else 50) + i, rng=200, like=m == "MSSSIM") for i in range(2)]
            out.append((ctor, ims, kw))
    if m == "MAD":
        # images of low contrast, where lightness and contrast sensitivity decide
        ims = [np.full(sh, 200, "u1"), image(sh, "u1", 91, rng=255)]
        ims[0][::2, ::3] += 1
        ims[1][::2] = 200
        out += [({}, ims, kw) for kw in PARAMS[m] if len(kw) == 1 or "luminance_function" in kw or "csf_function" in kw]
    return out


_pref = {}


def pristine(jobs):
    """each job in a child process of its own, forked from this one, which has scored nothing"""
    import pickle
    out, run, todo = {}, {}, list(jobs)
    while todo or run:
        while todo and len(run) < 8:
            k, fn = todo.pop(0)
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(fn(), f)
                finally:
                    os._exit(0)
            os.close(w)
            run[k] = p, r
        k = next(iter(run))
        p, r = run.pop(k)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(p, 0)
        out[k] = pickle.loads(b) if b else ("err", "died")
    return out


def prepare(tier):
    jobs = []
    for m in FR:
        for i in range(len(SETTINGS)):
            if settings(m, i) is not None:
                for op in fr_ops(m):
                    if op[1] in ("score", "reject"):
                        jobs.append((("f", m, i, op[0]), lambda m=m, i=i, op=op: outcome(m, dict(settings(m, i)), op[2], op[3])))
        for n, (ctor, ims, kw) in enumerate(pcalls(m)):
            jobs.append((("p", m, n), lambda m=m, a=ctor, b=ims, c=kw: outcome(m, a, b, c)))
    for k, v in pristine(jobs).items():
        (_ref if k[0] == "f" else _pref)[k[1:]] = v


def eq(ctx, got, want, msg, tol=1e-7):
    if want is None or got is None:
        ctx.check(got is want, msg, "got", got, "expected", want)
    else:
        ctx.close(got, want, msg, rtol=tol)


def passive(ctx, o, kind, val, m, hist, tmp):
    """operations that must not change anything"""
    if kind == "print":
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            _, out = captured(lambda: o.print_score(decimals=3))
        ctx.check(val is not None or not any(c.isdigit() for c in out), hist, "printed", out)
    elif kind == "export":
        o.export_results(tmp, "out.csv")
        with open(os.path.join(tmp, "out.csv"), newline="") as f:
            rows = [r for r in csv.reader(f) if r]
        ctx.check(len(rows) == 1 + (val is not None), hist, "exported", rows)
        if val is not None and np.ndim(val) == 0:
            ctx.close(float(rows[1][1]), val, "%s exported" % hist)
    elif kind == "compare":
        other = make("RMSE")
        other.score_val = 0.25
        if val is None or np.ndim(val) == 0 and val == val:
            ctx.check(bool(o == o) and not bool(o != o), hist, "object differs from itself")
        _ = o == other, o != other, repr(o), str(o)
        if val is not None and np.ndim(val) == 0:
            _ = o < 5, o > 5, o <= other, o >= other
        ctx.check((o.score_val is None) == (val is None), hist, "comparison changed the score")


def step_fr(ctx, o, val, op, m, i, hist, tmp):
    name, kind, imgs, kw = op
    ctx.op()
    params = copy.deepcopy({k: v for k, v in o.parameters.items()})
    ctx.state(m, i, name, None if val is None else repr(val))
    if kind in ("score", "reject"):
        st, want = fresh(m, i, op)
        if st == "ok":
            got = o.score(*imgs, **copy.deepcopy(kw))
            eq(ctx, got, want, "%s after %s" % (m, hist), 1e-6)
            val = want
        else:
            try:
                got = o.score(*imgs, **copy.deepcopy(kw))
            except Exception:
                got = None
            ctx.check(got is None, hist, "accepted what a fresh object rejects")
    else:
        passive(ctx, o, kind, val, m, hist, tmp)
    eq(ctx, o.score_val, val, "recorded score of %s after %s" % (m, hist), 1e-6)
    ctx.check(repr({k: o.parameters.get(k) for k in params}) == repr(params), hist, "changed the settings", params, o.parameters)
    return val


# ------------------------------------------------------------------ no reference
def nr_ops(m, d):
    sh = (9, 10, 9)[:d]
    A, B = image(sh, "u1", 1), image(tuple(n + 2 for n in sh), "f4", 2)
    s1, s2, b1, b2 = (3, 4, 5)[:d], (5, 4, 3)[:d], (6, 3, 4)[:d], (4, 6, 5)[:d]
    bk = (lambda v: dict(background_center=v)) if m == "CNR" else (lambda v: {})
    ops = [
        ("full1", A, dict(signal_center=s1, radius=2, **bk(b1))), ("full2", A, dict(signal_center=s2, radius=3, **bk(b2))),
        ("noneA", A, {}), ("noneB", B, {}), ("rad", A, dict(radius=1)), ("sig", A, dict(signal_center=s2)),
        ("sphere", A, dict(region_type="spherical")), ("sphereB", B, dict(region_type="spherical")),
        ("far", A, dict(signal_center=(1,) * d, radius=2)), ("badr", A, dict(radius=2.5)), ("zero", A, dict(radius=0)), ("badt", A, dict(region_type="cone", radius=1)),
        ("badc", A, dict(signal_center=(2,) * (d + 1))), ("badi", "none.png", {}),
    ]
    if m == "CNR":
        ops += [("bg", A, dict(background_center=b2)), ("farb", A, dict(background_center=(0,) * d, radius=1))]
    return ops


NRINIT = [{}, dict(radius=1), "all", "sig"]


def nr_init(m, d, i):
    if NRINIT[i] == "all":
        k = dict(signal_center=(4, 4, 4)[:d], radius=2)
        if m == "CNR":
            k["background_center"] = (3, 5, 4)[:d]
        return k
    if NRINIT[i] == "sig":
        return dict(signal_center=(4, 5, 4)[:d])
    return dict(NRINIT[i])


def nr_model(m, d, mem, img, kw):
    """-> (score or None if rejected, memory)"""
    need = ["signal_center", "radius"] + (["background_center"] if m == "CNR" else [])
    full = {k: kw.get(k, mem.get(k)) for k in need}
    if isinstance(img, str) or any(v is None for v in full.values()):
        return None, mem
    r = full["radius"]
    if not isinstance(r, int) or r <= 0:
        return None, mem
    cs = [full["signal_center"]] + ([full["background_center"]] if m == "CNR" else [])
    for c in cs:
        if len(c) != img.ndim or any(x - r < 0 or x + r > n for x, n in zip(c, img.shape)):
            return None, mem
    rt = kw.get("region_type", "cubic")
    if rt not in ("cubic", "spherical"):
        return None, mem
    val = cnr_ref(img, full["signal_center"], full["background_center"], r, rt) if m == "CNR" else snr_ref(img, full["signal_center"], r, rt)
    return val, {**mem, **full}


def step_nr(ctx, o, state, op, m, d, hist, tmp):
    val, mem = state
    ctx.op()
    ctx.state(m, d, op[0], repr(val), repr(sorted(mem.items())))
    if op[0] in ("print", "export", "compare"):
        passive(ctx, o, op[0], val, m, hist, tmp)
        new, got = None, None
    else:
        new, mem2 = nr_model(m, d, mem, op[1], op[2])
        try:
            got = o.score(op[1], **dict(op[2]))
        except (ValueError, TypeError, FileNotFoundError, OSError):
            got = None
        ctx.check((got is None) == (new is None), m, hist, "returned", got, "expected", new)
        if new is not None:
            ctx.close(got, new, "%s after %s" % (m, hist), rtol=1e-4)
            val, mem = new, mem2
    if val is None:
        ctx.check(o.score_val is None, m, hist, "score recorded:", o.score_val)
    else:
        ctx.close(o.score_val, val, "%s recorded after %s" % (m, hist), rtol=1e-4)
    for k in ("signal_center", "background_center", "radius"):
        ctx.check(o.parameters.get(k) == mem.get(k), m, hist, k, "is", o.parameters.get(k), "expected", mem.get(k))
    return val, mem


# ------------------------------------------------------------------
def keys(tier):
    for m in FR:
        n = len(fr_ops(m))
        for i in range(len(SETTINGS)):
            if settings(m, i) is None:
                continue
            d = depth(m, tier)
            if i and d > 2:
                d -= 1
            for first in range(n):
                if d >= 4:
                    for second in range(n):
                        yield ["fr", m, i, d, [first, second]]
                else:
                    yield ["fr", m, i, d, [first]]
        if m != "VSI" or tier == "thorough":
            for i, j in ((0, 1), (0, 0), (2, 3) if settings(m, 3) is not None else (2, 0)):
                for first in range(n):
                    yield ["two", m, i, j, first]
    for m in FR:
        n = len(pcalls(m))
        for a in range(n):
            yield ["params", m, a]
    for m in FR + NR:
        for i in range(len(MUT)):
            yield ["mut", m, i, (2 if m == "VSI" else 3 if m in ("FSIM", "MAD", "VIFp") else 4) + (tier == "thorough" and m != "VSI")]
    for m in ("RMSE", "SNR", "SSIM"):
        for f in FORMATS:
            yield ["formats", m, f]
    for m in NR:
        for d in (2, 3):
            n = len(nr_ops(m, d)) + 1
            for i in range(len(NRINIT)):
                dd = 4 if i == 0 and d == 2 or tier == "thorough" else 3
                for first in range(n):
                    yield ["nr", m, d, i, dd, first]
            for first in range(n):
                yield ["nrtwo", m, d, first]


FORMATS = ["raw", "mhd", "nii", "nii.gz", "bmp", "tiff", "jpg"]


def formats(ctx, m, f, tmp):
    """a file overwritten between the calls, in every format, keeping its name and length: always the current content counts"""
    vol = f in ("raw", "mhd", "nii", "nii.gz")
    sh = (9, 10, 11) if vol else (9, 10)
    pool = [image(sh, "f8" if f[:3] == "nii" else "u1", 60 + k, rng=255) for k in range(3)]
    ext = "." + f
    for k, img in enumerate(pool):
        if f in ("nii", "nii.gz"):
            src = write_nii(tmp, "s%d" % k, img, gz=f.endswith("gz"))
        elif f == "raw":
            src = write_raw(tmp, "s%d" % k, img)
        elif f == "mhd":
            src = write_mhd(tmp, "s%d" % k, img)
        else:
            src = write_img(tmp, "s%d" % k, img, ext)
        with open(src, "rb") as h:
            pool[k] = img, h.read(), src
        if f == "mhd":
            raw = [os.path.join(tmp, x) for x in os.listdir(tmp) if x.startswith("s%d" % k) and not x.endswith(".mhd")]
            assert len(raw) == 1
            with open(raw[0], "rb") as h:
                pool[k] = img, h.read(), (src, raw[0])
        if f == "jpg":
            from PIL import Image
            with Image.open(src) as im:
                pool[k] = np.asarray(im), pool[k][1], src
    kw = nr_kw(m, len(sh)) if m in NR else dict(METRICS[m]["kw"] or {})

    def want(k):
        return make(m).score(*([pool[k][0]] if m in NR else [pool[k][0], pool[0][0]]), **kw)
    ref = [want(k) for k in range(3)]
    for seq in itertools.product(range(3), repeat=3):
        for keep in (False, True):
            d = os.path.join(tmp, "r")
            os.makedirs(d, exist_ok=True)
            o = make(m)
            name = os.path.basename(pool[0][2][0] if f == "mhd" else pool[0][2])
            p = os.path.join(d, name)
            data = os.path.join(d, os.path.basename(pool[0][2][1])) if f == "mhd" else p
            if f == "mhd":
                shutil.copyfile(pool[0][2][0], p)
            for n, k in enumerate(seq):
                with open(data, "wb") as h:
                    h.write(pool[k][1])
                if keep:
                    os.utime(data, (10 ** 9, 10 ** 9 + n))
                got = o.score(*([p] if m in NR else [p, pool[0][0]]), **copy.deepcopy(kw))
                ctx.op()
                ctx.state("formats", m, f, seq[:n + 1])
                eq(ctx, got, ref[k], "%s of a rewritten %s file, contents %s" % (m, f, seq[:n + 1]), 1e-5)
                ctx.check(np.array_equal(np.asarray(viqa.load_data(p)), pool[k][0]), "content of rewritten", f, seq[:n + 1])
            ctx.trace()


MUT = ["files", "arrays", "mixed", "write0", "write1", "alter", "other"]


def mutable(ctx, m, first, depth, tmp):
    """files overwritten and arrays changed in place between the calls: always the current content counts"""
    nr = m in NR
    sh = METRICS[m]["shape"]
    kw = dict(nr_kw(m, 2)) if nr else dict(METRICS[m]["kw"])
    pool = [image(sh, "u1", 40 + k, rng=255, like=m == "MSSSIM") for k in range(4)]
    ref = {}

    def want(a, b):
        k = (a, b)
        if k not in ref:
            ref[k] = make(m).score(*([pool[a]] if nr else [pool[a], pool[b]]), **copy.deepcopy(kw))
        return ref[k]

    tick = [10 ** 9]

    def put(name, k):
        p = os.path.join(tmp, name)
        shutil.copyfile(os.path.join(tmp, "src%d.png" % k), p)
        tick[0] += 10
        os.utime(p, (tick[0], tick[0]))

    for k, img in enumerate(pool):
        write_img(tmp, "src%d" % k, img, ".png")
    paths = [os.path.join(tmp, n) for n in ("a.png", "b.png")]
    for rest in itertools.product(range(len(MUT)), repeat=depth - 1):
        cur, mem, n = [0, 1], [2, 3], 0  # contents of the two files and the two arrays
        put("a.png", 0)
        put("b.png", 1)
        arrs = [pool[2].copy(), pool[3].copy()]
        o, other, hist, val = make(m), make(m), [], None
        for x in (first, *rest):
            op = MUT[x]
            hist.append(op)
            ctx.op()
            ctx.state("mut", m, op, tuple(cur), tuple(mem), repr(val))
            if op in ("write0", "write1"):
                w = int(op[-1])
                cur[w] = (cur[w] + 1) % 4
                put(("a.png", "b.png")[w], cur[w])
            elif op == "alter":
                w = n % (1 if nr else 2)
                n += 1
                mem[w] = (mem[w] + 1) % 4
                arrs[w][...] = pool[mem[w]]
            else:
                if op == "arrays":
                    args, e = arrs, want(*mem)
                elif op == "mixed":
                    args, e = [paths[0], arrs[1]], want(cur[0], mem[1])
                else:
                    args, e = paths, want(*cur)
                obj = other if op == "other" else o
                got = obj.score(*(args[:1] if nr else args), **copy.deepcopy(kw))
                eq(ctx, got, e, "%s after %s" % (m, hist), 1e-6)
                if obj is o:
                    val = e
                eq(ctx, o.score_val, val, "recorded score of %s after %s" % (m, hist), 1e-6)
        ctx.trace()


def run(ctx, key):
    tmp = ctx.tmp()
    if key[0] == "params":
        # any call directly after any other, by new objects and by one object of equal settings: the value of a process that did only that
        _, m, a = key
        calls = pcalls(m)
        for b in range(len(calls)):
            for same in (False, True):
                if same and calls[a][0] != calls[b][0]:
                    continue
                o = make(m, **{"data_range": 255, **calls[a][0]})
                for n in (a, b) if m in ("VSI", "MAD", "VIFp", "FSIM") else (a, b, a):
                    st, want = _pref[(m, n)]
                    ctx.check(st == "ok", m, calls[n][2], "fails:", want)
                    if not same:
                        o = make(m, **{"data_range": 255, **calls[n][0]})
                    got = o.score(*copy.deepcopy(calls[n][1]), **copy.deepcopy(calls[n][2]))
                    ctx.op()
                    ctx.state("params", m, a, b, same, n)
                    eq(ctx, got, want, "%s with %s after a call with %s" % (m, calls[n][2], calls[a][2]), 1e-6)
                ctx.trace()
        return
    if key[0] == "formats":
        return formats(ctx, *key[1:], tmp)
    if key[0] == "mut":
        return mutable(ctx, *key[1:], tmp)
    if key[0] == "fr":
        _, m, i, d, pre = key
        ops = fr_ops(m)
        for rest in itertools.product(range(len(ops)), repeat=d - len(pre)):
            seq = list(pre) + list(rest)
            o, val, hist = make(m, **{"data_range": 255, **copy.deepcopy(settings(m, i))}), None, []
            ctx.check(o.score_val is None, "score before the first call")
            for x in seq:
                hist.append(ops[x][0])
                val = step_fr(ctx, o, val, ops[x], m, i, hist, tmp)
            ctx.trace()
    elif key[0] == "two":
        _, m, i, j, first = key
        ops = fr_ops(m)
        n = len(ops)
        some = [0, 1, 2, 4, 5, 8, 9] if m in FAST else [0, 1, 2, 5]
        for s2, s3 in itertools.product(some, repeat=2):
            for who in ((0, 1, 0), (0, 1, 1), (0, 0, 1), (1, 0, 1)):
                os_ = [make(m, **{"data_range": 255, **copy.deepcopy(settings(m, k))}) for k in (i, j)]
                vals, hist = [None, None], []
                for w, x in zip(who, (first % n, s2, s3)):
                    hist.append((w, ops[x][0]))
                    vals[w] = step_fr(ctx, os_[w], vals[w], ops[x], m, (i, j)[w], hist, tmp)
                    eq(ctx, os_[1 - w].score_val, vals[1 - w], "%s: score of the other object after %s" % (m, hist), 1e-6)
                ctx.trace()
    elif key[0] == "nr":
        _, m, d, i, dd, first = key
        ops = nr_ops(m, d) + [("print",)]
        for rest in itertools.product(range(len(ops)), repeat=dd - 1):
            init = nr_init(m, d, i)
            o, st, hist = make(m, **init), (None, dict(init)), [init]
            for x in (first, *rest):
                hist.append(ops[x][0])
                st = step_nr(ctx, o, st, ops[x], m, d, hist, tmp)
            ctx.trace()
    else:
        _, m, d, first = key
        ops = nr_ops(m, d) + [("export",)]
        some = [0, 1, 2, 3, 4, 5, 7]
        for s2, s3, s4 in itertools.product(range(len(ops)), some, [2, 4]):
            for who in ((0, 1, 0, 1), (0, 1, 1, 0), (0, 0, 1, 1)):
                inits = [{}, nr_init(m, d, 2)]
                os_ = [make(m, **dict(k)) for k in inits]
                sts, hist = [(None, dict(k)) for k in inits], []
                for w, x in zip(who, (first, s2, s3, s4)):
                    hist.append((w, ops[x][0]))
                    sts[w] = step_nr(ctx, os_[w], sts[w], ops[x], m, d, hist, tmp)
                ctx.trace()
