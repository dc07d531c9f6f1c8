"""C16: thread interleavings (stateless model checking under a controlled scheduler)."""
import itertools
import os

import numpy as np
import viqa

from vfw.sched import Controlled
from .common import FR, METRICS, NR, image, make, nr_kw, write_img, write_mhd, write_nii, write_raw

RULE = ("Stateless model checking of the real code: two real threads under a controlled scheduler that switches only where told; decision points are all source lines executed inside viqa. "
        "All schedules with at most one preemption (quick: per scenario every decision point, but of a line executed often only the first two and the last visit; thorough: every decision point, "
        "and all schedules with two preemptions of the short scenarios), both threads being the preempted one. Scenarios: every metric against itself with other images, sizes and parameters, all "
        "pairs of metrics, color images, slices, a shared full-reference object, loading (every format)/normalising/cropping, region search, filtering, image statistics, exports, batch and single-pair objects. Each thread's result is compared with its result alone. "
        "States: (scenario, preempted thread, decision point); transitions: decision points executed; traces: schedules.")
ASSUMPTIONS = ["switches inside NumPy, SciPy, PyTorch or C code (which release the interpreter lock) are not explored", "line granularity"]
HANG = 400


def jobs(ctx):
    """name -> (callable, comparable result)"""
    out = {}
    for m in FR:
        kw0 = dict(METRICS[m]["kw"])
        alt = {"SSIM": dict(gaussian_weights=False, win_size=5, K1=0.05), "UQI": dict(win_size=5), "GSM": dict(c=50, p=0.3), "MSSSIM": dict(kernel_size=5, scale_weights=[1.0], k1=0.1),
               "FSIM": dict(scales=2, orientations=3), "VSI": dict(c1=2.0), "VIFp": dict(sigma_n_sq=1.0),
               "MAD": dict(block_size=3, block_overlap=0.5, scales_num=3, weights=[1, 2, 3], ms_scale=2, csf_function=dict(lambda_csf=0.2, f_peak=5.0))}.get(m, {})
        sh = METRICS[m]["shape"]
        like = m == "MSSSIM"
        a = [image(sh, "u1", 1 + i, like=like) for i in range(2)]
        b = [image((sh[0] + 2, sh[1] + 1), "f4", 5 + i, rng=1, like=like) for i in range(2)]
        out[m + ":0"] = lambda m=m, a=a, k=kw0: make(m, 255).score(*a, **k)
        out[m + ":1"] = lambda m=m, b=b, k={**kw0, **alt}: make(m, 1).score(*b, **k)
        if m in ("RMSE", "PSNR", "SSIM", "UQI", "GSM", "MSSSIM", "MAD"):
            v = [image(sh + ((8,) if m in ("RMSE", "PSNR", "SSIM", "UQI") else (4,)), "u2", 11 + i, like=like) for i in range(2)]
            kk = dict(kw0)
            if METRICS[m].get("slices"):
                kk["dim"] = 2
                if m == "MAD":
                    kk["im_slice"] = 1
            out[m + ":v"] = lambda m=m, v=v, k=kk: make(m, 255, normalize=True).score(*v, **k)
    for m in NR:
        for j, d in ((0, 2), (1, 3)):
            im = image((9, 10, 11)[:d], "u1", 20 + j)
            out["%s:%d" % (m, j)] = lambda m=m, im=im, d=d, j=j: make(m).score(im, region_type=("cubic", "spherical")[j], **nr_kw(m, d, j))
        # automatic centers in an image with a bright object
        g = np.add.outer(np.abs(np.arange(24) - 9), np.abs(np.arange(26) - 14))
        im = (200 - 4 * g + (np.arange(24 * 26).reshape(24, 26) % 5)).astype("u1")
        kk = dict(signal_center=None, radius=None, auto_center=True, iterations=1)
        if m == "CNR":
            kk["background_center"] = None
        out[m + ":a"] = lambda m=m, im=im, k=kk: make(m).score(im, **k)
    t = os.path.join(ctx.scratch, "c16")
    if not os.path.isdir(t):
        os.makedirs(t)
        write_raw(t, "a", image((5, 6, 7), "u2", 1))
        write_mhd(t, "b", image((7, 4, 5), "f4", 2))
    fa, fb = os.path.join(t, "a_5x6x7_16bit.raw"), os.path.join(t, "b.mhd")
    arr = lambda x: (np.asarray(x).dtype.str, np.asarray(x).shape, np.asarray(x).tobytes())
    out["load:0"] = lambda: arr(viqa.load_data(fa, data_range=255, normalize=True, roi=[(0, 4), (1, 5), (2, 6)]))
    out["load:1"] = lambda: arr(viqa.load_data(fb))
    x, y = image((6, 7), "f8", 3, rng=90), image((5, 8), "i2", 4)
    out["norm:0"] = lambda: arr(viqa.normalize_data(x, (0, 255)))
    out["norm:1"] = lambda: arr(viqa.normalize_data(y, (0, 65535)))
    out["crop:0"] = lambda: arr(viqa.crop_image(x, (1, 4), (2, 6)))
    out["crop:1"] = lambda: arr(viqa.crop_image(image((5, 6, 7), "u1", 1), (1, 4), (2, 6), (0, 3)))
    from viqa.utils import find_largest_region, correlate_convolve_abs, gabor_convolve
    r0 = np.zeros((12, 13), bool)
    r0[2:9, 3:11] = True
    r1 = np.zeros((9, 10, 11), bool)
    r1[1:8, 2:8, 3:9] = True
    f = lambda r: (r[0], r[1], arr(np.ma.getdata(r[2])), arr(np.ma.getmaskarray(r[2])))
    out["region:0"] = lambda: f(find_largest_region(r0, 1, "cubic"))
    out["region:1"] = lambda: f(find_largest_region(r1, 2, "spherical"))
    out["filter:0"] = lambda: arr(correlate_convolve_abs(x, np.arange(9.0).reshape(3, 3)))
    out["filter:1"] = lambda: arr(np.array(list(gabor_convolve(x, 2, 2).ravel())))
    out["correlate:0"] = lambda: arr(correlate_convolve_abs(x, np.arange(9.0).reshape(3, 3) - 2, mode="convolve", border_mode="wrap"))
    out["correlate:1"] = lambda: arr(correlate_convolve_abs(y.astype("f8"), np.arange(25.0).reshape(5, 5) ** 2, border_mode="constant", value=3))
    out["gabor:0"] = lambda: arr(np.array(list(gabor_convolve(x, 2, 2).ravel())))
    out["gabor:1"] = lambda: arr(np.array(list(gabor_convolve(y, 3, 1, min_wavelength=4, wavelength_scaling=2, bandwidth_param=0.6, d_theta_on_sigma=1.2).ravel())))
    c0, c1 = [[image((12 + i, 13, 3), dt, s + j, rng=200) for j in range(2)] for i, (dt, s) in enumerate((("u1", 51), ("f4", 61)))]
    for m in ("RMSE", "SSIM", "FSIM"):
        out[m + ":c"] = lambda m=m: make(m, 255).score(*c0, **METRICS[m]["kw"])
        out[m + ":d"] = lambda m=m: make(m, 255, chromatic=True).score(*c1, **METRICS[m]["kw"], **(dict(color_weights=[0.2, 0.3, 0.5]) if m == "SSIM" else {}))
    out["SNR:c"] = lambda: tuple(float(v) for v in make("SNR").score(c0[0], **nr_kw("SNR", 2)))
    out["SNR:d"] = lambda: tuple(float(v) for v in make("SNR").score(c1[0], yuv=False, **nr_kw("SNR", 2, 1)))
    for m in ("FSIM", "GSM", "VIFp"):
        v = [image(METRICS[m]["shape"] + (4,), "u1", 15 + i) for i in range(2)]
        for n, k in (("s", dict(dim=2, im_slice=1)), ("t", dict(dim=2, im_slice=3))):
            out["%s:%s" % (m, n)] = lambda m=m, v=v, k=k: make(m, 255).score(*v, **{**METRICS[m]["kw"], **k})
    for ff, w in (("raw", write_raw), ("mhd", write_mhd), ("nii", write_nii), ("png", lambda d, n, a: write_img(d, n, a[..., 0], ".png"))):
        for j, (sh, dt) in enumerate((((5, 6, 7), "u1"), ((7, 4, 5), "u2"))):
            p = w(t, "%s%d" % (ff, j), image(sh, dt, 71 + j, rng=250))
            out["%s:%d" % (ff, j)] = lambda p=p: arr(viqa.load_data(p))

    def export(j):
        d = os.path.join(t, "e%d_%d" % (j, os.getpid()))
        os.makedirs(d, exist_ok=True)
        ms = [make(n, 255 if j else 65535) for n in (("RMSE", "PSNR") if j else ("SSIM", "RMSE", "CNR"))]
        for k, o in enumerate(ms):
            o.score_val = 0.5 + j + k
        o = viqa.MultipleMetrics(ms, [dict(a=j, b=k) for k in range(len(ms))])
        o.results = {("m%d" % k): 0.25 + j + k for k in range(2 + j)}
        viqa.utils.export_results(ms, d, "a.csv")
        ms[0].export_results(d, "b.csv")
        o.report(csv=True, metadata=True, text=False, file_path=d, project_name=None if j else "p")
        return tuple((n, b"\n".join(x for x in open(os.path.join(d, n), "rb").read().splitlines() if not x.startswith(b"Time"))) for n in sorted(os.listdir(d)))

    def batch(j):
        d = os.path.join(t, "b%d" % j)
        names = ["a%d.png" % k for k in range(3)]
        ms = [("RMSE", {}), ("SNR", nr_kw("SNR", 2))] if j else [("PSNR", {})]
        b = viqa.BatchMetrics(d, os.path.join(d, "p.csv"), [make(m) for m, _ in ms], [k for _, k in ms], rois=[[(1, 9), (1, 9)]] * (2 + j) if j else None)
        return tuple((k, tuple(v.items())) for k, v in b.calculate(**({} if j else dict(data_range=255, normalize=True))).items())
    for j in (0, 1):
        d = os.path.join(t, "b%d" % j)
        os.makedirs(d, exist_ok=True)
        for k in range(3):
            write_img(d, "a%d" % k, image((10 + j, 11), "u1", 81 + k + 4 * j), ".png")
        with open(os.path.join(d, "p.csv"), "w") as h:
            h.write("reference_image;modified_image\n" + "".join("a0.png;a%d.png\n" % (1 + k % 2) for k in range(2 + j)))
        out["export:%d" % j] = lambda j=j: export(j)
        out["batch:%d" % j] = lambda j=j: batch(j)
    ia, ib = image((6, 7), "u1", 1), image((4, 5, 6), "f4", 2)

    def stats(z):
        s = viqa.ImageArray(z)
        s.calculate_statistics()
        return s.mean_value, s.median, s.std, s.max_value
    for j, z in ((0, ia), (1, ib)):
        out["stats:%d" % j] = lambda z=z: arr(np.array(describe(z)))
    ra, rb = [image((8, 9), "u1", 31 + i) for i in range(2)], [image((9, 10), "u1", 41), image((11, 8), "u1", 42)]

    def multi(p, ms, ps):
        r = viqa.MultipleMetrics([make(m) for m in ms], ps).calculate(*p)
        return tuple(r.items())
    out["multi:0"] = lambda: multi(ra, ["RMSE", "CNR"], [{}, nr_kw("CNR", 2)])
    out["multi:1"] = lambda: multi(rb, ["SNR", "RMSE", "UQI"], [nr_kw("SNR", 2, 1), {}, dict(win_size=3)])
    return out


def describe(z):
    s = viqa.ImageArray(z)
    s.calculate_statistics()
    vals = []
    for n in ("mean_value", "mean", "median", "variance", "standarddev", "skewness", "kurtosis", "minimum", "maximum"):
        v = getattr(s, n, None)
        if v is not None and not callable(v):
            vals.append(float(v))
    return vals


SHARED = {m: (0, 1) for m in FR if m not in ("VSI",)}
CHEAP = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "MSSSIM", "CNR", "SNR", "load", "norm", "crop", "multi"]


def scenarios(tier):
    names = FR + NR + ["load", "norm", "crop", "region", "filter", "correlate", "gabor", "stats", "multi", "raw", "mhd", "nii", "png", "export", "batch"]
    for n in names:
        yield ["own", n + ":0", n + ":1"]
    for m in ("RMSE", "SSIM", "FSIM", "SNR"):
        yield ["own", m + ":c", m + ":d"]
    for m in ("FSIM", "GSM", "VIFp"):
        yield ["own", m + ":s", m + ":t"]
    yield ["own", "batch:0", "export:1"]
    yield ["own", "RMSE:d", "SSIM:c"]
    yield ["own", "RMSE:c", "SNR:d"]
    for m in ("RMSE", "SSIM", "GSM", "MAD"):
        yield ["own", m + ":v", m + ":0"]
    for m in NR:
        yield ["own", m + ":a", m + ":0"]
    yield ["own", "CNR:a", "SNR:a"]
    names2 = [n for n in CHEAP] + (["FSIM", "MAD", "VIFp", "region", "filter"] if tier == "thorough" else ["MAD"])
    for a, b in itertools.combinations(names2, 2):
        yield ["own", a + ":0", b + ":1"]
    for m in SHARED:
        yield ["shared", m, ""]


CHUNKS = 8


def keys(tier):
    for s in scenarios(tier):
        heavy = any(x in s[1] + s[2] for x in ("MAD", "FSIM", "VIFp", "VSI", ":v", "filter", "GSM"))
        for c in range(CHUNKS if heavy else 2):
            yield s + [1, c, CHUNKS if heavy else 2]
    if tier == "thorough":
        for s in scenarios(tier):
            if s[1].split(":")[0] in ("RMSE", "PSNR", "CNR", "SNR", "UQI", "norm", "crop", "load") and s[2].split(":")[0] in ("RMSE", "PSNR", "CNR", "SNR", "UQI", "norm", "crop", "load", ""):
                for c in range(CHUNKS):
                    yield s + [2, c, CHUNKS]


def same(a, b):
    if isinstance(a, float) or isinstance(a, np.floating):
        return isinstance(b, (float, np.floating)) and (a == b or abs(a - b) <= 1e-6 * max(1, abs(a)) or a != a and b != b)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


_jobs = None


def run(ctx, key):
    global _jobs
    kind, ja, jb, bound, chunk, n = key
    if _jobs is None:
        _jobs = jobs(ctx)
    prefix = os.path.join(os.environ["VERIF_REPO"], "src", "viqa")
    if kind == "own":
        fresh = lambda: [_jobs[ja], _jobs[jb]]
    else:
        m = ja
        kw = dict(METRICS[m]["kw"])
        sh = METRICS[m]["shape"]
        like = m == "MSSSIM"
        p = [[image(sh, "u1", 1 + i, like=like) for i in range(2)], [image((sh[0] + 2, sh[1] + 1), "u1", 5 + i, like=like) for i in range(2)]]

        def fresh():
            o = make(m)
            return [lambda q=q: o.score(*q, **kw) for q in p]
    fresh()[0]()
    fresh()[1]()
    want = [f() for f in fresh()] if kind == "own" else [make(m).score(*q, **kw) for q in p]

    def norm(v):
        if isinstance(v, (tuple, bytes)):
            return v
        return float(v)
    want = [norm(w) for w in want]
    solo = Controlled(fresh(), prefix)
    solo.record = True
    solo.run([(0, None), (1, None)])
    for i in (0, 1):
        if solo.error[i] is not None:
            raise solo.error[i]
        ctx.check(same(norm(solo.result[i]), want[i]), "sequential run differs", solo.result[i], want[i])

    def points(i):
        lines = solo.lines[i]
        if ctx.tier == "thorough" and bound == 1:
            return list(range(len(lines)))
        visits = {}
        for k, ln in enumerate(lines):
            visits.setdefault(ln, []).append(k)
        pts = set()
        for v in visits.values():
            pts.update(v[:2] + v[-1:])
        return sorted(pts)

    def execute(sched, *tok):
        c = Controlled(fresh(), prefix)
        c.run(sched)
        ctx.op(sum(c.events))
        ctx.state(kind, ja, jb, *tok)
        for i in (0, 1):
            ctx.check(c.error[i] is None, "schedule %s of %s: thread %d raised %r" % (sched, (ja, jb), i, c.error[i]))
            ctx.check(same(norm(c.result[i]), want[i]), "schedule %s of %s: thread %d got %s, alone %s" % (sched, (ja, jb), i, str(c.result[i])[:200], str(want[i])[:200]))
        ctx.trace()

    for first in (0, 1):
        pts = points(first)
        if bound == 1:
            for k in pts[chunk::n]:
                execute([(first, k), (1 - first, None)], first, k)
        else:
            other = points(1 - first)
            for k in pts[chunk::n]:
                for j in other:
                    execute([(first, k), (1 - first, j), (first, None)], first, k, j)
