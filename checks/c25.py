"""C25: perceptual metrics against their reference algorithms (parameter grids, independent evaluation)."""
import contextlib
import functools
import io
import itertools
import warnings

import numpy as np
import piq
import torch
import viqa

from .c20 import DEF, gain
from .common import image, patterns, unit

RULE = ("Explicit enumeration on the real code: for FSIM, VSI, MS-SSIM and VIFp every image pattern pair x element type x data range x shape (2D, color, all slices and all full volumes of 3D) and every "
        "single and pairwise parameter choice against the underlying library called on the plain pixel values; for GSM and MAD every image pattern pair x type x range x shape and the full cross product of "
        "two to three values per documented parameter against an independent evaluation of the documented formula. States: (metric, shape, type, range, pattern, parameters); transitions: score calls; "
        "traces: compared scores.")
ASSUMPTIONS = ["piq computes the published algorithms of FSIM, VSI, MS-SSIM and VIFp", "MAD: images larger than two blocks, block size >= 2; GSM: images with a gradient",
               "MAD: cases with a block mean within 1e-6 of the (discontinuous) luminance threshold are left out"]

PIQ = {"FSIM": piq.fsim, "VSI": piq.vsi, "MSSSIM": piq.multi_scale_ssim, "VIFp": piq.vif_p}
GRID = {
    "FSIM": {"scales": [3, 5], "orientations": [2, 6], "min_length": [4, 8], "mult": [3], "sigma_f": [0.4, 0.7], "delta_theta": [1.0, 1.6], "k": [1.0, 3.0]},
    "VSI": {"c1": [0.9, 3.0], "c2": [200.0, 500.0], "c3": [60.0, 250.0], "alpha": [0.2, 0.9], "beta": [0.05, 0.3], "omega_0": [0.01, 0.05], "sigma_f": [1.0, 2.0], "sigma_d": [50.0, 300.0], "sigma_c": [0.01]},
    "MSSSIM": {"kernel_size": [5, 7], "kernel_sigma": [0.8, 2.5], "scale_weights": [[0.5, 0.5], [0.2, 0.3, 0.5], [1.0]], "k1": [0.05, 0.2], "k2": [0.01, 0.3]},
    "VIFp": {"sigma_n_sq": [0.4, 5.0]},
}
BASE = {"FSIM": {}, "VSI": {}, "MSSSIM": {"scale_weights": [0.4, 0.6], "kernel_size": 5}, "VIFp": {}}
SIZE = {"FSIM": (20, 23), "VSI": (20, 23), "MSSSIM": (27, 30), "VIFp": (41, 43)}
PAIRS = [("noise1", "blend"), ("blend", "noise2"), ("ramp", "noise1"), ("weak", "blend"), ("step", "blend")]
RANGES = [("u1", 255), ("u2", 65535), ("f4", 1), ("f8", 1), ("f4", 255), ("f8", 65535), ("u1", 65535)]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
            return f()


def tensor(a, color, volume_dim=None):
    a = np.array(a, dtype=a.dtype if a.dtype in (np.float32, np.float64) else np.float32)
    if color:
        return torch.tensor(np.stack([a[..., i] for i in range(3)])[None].copy())
    if volume_dim is None:
        return torch.tensor(a[None, None].copy())
    return torch.tensor(np.stack([np.take(a, i, axis=volume_dim) for i in range(a.shape[volume_dim])])[:, None].copy())


def library(name, a, b, rng, kw, color=False, volume_dim=None):
    kw = dict(kw)
    if isinstance(kw.get("scale_weights"), list):
        kw["scale_weights"] = torch.tensor(kw["scale_weights"])
    if name == "FSIM":
        kw["chromatic"] = color
    return quiet(lambda: float(PIQ[name](tensor(a, color, volume_dim), tensor(b, color, volume_dim), data_range=rng, **kw)))


# ------------------------------------------------------------------ GSM
ORDER2 = ["gsm_kernel_2d_x", "gsm_kernel_2d_y", "gsm_kernel_2d_xy", "gsm_kernel_2d_yx"]
ORDER3 = ["gsm_kernel_" + s for s in ("x", "y", "z", "xy1", "xy2", "yz1", "yz2", "xz1", "xz2", "xyz1", "xyz2", "xyz3", "xyz4")]


def correlate(a, k):
    pad = np.pad(a, k.shape[0] // 2, mode="symmetric")
    out = np.zeros(a.shape)
    for o in itertools.product(*map(range, k.shape)):
        if k[o]:
            out += k[o] * pad[tuple(slice(i, i + s) for i, s in zip(o, a.shape))]
    return out


def gsm_ref(a, b, rng, c=200, p=0.1):
    """None: the largest gradient is not unique (the kernel choice is not determined)"""
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    best, strength = [], []
    for im in (a, b):
        g = [correlate(im, DEF[n]) for n in (ORDER2 if im.ndim == 2 else ORDER3)]
        m = sorted(((np.abs(x).mean(), i) for i, x in enumerate(g)), reverse=True)
        if m[0][0] == 0 or m[0][0] - m[1][0] < 1e-6 * m[0][0]:
            return None
        best.append(g[m[0][1]])
        strength.append(m[0][0])
    if abs(strength[0] - strength[1]) < 1e-6 * strength[0]:
        return None
    k = c / max(best[0].max(), best[1].max())
    den = best[int(strength[1] > strength[0])]
    if (np.abs(den) < 1e-9 * np.abs(den).max()).any():
        return None  # quotient by zero: not a number or infinite, depending on rounding
    r = np.abs(best[0] - best[1]) / den
    s = (2 * (1 - r) + k) / (1 + (1 - r) ** 2 + k)
    lum = 1 - ((a - b) / rng) ** 2
    w = p * s
    return float(np.mean((1 - w) * s + w * lum))


# ------------------------------------------------------------------ MAD
@functools.lru_cache(maxsize=400)
def gains(shape, scale, orient, norient):
    return gain(shape, scale, orient, norient, 3, 3, 0.55, 1.5)


def windows(x, bs, st):
    return np.lib.stride_tricks.sliding_window_view(x, (bs, bs))[::st, ::st].reshape(-1, bs * bs), ((x.shape[0] - bs) // st + 1, (x.shape[1] - bs) // st + 1)


def spread(v, grid, st, shape):
    out = np.full(shape, np.nan)
    t = np.repeat(np.repeat(np.asarray(v).reshape(grid), st, 0), st, 1)[:shape[0], :shape[1]]
    out[:t.shape[0], :t.shape[1]] = t
    return out


def moments(x, bs, st):
    w, grid = windows(x, bs, st)
    d = w - w.mean(1, keepdims=True)
    n = bs * bs
    flat = np.ptp(w, axis=1) == 0
    s2 = (d ** 2).mean(1)
    with np.errstate(all="ignore"):
        res = [np.sqrt(s2 * n / (n - 1)), np.where(flat, 0, (d ** 3).mean(1) / s2 ** 1.5), np.where(flat, 0, (d ** 4).mean(1) / s2 ** 2)]
    return [spread(r, grid, st, x.shape) for r in res]


def min_dev(x, bs, st):
    w, grid = windows(x, bs, st)
    dev = spread(w.std(1, ddof=1), grid, st, x.shape)
    out = np.zeros(grid)
    m, n = x.shape
    for a in range(grid[0]):
        for b in range(grid[1]):
            i, j = a * st, b * st
            c = [dev[i, j]]
            for u in range(i, min(m - bs + 1, i + bs // 2), st + 1):
                for v in range(j, min(n - bs + 1, j + bs // 2), st + 1):
                    c.append(dev[u, v])
            out[a, b] = min(c)
    return spread(out, grid, st, x.shape)


def sensitivity(shape, cpd, lam, peak):
    m, n = shape
    out = np.zeros(shape)
    for i in range(m):
        for j in range(n):
            y, x = i - m / 2 + 0.5, j - n / 2 + 0.5
            f = np.hypot(x, y) * 2 * cpd / n
            f /= 0.15 * np.cos(4 * np.arctan2(y, x)) + 0.85
            out[i, j] = 0.9809 if f < peak else 2.6 * (0.0192 + lam * f) * np.exp(-(lam * f) ** 1.1)
    return np.fft.ifftshift(out)


def mad_ref(a, b, rng, block_size=16, block_overlap=0.75, beta_1=0.467, beta_2=0.130, thresh_1=None, thresh_2=None, account_monitor=False, display_function=None,
            luminance_function=None, ms_scale=1, orientations_num=4, scales_num=5, weights=(0.5, 0.75, 1, 5, 6), csf_function=None):
    """None: within rounding of the luminance threshold"""
    bs = block_size
    st = bs - int(block_overlap * bs)
    if thresh_1 and thresh_2:
        beta_1, beta_2 = np.exp(-thresh_1 / thresh_2), 1 / (np.log(10) * thresh_2)
    cpd = display_function["disp_res"] * display_function["view_dis"] * np.tan(np.pi / 180) / 2 if account_monitor else 32
    lf, cf = luminance_function or {}, csf_function or {}
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    csf = sensitivity(a.shape, cpd, cf.get("lambda_csf", 0.114), cf.get("f_peak", 7.8909))
    fa, fb = [np.real(np.fft.ifft2(np.fft.fft2(lf.get("b", 0) + lf.get("k", 0.02874) * x ** (lf.get("gamma", 2.2) / 3)) * csf)) for x in (a, b)]
    w, grid = windows(fa, bs, st)
    mu = spread(w.mean(1), grid, st, a.shape)
    err = spread(windows(fb - fa, bs, st)[0].std(1, ddof=1), grid, st, a.shape)
    inner = (slice(bs, -bs), slice(bs, -bs))
    if (np.abs(mu[inner] - 0.5) < 1e-6).any():
        return None
    with np.errstate(all="ignore"):
        co = np.log(min_dev(fa, bs, st) / mu)
        ce = np.log(np.where(mu > 0.5, err / mu, 0))
        vis = np.where(co > -5, np.where(ce > co, ce - co, 0), np.where((co <= -5) & (ce > -5), ce + 5, 0)) / ms_scale
    # uniform window, centered at bs // 2, mirrored at the border
    e2 = (a - b) ** 2
    lo = bs - 1 - bs // 2
    pad = np.pad(e2, ((lo, bs - 1 - lo),) * 2, mode="symmetric")
    mse = np.lib.stride_tricks.sliding_window_view(pad, (bs, bs)).mean((2, 3))
    q = (vis * mse)[inner]
    detect = np.sqrt((q ** 2).mean()) * 200
    wt = np.array(weights, "f8") / np.sum(weights)
    tot = np.zeros(a.shape)
    A, B = np.fft.fft2(a), np.fft.fft2(b)
    for s in range(scales_num):
        for o in range(orientations_num):
            g = gains(a.shape, s, o, orientations_num)
            ma, mb = moments(np.abs(np.fft.ifft2(A * g)), bs, st), moments(np.abs(np.fft.ifft2(B * g)), bs, st)
            tot += wt[s] * sum(f * np.abs(x - y) for f, x, y in zip((1, 2, 1), ma, mb))
    appear = np.sqrt((tot[inner] ** 2).mean())
    al = 1 / (1 + beta_1 * detect ** beta_2)
    return float(detect ** al * appear ** (1 - al))


MADGRID = {"block_overlap": [0.5, 0.3, 0.0], "beta_1": [0.2, 1.0], "beta_2": [0.05, 0.4], "thresh": [(2.0, 3.0), (4.0, 1.5)], "monitor": [(40.0, 30.0), (72.0, 50.0)],
           "luminance_function": [{"b": 0.3, "k": 0.02, "gamma": 2.0}, {"gamma": 1.8}, {"k": 0.05}, {"b": 0.9}], "ms_scale": [2.0, 0.5], "orientations_num": [2, 3, 5],
           "scales": [(3, [1.0, 2.0, 4.0]), (5, [3, 1, 1, 2, 1]), (2, [5.0, 1.0])], "csf_function": [{"lambda_csf": 0.2, "f_peak": 5.0}, {"f_peak": 12.0}, {"lambda_csf": 0.05}]}


def expand(d):
    out = {}
    for k, v in d.items():
        if k == "thresh":
            out["thresh_1"], out["thresh_2"] = v
        elif k == "monitor":
            out["account_monitor"], out["display_function"] = True, {"disp_res": v[0], "view_dis": v[1]}
        elif k == "scales":
            out["scales_num"], out["weights"] = v[0], list(v[1])
        else:
            out[k] = v
    return out


def singles_pairs(grid, pairs=True):
    yield {}
    for k, vs in grid.items():
        for v in vs:
            yield {k: v}
    if pairs:
        for (k, vs), (l, ws) in itertools.combinations(grid.items(), 2):
            for v, w in itertools.product(vs, ws):
                yield {k: v, l: w}


def keys(tier):
    deep = tier != "quick"
    for name in PIQ:
        for ti in range(len(RANGES)):
            yield ["images", name, ti]
        n = len(list(singles_pairs(GRID[name], deep or name != "VSI")))
        for lo in range(0, n, 12):
            yield ["params", name, lo, lo + 12, deep or name != "VSI"]
        for dim in (0, 1, 2):
            yield ["volume", name, dim]
        yield ["color", name]
    for ti in range(len(RANGES)):
        yield ["gsm", ti]
        for pi in range(len(PAIRS)):
            yield ["mad", ti, pi]
        yield ["madlow", ti]
    for d in (0, 1, 2):
        yield ["gsm3", d]
        yield ["mad3", d]
    yield ["gsmx"]
    for sh in ((48, 52), (70, 40), (40, 130), (65, 66)):
        yield ["madbig", list(sh)]
        yield ["gsmbig", list(sh)]
        for name in PIQ:
            if name != "VIFp" or min(sh) > 40:
                yield ["piqbig", name, list(sh)]
    for name in PIQ:
        yield ["piqbig", name, [257, 70]]
    yield ["piqbig", "MSSSIM", [161, 170]]
    n = len(list(singles_pairs(MADGRID)))
    for lo in range(0, n, 8):
        yield ["madparams", lo, lo + 8]
    if deep:
        for bs in range(2, 9):
            for sh in itertools.product(range(2 * bs + 1, 2 * bs + 6), repeat=2):
                yield ["madgeom", bs, list(sh)]
    else:
        for bs in range(2, 7):
            for sh in itertools.product((2 * bs + 1, 2 * bs + 4), (2 * bs + 2, 2 * bs + 5)):
                yield ["madgeom", bs, list(sh)]


def make(name, rng, **kw):
    return getattr(viqa, name)(data_range=rng, **kw)


def compare(ctx, name, m, a, b, want, what, rtol=2e-4, **kw):
    sa, sb = np.array(a), np.array(b)
    got = quiet(lambda: m.score(a, b, **kw))
    ctx.op()
    g = float(got)
    ctx.check(abs(g - want) <= rtol * max(1e-3, abs(want)), name, what, "score", g, "instead of", want)
    ctx.check(abs(float(m.score_val) - g) <= 1e-12 * max(1, abs(g)), name, what, "recorded", m.score_val, "returned", g)
    ctx.check(np.array_equal(a, sa) and np.array_equal(b, sb), name, what, "changed its input")
    ctx.trace()


def run(ctx, key):
    torch.set_num_threads(1)
    kind = key[0]
    if kind == "images":
        name, (dt, rng) = key[1], RANGES[key[2]]
        sh = SIZE[name]
        top = min(rng, 255) if dt == "u1" else rng
        P = patterns(sh, dt, top)
        for shape_no, cut in enumerate(((0, 0), (1, 0), (0, 2))):
            if shape_no and name == "VIFp":
                cut = (-cut[0], -cut[1])
            for x, y in PAIRS if shape_no == 0 else PAIRS[:1]:
                a, b = P[x], P[y]
                a, b = [np.ascontiguousarray(np.pad(v, ((0, max(0, -cut[0])), (0, max(0, -cut[1]))), mode="wrap")[:v.shape[0] - cut[0] if cut[0] > 0 else None, :v.shape[1] - cut[1] if cut[1] > 0 else None]) for v in (a, b)]
                ctx.state(name, dt, rng, a.shape, x, y)
                compare(ctx, name, make(name, rng), a, b, library(name, a, b, rng, BASE[name]), (a.shape, dt, rng, x, y), **BASE[name])
    elif kind == "params":
        name = key[1]
        a, b = image(SIZE[name], "f4", 31, 255, True), image(SIZE[name], "f4", 32, 255, True)
        for p in list(singles_pairs(GRID[name], key[4]))[key[2]:key[3]]:
            kw = dict(BASE[name], **p)
            ctx.state(name, str(p))
            arg = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
            compare(ctx, name, make(name, 255), a, b, library(name, a, b, 255, kw), kw, **arg)
            if isinstance(kw.get("scale_weights"), list):
                compare(ctx, name, make(name, 255), a, b, library(name, a, b, 255, kw), (kw, "weights as tensor"), **dict(kw, scale_weights=torch.tensor(kw["scale_weights"])))
    elif kind == "volume":
        name, dim = key[1], key[2]
        s = SIZE[name]
        sh = [s[0], s[1], s[0] + 2]
        sh[dim] = 4
        a, b = unit(sh, 41) * 255, unit(sh, 42) * 255
        b = 0.6 * a + 0.4 * b
        for dt in ("u1", "f4", "f8"):
            x, y = a.astype(dt), b.astype(dt)
            m = make(name, 255)
            ctx.state(name, dim, dt)
            compare(ctx, name, m, x, y, library(name, x, y, 255, BASE[name], volume_dim=dim), ("volume", dim, dt), dim=dim, **BASE[name])
            for i in (0, 1, 3) if name != "VSI" else (0, 3):
                u, v = np.take(x, i, axis=dim), np.take(y, i, axis=dim)
                compare(ctx, name, m, x, y, library(name, u, v, 255, BASE[name]), ("slice", dim, i, dt), dim=dim, im_slice=i, **BASE[name])
        if name != "VSI":
            extra = {k: vs[0] for k, vs in GRID[name].items()}
            compare(ctx, name, make(name, 255), x, y, library(name, x, y, 255, extra, volume_dim=dim), ("volume", dim, extra), dim=dim, **extra)
            compare(ctx, name, make(name, 255), x, y, library(name, np.take(x, 2, axis=dim), np.take(y, 2, axis=dim), 255, extra), ("slice", dim, extra), dim=dim, im_slice=2, **extra)
    elif kind == "color":
        name = key[1]
        sh = SIZE[name] + (3,)
        for dt, rng in RANGES:
            top = min(rng, 255) if dt == "u1" else rng
            for sa, sb in ((51, 52), (53, 51)):
                a, b = image(sh, dt, sa, top, True), image(sh, dt, sb, top, True)
                ctx.state(name, "color", dt, rng, sa)
                compare(ctx, name, make(name, rng, chromatic=True), a, b, library(name, a, b, rng, BASE[name], color=True), ("color", dt, rng), **BASE[name])
        for p in singles_pairs(GRID[name], False):
            kw = dict(BASE[name], **p)
            compare(ctx, name, make(name, rng, chromatic=True), a, b, library(name, a, b, rng, kw, color=True), ("color", kw), **kw)
    elif kind == "gsm":
        dt, rng = RANGES[key[1]]
        top = min(rng, 255) if dt == "u1" else rng
        for sh in ((5, 6), (8, 7), (12, 12)):
            P = patterns(sh, dt, top)
            done = 0
            for x, y in itertools.permutations(sorted(P), 2):
                a, b = P[x], P[y]
                for c, p in itertools.product((200, 50, 1000), (0.1, 0.5, 0.0)) if (x, y) in PAIRS else [(200, 0.1)]:
                    want = gsm_ref(a, b, rng, c, p)
                    if want is None:
                        continue
                    done += 1
                    ctx.state("GSM", dt, rng, sh, x, y, c, p)
                    kw = {} if (c, p) == (200, 0.1) else {"c": c, "p": p}
                    compare(ctx, "GSM", make("GSM", rng), a, b, want, (sh, dt, rng, x, y, kw), rtol=1e-3 if dt == "f4" else 1e-6, **kw)
            ctx.check(done >= 5, "GSM: too few determined cases", sh, dt, done)
    elif kind == "gsm3":
        d = key[1]
        sh = [7, 8, 9]
        sh[d] = 4
        a, b = unit(sh, 61) * 255, unit(sh, 62) * 255
        b = 0.6 * a + 0.4 * b
        for dt in ("u1", "i4", "f8"):
            x, y = a.astype(dt), b.astype(dt)
            vals = [gsm_ref(np.take(x, i, axis=d), np.take(y, i, axis=d), 255, 100, 0.3) for i in range(4)]
            ctx.state("GSM", d, dt)
            for i, v in enumerate(vals):
                if v is not None:
                    compare(ctx, "GSM", make("GSM", 255), x, y, v, ("slice", d, i), rtol=1e-6, dim=d, im_slice=i, c=100, p=0.3)
            if None not in vals:
                compare(ctx, "GSM", make("GSM", 255), x, y, float(np.mean(vals)), ("volume", d), rtol=1e-6, dim=d, c=100, p=0.3)
    elif kind == "gsmx":
        done = 0
        for seed, sh in itertools.product(range(70, 76), ((6, 7, 8), (9, 6, 6), (5, 5, 7))):
            ramp = np.indices(sh)
            for w in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (1, 0, 1), (1, 0, -1), (0, 1, 1), (0, 1, -1), (1, 1, 1), (1, 1, -1), (1, -1, 1), (-1, 1, 1)):
                base = sum(k * r for k, r in zip(w, ramp)) * 12.0
                a = base - base.min() + unit(sh, seed) * 4
                b = base - base.min() + unit(sh, seed + 20) * 9
                want = gsm_ref(a, b, 255)
                if want is None:
                    continue
                done += 1
                ctx.state("GSM", "3d", sh, seed, w)
                for d in (0, 1, 2):
                    compare(ctx, "GSM", make("GSM", 255), a, b, want, ("experimental", sh, w, d), rtol=1e-6, dim=d, experimental=True)
        ctx.check(done >= 20, "GSM: too few determined cases", done)
        # plane waves at a frequency where one kernel responds most: every kernel is decisive for one of them
        pos = np.indices((5, 5, 5)).reshape(3, -1) - 2
        W = np.array(list(itertools.product(np.arange(-6, 7) * np.pi / 6.5, repeat=3)))
        G = np.abs(np.stack([np.exp(1j * (W @ pos)) @ DEF[n].ravel() for n in ORDER3]))
        for i, n in enumerate(ORDER3):
            w = W[np.argmax(G[i] / (np.delete(G, i, 0).max(0) + 1e-9))]
            hit = 0
            for sh, phase, seed in itertools.product(((7, 8, 9), (9, 9, 8)), (0.4, 1.1), (70, 71)):
                base = 120 + 60 * np.cos(sum(f * x for f, x in zip(w, np.indices(sh))) + phase)
                a, b = base + unit(sh, seed) * 3, base + unit(sh, seed + 20) * 9
                top = max(ORDER3, key=lambda m: np.abs(correlate(a, DEF[m])).mean())
                want = gsm_ref(a, b, 255)
                if want is None:
                    continue
                hit += top == n
                ctx.state("GSM", "wave", n, sh, phase, seed)
                compare(ctx, "GSM", make("GSM", 255), a, b, want, ("wave", n, sh, phase), rtol=1e-6, dim=0, experimental=True)
            ctx.check(hit > 0, "kernel never decisive", n)
    elif kind == "mad":
        dt, rng = RANGES[key[1]]
        x, y = PAIRS[key[2]]
        top = min(rng, 255) if dt == "u1" else rng
        for sh, bs in (((13, 14), 4), ((34, 37), 16), ((20, 15), 6)):
            P = patterns(sh, dt, top)
            a, b = P[x], P[y]
            if min(a.std(), b.std()) == 0 or x == "step":
                a = (a // 2 + P["noise2"] // 2 if dt[0] == "u" else (a / 2 + P["noise2"] / 2)).astype(dt)
            want = quiet(lambda: mad_ref(a, b, rng, block_size=bs))
            if want is None:
                continue
            ctx.state("MAD", dt, rng, sh, x, y)
            ctx.check(np.isfinite(want), "degenerate case", want)
            compare(ctx, "MAD", make("MAD", rng), a, b, want, (sh, dt, rng, x, y, bs), rtol=1e-3 if dt == "f4" else 1e-6, **({} if bs == 16 else {"block_size": bs}))
    elif kind == "piqbig":
        name, sh = key[1], tuple(key[2])
        kw = {} if name != "MSSSIM" or min(sh) > 160 else BASE[name]
        for dt, rng in (("u1", 255), ("f8", 1), ("u2", 65535)):
            P = patterns(sh, dt, rng)
            for x, y in PAIRS[:3]:
                ctx.state(name, sh, dt, x, y)
                compare(ctx, name, make(name, rng), P[x], P[y], library(name, P[x], P[y], rng, kw), (sh, dt, rng, x, y), **kw)
    elif kind == "gsmbig":
        sh = tuple(key[1])
        for dt, rng in (("u1", 255), ("f8", 1), ("u2", 65535)):
            P = patterns(sh, dt, rng)
            for x, y in PAIRS[:4]:
                want = gsm_ref(P[x], P[y], rng)
                if want is None:
                    continue
                ctx.state("GSM", sh, dt, x, y)
                compare(ctx, "GSM", make("GSM", rng), P[x], P[y], want, (sh, dt, rng, x, y), rtol=1e-4)
    elif kind == "madbig":
        sh = tuple(key[1])
        for dt, rng in (("u1", 255), ("u2", 65535), ("f8", 255)):
            P = patterns(sh, dt, rng)
            for x, y in PAIRS[:3]:
                for kw in ({}, {"block_size": 8, "block_overlap": 0.5}, {"block_size": 12}):
                    want = quiet(lambda: mad_ref(P[x], P[y], rng, **kw))
                    if want is None or not np.isfinite(want):
                        continue
                    ctx.state("MAD", sh, dt, x, y, str(kw))
                    compare(ctx, "MAD", make("MAD", rng), P[x], P[y], want, (sh, dt, rng, x, y, kw), rtol=1e-6, **kw)
    elif kind == "madlow":
        # nearly flat and dark areas: both branches of the visibility threshold, blocks below the luminance threshold
        dt, rng = RANGES[key[1]]
        top = min(rng, 255) if dt == "u1" else rng
        sh, hit = (21, 22), [0, 0]
        i, j = np.indices(sh)
        wave = np.sin(0.7 * i + 0.3 * j) + np.cos(0.2 * i - 0.9 * j)
        noise = unit(sh, 7) - 0.5
        step = (j > 12) * 1.0
        for level, amp, err, dark in itertools.product((0.4, 0.8), (0.003, 0.02, 0.15), (0.01, 0.1, 0.3), (0, 1)):
            a = np.clip(level + amp * wave, 0.01, 1)
            a = a * (1 - dark * 0.97 * step)
            b = np.clip(a + err * noise * (1 - 0.9 * dark * step), 0, 1)
            a, b = [(np.floor(v * top) if dt[0] == "u" else v * top).astype(dt) for v in (a, b)]
            lf = {"k": 1.0 / top ** (2.2 / 3)}
            if err == 0.1:
                lf["b"] = 0.2
            kw = {"block_size": 4, "luminance_function": lf}
            want = quiet(lambda: mad_ref(a, b, rng, **kw))
            if want is None or not np.isfinite(want):
                continue
            ctx.state("MAD", "low", dt, rng, level, amp, err, dark)
            hit[want > 0] += 1
            compare(ctx, "MAD", make("MAD", rng), a, b, want, ("low", dt, rng, level, amp, err, dark), rtol=2e-3 if dt == "f4" else 1e-5, **kw)
        ctx.check(hit[1] > 8, "too few determined cases", hit)
    elif kind == "mad3":
        d = key[1]
        sh = [13, 14, 15]
        sh[d] = 3 if d != 2 else 4
        a, b = unit(sh, 81) * 255, unit(sh, 82) * 255
        b = 0.6 * a + 0.4 * b
        for dt in ("u1", "f8"):
            x, y = a.astype(dt), b.astype(dt)
            kw = {"block_size": 4, "ms_scale": 2.0, "beta_1": 0.3}
            vals = [quiet(lambda: mad_ref(np.take(x, i, axis=d), np.take(y, i, axis=d), 255, **kw)) for i in range(sh[d])]
            ctx.state("MAD", d, dt)
            for i, v in enumerate(vals):
                if v is not None:
                    compare(ctx, "MAD", make("MAD", 255), x, y, v, ("slice", d, i), rtol=1e-6, dim=d, im_slice=i, **kw)
            if None not in vals:
                compare(ctx, "MAD", make("MAD", 255), x, y, float(np.mean(vals)), ("volume", d), rtol=1e-6, dim=d, **kw)
    elif kind == "madparams":
        sh = (15, 18)
        i, j = np.indices(sh)
        a = (40 + 9 * i + 20 * np.sin(j) + 60 * unit(sh, 91) * (j < 9)).astype("u1")
        b = (0.4 * a + 150 * unit(sh, 92)).astype("u1")
        for p in list(singles_pairs(MADGRID))[key[1]:key[2]]:
            kw = dict(block_size=4, **expand(p))
            ctx.state("MAD", str(p))
            for x, y in ((a, b), (b.astype("f8"), a.astype("f8"))):
                want = quiet(lambda: mad_ref(x, y, 255, **kw))
                if want is None:
                    continue
                kk = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in kw.items()}
                compare(ctx, "MAD", make("MAD", 255), x, y, want, kw, rtol=1e-6, **kk)
                ctx.check(kk == kw, "parameters changed", kw)
    else:
        bs, sh = key[1], tuple(key[2])
        for st in range(1, bs + 1):
            # overlap fraction that leads to this stride
            ov = (bs - st) / bs + 1e-9
            for s in (95, 96):
                a = image(sh, "u1", s, 255, True)
                b = image(sh, "u1", s + 4, 255, True)
                want = quiet(lambda: mad_ref(a, b, 255, block_size=bs, block_overlap=ov))
                if want is None or not np.isfinite(want):
                    continue
                ctx.state("MAD", bs, sh, st, s)
                compare(ctx, "MAD", make("MAD", 255), a, b, want, (bs, sh, st), rtol=1e-6, block_size=bs, block_overlap=ov)
