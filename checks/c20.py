"""C20: kernels and filter operations (explicit enumeration of kernels, border modes, sizes and parameters)."""
import itertools

import numpy as np
import viqa
from viqa import kernels as K
from viqa.utils import correlate_convolve_abs, gabor_convolve

from .common import image

RULE = ("Explicit enumeration on the real code: every kernel function x every call history of (call, overwrite the returned array, call again); every image shape up to 5x5 (thorough 6x6) and 3x3x3, "
        "every kernel size 1..5 (larger images up to 300 with sizes up to 9), both modes, all border modes, constant values and element types against an index-arithmetic reference; every image shape 2..9 (thorough 12) squared x "
        "scales x orientations x parameter sets for the log-Gabor bank, with all unit impulses as input for the smaller shapes (which determines the linear operator completely). "
        "States: (function, parameters, input); transitions: calls; traces: comparisons with the reference.")

YZ1 = "0 0 0 0 0 0 -1 0 0 0 0 0 0 0 0 0 0 0 1 0 0 0 0 0 0 0 0 0 0 0 0 -3 -1 0 0 0 -1 0 1 0 0 0 1 3 0 0 0 0 0 0 0 0 -1 0 0 0 -8 -3 0 0 -1 -3 0 3 1 0 0 3 8 0 0 0 1 0 0 0 0 0 0 0 0 -3 -1 0 0 0 -1 0 1 0 0 0 1 3 0 0 0 0 0 0 0 0 0 0 0 0 -1 0 0 0 0 0 0 0 0 0 0 0 1 0 0 0 0 0 0"
XYZ1 = "0 -1 0 0 0 1 0 0 -1 0 0 0 0 0 0 0 1 0 0 -1 0 0 0 1 0 0 0 0 0 0 0 0 -3 0 0 0 3 0 -3 0 0 0 3 0 0 0 0 0 0 0 0 0 -1 0 0 0 0 0 -8 0 1 0 0 0 -1 0 8 0 0 0 0 0 1 0 0 0 0 0 0 0 0 0 -3 0 0 0 3 0 -3 0 0 0 3 0 0 0 0 0 0 0 0 -1 0 0 0 1 0 0 -1 0 0 0 0 0 0 0 1 0 0 -1 0 0 0 1 0"


def cube(text):
    return np.array([int(v) for v in text.split()]).reshape(5, 5, 5)


def axis_kernel(n, axis, weight, ndim=3, sign=1):
    """antisymmetric along axis (distance 1 from the center), weighted by the distance from the axis"""
    k = np.zeros((n,) * ndim, int)
    c = n // 2
    for p in itertools.product(range(n), repeat=ndim):
        d = p[axis] - c
        if abs(d) == 1:
            k[p] = sign * d * weight([abs(p[a] - c) for a in range(ndim) if a != axis])
    return k


def table(*w):
    return lambda off: w[sum(off)] if sum(off) < len(w) else 0


def definitions():
    d = {}
    for ax, name in enumerate("xyz"):
        d["gsm_kernel_" + name] = axis_kernel(5, ax, table(8, 3, 1))
        d["sobel_kernel_" + name] = axis_kernel(3, ax, table(2, 1))
        d["scharr_kernel_" + name] = axis_kernel(3, ax, table(162, 47))
    for ax, name in enumerate("xyz"):
        d["prewitt_kernel_" + name] = axis_kernel(3, ax, lambda off, name=name: int(off[{"x": 1, "y": 0, "z": 0}[name]] == 0))
    for name, ax in (("x", 1), ("y", 0)):
        d["gsm_kernel_2d_" + name] = axis_kernel(5, ax, table(8, 3, 1), 2)
        d["sobel_kernel_2d_" + name] = axis_kernel(3, ax, table(2, 1), 2, -1)
        d["scharr_kernel_2d_" + name] = axis_kernel(3, ax, table(10, 3), 2, -1)
        d["prewitt_kernel_2d_" + name] = axis_kernel(3, ax, table(1, 1), 2, -1)
    yz1, xyz1 = cube(YZ1), cube(XYZ1)
    d["gsm_kernel_2d_yx"] = yz1[2]
    d["gsm_kernel_2d_xy"] = yz1[2][:, ::-1]
    d["gsm_kernel_yz1"] = yz1
    d["gsm_kernel_yz2"] = yz1[:, :, ::-1]
    d["gsm_kernel_xz1"] = yz1.transpose(1, 0, 2)
    d["gsm_kernel_xz2"] = yz1.transpose(1, 0, 2)[::-1]
    d["gsm_kernel_xy1"] = yz1.transpose(2, 1, 0)
    d["gsm_kernel_xy2"] = yz1.transpose(2, 1, 0)[::-1]
    d["gsm_kernel_xyz1"] = xyz1
    d["gsm_kernel_xyz2"] = xyz1.transpose(0, 2, 1)[:, ::-1]
    d["gsm_kernel_xyz3"] = xyz1.transpose(1, 0, 2)[::-1]
    d["gsm_kernel_xyz4"] = xyz1.transpose(2, 1, 0)[::-1]
    return d


DEF = definitions()
AXES = {"x": (0,), "y": (1,), "z": (2,), "xy1": (0, 1), "xy2": (0, 1), "xz1": (0, 2), "xz2": (0, 2), "yz1": (1, 2), "yz2": (1, 2),
        "2d_x": (1,), "2d_y": (0,), "2d_xy": (0, 1), "2d_yx": (0, 1)}


def border(i, n, mode):
    """index of the pixel standing in for index i, None: constant"""
    if 0 <= i < n:
        return i
    if mode == "constant":
        return None
    if mode == "nearest":
        return min(max(i, 0), n - 1)
    if mode == "wrap":
        return i % n
    if mode == "reflect":
        if n == 1:
            return 0
        i %= 2 * (n - 1)
        return i if i < n else 2 * (n - 1) - i
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def filter_ref(img, kernel, mode, bmode, value):
    if mode == "convolve":
        kernel = kernel[tuple([slice(None, None, -1)] * kernel.ndim)]
    n = kernel.shape[0]
    out = np.zeros(img.shape)
    maps = [[[border(p + o - n // 2, s, bmode) for p in range(s)] for o in range(n)] for s in img.shape]
    x = np.asarray(img, dtype=float)
    for o in itertools.product(range(n), repeat=img.ndim):
        rows = [maps[a][o[a]] for a in range(img.ndim)]
        v = x[np.ix_(*[[0 if i is None else i for i in r] for r in rows])]
        for a, r in enumerate(rows):
            for i, q in enumerate(r):
                if q is None:
                    v[(slice(None),) * a + (i,)] = value
        out += np.abs(float(kernel[o]) * v)
    return out / n ** img.ndim


def gain(shape, scale, orient, norient, minw, mult, bw, dts):
    """transfer function at the signed frequencies of the DFT"""
    f = []
    for n in shape:
        k = np.arange(n)
        k = np.where(k < (n + 1) // 2, k, k - n)
        f.append(k / (n / 2 if n % 2 == 0 else (n - 1) / 2))
    fy, fx = np.meshgrid(*f, indexing="ij")
    r = np.hypot(fx, fy)
    r[0, 0] = 1
    radial = np.exp(-np.log(r / (2.0 / (minw * mult ** scale))) ** 2 / (2 * np.log(bw) ** 2))
    dist = np.abs((np.arctan2(-fy, fx) - orient * np.pi / norient + np.pi) % (2 * np.pi) - np.pi)
    h = radial * np.exp(-dist ** 2 / (2 * (np.pi / norient / dts) ** 2))
    h[0, 0] = 0
    return h


PARAMS = [{}, {"min_wavelength": 4}, {"wavelength_scaling": 2}, {"bandwidth_param": 0.65}, {"d_theta_on_sigma": 1.2},
          {"min_wavelength": 5, "wavelength_scaling": 2.1, "bandwidth_param": 0.74, "d_theta_on_sigma": 2.0}]
SLOW = [{"wavelength_scaling": 1.15}, {"wavelength_scaling": 1.05, "min_wavelength": 2}]
NAMES = ["min_wavelength", "wavelength_scaling", "bandwidth_param", "d_theta_on_sigma"]
DFLT = {"min_wavelength": 3, "wavelength_scaling": 3, "bandwidth_param": 0.55, "d_theta_on_sigma": 1.5}
BORDERS = ["constant", "reflect", "nearest", "mirror", "wrap"]


def keys(tier):
    for n in sorted(DEF):
        yield ["kernel", n]
    top = 5 if tier == "quick" else 6
    for a in range(1, top + 1):
        for b in range(1, top + 1):
            for n in range(1, 6):
                yield ["filter", [a, b], n]
    s3 = [1, 2, 3] if tier == "quick" else [1, 2, 3, 4]
    for sh in itertools.product(s3, repeat=3):
        for n in (1, 2, 3):
            yield ["filter", list(sh), n]
    for n in sorted(DEF):
        yield ["named", n]
    top = 9 if tier == "quick" else 12
    for a in range(2, top + 1):
        for b in range(2, top + 1):
            yield ["gabor", a, b]
    for a, b in ((16, 17), (17, 16), (32, 33), (33, 31), (64, 20), (21, 64), (65, 66), (128, 3), (5, 129)):
        yield ["gabor", a, b]
    for sh in ([17, 40], [64, 65], [130, 9], [9, 130], [300, 4], [12, 20, 14], [5, 6, 70], [70, 5, 6], [6, 70, 5]):
        for n in (2, 3, 5, 7, 9) if len(sh) == 2 else (3, 5):
            yield ["filter", sh, n]


def named(ctx, name, k, sh):
    img = image(sh, "u1", 3)
    for mode in ("correlate", "convolve"):
        for b in BORDERS:
            ctx.close(correlate_convolve_abs(img, k, mode=mode, border_mode=b), filter_ref(img, DEF[name], mode, b, 0), "%s with %s %s" % (name, mode, b))
            ctx.op()
            ctx.trace()
            ctx.state("named", name, sh, mode, b)


def run(ctx, key):
    if key[0] == "kernel":
        n = key[1]
        f = getattr(K, n)
        for hist in itertools.product("co", repeat=3):  # call / call and overwrite
            for h in hist:
                k = f()
                ctx.op()
                ctx.state(n, hist)
                ctx.close(k, DEF[n], n + " is not the documented kernel after history %r" % (hist,))
                if h == "o":
                    np.copyto(k, 7) if k.flags.writeable else None
                ctx.trace()
        k = np.array(f())
        ctx.check(k.sum() == 0, n, "does not sum to zero")
        pos = np.indices(k.shape) - k.shape[0] // 2
        mom = [abs((k * c).sum()) for c in pos]
        suffix = n.split("_kernel_")[1]
        if suffix in AXES:
            ax = AXES[suffix]
            ctx.check(all((m > 0) == (i in ax) for i, m in enumerate(mom)) and len({mom[i] for i in ax}) == 1, n, "responds to ramps", mom)
        ctx.trace()
    elif key[0] == "filter":
        sh, n = tuple(key[1]), key[2]
        vals = image((n,) * len(sh), "i2", 5, rng=9).astype(int) - 4
        kernels = [vals, vals / 3.0, np.ones_like(vals)]
        for dt in ("u1", "u2", "i2", "f4", "f8"):
            img = image(sh, dt, 2, rng=200 if dt[0] == "u" else None)
            if dt == "f8":
                img = img - 0.5
            for mode, b in itertools.product(("correlate", "convolve"), BORDERS):
                for value in (0, 7) if b == "constant" else (0,):
                    for ki, k in enumerate(kernels if dt in ("u1", "f8") else kernels[:1]):
                        for wrap in (False, True) if (dt == "f4") else (False,):
                            a, kk = img.copy(), k.copy()
                            got = correlate_convolve_abs(a.view(viqa.ImageArray) if wrap else a, kk, mode=mode, border_mode=b, value=value)
                            ctx.op()
                            ctx.state("filter", sh, n, dt, mode, b, value, ki, wrap)
                            ctx.close(got, filter_ref(img, k, mode, b, value), "%s %s value %s kernel size %d type %s" % (mode, b, value, n, dt), rtol=1e-5 if dt == "f4" else 1e-9)
                            ctx.check(np.array_equal(a, img) and np.array_equal(kk, k), "input changed")
                            ctx.trace()
        # defaults, and modes which do not exist
        got = correlate_convolve_abs(img, vals)
        ctx.close(got, filter_ref(img, vals, "correlate", "constant", 0), "defaults")
        for bad in ("symmetric", "edge", "", "Constant", None):
            ctx.raises(ValueError, lambda: correlate_convolve_abs(img, vals, border_mode=bad), "border mode %r" % (bad,))
            ctx.op()
    elif key[0] == "named":
        k = getattr(K, key[1])()
        for sh in ((4, 5), (40, 33), (9, 70)) if k.ndim == 2 else ((3, 4, 3), (9, 10, 17)):
            named(ctx, key[1], k, sh)
    else:
        sh = (key[1], key[2])
        for ns, no in itertools.chain(itertools.product((1, 2, 3, 5), (1, 2, 3, 4)), [(8, 2), (2, 8), (7, 6)]):
            for pi, p in enumerate(PARAMS if (ns, no) in ((2, 3), (3, 4)) else SLOW if ns > 5 else PARAMS[:1]):
                q = dict(DFLT, **p)
                h = {(s, o): gain(sh, s, o, no, *[q[x] for x in NAMES]) for s in range(ns) for o in range(no)}
                imgs = [image(sh, "f8", 1), image(sh, "u1", 2)]
                if (ns, no) == (2, 3) and sh[0] * sh[1] <= 25:
                    for i in range(sh[0] * sh[1]):
                        d = np.zeros(sh)
                        d.flat[i] = 1
                        imgs.append(d)
                for i, img in enumerate(imgs):
                    src = img.copy()
                    got = gabor_convolve(src, ns, no, **p) if pi % 2 else gabor_convolve(src, scales_num=ns, orientations_num=no, **p)
                    ctx.op()
                    ctx.state("gabor", sh, ns, no, pi, i)
                    ctx.check(np.shape(got)[:2] == (ns, no) and np.array_equal(src, img), "result", np.shape(got))
                    F = np.fft.fft2(img.astype(float))
                    sc = max(1.0, float(np.abs(img).max()))
                    for (s, o), g in h.items():
                        want = np.fft.ifft2(F * g)
                        d = np.abs(np.asarray(got[s, o]) - want).max()
                        ctx.check(np.shape(got[s, o]) == sh and d < 1e-6 * sc, "log-Gabor response of scale", s, "orientation", o, "of", ns, no, p, "differs by", d)
                    ctx.trace()
