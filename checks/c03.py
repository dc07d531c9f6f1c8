"""C03: normalisation against an exact rational model (explicit enumeration of value patterns)."""
import itertools
from fractions import Fraction

import numpy as np
import viqa

from .common import cnr_ref, image, rmse_ref, snr_ref, write_raw

RULE = ("Explicit enumeration on the real code: for every element type all value tuples of length 3 (quick) / 4 (thorough) over an alphabet of extreme "
        "values of the type x every output range x automatic and all explicit input ranges from the alphabet (values beyond a given range included for float results), small spreads on large offsets, tiny and huge values, large images with every value of the short types, compared with exact "
        "rational arithmetic; rejection of every other range/type; the same map through load_data (with every region of a small image) "
        "and through metrics. States: (type, range, mode, tuple) configurations; transitions: calls; traces: compared images.")

RANGES = [1, 255, 65535]
OUT = {1: np.float32, 255: np.uint8, 65535: np.uint16}
TYPES = ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8"]


def alphabet(dt, tier):
    d = np.dtype(dt)
    if d.kind in "ui":
        i = np.iinfo(d)
        v = {i.min, i.min + 1, 0, 1, i.max // 2, i.max // 2 + 1, i.max - 1, i.max, 100}
        if d.kind == "i":
            v |= {-1, i.min // 2}
        # normalisation works in double precision: 64 bit values beyond it cannot be told apart
        v = {x for x in v if int(float(x)) == x}
    else:
        m = float(np.finfo(d).max) if d != np.float64 else 1e300
        v = {-m, m, 0.0, 1.0, -1.0, 0.5, 255.0, -0.25, m / 2, float(np.finfo(d).eps)}
        if d == np.float64:
            v |= {310.24187555895566, 912.7555756714}
    return sorted(v)


def keys(tier):
    k = 3 if tier == "quick" else 4
    for dt in TYPES:
        al = alphabet(dt, tier)
        for first in itertools.product(range(len(al)), repeat=k - 2):
            yield ["auto", dt, list(first), k]
        for lo in range(len(al)):
            for hi in range(lo, len(al)):
                yield ["given", dt, lo, hi]
        yield ["reject", dt]
        yield ["load", dt]
        yield ["wrapped", dt]
    for base in range(40 if tier == "quick" else 400):
        yield ["scan", base]
    # small spreads on large offsets, tiny and huge images values
    for dt in TYPES:
        d = np.dtype(dt)
        if d.kind in "ui":
            i = np.iinfo(d)
            bases = sorted({0, i.max // 3, i.max // 2, i.max - 300 if i.max > 1000 else i.max - 20, i.min, i.min // 2})
            spreads = [1, 2, 3, 5, 17] + ([250, 300] if i.max > 1000 else [])
        else:
            bases = [0.0, 1.0, -1.0, 1000.0] + ([1e5, -1e5, 1e8] if dt != "f2" else []) + ([1e15, -1e12] if dt == "f8" else [])
            e = {"f2": range(-4, 4), "f4": range(-30, 31, 3), "f8": range(-200, 201, 10)}[dt]
            spreads = [10.0 ** x for x in e]
        for b in bases:
            for sp in spreads:
                yield ["spread", dt, b, sp]
        yield ["big", dt]
    yield ["badtype"]
    for dt in TYPES:
        for m in ("RMSE", "PSNR", "CNR", "SNR"):
            yield ["metric", m, dt]


def exact(vals, lo, hi, R):
    lo, hi = Fraction(lo), Fraction(hi)
    if lo == hi:
        return [Fraction(0)] * len(vals)
    return [(Fraction(v) - lo) * R / (hi - lo) for v in vals]


def compare(ctx, got, vals, lo, hi, R, what):
    ctx.check(got.dtype == OUT[R], what, "type", got.dtype, "expected", OUT[R])
    want = exact(vals, lo, hi, R)
    g = [float(x) for x in np.asarray(got).ravel()]
    ctx.check(len(g) == len(want), what, "size")
    for a, w, v in zip(g, want, vals):
        tol = 2e-6 if R == 1 else 1.0 + 1e-6
        ctx.check(abs(a - float(w)) <= tol, what, "value", v, "->", a, "expected", float(w))
        if Fraction(v) == Fraction(lo) or lo == hi:
            ctx.check(a == 0, what, "minimum ->", a)
        elif Fraction(v) == Fraction(hi):
            ctx.check(a == R, what, "maximum ->", a)
    order = sorted(range(len(vals)), key=lambda i: vals[i])
    for i, j in zip(order, order[1:]):
        ctx.check(g[i] <= g[j], what, "order of values not kept")
        if vals[i] == vals[j]:
            ctx.check(g[i] == g[j], what, "equal values differ")
    ctx.trace()


def py(x):
    return int(x) if np.asarray(x).dtype.kind in "ui" else float(x)


def spans(dt, R):
    d = np.dtype(dt)
    return d.kind in "ui" and np.iinfo(d).min == 0 and np.iinfo(d).max == R


def run(ctx, key):
    kind = key[0]
    if kind == "auto":
        _, dt, first, k = key
        al = alphabet(dt, ctx.tier)
        for rest in itertools.product(range(len(al)), repeat=2):
            a = np.array([al[i] for i in list(first) + list(rest)], dtype=dt)
            a = a.reshape(1, k) if k % 2 else a.reshape(2, k // 2)
            vals = [py(x) for x in a.ravel()]
            keep = a.copy()
            for R in RANGES:
                ctx.state("auto", dt, R, tuple(vals))
                got = viqa.normalize_data(a, (0, R))
                ctx.op()
                if spans(dt, R):
                    ctx.check(np.array_equal(got, keep) and got.dtype == keep.dtype, "changed although normalised already", dt)
                    ctx.trace()
                else:
                    compare(ctx, got, vals, min(vals), max(vals), R, "normalize %s %s to %d" % (dt, vals, R))
            ctx.check(np.array_equal(a, keep), "input changed")
    elif kind == "given":
        _, dt, lo, hi = key
        al = alphabet(dt, ctx.tier)
        inside = np.array(al[lo:hi + 1], dtype=dt)
        vals = [py(x) for x in inside]
        l, h = vals[0], vals[-1]
        subsets = [inside, inside[:1], inside[-1:], inside[len(inside) // 2:], inside[:len(inside) // 2 + 1][::-1]]
        for s in subsets:
            sv = [py(x) for x in s]
            for R in RANGES:
                ctx.state("given", dt, R, l, h, tuple(sv))
                got = viqa.normalize_data(s.reshape(1, -1), (0, R), data_range_input=(l, h), automatic_data_range=False)
                ctx.op()
                if spans(dt, R):
                    ctx.check(np.array_equal(got.ravel(), s), "changed although normalised already", dt)
                    ctx.trace()
                else:
                    compare(ctx, got, sv, l, h, R, "normalize %s %s from (%s, %s) to %d" % (dt, sv, l, h, R))
        # values outside the given range continue the line (float results)
        if Fraction(l) < Fraction(h):
            al = [x for x in al if np.isfinite(float(x))]
            want = exact([py(x) for x in np.array(al, dtype=dt)], l, h, 1)
            pick = [i for i, w in enumerate(want) if abs(w) < 10 ** 30]
            s = np.array([al[i] for i in pick], dtype=dt)
            got = viqa.normalize_data(s.reshape(1, -1), (0, 1), data_range_input=(l, h), automatic_data_range=False)
            ctx.op()
            ctx.state("beyond", dt, l, h)
            ctx.check(got.dtype == OUT[1], "type", got.dtype)
            for a, i in zip(np.asarray(got).ravel(), pick):
                w = float(want[i])
                ctx.check(abs(float(a) - w) <= 2e-6 * max(1.0, abs(w)), "value", al[i], "from", (l, h), "->", a, "expected", w)
            ctx.trace()
    elif kind == "reject":
        dt = key[1]
        a = np.array([[0, 1], [2, 3]], dtype=dt)
        for out in [(0, 2), (0, 100), (0, 254), (0, 256), (0, 65534), (0, 65536), (1, 255), (1, 65535), (-1, 1), (0, 10)]:
            d = np.dtype(dt)
            if d.kind in "ui" and (np.iinfo(d).min, np.iinfo(d).max) == out:
                continue
            ctx.state("reject", dt, out)
            ctx.op()
            ctx.raises(ValueError, lambda: viqa.normalize_data(a, out), "range %s for %s" % (out, dt))
            ctx.trace()
        for bad in (0, 2, 100, 254, 256, 65534, -1, -255, 0.5):
            if not (np.dtype(dt).kind in "ui" and (np.iinfo(dt).min, np.iinfo(dt).max) == (0, bad)):
                ctx.op()
                ctx.state("reject", "load", dt, bad)
                ctx.raises(ValueError, lambda: viqa.load_data(a, data_range=bad, normalize=True), "loading normalised to %s" % bad)
                ctx.trace()
        R = 65535 if dt != "u2" else 255
        ctx.op()
        ctx.raises(ValueError, lambda: viqa.normalize_data(a, (0, R), automatic_data_range=False), "no input range")
        ctx.raises(ValueError, lambda: viqa.load_data(a, normalize=True), "normalize without data range")
        ctx.trace(2)
    elif kind == "scan":
        for i in range(50):
            v = (key[1] * 50 + i + 1) * 0.1371 + 0.013
            for off in (0.0, -3.7, 1e6):
                vals = [off, off + v / 3, off + v, off + v / 2]
                vals = [float(x) for x in vals]
                a = np.array([vals])
                for R in RANGES:
                    ctx.state("scan", v, off, R)
                    got = viqa.normalize_data(a, (0, R))
                    ctx.op()
                    compare(ctx, got, vals, min(vals), max(vals), R, "normalize f8 %s to %d" % (vals, R))
    elif kind == "spread":
        _, dt, b, sp = key
        a = np.array([[b, b + sp, b + sp / 2, b + sp / 4] if np.dtype(dt).kind == "f" else [b, b + sp, b + sp // 2, b + sp // 3]], dtype=dt)
        vals = [py(x) for x in a.ravel()]
        if np.dtype(dt).kind in "ui" and any(int(float(x)) != x for x in vals):
            return
        if np.dtype(dt).kind == "f" and not all(np.isfinite(vals)):
            return
        for R in RANGES:
            ctx.state("spread", dt, R, tuple(vals))
            got = viqa.normalize_data(a, (0, R))
            ctx.op()
            if not spans(dt, R):
                compare(ctx, got, vals, min(vals), max(vals), R, "normalize %s %s to %d" % (dt, vals, R))
    elif kind == "big":
        # large images: every value of the short types, vectorised model
        dt = key[1]
        d = np.dtype(dt)
        for shape in ((256, 256), (300, 500), (64, 65, 66), (130, 120, 3), (1, 70000), (70000, 1)):
            n = int(np.prod(shape))
            v = np.arange(n) * 7919 % 65536
            if d.kind in "ui":
                i = np.iinfo(d)
                v = v % 256 + i.min if d.itemsize == 1 else v + i.min if d.itemsize == 2 else v * 60000 + (0 if d.kind == "u" else -2 ** 30 if d.itemsize == 4 else -2 ** 40)
                if d.itemsize == 4 and d.kind == "i":
                    v = v // 2
                a = v.astype(dt).reshape(shape)
            else:
                a = (v / (700.0 if dt == "f2" else 7.0) - 40).astype(dt).reshape(shape)
            exactv = a.astype(np.float64)
            lo, hi = exactv.min(), exactv.max()
            for R in RANGES:
                ctx.state("big", dt, shape, R)
                for f in (a, np.asfortranarray(a), viqa.ImageArray(a)):
                    got = np.asarray(viqa.normalize_data(f, (0, R)))
                    ctx.op()
                    if spans(dt, R):
                        ctx.check(np.array_equal(got, a), "changed although normalised already", dt, shape)
                        continue
                    ctx.check(got.dtype == OUT[R] and got.shape == a.shape, "type or shape", got.dtype, got.shape)
                    want = (exactv - lo) * R / (hi - lo)
                    dev = np.max(np.abs(got - want))
                    ctx.check(dev <= (2e-6 if R == 1 else 1 + 1e-6), "large image", dt, shape, "to", R, "differs by", dev)
                    ctx.check(np.all(got[exactv == lo] == 0) and np.all(got[exactv == hi] == R), "extremes", dt, shape, R)
                    o = np.argsort(exactv, axis=None)
                    ctx.check(np.all(np.diff(got.ravel()[o].astype(np.float64)) >= 0), "order of values", dt, shape, R)
                    ctx.trace()
    elif kind == "badtype":
        for a in (np.array([[True, False]]), np.array([[1j, 2]]), np.array([["a", "b"]]), np.array([[object(), 1]], dtype=object),
                  np.array([["2001-01-01"]], dtype="datetime64[D]")):
            for R in RANGES:
                ctx.op()
                ctx.state("badtype", str(a.dtype), R)
                ctx.raises(ValueError, lambda: viqa.normalize_data(a, (0, R)), a.dtype)
                ctx.trace()
    elif kind == "load":
        dt = key[1]
        for shape in ((4, 5), (4, 5, 3), (3, 4, 5)):
            a = image(shape, dt, 7)
            vals = [py(x) for x in a.ravel()]
            for R in RANGES:
                full = np.asarray(viqa.normalize_data(a, (0, R)))
                ctx.op()
                forms = [("array", a), ("image array", viqa.ImageArray(a)), ("strided", np.asfortranarray(a))]
                if len(shape) == 3 and shape[-1] != 3 and dt in ("u1", "u2", "u4", "f2", "f4", "f8"):
                    forms.append(("file", write_raw(ctx.tmp(), "n%d" % R, a)))
                for nm, f in forms:
                    ctx.state("load", dt, shape, R, nm)
                    got = np.asarray(viqa.load_data(f, data_range=R, normalize=True))
                    ctx.op()
                    if spans(dt, R):
                        ctx.check(np.array_equal(got, a), "loading changed a normalised image")
                        ctx.trace()
                    else:
                        compare(ctx, got, vals, min(vals), max(vals), R, "load %s %s to %d" % (dt, nm, R))
                    for roi in (((0, 2), (1, 4), (2, 5)), ((1, 3), (0, 4), (0, 1)), ((2, 3), (3, 4), (1, 2))):
                        r = roi[:2] if len(shape) == 2 or shape[-1] == 3 else roi
                        got = np.asarray(viqa.load_data(f, data_range=R, normalize=True, roi=[tuple(x) for x in r]))
                        ctx.op()
                        ctx.state("loadroi", dt, shape, R, nm, r)
                        want = full[tuple(slice(*x) for x in r)]
                        ctx.check(got.dtype == want.dtype and np.array_equal(got, want),
                                  "region", r, "is not normalised with the full image", dt, R)
                        ctx.trace()
    elif kind == "wrapped":
        # image arrays whose statistics were calculated, then sliced, calculated with or changed in place: the current values count
        dt = key[1]
        acts = [lambda x: x[1:], lambda x: x[:, ::2], lambda x: x.copy(), lambda x: x // 2 if x.dtype.kind in "ui" else x * 0.5, lambda x: put(x, 0), lambda x: put(x, -1), lambda x: x.T,
                lambda x: stat(x), lambda x: viqa.crop_image(x, (1, 5), (0, 5))]

        def put(x, i):
            i %= x.size
            x[np.unravel_index(i, x.shape)] = np.array(77 if i else 3, dtype=dt)
            return x

        def stat(x):
            x.calculate_statistics()
            return x
        for seq in itertools.product(range(len(acts)), repeat=2 if ctx.tier == "quick" else 3):
            x = viqa.ImageArray(image((6, 7), dt, 5, rng=60))
            x.calculate_statistics()
            for i in seq:
                if min(x.shape) < 6 and i == 8:
                    continue
                x = acts[i](x)
                ctx.op()
            vals = [py(v) for v in np.asarray(x).ravel()]
            for R in RANGES:
                ctx.state("wrapped", dt, seq, R)
                for nm, fn in (("normalize_data", lambda: viqa.normalize_data(x, (0, R))), ("load_data", lambda: viqa.load_data(x, data_range=R, normalize=True))):
                    got = np.asarray(fn())
                    ctx.op()
                    if spans(dt, R):
                        ctx.check(np.array_equal(got, np.asarray(x)), "changed although normalised already", dt)
                    else:
                        compare(ctx, got, vals, min(vals), max(vals), R, "%s of an image array after %s" % (nm, seq))
    elif kind == "metric":
        _, m, dt = key
        for shape in ((8, 9), (7, 8, 9)):
            a, b = image(shape, dt, 8), image(shape, dt, 9)
            b.flat[0], b.flat[-1] = (b.max(), b.min())
            a = a // 2 if a.dtype.kind in "ui" else a / 2
            for R in RANGES:
                na, nb = (np.asarray(viqa.normalize_data(x, (0, R))) for x in (a, b))
                ctx.op(2)
                for roi in (None, ((0, 7), (1, 8), (2, 9)), ((1, 7), (0, 6), (0, 6))):
                    r = None if roi is None else [tuple(x) for x in roi[:len(shape)]]
                    sl = (Ellipsis,) if r is None else tuple(slice(*x) for x in r)
                    ctor = {} if r is None else dict(roi=r)
                    obj = getattr(viqa, m)(data_range=R, normalize=True, **ctor)
                    ctx.state("metric", m, dt, shape, R, roi)
                    c, d, rad = (3, 3, 3)[:len(shape)], (2, 3, 3)[:len(shape)], 2
                    if m == "RMSE":
                        got, want = obj.score(a, b), rmse_ref(na[sl], nb[sl])
                    elif m == "PSNR":
                        got, want = obj.score(a, b), 20 * np.log10(R / rmse_ref(na[sl], nb[sl]))
                    elif m == "CNR":
                        got = obj.score(a, signal_center=c, background_center=d, radius=rad)
                        want = cnr_ref(na[sl], c, d, rad)
                    else:
                        got, want = obj.score(a, signal_center=c, radius=rad), snr_ref(na[sl], c, rad)
                    ctx.op()
                    ctx.close(got, want, "%s %s %s range %d region %s" % (m, dt, shape, R, r), rtol=1e-4, atol=1e-5)
                    ctx.trace()
