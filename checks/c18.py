"""C18: image arrays versus plain arrays (explicit enumeration of operations, operand kinds, types, and operation sequences)."""
import csv
import itertools
import operator
import os

import numpy as np
import scipy.stats as st
import viqa

from .common import captured, image, unit

RULE = ("Explicit enumeration on the real class: every NumPy ufunc x operand kinds (image array, plain array, scalar, on either side) x element types x shapes, all ufunc methods, out=, where= "
        "and in-place forms, reductions over every axis, indexing forms; all sequences of three operations from twelve on one object compared with the same sequence on a plain array; "
        "statistics of every type/shape/pattern and of derived arrays after recalculation. States: (operation, operands, type, shape); transitions: operations; traces: comparisons.")

IA = viqa.ImageArray
DT = ["u1", "i2", "u2", "i4", "f2", "f4", "f8", "?"]
SH = [(3, 4), (2, 3, 4), (5,), (1, 1), (3, 4, 3)]
UF = sorted(n for n in dir(np) if isinstance(getattr(np, n), np.ufunc) and getattr(np, n).signature is None)
BIG = [(70, 81), (300, 301), (5003,), (1030, 2), (17, 33, 40), (129, 130, 3), (2, 1025, 3), (1, 4100), (8, 9, 10, 11)]
BIGT = ["u1", "u2", "u4", "i1", "i2", "i4", "i8", "f4", "f8"]
STATS = ["mean_value", "median", "variance", "standarddev", "skewness", "kurtosis", "minimum", "maximum", "histogram"]


def arr(sh, dt, seed=1):
    if dt == "?":
        return image(sh, "u1", seed) > 120
    return image(sh, dt, seed, rng=20) if dt[0] in "ui" else image(sh, dt, seed, rng=4)


def same(ctx, got, want, what, cls=None):
    if isinstance(want, tuple):
        ctx.check(isinstance(got, tuple) and len(got) == len(want), what, "tuple")
        for g, w in zip(got, want):
            same(ctx, g, w, what, cls)
        return
    g, w = np.asarray(got), np.asarray(want)
    ctx.check(g.shape == w.shape and g.dtype == w.dtype, what, "shape/type", g.shape, g.dtype, "expected", w.shape, w.dtype)
    ctx.check(g.tobytes() == w.tobytes() or np.array_equal(g, w, equal_nan=g.dtype.kind in "fc") or g.dtype.kind in "fc" and np.allclose(g, w, rtol=1e-6 if g.dtype.itemsize > 2 else 1e-2, equal_nan=True), what, "values", g, "expected", w)
    if cls is not None and isinstance(want, np.ndarray):
        ctx.check(type(got) is cls, what, "has type", type(got))


def both(ctx, f, what, cls=None):
    """f(wrap): run once on plain arrays, once on image arrays"""
    try:
        w = f(lambda x: x)
        err = None
    except Exception as e:
        w, err = None, type(e)
    ctx.op()
    try:
        g = f(lambda x: x.view(IA))
    except Exception as e:
        ctx.check(err is not None, what, "raises", repr(e))
        ctx.trace()
        return
    ctx.check(err is None, what, "does not raise", err)
    same(ctx, g, w, what, cls)
    ctx.trace()


def keys(tier):
    dts = DT
    for i in range(0, len(UF), 4):
        for dt in dts:
            yield ["ufunc", i, dt]
    for dt in dts:
        for si in range(len(SH)):
            yield ["reduce", dt, si]
            yield ["index", dt, si]
            yield ["inplace", dt, si]
            yield ["wrap", dt, si]
            for p in range(5):
                yield ["stats", dt, si, p]
        yield ["methods", dt]
    for i in range(len(BIG)):
        for dt in BIGT:
            yield ["large", i, dt]
    n = len(SEQ)
    for a in range(n):
        for b in range(n):
            yield ["seq", a, b]


def run(ctx, key):
    kind = key[0]
    if kind == "ufunc":
        _, i, dt = key
        for name in UF[i:i + 4]:
            u = getattr(np, name)
            for si, sh in enumerate(SH[:3]):
                a, b = arr(sh, dt, 1), arr(sh, dt, 2)
                sc = a.dtype.type(1)
                if u.nin == 1:
                    forms = [("I", lambda w: u(w(a))), ("out", lambda w: u(w(a), out=tuple(w(np.zeros(sh, o.dtype)) for o in _tup(u(a)))))]
                elif u.nin == 2:
                    forms = [("II", lambda w: u(w(a), w(b))), ("IA", lambda w: u(w(a), b)), ("AI", lambda w: u(a, w(b))), ("IS", lambda w: u(w(a), sc)), ("SI", lambda w: u(sc, w(b))),
                             ("row", lambda w: u(w(a), w(b[:1]))), ("py", lambda w: u(w(a), 2)),
                             ("out", lambda w: u(w(a), w(b), out=tuple(w(np.zeros(sh, o.dtype)) for o in _tup(u(a, b))))),
                             ("self", lambda w: _self(u, w(a.copy()), b)),
                             ("where", lambda w: u(w(a), w(b), where=w(np.asarray(a > b)), out=tuple(np.zeros(sh, o.dtype) for o in _tup(u(a, b))))),
                             ("whereplain", lambda w: u(w(a), w(b), where=np.asarray(a > b), out=tuple(w(np.zeros(sh, o.dtype)) for o in _tup(u(a, b)))))]
                else:
                    forms = [("III", lambda w: u(w(a), w(b), w(a)))]
                for fn, f in forms:
                    if fn == "row" and len(sh) == 1:
                        continue
                    ctx.state("ufunc", name, dt, si, fn)
                    keep = a.tobytes(), b.tobytes()
                    both(ctx, f, "np.%s %s %s %s" % (name, dt, sh, fn), IA if fn != "where" else None)
                    ctx.check((a.tobytes(), b.tobytes()) == keep, name, fn, "changed an operand")
                if u.nin == 2 and u.nout == 1:
                    meth = [("reduce0", lambda w: u.reduce(w(a), axis=0)), ("reduceN", lambda w: u.reduce(w(a), axis=None) if u.identity is not None or u in (np.maximum, np.minimum) else 0),
                            ("accumulate", lambda w: u.accumulate(w(a))), ("reduceat", lambda w: u.reduceat(w(a), [0, 1])), ("outer", lambda w: u.outer(w(a), w(b[:1]))),
                            ("keep", lambda w: u.reduce(w(a), axis=-1, keepdims=True)), ("at", lambda w: _at(u, w(a.copy()), b))]
                    for fn, f in meth:
                        ctx.state("ufunc", name, dt, si, fn)
                        both(ctx, f, "np.%s.%s %s %s" % (name, fn, dt, sh))
    elif kind == "reduce":
        _, dt, si = key
        sh = SH[si]
        a = arr(sh, dt)
        axes = [None] + list(range(-len(sh), len(sh))) + ([(0, 1)] if len(sh) > 1 else [])
        for name in ("sum", "prod", "mean", "std", "var", "min", "max", "any", "all", "argmin", "argmax", "cumsum", "cumprod", "ptp", "median", "round", "nansum", "percentile", "average", "argsort", "sort"):
            for ax in axes:
                if name in ("argmin", "argmax", "cumsum", "cumprod", "argsort", "sort") and isinstance(ax, tuple):
                    continue
                f = getattr(np, name)
                if name == "round":
                    g = lambda w: f(w(a), 1)
                elif name == "percentile":
                    g = lambda w: f(w(a), 30, axis=ax)
                else:
                    g = lambda w: f(w(a), axis=ax)
                ctx.state("reduce", name, dt, sh, ax)
                both(ctx, g, "np.%s %s %s axis %s" % (name, dt, sh, ax))
                if hasattr(a, name) and name not in ("round", "sort"):
                    both(ctx, lambda w: getattr(w(a), name)(axis=ax), "method %s %s %s axis %s" % (name, dt, sh, ax))
                    if name in ("sum", "min", "max", "mean", "any", "all"):
                        both(ctx, lambda w: getattr(w(a), name)(axis=ax, keepdims=True), "%s keepdims" % name)
        mask = np.asarray(a > a.flat[0])
        for name in ("sum", "mean", "std", "any"):
            both(ctx, lambda w: getattr(np, name)(w(a), where=w(mask)), "np.%s %s %s where=image mask" % (name, dt, sh))
    elif kind == "index":
        _, dt, si = key
        sh = SH[si]
        a = arr(sh, dt)
        forms = [np.s_[0], np.s_[-1], np.s_[...], np.s_[::2], np.s_[::-1], np.s_[1:], np.s_[None], np.s_[[0, -1]], np.s_[()]]
        if len(sh) > 1:
            forms += [np.s_[:, 0], np.s_[0, 0], np.s_[:, ::-1], np.s_[0, ...], np.s_[..., -1]]
        for i, f in enumerate(forms):
            ctx.state("index", dt, sh, i)
            both(ctx, lambda w: w(a)[f], "index %s of %s %s" % (f, dt, sh))
            ia = a.copy().view(IA)
            r = ia[f]
            if isinstance(r, np.ndarray) and r.size and i not in (7,):
                ctx.check(np.shares_memory(r, ia), "indexing", f, "copied")

            def setit(w):
                x = w(a.copy())
                x[f] = a.flat[0]
                return x
            both(ctx, setit, "assignment to %s of %s %s" % (f, dt, sh), IA)
        both(ctx, lambda w: w(a)[w(np.asarray(a > a.flat[0]))], "mask index")
        both(ctx, lambda w: w(a).ravel()[3 % a.size], "element")

        def setmask(w):
            x = w(a.copy())
            x[x > x.flat[0]] = 0
            return x
        both(ctx, setmask, "masked assignment", IA)
        for nm in ("T", "real", "size", "nbytes", "itemsize", "strides"):
            both(ctx, lambda w: getattr(w(a), nm), nm)
        for nm, args in (("reshape", (-1,)), ("ravel", ()), ("copy", ()), ("squeeze", ()), ("transpose", ()), ("astype", ("f8",)), ("flatten", ()), ("tolist", ()), ("repeat", (2,)), ("take", ([0],)), ("clip", (1, 2))):
            both(ctx, lambda w: getattr(w(a), nm)(*args), nm)
        both(ctx, lambda w: np.array([x for x in w(a).flat]), "iteration")
        both(ctx, lambda w: np.concatenate([w(a), w(a)]), "concatenate")
        both(ctx, lambda w: np.where(w(a) > a.flat[0], w(a), 0), "where")
    elif kind == "inplace":
        _, dt, si = key
        sh = SH[si]
        a, b = arr(sh, dt, 1), arr(sh, dt, 2)
        for nm in ("iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow", "iand", "ior", "ixor", "ilshift", "irshift"):
            for other in ("IA", "A", "s"):
                def f(w):
                    x = w(a.copy())
                    y = w(b) if other == "IA" else b if other == "A" else a.dtype.type(1)
                    base = x
                    x = getattr(operator, nm)(x, y)
                    ctx.check(x is base, nm, "is not in place")
                    return x
                ctx.state("inplace", nm, dt, sh, other)
                both(ctx, f, "%s %s %s %s" % (nm, dt, sh, other), IA)

                def g(w):
                    base = a.copy()
                    v = w(base)[::2]
                    y = 1 if other == "s" else b[::2] if other == "A" else w(b)[::2]
                    v = getattr(operator, nm)(v, y)
                    return base
                both(ctx, g, "%s through a view %s %s" % (nm, dt, sh))
        for nm in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and_", "or_", "xor", "lt", "le", "gt", "ge", "eq", "ne"):
            op = getattr(operator, nm)
            for l, r in itertools.product(("IA", "A", "s"), repeat=2):
                if "IA" not in (l, r):
                    continue

                def h(w):
                    x = w(a) if l == "IA" else a if l == "A" else a.dtype.type(1)
                    y = w(b) if r == "IA" else b if r == "A" else a.dtype.type(1)
                    return op(x, y)
                ctx.state("op", nm, dt, sh, l, r)
                both(ctx, h, "%s %s %s %s/%s" % (nm, dt, sh, l, r), IA)
        for nm in ("neg", "pos", "abs", "invert"):
            both(ctx, lambda w: getattr(operator, nm)(w(a)), nm, IA)
    elif kind == "wrap":
        _, dt, si = key
        a = arr(SH[si], dt)
        for lay in ("C", "F", "rev", "ro", "list"):
            src = {"C": a, "F": np.asfortranarray(a), "rev": a[::-1], "ro": a.copy(), "list": a.tolist()}[lay]
            if lay == "ro":
                src.setflags(write=False)
            x = IA(src)
            ctx.op()
            ctx.state("wrap", dt, SH[si], lay)
            ctx.check(type(x) is IA, "type")
            if lay == "list":
                same(ctx, x, np.asarray(src), "from list")
                continue
            ctx.check(np.shares_memory(x, src), lay, "wrapping copied")
            ctx.check(x.strides == src.strides and x.flags.writeable == src.flags.writeable, lay, "layout")
            same(ctx, x, src, "wrapped " + lay)
            for n in STATS:
                v = getattr(x, n)
                ctx.check(isinstance(v, str) or v is None, n, "is set before calculation:", v)
            d = x.describe()
            ctx.check(all(isinstance(v, str) or v is None for v in d.values()), "description of an uncalculated image has values", d)
            d2, _ = captured(lambda: x.describe(ctx.tmp(), "none"))
            with open(os.path.join(ctx.tmp(), "none.csv"), newline="") as f:
                rows = [r for r in csv.reader(f) if r]
            ctx.check(d2 == d and rows == [list(d), ["" if v is None else str(v) for v in d.values()]], "exported description of an uncalculated image", rows)
            y = IA(x)
            same(ctx, y, src, "wrapped twice")
            if lay == "C":
                src2 = a.copy()
                z = IA(src2)
                src2.flat[0] = src2.flat[1 % src2.size]
                same(ctx, z, src2, "shared values")
            ctx.trace()
    elif kind == "stats":
        _, dt, si, p = key
        sh = SH[si]
        a = [arr(sh, dt, 1), arr(sh, dt, 2), np.zeros(sh, dt), np.asarray(np.arange(int(np.prod(sh))).reshape(sh) % 5).astype(dt), arr(sh, dt, 3)[::-1]][p]
        if dt == "?":
            return
        x = IA(a)
        x.calculate_statistics()
        ctx.op()
        ctx.state("stats", dt, sh, p)
        stats_ok(ctx, x, np.asarray(a), "%s %s pattern %d" % (dt, sh, p))
        t = ctx.tmp()
        for fname in ("st", "st.csv", "st.CSV"):
            d, _ = captured(lambda: x.describe(t, fname))
            path = os.path.join(t, fname if fname.lower().endswith(".csv") else fname + ".csv")
            with open(path, newline="") as f:
                rows = [r for r in csv.reader(f) if r]
            ctx.check(len(rows) == 2 and rows[0] == list(d), "exported description", rows)
            for k, v in zip(*rows):
                ctx.check(type(d[k])(float(v)) == d[k] or d[k] != d[k], "exported", k, v, d[k])
            ctx.trace()
        # recalculation after change, on derived arrays and on a second object
        other = IA(arr(sh, dt, 9))
        other.calculate_statistics()
        stats_ok(ctx, x, np.asarray(a), "after another image was calculated")
        for what, y in (("slice", x[:1]), ("result", x + x), ("copy", x.copy()), ("rewrapped", IA(np.asarray(x) * 1))):
            y.calculate_statistics()
            ctx.op()
            stats_ok(ctx, y, np.asarray(y), "%s of %s %s" % (what, dt, sh))
            stats_ok(ctx, x, np.asarray(a), "original after statistics of its " + what)
        z = IA(np.array(a))
        z.calculate_statistics()
        z[...] = arr(sh, dt, 7)
        z.calculate_statistics()
        stats_ok(ctx, z, arr(sh, dt, 7), "recalculated after change")
    elif kind == "large":
        # extents beyond every power of two up to 4096, values over the full range of the type, one deviating element
        sh, dt = BIG[key[1]], key[2]
        i = np.arange(int(np.prod(sh)))
        span = 2.0 ** (8 * np.dtype(dt).itemsize - 1) if dt[0] in "ui" and dt != "i8" else 2.0 ** 40
        u = unit(sh, 5)
        full = (u * span * (2 if dt[0] == "u" else 1) * 0.999).astype(dt) if dt[0] != "f" else (u * 1e6 - 2e5).astype(dt)
        if dt[0] == "i":
            full = (full.astype("f8") * 2 - span).astype(dt)
        dot = np.full(sh, 3, dt)
        dot.flat[-1] = 90
        ramp = (i % 120).reshape(sh).astype(dt)
        for pn, a in (("full", full), ("dot", dot), ("ramp", ramp), ("rev", full[::-1]), ("half", full[: max(1, sh[0] // 2)])):
            x = IA(a)
            x.calculate_statistics()
            ctx.op()
            ctx.state("large", sh, dt, pn)
            stats_ok(ctx, x, np.asarray(a), "%s %s %s" % (dt, sh, pn))
            y = IA(np.array(a))
            for fn, f in (("add", lambda w: w(a) + w(a)), ("cmp", lambda w: w(a) > a.flat[0]), ("max", lambda w: w(a).max(axis=0)), ("sum", lambda w: w(a).sum()), ("cum", lambda w: np.cumsum(w(a))),
                          ("mask", lambda w: w(a)[w(np.asarray(a > a.flat[0]))]), ("sort", lambda w: np.sort(w(a), axis=-1)), ("last", lambda w: w(a)[-1]), ("minimum", lambda w: np.minimum(w(a), a.flat[1]))):
                both(ctx, f, "%s of %s %s %s" % (fn, dt, sh, pn))
                ctx.state("large", sh, dt, pn, fn)
            y.calculate_statistics()
            y.flat[0] = 100
            y.calculate_statistics()
            stats_ok(ctx, y, np.asarray(y), "recalculated %s %s %s" % (dt, sh, pn))
    elif kind == "methods":
        dt = key[1]
        a, b = arr((3, 3), dt, 1), arr((3, 3), dt, 2)
        for nm, f in (("matmul", lambda w: w(a) @ w(b)), ("matmul A", lambda w: a @ w(b)), ("dot", lambda w: np.dot(w(a), w(b))), ("divmod", lambda w: divmod(w(a), w(b + 1) if dt != "?" else w(b))),
                      ("modf", lambda w: np.modf(w(a))), ("frexp", lambda w: np.frexp(w(a))), ("dtype", lambda w: np.add(w(a), w(b), dtype="f8")),
                      ("tensordot", lambda w: np.tensordot(w(a), w(b), 1)), ("einsum", lambda w: np.einsum("ij,jk->ik", w(a), w(b))), ("stack", lambda w: np.stack([w(a), w(b)])),
                      ("pad", lambda w: np.pad(w(a), 1)), ("unique", lambda w: np.unique(w(a))), ("clip", lambda w: np.clip(w(a), 1, 3)), ("cov", lambda w: np.cov(w(a))),
                      ("hist", lambda w: np.histogram(w(a), bins=4) if dt != "?" else 0), ("fft", lambda w: np.fft.fft2(w(a))), ("roll", lambda w: np.roll(w(a), 1, axis=0)), ("flip", lambda w: np.flip(w(a))),
                      ("rot90", lambda w: np.rot90(w(a))), ("diff", lambda w: np.diff(w(a))), ("allclose", lambda w: np.allclose(w(a), w(a))), ("equal", lambda w: np.array_equal(w(a), a))):
            ctx.state("methods", nm, dt)
            both(ctx, f, "%s %s" % (nm, dt))
    else:
        _, i, j = key
        for k in range(len(SEQ)):
            for dt, own in itertools.product(("u1", "f4", "i2"), (False, True)):
                a = arr((4, 5), dt)
                x, y = IA(a.copy()), a.copy()
                if own:
                    x = x.copy()  # owns its data
                hist = []
                for s in (i, j, k):
                    name, f = SEQ[s]
                    hist.append(name)
                    try:
                        y2 = f(y)
                    except Exception as e:
                        try:
                            f(x)
                        except Exception:
                            break
                        ctx.check(False, hist, "does not raise", e)
                    x2 = f(x)
                    ctx.op()
                    if y2 is None:
                        y2, x2 = y, x
                    x, y = x2, y2
                    same(ctx, x, y, "%s %s" % (hist, dt))
                    if name == "stat" and y.size and y.dtype.kind in "uif":
                        stats_ok(ctx, x, np.asarray(y), "%s after %s" % (dt, hist))
                    if not isinstance(y, np.ndarray):
                        break
                    ctx.state("seq", dt, tuple(hist))
                ctx.trace()


def _calc(x):
    if hasattr(x, "calculate_statistics"):
        x.calculate_statistics()


def _iadd(x):
    x += 1


def _set(x):
    x[x > 3] = 2


SEQ = [("add", lambda x: x + 1), ("mul", lambda x: x * x), ("slice", lambda x: x[1:]), ("col", lambda x: x[..., ::-1]), ("iadd", _iadd), ("set", _set), ("cmp", lambda x: x > 2), ("f8", lambda x: x.astype("f8")),
       ("stat", _calc), ("sum0", lambda x: x.sum(axis=0)), ("T", lambda x: x.T), ("sqrt", lambda x: np.sqrt(np.abs(x)))]


def _tup(r):
    return r if isinstance(r, tuple) else (r,)


def _self(u, a, b):
    u(a, b, out=a)
    return a


def _at(u, a, b):
    u.at(a, [0, 1 % a.shape[0], 0], b[0])
    return a


def stats_ok(ctx, x, a, what):
    f = np.asarray(a, dtype="f8")
    rt = {2: 2e-2, 4: 1e-4}.get(a.dtype.itemsize if a.dtype.kind == "f" else 8, 1e-9)
    flat = f.ravel()
    want = dict(mean_value=flat.mean(), median=np.median(flat), variance=((flat - flat.mean()) ** 2).mean(), standarddev=np.sqrt(((flat - flat.mean()) ** 2).mean()), minimum=flat.min(), maximum=flat.max())
    for k, v in want.items():
        ctx.close(float(getattr(x, k)), v, "%s of %s" % (k, what), rtol=rt, atol=rt * max(1e-3, abs(flat).max()))
    if flat.std() > 1e-3:
        d = flat - flat.mean()
        s = np.sqrt((d ** 2).mean())
        for k, v in (("skewness", (d ** 3).mean() / s ** 3), ("kurtosis", (d ** 4).mean() / s ** 4 - 3)):
            ctx.close(float(getattr(x, k)), v, "%s of %s" % (k, what), rtol=max(rt, 1e-6), atol=max(rt, 1e-6) * 5)
    h, e = x.histogram
    ctx.check(int(np.sum(h)) == flat.size, "histogram of", what, "counts", np.sum(h))
    ctx.check(len(h) + 1 == len(e) and e[0] <= flat.min() and e[-1] >= flat.max() and len(h) >= 1, "histogram edges of", what)
    w, _ = np.histogram(np.asarray(a), bins=e)
    ctx.check(np.array_equal(h, w), "histogram of", what)
    d = x.describe()
    for k, v in (("mean", x.mean_value), ("median", x.median), ("variance", x.variance), ("standarddev", x.standarddev), ("skewness", x.skewness), ("kurtosis", x.kurtosis), ("minimum", x.minimum), ("maximum", x.maximum)):
        ctx.check(k in d and (float(d[k]) == float(v) or v != v), "description of", what, k, d.get(k), v)
    ctx.trace()
