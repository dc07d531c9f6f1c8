"""C17: block statistics of the C extension (exhaustive geometries, sanitizer and leak monitors)."""
import ctypes
import gc
import itertools
import os
import subprocess
import sys
import tracemalloc

import numpy as np

RULE = ("Explicit enumeration on the C extension compiled from the current tree: every rows x columns up to 7 (thorough 10), every block size 2..min and stride 1..block, image patterns "
        "(incl. constant blocks, large offsets), element types and memory layouts; all binary 3x3 images and all 2x3 images over {0, 1, 3} - compared with a direct evaluation per block; "
        "the same geometries (and blocks larger than the image) under AddressSanitizer; repeated calls under a heap monitor and reference counts. "
        "States: (geometry, pattern, type, layout); transitions: calls; traces: compared arrays.")
ASSUMPTIONS = ["positions beyond the last block are not specified (MAD does not read them)"]


def reference(a, bs, st):
    """dict name -> array with nan where unspecified"""
    x = np.asarray(a, dtype=np.longdouble)
    m, n = x.shape
    out = [np.full((m, n), np.nan) for _ in range(4)]
    pos = [(i, j) for i in range(0, m - bs + 1, st) for j in range(0, n - bs + 1, st)]
    full = np.full((m, n), np.nan)
    for i, j in pos:
        b = x[i:i + bs, j:j + bs].ravel()
        N = b.size
        if (b == b[0]).all():
            v = (0.0, 0.0, 0.0)
        else:
            d = b - b.mean()
            pop = np.sqrt((d ** 2).mean())
            v = (float(np.sqrt((d ** 2).sum() / (N - 1))), float((d ** 3).mean() / pop ** 3), float((d ** 4).mean() / pop ** 4))
        for o, w in zip(out, v):
            o[i:i + st, j:j + st] = w
        full[i:i + st, j:j + st] = v[0]
    for i, j in pos:
        c = [full[i, j]]
        for u in range(i, min(m - bs + 1, i + bs // 2), st + 1):
            for w in range(j, min(n - bs + 1, j + bs // 2), st + 1):
                c.append(full[u, w])
        out[3][i:i + st, j:j + st] = min(c)
    return out


def layout(a, k):
    if k == 0:
        return np.ascontiguousarray(a)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        w = np.zeros((2 * a.shape[0], 3 * a.shape[1]), a.dtype)
        w[::2, ::3] = a
        return w[::2, ::3]
    if k == 3:
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if k == 4:
        r = np.ascontiguousarray(a)
        r.setflags(write=False)
        return r
    b = a.astype(a.dtype.newbyteorder())
    return b


def pats(m, n):
    i, j = np.indices((m, n))
    p = {"lin": i * n + j, "mod": (i * 5 + j * 3 + i * j) % 7, "half": (j >= n // 2) * 1 + (i >= m // 2) * 3, "const": np.full((m, n), 4), "dot": (i == m // 2) & (j == n // 2)}
    return {k: np.asarray(v, "f8") for k, v in p.items()}


def compare(ctx, mod, a, bs, st, what):
    before = a.tobytes()
    ref = reference(a, bs, st)
    got = list(mod.getstatistics(a, bs, st)) + [mod.minstd(a, bs, st)]
    ctx.op(2)
    ctx.check(a.tobytes() == before, what, "changed the image")
    scale = float(np.abs(np.asarray(a, "f8")).max())
    for name, g, r in zip(("deviation", "skewness", "kurtosis", "minimum"), got, ref):
        ctx.check(isinstance(g, np.ndarray) and g.shape == a.shape and g.dtype == np.float64, what, name, "type/shape", getattr(g, "shape", g))
        ok = ~np.isnan(r)
        tol = (1e-9 * scale if name in ("deviation", "minimum") else 1e-6)
        bad = np.abs(g[ok] - r[ok]) > tol + 1e-9 * np.abs(r[ok])
        ctx.check(not bad.any(), what, name, "differs:\n", g, "\nexpected\n", r)
    ctx.trace()


def keys(tier):
    top = 7 if tier == "quick" else 10
    for m in range(1, top + 1):
        for n in range(1, top + 1):
            yield ["geo", m, n]
    for m, n, bs in ((16, 21, 16), (19, 17, 16), (20, 33, 16), (3, 40, 3), (40, 3, 2)):
        yield ["big", m, n, bs]
    for m, n, bs in ((64, 70, 16), (33, 129, 8), (130, 20, 5), (50, 51, 25), (9, 300, 4), (300, 7, 3), (65, 40, 33), (100, 101, 10)):
        yield ["huge", m, n, bs]
    for lo in range(0, 512, 64):
        yield ["bin", lo]
    for lo in range(0, 729, 81):
        yield ["ter", lo]
    parts = 8
    for p in range(parts):
        yield ["asan", 8 if tier == "quick" else 12, p, parts]
    for m, n in ((400, 3), (3, 400), (60, 60), (2, 2)):
        for dt in ("f8", "f4", "u1"):
            for lay in (0, 1, 2):
                yield ["leak", m, n, dt, lay]


TYPES = ["f8", "f4", "f2", "u1", "i1", "u2", "i2", "i4", "u4", "i8", "?"]


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def run(ctx, key):
    from viqa.fr_metrics.stat_utils import statisticscalc as mod
    kind = key[0]
    if kind == "geo":
        _, m, n = key
        for bs in range(2, min(m, n) + 1):
            for st in range(1, bs + 1):
                for pn, p in pats(m, n).items():
                    for t in TYPES:
                        for lay in range(6) if t in ("f8", "u1", "f4") else (0, 2):
                            if lay == 5 and t == "?":
                                continue
                            a = layout(p.astype(t), lay)
                            ctx.state(m, n, bs, st, pn, t, lay)
                            compare(ctx, mod, a, bs, st, "%dx%d block %d stride %d %s %s layout %d" % (m, n, bs, st, pn, t, lay))
                for off, sc in ((0.1, 0.0), (1e4 + 0.1, 0.0), (-0.3, 0.25), (1000.0, 0.5), (0.1, 1e-3), (0.0, 1e-5), (0.0, 1e-12), (-1e-8, 1e-8), (0.0, 1e7), (1e12, 1e12)):
                    a = off + sc * pats(m, n)["mod"]
                    ctx.state(m, n, bs, st, off, sc)
                    compare(ctx, mod, a, bs, st, "%dx%d block %d stride %d offset %s scale %s" % (m, n, bs, st, off, sc))
    elif kind in ("big", "huge"):
        _, m, n, bs = key
        for st in range(1, bs + 1) if kind == "big" else sorted({max(2, bs // 8), max(1, bs // 4), max(1, bs // 2), bs - 1, bs}):
            for pn, p in pats(m, n).items():
                ctx.state(kind, m, n, bs, st, pn)
                compare(ctx, mod, p, bs, st, "%dx%d block %d stride %d" % (m, n, bs, st))
    elif kind == "bin":
        for b in range(key[1], key[1] + 64):
            a = np.array([(b >> i) & 1 for i in range(9)], "f8").reshape(3, 3)
            for bs, st in ((2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
                ctx.state("bin", b, bs, st)
                compare(ctx, mod, a, bs, st, "binary %d block %d stride %d" % (b, bs, st))
    elif kind == "ter":
        for v in itertools.islice(itertools.product((0, 1, 3), repeat=6), key[1], key[1] + 81):
            for sh in ((2, 3), (3, 2)):
                a = np.array(v, "f8").reshape(sh)
                for st in (1, 2):
                    ctx.state("ter", v, sh, st)
                    compare(ctx, mod, a, 2, st, "%s stride %d" % (a.tolist(), st))
    elif kind == "asan":
        asan(ctx, *key[1:])
    else:
        _, m, n, dt, lay = key
        a = layout(np.arange(m * n).reshape(m, n).astype(dt), lay)
        libc = ctypes.CDLL(None)
        mi = libc.mallinfo2
        mi.restype = Mallinfo

        def used():
            gc.collect()
            x = mi()
            return x.uordblks + x.hblkhd

        for fn in (mod.minstd, mod.getstatistics):
            for bs, st in ((2, 1), (2, 2)):
                for _ in range(50):
                    fn(a, bs, st)
                rc, u = sys.getrefcount(a), used()
                calls = 400
                for _ in range(calls):
                    fn(a, bs, st)
                u2 = used()
                ctx.op(calls)
                ctx.state("leak", m, n, dt, lay, fn.__name__, bs, st)
                ctx.check(sys.getrefcount(a) == rc, fn.__name__, "changes the reference count of the image")
                # one lost pointer table would be rows * 8 bytes per call
                if m * 8 * calls > 200000:
                    ctx.check(u2 - u < m * 8 * calls / 2, fn.__name__, "loses", (u2 - u) / calls, "bytes per call")
                tracemalloc.start()
                fn(a, bs, st)
                t1 = tracemalloc.get_traced_memory()[0]
                for _ in range(50):
                    fn(a, bs, st)
                t2 = tracemalloc.get_traced_memory()[0]
                tracemalloc.stop()
                ctx.check(t2 - t1 < 25 * m * n * 8 + 20000, fn.__name__, "keeps arrays alive:", (t2 - t1) / 50, "bytes per call")
                ctx.trace()


def prepare(tier):
    """sanitised build of the extension"""
    import vfw.run as r
    scratch = os.environ["VERIF_SCRATCH"]
    so, err = r.build_ext(scratch, dict(os.environ), extra=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], name="asan")
    if so is None:
        raise RuntimeError("sanitised build failed: " + err)


def asan(ctx, top, part, parts):
    import glob
    scratch = os.environ["VERIF_SCRATCH"]
    so = glob.glob(os.path.join(scratch, "asan", "*.so"))[0]
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True, check=True).stdout.strip()
    env = {k: v for k, v in os.environ.items()}
    env.update(LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", PYTHONMALLOC="malloc")
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vfw", "asan_driver.py")
    import resource

    def unlimited():  # the sanitizer reserves terabytes of address space
        resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
    p = subprocess.run([sys.executable, here, so, str(top), str(part), str(parts)], env=env, capture_output=True, text=True, timeout=600, stdin=subprocess.DEVNULL, preexec_fn=unlimited)
    ctx.check(p.returncode == 0, "sanitizer:", (p.stdout + p.stderr)[-2500:])
    n = int(p.stdout.split()[-1])
    ctx.op(n)
    ctx.state("asan", top, part)
    ctx.trace(n)
