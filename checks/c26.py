"""C26: Q-Measure hands exactly the volume and its parameters to the calculation (recording stand-in for the external library)."""
import ctypes
import importlib.util
import itertools
import os
import pathlib
import subprocess
import sys
import sysconfig
import types
import warnings

import numpy as np
import torch
import viqa

from .common import captured, image, write_mhd, write_nii, write_raw

RULE = ("Explicit enumeration on the real wrapper and the real C++ glue code, compiled from the current tree against a recording stand-in of the external library: every volume shape up to 4x4x5 "
        "(thorough 5x5x6) x element type x memory layout (C, Fortran, reversed, strided, axis-swapped, read-only) and container (array, image array, tensor, raw, mhd, NIfTI file) x "
        "bins x peaks x normalisation x region; larger volumes with one long extent, fractional value ranges; all histories of three calls over (score volume 1, score volume 2, rejected 2D image, print) on one object. States: (shape, type, container, parameters); "
        "transitions: score calls; traces: recorded calculations compared with the volume.")
ASSUMPTIONS = ["the external qmeasure library (histogram and peak analysis) is not part of the checkout and is replaced by a stand-in that records its arguments",
               "integer valued volumes and non-negative fractional ones (the value range is handed over as integers)"]
KEY = "viqa.nr_metrics.qmeasure"
_mod = None


def prepare(tier):
    global _mod
    repo, scratch = os.environ["VERIF_REPO"], os.environ["VERIF_SCRATCH"]
    base = os.path.join(repo, "src/viqa/nr_metrics")
    so = os.path.join(scratch, "qmeasurecalc" + sysconfig.get_config_var("EXT_SUFFIX"))
    stub = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vfw", "qstub")
    p = subprocess.run(["g++", "-shared", "-fPIC", "-std=c++20", "-O1", "-w", "-I" + stub, "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(),
                        os.path.join(base, "qmeasure_utils/qmeasurecalcmodule.cpp"), "-o", so], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("the C++ extension does not compile:\n" + p.stderr[-2000:])
    pkg = types.ModuleType("viqa.nr_metrics.qmeasure_utils")
    pkg.__path__ = []
    spec = importlib.util.spec_from_file_location(pkg.__name__ + ".qmeasurecalc", so)
    ext = importlib.util.module_from_spec(spec)
    sys.modules[pkg.__name__], sys.modules[spec.name] = pkg, ext
    spec.loader.exec_module(ext)
    pkg.qmeasurecalc = ext
    src = os.path.join(base, "qmeasure.py")
    mod = types.ModuleType(KEY)
    mod.__file__ = src
    sys.modules[KEY] = mod
    with open(src) as f:
        exec(compile(f.read(), src, "exec"), mod.__dict__)
    lib = ctypes.CDLL(so)
    lib.q_data.restype = ctypes.POINTER(ctypes.c_float)
    lib.q_size.restype = ctypes.c_long
    lib.q_range.restype = ctypes.c_double
    _mod = (mod.QMeasure, lib)


def record():
    lib = _mod[1]
    n = lib.q_size()
    return dict(calls=lib.q_calls(), data=np.array(lib.q_data()[:n], "f4"), dims=[lib.q_dim(i) for i in range(3)], range=(lib.q_range(0), lib.q_range(1)), bins=lib.q_bins(), peaks=lib.q_peaks())


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def layouts(a):
    yield "C", np.ascontiguousarray(a)
    yield "F", np.asfortranarray(a)
    yield "reversed", np.ascontiguousarray(a[::-1, ::-1, ::-1])[::-1, ::-1, ::-1]
    w = np.full([2 * s for s in a.shape], 77, a.dtype)
    w[::2, 1::2, ::2] = a
    yield "strided", w[::2, 1::2, ::2]
    w = np.full([s + 2 for s in a.shape], 99, a.dtype)
    w[1:-1, 1:-1, 1:-1] = a
    yield "window", w[1:-1, 1:-1, 1:-1]
    yield "swapped", np.ascontiguousarray(a.transpose(2, 0, 1)).transpose(1, 2, 0)
    r = a.copy()
    r.setflags(write=False)
    yield "readonly", r
    yield "image", viqa.ImageArray(np.asfortranarray(a))
    if a.dtype.kind == "f" or a.dtype == np.uint8 or a.dtype.kind == "i":
        yield "tensor", torch.tensor(a)
        yield "tensor2", torch.tensor(np.ascontiguousarray(a.transpose(2, 1, 0))).permute(2, 1, 0)


def verify(ctx, got, m, a, bins, peaks, before, what):
    """the recorded calculation is the one of volume a"""
    r = record()
    a = np.asarray(a)
    ctx.check(r["calls"] == before + 1, what, "calculations", r["calls"] - before)
    want = np.sort(a.astype("f4").ravel())
    ctx.check(r["data"].size == a.size and np.array_equal(np.sort(r["data"]), want), what, "voxels handed over", r["data"][:8], "volume", a.ravel()[:8])
    ctx.check(sorted(r["dims"]) == sorted(a.shape), what, "extents", r["dims"], a.shape)
    ctx.check(r["range"] == (int(a.min()), int(a.max())), what, "range", r["range"], (a.min(), a.max()))
    ctx.check((r["bins"], r["peaks"]) == (bins, peaks), what, "bins, peaks", r["bins"], r["peaks"])
    val = float(np.sum(want.astype("f8"))) / a.size + 1e-3 * bins + 1e-1 * peaks
    ctx.check(abs(got - val) <= 1e-9 * max(1, abs(val)) and m.score_val == got, what, "score", got, m.score_val, "calculated", val)
    ctx.trace()


def keys(tier):
    t = (4, 4, 5) if tier == "quick" else (5, 5, 6)
    for x, y, z in itertools.product(*[range(1, n + 1) for n in t]):
        yield ["shape", [x, y, z]]
    for sh in ((17, 5, 9), (2, 33, 4), (3, 2, 70), (64, 5, 6), (5, 65, 7), (40, 41, 42), (1, 1, 300), (129, 1, 2), (1, 257, 1), (70, 66, 4)):
        yield ["big", list(sh)]
    for dt in ("u1", "u2", "f4", "f8"):
        yield ["file", dt]
        yield ["norm", dt]
        if dt[0] == "f":
            yield ["fraction", dt]
    for h in itertools.product("12xpbc", repeat=3):
        yield ["history", "".join(h)]


def run(ctx, key):
    Q, lib = _mod
    if key[0] == "shape":
        sh = tuple(key[1])
        for dt in ("u1", "u2", "i2", "i4", "f4", "f8"):
            a = image(sh, dt, 1, 200)
            a = np.floor(a).astype(dt)
            if dt[0] in "if":
                a = (a - 60).astype(dt)
            for name, v in layouts(a):
                for bins, peaks in ((128, 2), (17, 3)) if name in ("C", "strided") else ((64, 4),):
                    m = Q()
                    kw = {} if (bins, peaks) == (128, 2) else {"hist_bins": bins, "num_peaks": peaks}
                    n = lib.q_calls()
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        got = m.score(v, **kw)
                    ctx.op()
                    ctx.check(any("RGB" in str(x.message) for x in w) == (sh[2] == 3), "warning about color images", sh, [str(x.message) for x in w])
                    ctx.state(sh, dt, name, bins)
                    verify(ctx, got, m, a, bins, peaks, n, (sh, dt, name))
                    ctx.check(np.array_equal(np.asarray(v), a), "volume changed")
    elif key[0] == "big":
        sh = tuple(key[1])
        for dt, lo, hi in (("u1", 0, 255), ("u2", 0, 65535), ("i2", -32768, 32767), ("i4", -70000, 16000000), ("f4", -3000, 9000), ("f8", 0, 65535)):
            u = image(sh, "f8", 11, 1)
            a = np.floor(lo + (u - u.min()) / max(np.ptp(u), 1e-9) * (hi - lo)).astype(dt)
            for name, v in layouts(a):
                for bins, peaks in ((128, 2), (256, 3), (1000, 7), (65536, 2)) if name == "C" else ((300, 3),):
                    m = Q()
                    n = lib.q_calls()
                    got = quiet(lambda: m.score(v, hist_bins=bins, num_peaks=peaks))
                    ctx.op()
                    ctx.state("big", sh, dt, name, bins)
                    verify(ctx, got, m, a, bins, peaks, n, (sh, dt, name))
    elif key[0] == "file":
        dt = key[1]
        for sh in ((2, 3, 4), (4, 1, 2), (1, 1, 5), (3, 4, 5)):
            a = np.floor(image(sh, dt, 2, 200)).astype(dt)
            d = ctx.tmp()
            stem = "v%d%d%d" % sh
            for p in (write_raw(d, stem, a), write_mhd(d, stem, a), write_nii(d, stem, a)):
                for q in (p, pathlib.Path(p)):
                    m = Q()
                    n = lib.q_calls()
                    got = quiet(lambda: m.score(q, num_peaks=1))
                    ctx.op()
                    ctx.state("file", dt, sh, os.path.splitext(p)[1], type(q).__name__)
                    verify(ctx, got, m, a, 128, 1, n, (p, dt))
    elif key[0] == "fraction":
        # the value range consists of the integer parts, not of rounded values
        dt = key[1]
        for sh in ((2, 3, 4), (5, 4, 6)):
            for lo, hi in itertools.product((0.0, 0.25, 0.5, 0.75, 1.5, 2.5, 99.75), (100.0, 100.25, 100.5, 101.5, 254.75, 65534.5)):
                u = image(sh, "f8", 12, 1)
                a = (np.floor(u / u.max() * 200) * 0.25 + 50).clip(lo, hi).astype(dt)
                a.flat[0], a.flat[-1] = lo, hi
                a = np.clip(a, lo, hi)
                for name, v in layouts(a):
                    m = Q()
                    n = lib.q_calls()
                    got = quiet(lambda: m.score(v))
                    ctx.op()
                    ctx.state("fraction", sh, dt, name, lo, hi)
                    verify(ctx, got, m, a, 128, 2, n, ("fraction", sh, dt, name, lo, hi))
    elif key[0] == "norm":
        dt = key[1]
        for sh in ((3, 4, 5), (4, 2, 6)):
            a = np.floor(image(sh, dt, 3, 200)).astype(dt)
            for rng in (255, 65535):
                for roi in (None, [(0, 2), (1, 2), (2, 4)], [(1, 3), (0, 2), (0, 1)]):
                    for norm in (False, True):
                        m = Q(data_range=rng, normalize=norm, **({"roi": roi} if roi else {}))
                        n = lib.q_calls()
                        want = quiet(lambda: viqa.load_data(a, data_range=rng, normalize=norm, **({"roi": roi} if roi else {})))
                        got = quiet(lambda: m.score(a))
                        ctx.op()
                        ctx.state("norm", dt, sh, rng, str(roi), norm)
                        verify(ctx, got, m, want, 128, 2, n, ("normalize", norm, rng, roi, dt))
                        if rng == 255:  # documented defaults of the constructor
                            for given in ({"normalize": norm}, {"data_range": rng}) if not norm else ({"normalize": norm},):
                                m = Q(**given, **({"roi": roi} if roi else {}))
                                n = lib.q_calls()
                                got = quiet(lambda: m.score(a))
                                ctx.op()
                                ctx.check(m.parameters["data_range"] == 255 and m.parameters["normalize"] is norm, "defaults", m.parameters)
                                verify(ctx, got, m, want, 128, 2, n, ("defaults", given, roi, dt))
    else:
        vols = {"1": np.floor(image((2, 3, 4), "f8", 5, 99)), "2": image((4, 2, 2), "u2", 6, 999)}
        m, last = Q(), None
        for o in key[1]:
            n = lib.q_calls()
            if o in vols:
                last = quiet(lambda: m.score(vols[o]))
                verify(ctx, last, m, vols[o], 128, 2, n, key[1])
            elif o == "x":
                for bad in (np.zeros((4, 5), "u1"), np.ones((6, 3), "f8")):
                    ctx.raises(ValueError, lambda: quiet(lambda: m.score(bad)), "image of shape %s" % (bad.shape,))
                ctx.check(lib.q_calls() == n, "rejected image reached the calculation")
            elif o == "b":
                ctx.raises((TypeError, ValueError), lambda: quiet(lambda: m.score(vols["1"], hist_bins="many")), "bins")
            elif o == "c" and last is not None:
                ctx.check((m == last) and (m < last + 1) and (m > last - 1) and not (m != last), "comparison with", last)
            elif o == "p":
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    _, text = captured(lambda: m.print_score(decimals=3))
                if last is None:
                    ctx.check(any(issubclass(x.category, RuntimeWarning) for x in w), "print without score does not warn", text)
                else:
                    ctx.check("Q-Measure" in text and str(np.round(last, 3)) in text, "printed", text, last)
            ctx.op()
            ctx.state(key[1], o)
            ctx.check(m.score_val == last, key[1], o, "recorded", m.score_val, "instead of", last)
        ctx.trace()
