"""C23: command line tools (explicit enumeration of volume sizes, factors, types, file sets and option combinations)."""
import contextlib
import csv
import io
import itertools
import os
import re
import runpy
import sys

import numpy as np
import scipy.io as sio
import viqa

from .common import RAWTYPES, image, write_mhd, write_raw

RULE = ("Explicit enumeration of complete runs of the real scripts (with their command line) in a scratch directory: every volume size up to 6x6x6 (thorough 8x8x8) x factors 2..4 (cropping; one or two extents up to 17, thorough 39, single extents up to 100003), every size up to "
        "4x4x7 x factors 2..5 (projections), all name orders of up to four slice files x slices per file x element types (stacks), all subsets of five reference and six modified file names "
        "x copy option x existing output folder (pair lists), element types x patterns x file kinds (MAT), all wrong numbers of arguments. Every voxel of the written file is compared with the source "
        "file by independent index arithmetic. States: (script, arguments, files); transitions: runs; traces: verified output files.")

SCRIPTS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "scripts")


def script(name, *args, cwd=None):
    """run one script like the command line does; returns (exit code, output)"""
    argv, here = sys.argv, os.getcwd()
    out = io.StringIO()
    sys.argv = [name] + [str(a) for a in args]
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                runpy.run_path(os.path.join(SCRIPTS, name), run_name="__main__")
                code = 0
            except SystemExit as e:
                code = e.code or 0
    finally:
        sys.argv = argv
        os.chdir(here)
    return code, out.getvalue()


def voxels(shape, dt, seed=0):
    """v[x, y, z], all different where the type allows; with extreme values"""
    n = int(np.prod(shape))
    a = (np.arange(n) * 7 + seed) % 251
    v = a.astype(dt)
    if dt[0] == "f":
        v = v * np.array(0.25, dt) - np.array(20, dt)
    elif np.dtype(dt).itemsize > 1:
        v = v + np.array(np.iinfo(dt).max - 300, dt)
    return v.reshape(shape)


def dump(path, v):
    with open(path, "wb") as f:
        f.write(v.transpose(2, 1, 0).tobytes())


def parse(path, shape, dt):
    with open(path, "rb") as f:
        b = f.read()
    if len(b) != np.dtype(dt).itemsize * int(np.prod(shape)):
        return None
    return np.frombuffer(b, dt).reshape(shape[::-1]).transpose(2, 1, 0)


def empty(folder):
    for r, ds, fs in os.walk(folder, topdown=False):
        for f in fs:
            os.remove(os.path.join(r, f))
        for d in ds:
            os.rmdir(os.path.join(r, d))


def keys(tier):
    q = tier == "quick"
    top = 6 if q else 8
    for x, y in itertools.product(range(2, top + 1), repeat=2):
        yield ["crop", x, y, top]
    for n in range(7, 18 if q else 40):
        yield ["cropbig", n]
    for x, y in itertools.product(range(1, 5), repeat=2):
        yield ["reduce", x, y, 7 if q else 10]
    for n in (33, 64, 70, 129, 130, 257):
        yield ["cropbig", n]
        yield ["reducebig", n]
        yield ["stackbig", n]
    for n in (998, 999, 1000, 1024, 4097, 9999, 10001, 20002, 100003):
        yield ["croplong", n]
    for n in (1, 2, 3, 4):
        for z in (1, 2, 3):
            yield ["stack", n, z]
    for r in range(32):
        yield ["csv", r]
    for dt in ("u1", "u2", "u4", "f4", "f8"):
        for n in (1, 2, 3):
            yield ["mat", dt, n]
    yield ["usage"]


REFS = ["abc.raw", "abd.mhd", "ab.raw", "abcd.raw", "xyz.v1.raw"]
MODS = ["abc_1.raw", "abc.raw", "abd2_10x10.raw", "xyz-b.tif", "zzz.raw", "ab_7.raw"]


def run(ctx, key):
    t = ctx.tmp()
    empty(t)
    globals()["k_" + key[0]](ctx, t, *key[1:])


def k_crop(ctx, t, x, y, top):
    _crop(ctx, t, [(x, y, z) for z in range(2, top + 1)], (2, 3, 4))


def k_cropbig(ctx, t, n):
    """larger extents: one or two axes of size n"""
    _crop(ctx, t, [s for a, b in ((6, 7), (11, 8)) for s in ((n, a, b), (a, n, b), (b, a, n), (n, n, a), (a, n, n))], (2, 3, 5))


def k_croplong(ctx, t, n):
    """extents of more digits"""
    _crop(ctx, t, [(n, 4, 6), (4, n, 5), (6, 4, n)], (2, 3))


def _crop(ctx, t, sizes, factors):
    bits = sorted(RAWTYPES)
    for x, y, z in sizes:
        for factor in factors:
            if min(x, y, z) // factor < 2 and (x + y + z) % 3:
                continue
            bit = bits[(x * 5 + y * 3 + z + factor) % len(bits)]
            dt = RAWTYPES[bit]
            sh = (x, y, z)
            v = voxels(sh, dt)
            src = os.path.join(t, "in", "vol_%dx%dx%d_%s.raw" % (*sh, bit))
            os.makedirs(os.path.dirname(src), exist_ok=True)
            dump(src, v)
            before = open(src, "rb").read()
            out = os.path.join(t, "out")
            if z % 2:
                os.makedirs(out, exist_ok=True)
            code, _ = script("crop_image.py", src, out, *sh, bit, factor)
            ctx.op()
            ctx.state("crop", sh, factor, bit)
            ctx.check(code == 0, "exit code", code)
            want = tuple(2 * (n // factor // 2) for n in sh)
            files = os.listdir(out)
            ctx.check(files == ["crop_vol_%dx%dx%d_%s.raw" % (*want, bit)], "cropping", sh, "by", factor, "wrote", files, "expected size", want)
            got = parse(os.path.join(out, files[0]), want, dt)
            ctx.check(got is not None, "size of the file does not match its name")
            part = v[tuple(slice(n // 2 - w // 2, n // 2 + w // 2) for n, w in zip(sh, want))]
            ctx.check(np.array_equal(got, part), "voxels after cropping", sh, "by", factor)
            if all(want):
                ctx.check(np.array_equal(np.asarray(viqa.load_data(os.path.join(out, files[0]))), part), "cropped volume loaded again")
            ctx.check(open(src, "rb").read() == before, "source changed")
            # wrong size or factor
            for args in ((x + 1, y, z, bit, factor), (x, y, z, bit, 1), (x, y, z, "7bit", factor)):
                ctx.raises(ValueError, lambda: script("crop_image.py", src, os.path.join(t, "no"), *args), "cropping with %s" % (args,))
                ctx.check(not os.path.exists(os.path.join(t, "no")), "output of a rejected call")
            empty(t)
            ctx.trace()


def k_reducebig(ctx, t, n):
    _reduce(ctx, t, [(n, 2, 5), (3, n, 7), (2, 3, n), (17, 18, n)], (2, 3, 7, 10, 64, n - 1, n, n + 1))


def k_reduce(ctx, t, x, y, top):
    _reduce(ctx, t, [(x, y, z) for z in range(1, top + 1)], (2, 3, 4, 5))


def _reduce(ctx, t, sizes, factors):
    bits = sorted(RAWTYPES)
    for x, y, z in sizes:
        for factor in factors:
            bit = bits[(x * 5 + y * 3 + z + factor) % len(bits)]
            dt = RAWTYPES[bit]
            sh = (x, y, z)
            v = voxels(sh, dt, 3)
            src = os.path.join(t, "proj.raw")
            dump(src, v)
            form = (x + y + z + factor) % 3
            out = [os.path.join(t, "new", "sub", "o.raw"), "o.raw", os.path.join(t, "o2.raw")][form]
            code, _ = script("reduce_projections.py", src, out, *sh, bit, factor, cwd=t)
            ctx.op()
            ctx.state("reduce", sh, factor, bit, form)
            out = os.path.join(t, out)
            ctx.check(code == 0 and os.path.isfile(out), "exit code", code)
            keep = list(range(0, z, factor))
            got = parse(out, (x, y, len(keep)), dt)
            ctx.check(got is not None and np.array_equal(got, v[:, :, keep]), "projections after reducing", sh, "by", factor)
            ctx.check(np.array_equal(parse(src, sh, dt), v), "source changed")
            for args in ((x, y, z + 1, bit, factor), (x, y, z, bit, 1)):
                ctx.raises(ValueError, lambda: script("reduce_projections.py", src, os.path.join(t, "no.raw"), *args), "reducing with %s" % (args,))
            ctx.check(not os.path.exists(os.path.join(t, "no.raw")), "output of a rejected call")
            empty(t)
            ctx.trace()


def k_stack(ctx, t, n, z):
    bits = sorted(RAWTYPES)
    pool = ["s1", "s10", "s2", "a_b", "Z"]
    for names in itertools.permutations(pool, n):
        for k, (x, y) in enumerate([(2, 3), (3, 2), (4, 4), (1, 5)]):
            if k != len(names[0]) % 4 and n > 2:
                continue
            bit = bits[(n + z + k + pool.index(names[0])) % len(bits)]
            dt = RAWTYPES[bit]
            ext = ("raw", "bin")[k % 2]
            src = os.path.join(t, "stack")
            os.makedirs(src)
            part = {}
            for i, f in enumerate(names):  # creation order differs from name order
                part[f] = voxels((x, y, z), dt, 50 * (i + 1))
                dump(os.path.join(src, f + "." + ext), part[f])
            for other in ("s0.txt", "s3.%s.old" % ext):
                with open(os.path.join(src, other), "w") as fo:
                    fo.write("not a slice")
            out = os.path.join(t, "o", "p") if k else t
            code, _ = script("combine_stack.py", src, out, x, y, z, bit, ext, "raw")
            ctx.op()
            ctx.state("stack", names, x, y, z, bit, ext)
            want = np.concatenate([part[f] for f in sorted(names)], axis=2)
            files = [f for f in os.listdir(out) if f.endswith(".raw")]
            ctx.check(code == 0 and files == ["volume_%dx%dx%d_%s.raw" % (*want.shape, bit)], "combining", names, "wrote", files)
            got = parse(os.path.join(out, files[0]), want.shape, dt)
            ctx.check(got is not None and np.array_equal(got, want), "slices after combining", names, "of size", (x, y, z))
            ctx.check(np.array_equal(np.asarray(viqa.load_data(os.path.join(out, files[0]))), want), "combined volume loaded again")
            with open(os.path.join(src, "zz." + ext), "wb") as fo:
                fo.write(b"\0")
            if x * y * z * np.dtype(dt).itemsize > 1:
                ctx.raises(ValueError, lambda: script("combine_stack.py", src, os.path.join(t, "q"), x, y, z, bit, ext, "raw"), "slice file of wrong size")
            empty(t)
            ctx.trace()


def k_stackbig(ctx, t, n):
    """many or large slice files"""
    bits = sorted(RAWTYPES)
    for count, (x, y, z) in ((n, (2, 3, 1)), (3, (n, 17, 2)), (2, (3, 4, n)), (11, (18, 5, 1))):
        bit = bits[(n + count) % len(bits)]
        dt = RAWTYPES[bit]
        src = os.path.join(t, "stack")
        os.makedirs(src)
        part = {}
        for i in reversed(range(count)):
            f = "slice_%04d.raw" % i
            part[f] = voxels((x, y, z), dt, 11 * i + 1)
            dump(os.path.join(src, f), part[f])
        code, _ = script("combine_stack.py", src, t, x, y, z, bit, "raw", "raw")
        ctx.op()
        ctx.state("stackbig", count, x, y, z, bit)
        want = np.concatenate([part[f] for f in sorted(part)], axis=2)
        name = "volume_%dx%dx%d_%s.raw" % (*want.shape, bit)
        ctx.check(code == 0 and sorted(os.listdir(t)) == ["stack", name], "combining", count, "files wrote", os.listdir(t))
        got = parse(os.path.join(t, name), want.shape, dt)
        ctx.check(got is not None and np.array_equal(got, want), "slices after combining", count, "files of size", (x, y, z))
        empty(t)
        ctx.trace()


def k_csv(ctx, t, rmask):
    refs = [f for i, f in enumerate(REFS) if rmask >> i & 1]
    for mmask in range(64):
        mods = [f for i, f in enumerate(MODS) if mmask >> i & 1]
        copy = (rmask + mmask) % 2
        exist = mmask % 3
        dr, dm, out = (os.path.join(t, n) for n in ("ref", "mod", "out"))
        os.makedirs(dr)
        os.makedirs(dm)
        data = {}
        for d, fs in ((dr, refs), (dm, mods)):
            for f in fs:
                data[d, f] = ("%s/%s" % (os.path.basename(d), f)).encode()
                with open(os.path.join(d, f), "wb") as fo:
                    fo.write(data[d, f])
        if exist:
            os.makedirs(os.path.join(out, "images") if exist == 2 and copy else out)
            with open(os.path.join(out, "pairs.csv"), "w") as fo:
                fo.write("old\n" * 50)
        code, _ = script("write_to_csv.py", dm, dr, out, *(["copy"] if copy else []))
        ctx.op()
        ctx.state("csv", rmask, mmask, copy, exist)
        want = [(r, m) for r in refs for m in mods if m[:3] == r.split(".")[0]]
        with open(os.path.join(out, "pairs.csv"), newline="") as fo:
            rows = list(csv.reader(fo))
        ctx.check(code == 0 and rows and rows[0] == ["reference_image", "modified_image"], "header", rows[:1])
        ctx.check(sorted(map(tuple, rows[1:])) == sorted(want), "pairs", rows[1:], "expected", want)
        names = sorted(os.listdir(out))
        ctx.check(names == (["images", "pairs.csv"] if copy else ["pairs.csv"]), "output folder", names)
        if copy:
            need = {}
            for r, m in want:
                need.setdefault(r, data[dr, r])
                need.setdefault(m, data[dm, m])
            got = {f: open(os.path.join(out, "images", f), "rb").read() for f in os.listdir(os.path.join(out, "images"))}
            ctx.check(sorted(got) == sorted(need), "copied files", sorted(got), "expected", sorted(need))
            clash = {r for r, m in want if r == m}
            for f in need:
                if f not in clash:
                    ctx.check(got[f] == need[f], "content of copied file", f)
        for (d, f), c in data.items():
            ctx.check(open(os.path.join(d, f), "rb").read() == c, "source file changed", f)
        empty(t)
        ctx.trace()


def k_mat(ctx, t, dt, n):
    for kind in ("mhd", "raw"):
        for pat in range(4):
            sh = [(3, 4, 5), (5, 4, 3), (2, 3, 2), (4, 4, 4)][pat]
            vols = {}
            for i in range(n):
                v = image(sh, dt, i + 1 + pat)
                if pat == 1:
                    v = np.asarray(v // 2 + 3 if dt[0] == "u" else v * 1000 - 500, dtype=dt)
                d = os.path.join(t, "case%d" % i)
                os.makedirs(d)
                if kind == "mhd":
                    write_mhd(d, "volume", v)
                else:
                    os.rename(write_raw(d, "v", v), os.path.join(d, "v_%dx%dx%d_%s.raw" % (*sh, {"u1": "8bit", "u2": "16bit", "u4": "32bit", "f4": "32fbit", "f8": "64fbit"}[dt])))
                vols[d] = v
            args = [] if kind == "mhd" and pat % 2 else ["volume.mhd"] if kind == "mhd" else [f for f in os.listdir(d) if f.endswith(".raw")][:1]
            before = {d: {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)} for d in vols}
            code, _ = script("write_to_mat.py", t, *args)
            ctx.op()
            ctx.state("mat", dt, n, kind, pat)
            ctx.check(code == 0, "exit code", code)
            for d, v in vols.items():
                ctx.check(sorted(os.listdir(d)) == sorted(list(before[d]) + ["image.mat"]), "files", os.listdir(d))
                m = sio.loadmat(os.path.join(d, "image.mat"))["image"]
                f = v.astype(np.float64)
                ctx.close(m, (f - f.min()) / (f.max() - f.min()), "normalised volume (%s)" % d, rtol=1e-5, atol=1e-6)
                ctx.check(m.min() == 0 and m.max() == 1, "range of normalised volume", m.min(), m.max())
                for name, b in before[d].items():
                    ctx.check(open(os.path.join(d, name), "rb").read() == b, "source changed", name)
            empty(t)
            ctx.trace()


def k_usage(ctx, t):
    need = {"combine_stack.py": {8}, "crop_image.py": {7}, "reduce_projections.py": {7}, "write_to_csv.py": set(range(3, 12)), "write_to_mat.py": set(range(1, 12))}
    for name, ok in need.items():
        for n in range(10):
            if n in ok:
                continue
            code, out = script(name, *([os.path.join(t, "x")] * n), cwd=t)
            ctx.op()
            ctx.state("usage", name, n)
            ctx.check(code == 1 and re.search("usage", out, re.I) and not os.listdir(t), name, "with", n, "arguments", code, out)
            ctx.trace()
