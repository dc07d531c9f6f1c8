"""Deterministic images, file writers and small reference functions."""
import io
import contextlib
import itertools
import os
import warnings

import numpy as np

GRAY = np.array([0.2125, 0.7154, 0.0721])  # luminance weights (ITU-R BT.709 as in skimage)


def lcg(n, seed):
    """n pseudo values in [0, 1): fixed patterns, not sampling (same in every run)."""
    out = np.empty(n)
    x = (seed * 2654435761 + 12345) % 2**32
    for i in range(n):
        x = (1664525 * x + 1013904223) % 2**32
        x ^= x >> 13
        out[i] = (x % 2**24) / 2**24
    return out


_cache = {}


def unit(shape, seed):
    """Deterministic textured image in [0, 1)."""
    k = (tuple(shape), seed)
    if k not in _cache:
        _cache[k] = lcg(int(np.prod(shape)), seed).reshape(shape)
    return _cache[k].copy()


def image(shape, dtype, seed=1, rng=None, like=False):
    """Deterministic image that uses the range of the type (or 0..rng); like: correlated with the other seeds."""
    u = unit(shape, seed)
    if like:
        u = 0.3 * u + 0.7 * unit(shape, 999)
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max) if rng is None else (0, rng)
        return np.floor(u * (hi - lo + 1) + lo).astype(dt)
    return (u * (1.0 if rng is None else rng)).astype(dt)


def patterns(shape, dtype, rng):
    """Structurally different images of one type: constant ones excluded."""
    dt = np.dtype(dtype)

    def cast(u):
        v = u * rng
        return (np.floor(v) if dt.kind in "ui" else v).astype(dt)
    grids = np.meshgrid(*[np.arange(s) for s in shape], indexing="ij")
    tot = sum(grids)
    out = {
        "noise1": cast(unit(shape, 3)),
        "noise2": cast(unit(shape, 4)),
        "ramp": cast(tot / tot.max()),
        "ramp0": cast(grids[0] / max(1, grids[0].max())),
        "check": cast((tot % 2).astype(float)),
        "step": cast((grids[-1] >= shape[-1] // 2).astype(float)),
        "dot": cast((tot == tot.max() // 2).astype(float)),
        "blend": cast(0.7 * unit(shape, 3) + 0.3 * unit(shape, 4)),
        "weak": cast(0.5 + 0.05 * (unit(shape, 5) - 0.5)),
    }
    return out


# ---------------------------------------------------------------- files
RAWTYPES = {"8bit": "u1", "8ubit": "u1", "16bit": "u2", "16ubit": "u2", "32bit": "u4",
            "32ubit": "u4", "16fbit": "f2", "32fbit": "f4", "64fbit": "f8"}
METTYPES = {"MET_UCHAR": "u1", "MET_USHORT": "u2", "MET_UINT": "u4", "MET_FLOAT": "f4", "MET_DOUBLE": "f8"}
_BIT = {"u1": "8bit", "u2": "16bit", "u4": "32bit", "f2": "16fbit", "f4": "32fbit", "f8": "64fbit"}
_MET = {v: k for k, v in METTYPES.items()}


def short(dtype):
    d = np.dtype(dtype)
    return d.kind + str(d.itemsize)


def write_raw(folder, stem, vol):
    """vol[x, y, z] -> raw file with x fastest; returns the path."""
    x, y, z = vol.shape
    p = os.path.join(folder, "%s_%dx%dx%d_%s.raw" % (stem, x, y, z, _BIT[short(vol.dtype)]))
    with open(p, "wb") as f:
        f.write(vol.transpose(2, 1, 0).tobytes())
    return p


def write_mhd(folder, stem, vol):
    x, y, z = vol.shape
    with open(os.path.join(folder, stem + ".bin"), "wb") as f:
        f.write(vol.transpose(2, 1, 0).tobytes())
    p = os.path.join(folder, stem + ".mhd")
    with open(p, "w") as f:
        f.write("ObjectType = Image\nNDims = 3\nDimSize = %d %d %d\nElementType = %s\nElementDataFile = %s.bin\n"
                % (x, y, z, _MET[short(vol.dtype)], stem))
    return p


def write_nii(folder, stem, arr, gz=False):
    import nibabel as nib
    p = os.path.join(folder, stem + (".nii.gz" if gz else ".nii"))
    nib.save(nib.Nifti1Image(arr, np.eye(4)), p)
    return p


def write_img(folder, stem, arr, ext):
    import skimage as ski
    p = os.path.join(folder, stem + ext)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ski.io.imsave(p, arr, check_contrast=False)
    return p


# ---------------------------------------------------------------- references
def gray_ref(img):
    return np.asarray(img, dtype=np.float64) @ GRAY


def rmse_ref(a, b):
    d = np.asarray(a).astype(object) - np.asarray(b).astype(object) if np.asarray(a).dtype.kind in "ui" else \
        np.asarray(a, dtype=np.float64) - np.asarray(b, dtype=np.float64)
    d = np.asarray(d, dtype=np.float64)
    return float(np.sqrt(np.mean(d * d)))


def psnr_ref(a, b, rng):
    r = rmse_ref(a, b)
    return float("inf") if r == 0 else 20 * np.log10(rng / r)


def region_ref(shape, center, radius, region_type):
    """Boolean membership of each pixel; spatial axes = len(center)."""
    sh = tuple(shape)[:len(center)]
    if region_type in ("full", "original"):
        return np.ones(sh, bool)
    idx = np.indices(sh)
    if region_type in ("cubic", "cube", "square"):
        m = np.ones(sh, bool)
        for i, c in enumerate(center):
            m &= (idx[i] >= c - radius) & (idx[i] < c + radius)
        return m
    d2 = sum((idx[i] - c) ** 2 for i, c in enumerate(center))
    return d2 <= radius * radius


def cnr_ref(img, sc, bc, r, rt="cubic"):
    v = np.asarray(img, dtype=np.float64)
    s, b = v[region_ref(v.shape, sc, r, rt)], v[region_ref(v.shape, bc, r, rt)]
    sd = b.std()
    return 0.0 if b.min() == b.max() else (s.mean() - b.mean()) / sd


def snr_ref(img, c, r, rt="cubic"):
    v = np.asarray(img, dtype=np.float64)
    s = v[region_ref(v.shape, c, r, rt)]
    return 0.0 if s.min() == s.max() else s.mean() / s.std()


def captured(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fn()
    return r, buf.getvalue()


def product(*a, **k):
    return itertools.product(*a, **k)


# ---------------------------------------------------------------- metrics
# cheap admissible arguments per metric; "min" is an image size (2D) on which it is defined
METRICS = {
    "RMSE": dict(kw={}, shape=(8, 9)),
    "PSNR": dict(kw={}, shape=(8, 9)),
    "SSIM": dict(kw=dict(gaussian_weights=False, win_size=3), shape=(8, 9)),
    "UQI": dict(kw=dict(win_size=3), shape=(8, 9)),
    "GSM": dict(kw={}, shape=(8, 9), slices=True),
    "MSSSIM": dict(kw=dict(kernel_size=3, scale_weights=[0.5, 0.5]), shape=(8, 9), slices=True),
    "FSIM": dict(kw={}, shape=(9, 10), slices=True),
    "VSI": dict(kw={}, shape=(9, 10), slices=True),
    "VIFp": dict(kw={}, shape=(41, 42), slices=True),
    "MAD": dict(kw=dict(block_size=4), shape=(12, 13), slices=True),
    "CNR": dict(kw=None, shape=(8, 9), nr=True),
    "SNR": dict(kw=None, shape=(8, 9), nr=True),
}
FR = [m for m in METRICS if not METRICS[m].get("nr")]
NR = ["CNR", "SNR"]
SLICED = [m for m in METRICS if METRICS[m].get("slices")]
TOL = {"SSIM": 1e-4, "UQI": 1e-4, "MSSSIM": 1e-4, "FSIM": 1e-4, "VSI": 1e-4, "VIFp": 1e-4, "MAD": 1e-6}


def make(name_, data_range=255, **kw):
    import viqa
    return getattr(viqa, name_)(data_range=data_range, **kw)


def nr_kw(name, ndim, k=0):
    """Admissible centers for images of at least 8 x 8 (x 8)."""
    sets = [((3, 4, 5), (5, 3, 4), 2), ((4, 5, 3), (3, 3, 5), 3), ((5, 4, 4), (2, 5, 3), 1)]
    s, b, r = sets[k]
    kw = dict(signal_center=s[:ndim], radius=r)
    if name == "CNR":
        kw["background_center"] = b[:ndim]
    return kw


def score(name, *imgs, data_range=255, ctor=None, **kw):
    m = make(name, data_range, **(ctor or {}))
    return m.score(*imgs, **{**(METRICS[name]["kw"] or {}), **kw})
