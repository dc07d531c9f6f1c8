"""C27: optional arguments have their documented defaults (explicit enumeration of subsets of omitted arguments)."""
import contextlib
import io
import itertools
import os
import re
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import viqa  # noqa: E402
from viqa.fr_metrics import gsm, mad, ssim  # noqa: E402
from viqa.nr_metrics import cnr, snr  # noqa: E402
from viqa.utils import correlate_convolve_abs, find_largest_region, gabor_convolve  # noqa: E402

from .common import image, unit, write_raw  # noqa: E402

RULE = ("Explicit enumeration on the real code: for every public constructor, scoring method, function, report and export every subset of optional arguments left out (up to 6 arguments all 2^k subsets, beyond that all "
        "subsets of up to two and the full one; thorough: all subsets up to 10 arguments), while the remaining ones are given with their documented default or, one at a time (thorough: two), with another "
        "value. The outcome (value, exception, printed text, written files, figure) must be that of the call with all documented defaults given explicitly. States: (call, alternatives, omitted subset); "
        "transitions: calls; traces: comparisons.")


def pair(shape, dt="u1", rng=255):
    return image(shape, dt, 1, rng), image(shape, dt, 2, rng, like=True)


def metric(name, imgs, **fixed):
    """constructor arguments are those in CTOR, the others go to the scoring call"""
    def call(t, **kw):
        kw = {**fixed, **kw}
        c = {k: kw.pop(k) for k in list(kw) if k in CTOR}
        m = getattr(viqa, name)(**c)
        return [m.score(*imgs, **kw), m.parameters["data_range"], m.parameters["normalize"], m.parameters["chromatic"]]
    return call


CTOR = ("data_range", "normalize", "chromatic", "name", "roi")
BASE = dict(data_range=255, normalize=False, chromatic=False)
CALT = dict(data_range=[65535, 1], normalize=[True], chromatic=[True])
G = pair((12, 13))
GF = pair((12, 13), "f8", 200)
B = pair((41, 42))
BF = pair((41, 42), "f4", 240)
DARK = pair((41, 42), "u1", 100)
COL = tuple(image((12, 13, 3), "u1", s) for s in (1, 2))
COLB = tuple(image((41, 42, 3), "u1", s) for s in (1, 2))
V = pair((13, 12, 14))
S = [image((20, 21), "u1", 5)]
S[0][4:17, 5:18] += 100
S3 = [image((14, 15, 13), "u2", 5, 4000)]
S3[0][3:12, 3:12, 2:11] += 40000
SC = [image((20, 21, 3), "u1", 5, 100)]
SC[0][3:16, 4:17] += 120


def scene(seed, slope, gap, corner):
    """a bright object with gaps on a noisy background; the brightest voxels are inside of it or in a corner"""
    g = np.indices((30, 33))
    v = 40 * unit((30, 33), seed)
    v += np.maximum(0, 60 - ((g[0] - 15) ** 2 + (g[1] - 16) ** 2) / slope)
    v[(g[0] * 3 + g[1] * 5) % gap == 0] -= 60
    if corner:
        v[:3, :4] += 200
        v[-2:, ::5] += 100
    else:
        v[(g[0] - 17) ** 2 + (g[1] - 16) ** 2 <= 4] += 200
    return v - v.min()


SCENES = [scene(4, 4, 7, False), scene(3, 8, 61, True)]


def every(f, imgs, *args, **fixed):
    return lambda t, **kw: [f(i, *args, **fixed, **kw) for i in imgs]


def metadata(text):
    return re.sub("Time: .*", "Time", text)


def folder(t, fn, show=None):
    """everything a call prints, writes below the working directory and shows"""
    d = os.path.join(t, "d")
    n = 0
    while os.path.exists(d + str(n)):
        n += 1
    d += str(n)
    os.makedirs(os.path.join(d, "sub"))
    old, buf, figs, oldshow, known = os.getcwd(), io.StringIO(), [], plt.show, plt.get_fignums()
    plt.show = lambda *a, **k: figs.append([(plt.figure(i).dpi, plt.figure(i).get_size_inches().tolist()) for i in plt.get_fignums() if i not in known])
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(buf):
            r = fn()
    finally:
        os.chdir(old)
        plt.show = oldshow
        for i in plt.get_fignums():
            if i not in known:
                plt.close(i)
    out = {}
    for root, _, files in os.walk(d):
        for f in sorted(files):
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                b = fh.read()
            out[os.path.relpath(p, d)] = metadata(b.decode()) if f.endswith(".txt") else plt.imread(p) if f.endswith(".png") else b.decode()
            os.remove(p)
    return [r if not isinstance(r, dict) else dict(r), sorted(out.items()), buf.getvalue(), figs]


def multi():
    m = viqa.MultipleMetrics([viqa.RMSE(), viqa.SNR()], [{}, dict(signal_center=(6, 6), radius=2)])
    m.calculate(*G)
    return m


def batch(t):
    for i in range(2):
        write_raw(t, "r%d" % i, V[0] + np.uint8(i))
        write_raw(t, "m%d" % i, image((9, 10, 11), "u1", 7 + i))
    names = sorted(f for f in os.listdir(t) if f.endswith(".raw"))
    with open(os.path.join(t, "p.csv"), "w") as f:
        f.write("reference_image,modified_image\n" + "".join("%s,%s\n" % (names[2 + i], names[i]) for i in range(2)))
    return viqa.BatchMetrics(t, os.path.join(t, "p.csv"), [viqa.RMSE(), viqa.CNR()], [{}, dict(signal_center=(4, 4, 4), background_center=(6, 6, 6), radius=2)])


def scored():
    m = viqa.PSNR()
    m.score(*G)
    return m


def batch_report(t, **kw):
    b = batch(t)
    b.calculate()
    kw.setdefault("z", 3)
    return folder(t, lambda: b.report(**kw))


def multi_report(t, **kw):
    return folder(t, lambda: multi().report(img_r=G[0], img_m=G[1], **kw))


SMALL = {"MSSSIM": dict(kernel_size=3, scale_weights=[0.5, 0.5])}
LF, CF = dict(b=0.0, k=0.02874, gamma=2.2), dict(lambda_csf=0.114, f_peak=7.8909)
MADD = dict(block_size=16, block_overlap=0.75, beta_1=0.467, beta_2=0.130, thresh_1=None, thresh_2=None, account_monitor=False, luminance_function=LF, ms_scale=1, orientations_num=4, scales_num=5,
            weights=[0.5, 0.75, 1, 5, 6], csf_function=CF)
MADA = dict(block_size=[8], block_overlap=[0.5], beta_1=[0.6], beta_2=[0.2], account_monitor=[], luminance_function=[dict(LF, k=0.05)], ms_scale=[2], orientations_num=[3], weights=[[1, 1, 1, 1, 1]],
            csf_function=[dict(CF, f_peak=6.0)])
REGA = dict(iterations=[1, 2], region_type=["spherical"])
REGS = dict(REGA, lower_threshold=[60], upper_threshold=[98])
CNRD = dict(region_type="cubic", auto_center=False, iterations=5)
SNRD = dict(CNRD, lower_threshold=90, upper_threshold=99, yuv=True)


def fn(f, *args, **fixed):
    return lambda t, **kw: f(*args, **fixed, **kw)


def sub(f, outer, defaults):
    """the entries of a dictionary argument"""
    return lambda t, **kw: f(t, **{outer: kw})


def draw(f, *args, **fixed):
    return lambda t, **kw: folder(t, lambda: f(*args, **fixed, **kw))


BIN = SCENES[0] > np.percentile(SCENES[0], 90)
BIN2 = np.pad(np.indices((20, 20)).sum(0) % 7 > 0, 4)
REG3 = np.zeros((14, 15, 13), bool)
REG3[3:11, 2:12, 2:11] = True
REG3[6, 6, 6] = False

CALLS = {
    # constructors with a plain scoring call
    **{"new " + m: (metric(m, i, **SMALL.get(m, {})), BASE, CALT) for m, i in (("PSNR", COL), ("FSIM", COLB), ("VSI", COLB), ("MSSSIM", COLB), ("VIFp", COLB), ("MAD", COLB), ("GSM", COL), ("UQI", COL))},
    "new RMSE": (metric("RMSE", COL), dict(data_range=None, normalize=False, chromatic=False), dict(data_range=[255], chromatic=[True])),
    "new SSIM": (lambda t, **kw: metric("SSIM", COL)(t, **kw), BASE, dict(CALT, chromatic=[])),
    **{"wide " + m: (metric(m, BF, **SMALL.get(m, {})), dict(data_range=255, normalize=False), dict(data_range=[65535], normalize=[True])) for m in ("PSNR", "FSIM", "VSI", "MSSSIM", "VIFp", "MAD", "GSM", "UQI", "SSIM")},
    "new CNR": (lambda t, **kw: metric("CNR", [s / 3.0 for s in S])(t, signal_center=(9, 9), background_center=(4, 4), radius=3, **kw), dict(data_range=255, normalize=False), dict(data_range=[1, 65535], normalize=[True])),
    "new SNR": (lambda t, **kw: metric("SNR", [s / 3.0 for s in S])(t, signal_center=(9, 9), radius=3, **kw), dict(data_range=255, normalize=False, name="SNR"), dict(data_range=[1, 65535], normalize=[True])),
    "named SNR": (lambda t, **kw: viqa.SNR(**kw)._name, dict(data_range=255, normalize=False, name="SNR"), dict(name=["x"])),
    # scoring
    "SSIM": (metric("SSIM", G), dict(gaussian_weights=True, alpha=1, beta=1, gamma=1, K1=0.01, K2=0.03, sigma=1.5, mode="reflect", cval=0, win_size=None),
             dict(gaussian_weights=[False], alpha=[2], beta=[2], gamma=[2], K1=[0.2], K2=[0.2], sigma=[0.7], mode=["constant"])),
    "SSIM uniform": (lambda t, **kw: metric("SSIM", G)(t, gaussian_weights=False, **kw), dict(win_size=7, alpha=1, beta=1, gamma=1, K1=0.01, K2=0.03),
                     dict(win_size=[5], alpha=[2], beta=[2], gamma=[2], K1=[0.2], K2=[0.2])),
    "UQI": (metric("UQI", G), dict(win_size=7), dict(win_size=[5])),
    "FSIM": (metric("FSIM", B), dict(scales=4, orientations=4, min_length=6, mult=2, sigma_f=0.55, delta_theta=1.2, k=2.0, reduction="mean", dim=None, im_slice=None),
             dict(scales=[3], orientations=[3], min_length=[5], mult=[3], sigma_f=[0.4], delta_theta=[1.0], k=[3.0])),
    "VSI": (metric("VSI", B), dict(c1=1.27, c2=386.0, c3=130.0, alpha=0.4, beta=0.02, omega_0=0.021, sigma_f=1.34, sigma_d=145.0, sigma_c=0.001, reduction="mean", dim=None, im_slice=None),
            dict(c1=[2.0], c2=[100.0], c3=[50.0], alpha=[0.8], beta=[0.1], omega_0=[0.05], sigma_f=[1.0], sigma_d=[50.0], sigma_c=[0.01])),
    "MSSSIM": (lambda t, **kw: metric("MSSSIM", pair((180, 181)))(t, **kw), dict(kernel_size=11, kernel_sigma=1.5, k1=0.01, k2=0.03, reduction="mean"),
               dict(kernel_size=[9], kernel_sigma=[1.0], k1=[0.1], k2=[0.2])),
    "VIFp": (metric("VIFp", B), dict(sigma_n_sq=2.0, reduction="mean", dim=None, im_slice=None), dict(sigma_n_sq=[3.0])),
    "GSM": (metric("GSM", G), dict(c=200, p=0.1, dim=None, im_slice=None), dict(c=[500], p=[0.3])),
    "GSM volume": (lambda t, **kw: metric("GSM", V)(t, dim=1, **kw), dict(experimental=False, c=200, p=0.1, im_slice=None), dict(experimental=[True], c=[500], p=[0.3])),
    "MAD": (metric("MAD", B), MADD, MADA),
    "MAD luminance": (sub(metric("MAD", DARK), "luminance_function", LF), LF, dict(b=[0.5], k=[0.05], gamma=[1.8])),
    "MAD luminance float": (sub(metric("MAD", [f / 1.0 for f in DARK]), "luminance_function", LF), LF, dict(b=[0.5], k=[0.05], gamma=[1.8])),
    "MAD csf": (sub(metric("MAD", B), "csf_function", CF), CF, dict(lambda_csf=[0.2], f_peak=[6.0])),
    "CNR": (lambda t, **kw: metric("CNR", S)(t, signal_center=(9, 9), background_center=(4, 4), radius=3, **kw), CNRD, REGA),
    "CNR auto": (lambda t, **kw: [metric("CNR", [i])(t, signal_center=None, background_center=None, radius=None, auto_center=True, **kw) for i in SCENES], dict(region_type="cubic", iterations=5), REGA),
    "SNR": (lambda t, **kw: metric("SNR", S)(t, signal_center=(9, 9), radius=3, **kw), SNRD, REGS),
    "SNR auto": (lambda t, **kw: [metric("SNR", [i])(t, signal_center=None, radius=None, auto_center=True, **kw) for i in SCENES], dict(region_type="cubic", iterations=5, lower_threshold=90, upper_threshold=99), REGS),
    "SNR color": (lambda t, **kw: metric("SNR", SC)(t, signal_center=(9, 9), radius=3, **kw), dict(yuv=True, region_type="cubic", auto_center=False), dict(yuv=[False], region_type=["spherical"])),
    # functions
    "structural_similarity": (fn(ssim.structural_similarity, *G, data_range=255), dict(gaussian_weights=True, alpha=1, beta=1, gamma=1), dict(gaussian_weights=[False], alpha=[2], beta=[2])),
    "gradient_similarity": (fn(gsm.gradient_similarity, *G, data_range=255), dict(c=200, p=0.1), dict(c=[500], p=[0.3])),
    "gradient_similarity_3d": (fn(gsm.gradient_similarity_3d, *V, data_range=255), dict(dim=2, experimental=False, c=200), dict(dim=[1], experimental=[True], c=[500])),
    "most_apparent_distortion": (fn(mad.most_apparent_distortion, *B), dict(data_range=255, block_size=16, block_overlap=0.75, beta_1=0.467, beta_2=0.130), dict(data_range=[65535], block_size=[8], block_overlap=[0.5], beta_1=[0.6], beta_2=[0.2])),
    "most_apparent_distortion_3d": (fn(mad.most_apparent_distortion_3d, *V, block_size=4), dict(dim=2, data_range=255), dict(dim=[0, 1])),
    "contrast_to_noise_ratio": (fn(cnr.contrast_to_noise_ratio, S3[0], (4, 5, 6), (9, 8, 7), 3), CNRD, REGA),
    "contrast_to_noise_ratio auto": (every(cnr.contrast_to_noise_ratio, SCENES, None, None, None, auto_center=True), {k: v for k, v in CNRD.items() if k != "auto_center"}, REGA),
    "signal_to_noise_ratio": (fn(snr.signal_to_noise_ratio, S3[0], (4, 5, 6), 3), SNRD, REGS),
    "signal_to_noise_ratio auto": (every(snr.signal_to_noise_ratio, SCENES, None, None, auto_center=True), {k: v for k, v in SNRD.items() if k not in ("auto_center", "yuv")}, REGS),
    "find_largest_region": (fn(find_largest_region, BIN), dict(iterations=5, region_type="cubic"), dict(iterations=[1, 2], region_type=["spherical", "full", "original"])),
    "find_largest_region holes": (fn(find_largest_region, BIN2), dict(iterations=5, region_type="cubic"), dict(iterations=[1, 4], region_type=["spherical", "full", "original"])),
    "find_largest_region 3d": (fn(find_largest_region, REG3), dict(iterations=5, region_type="cubic"), dict(iterations=[1, 2, 4], region_type=["spherical", "full", "original"])),
    "correlate_convolve_abs": (fn(correlate_convolve_abs, unit((6, 7), 4), np.arange(9.0).reshape(3, 3) - 3), dict(mode="correlate", border_mode="constant", value=0), dict(mode=["convolve"], border_mode=["reflect"], value=[3])),
    "gabor_convolve": (fn(gabor_convolve, unit((12, 13), 4), 3, 4), dict(min_wavelength=3, wavelength_scaling=3, bandwidth_param=0.55, d_theta_on_sigma=1.5),
                       dict(min_wavelength=[4], wavelength_scaling=[2], bandwidth_param=[0.7], d_theta_on_sigma=[1.2])),
    "load_data": (fn(viqa.load_data, GF[0]), dict(data_range=None, normalize=False, roi=None, batch=False), dict(roi=[[(1, 5), (2, 6)]])),
    "load_data normalized": (fn(viqa.load_data, GF[0], data_range=255), dict(normalize=False, roi=None, batch=False), dict(normalize=[True], roi=[[(1, 5), (2, 6)]])),
    "normalize_data": (fn(viqa.normalize_data, GF[0], (0, 255)), dict(data_range_input=None, automatic_data_range=True), {}),
    "normalize_data given": (fn(viqa.normalize_data, GF[0], (0, 255), data_range_input=(0, 400)), dict(automatic_data_range=True), dict(automatic_data_range=[False])),
    "crop_image": (fn(viqa.crop_image, G[0], (1, 5), (2, 9)), dict(z=None), {}),
    # printing, exports, reports, figures
    "print_score": (lambda t, **kw: folder(t, lambda: scored().print_score(**kw)), dict(decimals=2), dict(decimals=[3])),
    "print_score all": (lambda t, **kw: folder(t, lambda: [printed(c).print_score(**kw) for c in ALL]), dict(decimals=2), dict(decimals=[3])),
    "print_values": (lambda t, **kw: folder(t, lambda: multi().print_values(**kw)), dict(decimals=2), dict(decimals=[3])),
    "export_results": (lambda t, **kw: folder(t, lambda: viqa.export_results([scored(), viqa.RMSE()], ".", "x", **kw)), dict(return_dict=False), dict(return_dict=[True])),
    "export_metadata": (lambda t, **kw: folder(t, lambda: viqa.export_metadata([scored()], [{"a": 1}], ".", **kw)), dict(file_name="metadata.txt"), dict(file_name=["y.txt"])),
    "export_image": (draw(viqa.export_image, {"RMSE": 1.5}, V[0], image((9, 10, 11), "u1", 3), x=3),
                     dict(dpi=300, scaling_order=1, file_path=None, file_name="image_comparison.png", show_image=True, y=None, z=None, roi=None), "fig"),
    "multi export_results": (lambda t, **kw: folder(t, lambda: multi().export_results(file_path="sub", **kw)), dict(file_name="results.csv"), dict(file_name=["y.csv"])),
    "multi export_metadata": (lambda t, **kw: folder(t, lambda: multi().export_metadata(**kw)), dict(file_name="metadata.txt", file_path="."), dict(file_name=["y.txt"], file_path=["sub"])),
    "multi report": (multi_report, dict(csv=True, metadata=True, text=True, image=False, file_path=None, project_name=None, decimals=2, export_image=False),
                     dict(csv=[False], metadata=[False], text=[False], image=[True], file_path=["sub"], project_name=["p"], decimals=[4])),
    "multi figures": (lambda t, **kw: multi_report(t, image=True, csv=False, metadata=False, text=False, **kw), dict(export_image=False, file_path=None, project_name=None), dict(export_image=[True], file_path=["sub"], project_name=["p"])),
    "multi calculate": (lambda t, **kw: multi().calculate(image((20, 21), "u1", 4), image((15, 16), "u1", 5), **kw), dict(scaling_order=1, roi=None), dict(scaling_order=[0, 3], roi=[[(0, 12), (1, 13)]])),
    "batch calculate": (lambda t, **kw: batch(t).calculate(**kw), dict(scaling_order=1, roi=None), dict(scaling_order=[0, 3], roi=[[(0, 12), (1, 11), (2, 12)]])),
    "batch report": (batch_report, dict(csv=True, metadata=True, image=False, file_path=None, project_name=None, x=None, y=None),
                     dict(csv=[False], metadata=[False], image=[True], file_path=["sub"], project_name=["p"])),
    "batch figures": (lambda t, **kw: batch_report(t, image=True, csv=False, metadata=False, **kw), dict(dpi=300, scaling_order=1, file_path="."), dict(dpi=[50], scaling_order=[0])),
    "batch export_results": (lambda t, **kw: (lambda b: (b.calculate(), folder(t, lambda: b.export_results(**kw)))[1])(batch(t)), dict(file_name="results.csv", file_path="."), dict(file_name=["y.csv"], file_path=["sub"])),
    "visualize_2d": (draw(viqa.visualize_2d, G[0]), dict(export_path=None), {}),
    "visualize_3d": (draw(viqa.visualize_3d, V[0], (1, 2, 3)), dict(export_path=None), {}),
}
CALLS["export_image"] = CALLS["export_image"][:2] + (dict(dpi=[50], scaling_order=[0], file_path=["sub"], file_name=["y.png"], show_image=[False]),)
CALLS["export_image kept"] = (lambda t, **kw: folder(t, lambda: viqa.export_image({"RMSE": 1.5}, V[0], image((9, 10, 11), "u1", 3), x=3, file_path="sub", **kw)),
                              dict(dpi=300, scaling_order=1, file_name="image_comparison.png", show_image=True), dict(dpi=[50], scaling_order=[0], file_name=["y.png"], show_image=[False]))
ALL = ["RMSE", "PSNR", "SSIM", "UQI", "MSSSIM", "FSIM", "VSI", "GSM", "MAD", "VIFp", "CNR", "SNR"]
for _m in ("MSSSIM", "FSIM", "VSI", "VIFp", "MAD"):
    _kw = {"MSSSIM": dict(kernel_size=3, scale_weights=[0.5, 0.5]), "MAD": dict(block_size=4)}.get(_m, {})
    _v = pair((41, 42, 44)) if _m == "VIFp" else V
    CALLS["slice " + _m] = ((lambda m, v, k: lambda t, **kw: metric(m, v)(t, dim=1, **k, **kw))(_m, _v, _kw), dict(im_slice=None), dict(im_slice=[3]))
HEAVY = {"MAD", "VSI", "slice VIFp", "slice VSI", "batch figures", "export_image", "MSSSIM", "multi report", "batch report"}


def printed(c):
    m = getattr(viqa, c)()
    m.score_val = 1.23456789
    return m


def subsets(names, tier, name):
    k = len(names)
    full = k <= (6 if tier == "quick" else 10) and not (name in HEAVY and tier == "quick" and k > 4)
    for n in range(1, k + 1):
        if full or n <= 2 or n == k:
            yield from itertools.combinations(names, n)


def contexts(alts, tier):
    """assignments of other values to none, one (thorough: two) of the arguments"""
    for n in range(0, 2 if tier == "quick" else 3):
        for names in itertools.combinations(sorted(alts), n):
            for vals in itertools.product(*[alts[x] for x in names]):
                yield dict(zip(names, vals))


def outcome(f, t, kw):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            return f(t, **{k: list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in kw.items()})
        except Exception as e:
            return ("raises", type(e).__name__)


def flat(x):
    if isinstance(x, dict):
        return [(k, flat(v)) for k, v in sorted(x.items())]
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if type(x).__module__.startswith("torch"):
        return np.float32(float(x))
    return x


def same(a, b):
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        return np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and np.array_equal(np.ma.filled(a, 0), np.ma.filled(b, 0))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return same(a.tolist(), b.tolist())
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or a != a and b != b or abs(a - b) <= (1e-5 if isinstance(a, np.float32) else 1e-9) * abs(a)
    return type(a) is type(b) and a == b


def keys(tier):
    for name, (f, d, alts) in CALLS.items():
        for i, _ in enumerate(contexts({k: v for k, v in alts.items() if k in d}, tier)):
            yield [name, i]


def run(ctx, key):
    name, i = key
    f, d, alts = CALLS[name]
    c = list(contexts({k: v for k, v in alts.items() if k in d}, ctx.tier))[i]
    t = ctx.tmp()
    want = flat(outcome(f, t, {**d, **c}))
    ctx.check(bool(c) or not (isinstance(want, list) and want and isinstance(want[0], str) and want[0] == "raises"), name, "with all documented defaults", want)
    names = [k for k in d if k not in c]
    for gone in subsets(names, ctx.tier, name):
        got = flat(outcome(f, t, {k: v for k, v in {**d, **c}.items() if k not in gone}))
        ctx.op()
        ctx.state(name, str(c), gone)
        ctx.check(same(got, want), name, "without", gone, "other values", c, "gives", str(got)[:200], "instead of", str(want)[:200])
        ctx.trace()
