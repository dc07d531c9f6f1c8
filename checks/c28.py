"""C28: the notebook packages are optional (explicit enumeration of environments on the freshly imported package)."""
import builtins
import contextlib
import importlib
import io
import itertools
import os
import sys
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from .common import METRICS, image, nr_kw, write_raw  # noqa: E402

RULE = ("Explicit enumeration of environments on the real code: every subset of the optional notebook packages missing (absent, or failing on import) x running inside or outside of a notebook x every module of the package imported first; in each "
        "environment the package is imported anew, all public names, all metrics, loading, exports and visualisations are compared with the complete environment, and the center selection of CNR and SNR is opened "
        "for 2D, color and 3D images with every subset of center arguments given or stored. States: (missing, notebook, module or metric, image, arguments); transitions: calls; traces: environments and selections compared.")
HIDE = {"ipywidgets": ["ipywidgets"], "IPython": ["IPython", "IPython.display"]}
SUBSETS = [(), ("ipywidgets",), ("IPython",), ("ipywidgets", "IPython")]
_own = None


def modules():
    """importable modules of the tree"""
    src = os.path.join(os.environ["VERIF_REPO"], "src")
    out = []
    for d, dirs, files in os.walk(os.path.join(src, "viqa")):
        dirs[:] = sorted(x for x in dirs if x not in ("_build", "__pycache__", "qmeasure_utils") and os.path.exists(os.path.join(d, x, "__init__.py")))
        pkg = os.path.relpath(d, src).replace(os.sep, ".")
        out += [pkg] + [pkg + "." + f[:-3] for f in sorted(files) if f.endswith(".py") and f not in ("__init__.py", "qmeasure.py")]
    return sorted(set(out))


class Broken:
    """packages that are installed but cannot be imported"""
    names = set()

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in Broken.names:
            raise ImportError("DLL load failed")


@contextlib.contextmanager
def environment(missing, notebook, first="viqa", broken=False):
    """the package imported anew; yields (package, warnings at import, what is displayed)"""
    import IPython.display
    real, shown = IPython.display.display, []
    IPython.display.display = lambda *a, **k: shown.append(len(a))
    saved = {k: v for k, v in sys.modules.items() if k == "viqa" or k.startswith("viqa.")}
    hidden = {n: sys.modules.get(n) for p in missing for n in HIDE[p]}
    for k in saved:
        del sys.modules[k]
    for n in hidden:
        if broken:
            sys.modules.pop(n, None)
        else:
            sys.modules[n] = None
    Broken.names = set(hidden) if broken else set()
    sys.meta_path.insert(0, Broken)
    if notebook:
        builtins.__IPYTHON__ = True
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            importlib.import_module(first)
            viqa = importlib.import_module("viqa")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield viqa, [str(x.message) for x in w if "mport" in str(x.message)], shown
    finally:
        sys.meta_path.remove(Broken)
        IPython.display.display = real
        if notebook:
            del builtins.__IPYTHON__
        for k in [k for k in sys.modules if k == "viqa" or k.startswith("viqa.")]:
            del sys.modules[k]
        sys.modules.update(saved)
        for n, m in hidden.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


def figures():
    out = []
    for i in plt.get_fignums():
        f = plt.figure(i)
        out.append([(len(a.images), [np.asarray(im.get_array()).tobytes() for im in a.images], len(a.lines), len(a.patches), a.get_title()) for a in f.axes])
    plt.close("all")
    return out


def observe(viqa, t):
    """what the package does without a selection"""
    out = [sorted(viqa.__all__), viqa.__version__]
    names = {}
    exec("from viqa import *", names)
    out.append(sorted(n for n in names if n != "__builtins__"))
    for m in METRICS:
        sh = METRICS[m]["shape"]
        o = getattr(viqa, m)()
        imgs = [image(sh, "u1", s) for s in (1, 2)]
        out.append((m, repr(o.score(imgs[0], **nr_kw(m, 2)) if METRICS[m].get("nr") else o.score(*imgs, **METRICS[m]["kw"]))))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            o.print_score()
        out.append(buf.getvalue())
    v = image((5, 6, 7), "u2", 3)
    p = write_raw(t, "v", v)
    out.append(np.asarray(viqa.load_data(p)).tobytes())
    out.append(np.asarray(viqa.load_data(p, data_range=255, normalize=True, roi=[(1, 4), (0, 3), (2, 6)])).tobytes())
    plt.close("all")
    viqa.visualize_2d(image((7, 8), "u1", 3))
    viqa.visualize_3d(v, (1, 2, 3))
    viqa.CNR().visualize_centers(image((12, 13), "u1", 3), (5, 6), (4, 4), 3)
    viqa.SNR().visualize_centers(image((9, 10, 11), "u1", 3), (5, 6, 4), 2, region_type="spherical")
    mm = viqa.MultipleMetrics([viqa.RMSE(), viqa.SNR()], [{}, nr_kw("SNR", 2)])
    mm.calculate(image((12, 13), "u1", 3), image((9, 11), "u1", 4))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        mm.report(file_path=t, image=True, img_r=image((12, 13), "u1", 3), img_m=image((9, 11), "u1", 4))
    out += [buf.getvalue(), repr(mm.results), sorted(os.listdir(t)), figures()]
    b = np.zeros((9, 9), bool)
    b[2:7, 1:8] = True
    out.append([np.asarray(x).tobytes() for x in viqa.utils.find_largest_region(b, iterations=1)])
    return out


def keys(tier):
    mods = modules()
    for missing, nb in itertools.product(range(4), (0, 1)):
        for m in mods:
            yield ["import", missing, nb, m, 0]
        yield ["import", missing, nb, "viqa", 1]
        for m, kind, broken in itertools.product(("CNR", "SNR"), ("2d", "color", "3d"), (0, 1)):
            yield ["select", missing, nb, m, kind, broken]


def baseline(t):
    global _own
    if _own is None:
        d = os.path.join(t, "base")
        os.makedirs(d)
        with environment((), 0) as (viqa, _, _):
            _own = observe(viqa, d)
    return _own


IMG = {"2d": (20, 21), "color": (20, 21, 3), "3d": (18, 20, 19)}


def run(ctx, key):
    missing, nb = SUBSETS[key[1]], key[2]
    t = ctx.tmp()
    if key[0] == "import":
        want = baseline(t)
        d = os.path.join(t, "env")
        os.makedirs(d)
        with environment(missing, nb, key[3], key[4]) as (viqa, warned, _):
            for n in viqa.__all__:
                ctx.check(getattr(viqa, n, None) is not None, "missing public name", n)
            got = observe(viqa, d)
            ctx.op(40)
        ctx.state(*key)
        for a, b in zip(got, want):
            ctx.check(a == b, "without", missing, "notebook", nb, "first", key[3], "different:", str(a)[:300], "complete environment:", str(b)[:300])
        ctx.check(len(got) == len(want), "observations")
        for p in HIDE:
            ctx.check(any(p in w for w in warned) == (p in missing), "warnings at import", warned, "missing", missing)
        ctx.trace()
        return
    m, kind, broken = key[3:]
    dim = 3 if kind == "3d" else 2
    img = image(IMG[kind], "u1", 5)
    cent = dict(signal_center=(8, 9, 7)[:dim], background_center=(6, 5, 9)[:dim], radius=4)
    if m == "SNR":
        del cent["background_center"]
    for given, stored, region in itertools.product((0, 1), (0, 1), (None, "cubic", "spherical")):
        with environment(missing, nb, broken=broken) as (viqa, _, shown):
            o = getattr(viqa, m)()
            if stored:
                o.parameters.update({k: (tuple(x - 1 for x in v) if isinstance(v, tuple) else v - 1) for k, v in cent.items()})
            before = dict(o.parameters)
            kw = dict(cent) if given else {}
            if region:
                kw["region_type"] = region
            plt.close("all")
            err = None
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    o.set_centers(img, **kw)
            except Exception as e:
                err = e
            figs = figures()
            ctx.op()
            ctx.state(*key, given, stored, region)
            what = (m, kind, "missing", missing, "notebook", nb, "given", given, "stored", stored, region)
            ctx.check((nb and not missing) or dict(o.parameters) == before, what, "parameters changed to", o.parameters)
            if nb and missing:
                ctx.check(isinstance(err, ImportError), what, "expected ImportError, got", repr(err))
                ctx.check(all((p in str(err)) == (p in missing) for p in HIDE), what, "message", err)
                ctx.check(not shown and not figs, what, "shown although packages are missing")
            elif nb:
                ctx.check(err is None and len(shown) == 1, what, "selection", repr(err), shown)
            else:
                # outside of a notebook the given or stored centers are only shown
                try:
                    plt.close("all")
                    ref = getattr(viqa, m)()
                    ref.parameters.update(before)
                    ref.visualize_centers(img, **kw)
                    want = figures()
                except Exception:
                    want = None
                    plt.close("all")
                if want is None:
                    ctx.check(isinstance(err, ImportError) and not shown, what, "expected ImportError, got", repr(err))
                else:
                    ctx.check(err is None and figs == want and want and not shown, what, "centers shown", repr(err), len(figs), len(want))
            ctx.trace()
