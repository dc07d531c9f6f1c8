"""C29: calls neither change process-wide settings nor depend on them (explicit enumeration of calls x ambient settings)."""
import contextlib
import gc
import hashlib
import io
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import viqa  # noqa: E402

from . import c14, c27  # noqa: E402
from .common import image, write_img, write_mhd, write_nii, write_raw  # noqa: E402

RULE = ("Explicit enumeration on the real code: every public call of the check of defaults (C27: constructors, scoring, functions, exports, reports, figures) x each alternative value of an argument x each ambient "
        "setting (random seeds, working directory, print options, numpy error handling, threads of the tensor library, a figure of the user being open, interactive mode, standard output replaced): the outcome must be that of the "
        "plain surroundings, and around every call (and every call of the check of arguments, C14, incl. rejected ones) the process-wide state is compared: random states, error handling, print options, default "
        "tensor type, gradients, threads, matplotlib settings and backend, the user's figures, warning filters, working directory, environment, locale, open files, threads, signal handlers, module search path, "
        "log levels, standard streams, and files outside of the given folders. States: (call, alternative, setting); transitions: calls; traces: comparisons.")
ASSUMPTIONS = ["new figures stay open after plotting (as pyplot does); they are not counted as process-wide state"]


def tree(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


def contents(fig):
    """what a figure of the user holds"""
    return [(a.get_title(), len(a.lines), len(a.images), len(a.patches), len(a.texts), a.get_xlim(), a.get_ylim(), a.axison) for a in fig.axes] + [fig.dpi, tuple(fig.get_size_inches()), len(fig.texts)]


def snapshot(user=None):
    st = np.random.get_state()
    return {
        "numpy random state": (st[0], st[1].tobytes()) + st[2:],
        "random state": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        "torch random state": torch.get_rng_state().numpy().tobytes(),
        "error handling": np.geterr(), "error call": np.geterrcall(),
        "print options": repr(np.get_printoptions()),
        "tensor type": torch.get_default_dtype(), "gradients": torch.is_grad_enabled(), "tensor threads": torch.get_num_threads(), "deterministic": torch.are_deterministic_algorithms_enabled(),
        "matplotlib settings": {k: repr(v) for k, v in matplotlib.rcParams.items()}, "backend": matplotlib.get_backend(), "interactive": plt.isinteractive(),
        "figure": None if user is None else (contents(user), user.number in plt.get_fignums()),
        "warning filters": list(warnings.filters), "showwarning": warnings.showwarning,
        "working directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
        "threads": sorted(t.name for t in threading.enumerate() if type(t).__name__ != "TMonitor"),
        "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)],
        "search path": list(sys.path), "log levels": (logging.root.level, len(logging.root.handlers)), "recursion limit": sys.getrecursionlimit(),
        "streams": (sys.stdout, sys.stderr, sys.stdin), "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
        "umask": umask(), "collector": gc.isenabled(),
    }


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def files():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + f))
        except OSError:
            pass
    return sorted(x for x in out if not x.startswith(("/proc/", "/usr/", "/opt/")))  # e.g. fonts kept by matplotlib


@contextlib.contextmanager
def monitored(ctx, what, places, user=None):
    opened, before, outside = files(), snapshot(user), [tree(p) for p in places]
    yield
    after = snapshot(user)
    for k in before:
        ctx.check(before[k] == after[k], what, "changes", k, "from", str(before[k])[:200], "to", str(after[k])[:200])
    ctx.check(outside == [tree(p) for p in places], what, "leaves files", [tree(p) for p in places])
    now = files()
    if now != opened:
        gc.collect()
        now = files()
    ctx.check(now == opened, what, "leaves files open", [x for x in now if x not in opened][:5])


class Ambient:
    """one setting differing from the plain surroundings"""

    def __init__(self, kind, t):
        self.kind, self.t, self.user, self.undo = kind, t, None, []

    def __enter__(self):
        k = self.kind
        for s in (0,) if k != "seed" else (12345,):
            random.seed(s)
            np.random.seed(s)
            torch.manual_seed(s)
        if k == "cwd":
            d = os.path.join(self.t, "elsewhere", "a b")
            os.makedirs(d, exist_ok=True)
            old = os.getcwd()
            os.chdir(d)
            self.undo.append(lambda: os.chdir(old))
        elif k == "print":
            old = np.get_printoptions()
            np.set_printoptions(precision=2, threshold=5, suppress=True)
            self.undo.append(lambda: np.set_printoptions(**old))
        elif k == "errors":
            old = np.seterr(all="warn")
            self.undo.append(lambda: np.seterr(**old))
        elif k == "threads":
            old = torch.get_num_threads()
            torch.set_num_threads(2)
            self.undo.append(lambda: torch.set_num_threads(old))
        elif k == "figure":
            plt.close("all")
            self.user = plt.figure("user", figsize=(3, 2), dpi=55)
            ax = self.user.subplots()
            ax.plot([0, 1], [2, 3])
            ax.set_title("mine")
            self.undo.append(lambda: plt.close("all"))
        elif k == "interactive":
            plt.ion()
            self.undo.append(plt.ioff)
        elif k == "stdout":
            old = sys.stdout
            sys.stdout = io.StringIO()
            self.undo.append(lambda: setattr(sys, "stdout", old))
        return self

    def __exit__(self, *a):
        for u in self.undo:
            u()


def calls(t):
    """further calls: every file format (complete, torn and malformed), statistics, objects fed from files"""
    v, g = image((5, 6, 7), "u2", 3), image((12, 13), "u1", 3)
    p = [write_raw(t, "v", v), write_mhd(t, "v", v), write_nii(t, "v", v), write_nii(t, "w", v, gz=True)]
    q = [write_img(t, "g", g, e) for e in (".png", ".tif", ".bmp")]
    bad = []
    for x in p + q:
        d, n = os.path.split(x)
        os.makedirs(os.path.join(d, "torn"), exist_ok=True)
        y = os.path.join(d, "torn", n)
        with open(x, "rb") as f, open(y, "wb") as h:
            b = f.read()
            h.write(b[:len(b) // 2])
        bad.append(y)
    head = os.path.join(t, "torn", "h.mhd")
    with open(head, "w") as f:
        f.write("NDims = 3\nDimSize = 5 6 7\nElementType = MET_USHORT\nElementDataFile = v.bin\n")
    with open(os.path.join(t, "torn", "v.bin"), "wb") as f:
        f.write(b"1234")
    with open(os.path.join(t, "pairs.csv"), "w") as f:
        f.write("reference_image;modified_image\n" + "g.png;g.tif\ng.bmp;g.png\n")
    for x in p + q + bad + [head, os.path.join(t, "absent.mhd"), os.path.join(t, "x.xyz"), t]:
        n = os.path.relpath(x, t)
        yield "load " + n, lambda x=x: viqa.load_data(x)
        yield "normalize " + n, lambda x=x: viqa.load_data(x, data_range=255, normalize=True)
        yield "rmse " + n, lambda x=x: viqa.RMSE().score(x, p[0] if x in p else q[0])
        yield "snr " + n, lambda x=x: viqa.SNR().score(x, signal_center=(2, 3, 3) if x in p else (6, 6), radius=2)
        yield "visualize " + n, lambda x=x: viqa.SNR().visualize_centers(x, (2, 3, 3) if x in p else (6, 6), 2, region_type="cubic")
    for a in (v, g, v / 7.0):
        yield "statistics", lambda a=a: viqa.ImageArray(a).describe()
        yield "export statistics", lambda a=a: viqa.ImageArray(a).describe(t, "stats.csv")
        yield "operations", lambda a=a: [viqa.ImageArray(a) + 1, viqa.ImageArray(a).mean(), viqa.ImageArray(a)[1:3], str(viqa.ImageArray(a))]
    yield "batch", lambda: viqa.BatchMetrics(t, os.path.join(t, "pairs.csv"), [viqa.RMSE(), viqa.SNR()], [{}, dict(signal_center=(6, 6), radius=2)]).calculate()
    yield "batch without pairs", lambda: viqa.BatchMetrics(t, os.path.join(t, "absent.csv"), [viqa.RMSE()], [{}])


KINDS = ["plain", "seed", "cwd", "print", "errors", "threads", "figure", "interactive", "stdout"]


def keys(tier):
    for name, (f, d, alts) in c27.CALLS.items():
        n = len(list(c27.contexts({k: v for k, v in alts.items() if k in d}, "quick")))
        for i in range(n):
            yield ["call", name, i]
    for kind in KINDS:
        yield ["file", kind]
    for k in c14.keys(tier):
        yield ["argument", k]


class Null:
    """the context of another check whose verdict does not matter here"""

    def __init__(self, ctx):
        self.ctx, self.tier, self.scratch = ctx, ctx.tier, ctx.scratch
        self.tmp = ctx.tmp

    def op(self, *a):
        self.ctx.op()

    def state(self, *a):
        pass

    trace = check = close = state

    def raises(self, exc, fn, msg=""):
        with contextlib.suppress(Exception):
            return fn()


def run(ctx, key):
    t = ctx.tmp()
    here, temp = os.path.join(t, "here"), os.path.join(t, "temp")
    os.makedirs(here)
    os.makedirs(temp)
    old, oldtemp = os.getcwd(), tempfile.tempdir
    os.chdir(here)
    tempfile.tempdir = temp
    try:
        if key[0] == "argument":
            ctx.state(str(key))
            with monitored(ctx, key, [here, temp]), contextlib.redirect_stdout(io.StringIO()):
                with contextlib.suppress(Exception):
                    c14.run(Null(ctx), key[1])
            ctx.trace()
            return
        if key[0] == "file":
            d = os.path.join(t, "files")
            os.makedirs(d)
            for name, fn in calls(d):
                with Ambient(key[1], t) as a, monitored(ctx, (name, key[1]), [here, temp, os.path.join(t, "elsewhere")], a.user):
                    known = plt.get_fignums()
                    with contextlib.suppress(Exception), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        fn()
                    for i in set(plt.get_fignums()) - set(known):
                        plt.close(i)
                ctx.op()
                ctx.state("file", key[1], name)
                ctx.trace()
            return
        _, name, i = key
        f, d, alts = c27.CALLS[name]
        c = list(c27.contexts({k: v for k, v in alts.items() if k in d}, "quick"))[i]
        kw = {**d, **c}
        want = None
        for kind in KINDS:
            with Ambient(kind, t) as a:
                work = os.path.join(t, kind)
                os.makedirs(work)
                with monitored(ctx, (name, c, kind), [here, temp, os.path.join(t, "elsewhere")], a.user):
                    got = c27.flat(c27.outcome(f, work, kw))
            ctx.op()
            ctx.state(name, i, kind)
            if kind == "plain":
                want = got
            ctx.check(c27.same(got, want), name, c, "with another", kind, "gives", str(got)[:200], "instead of", str(want)[:200])
            ctx.trace()
    finally:
        os.chdir(old)
        tempfile.tempdir = oldtemp
